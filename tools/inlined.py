#!/usr/bin/env python3
"""inlined.py MODULE.ll OUT   for each function of the module, the crate's functions compiled into it"""
import re, sys


def main(src, dst):
    sub, loc, scope, used = {}, {}, {}, {}
    cur = None
    for l in open(src, errors="replace"):
        if l.startswith("define "):
            m = re.search(r"@(\"[^\"]+\"|[\w.$]+)\(", l)
            cur = m[1].strip('"')
            used[cur] = set(re.findall(r"!dbg !(\d+)", l))
        elif l.startswith("}"):
            cur = None
        elif cur is not None:
            k = l.rfind("!dbg !")
            if k >= 0:
                m = re.match(r"\d+", l[k + 6:])
                used[cur].add(m[0])
        elif l.startswith("!"):
            if "!DILocation(" in l:
                m = re.match(r"!(\d+) = .*scope: !(\d+)(?:.*inlinedAt: !(\d+))?", l)
                loc[m[1]] = (m[2], m[3])
            elif "!DILexicalBlock" in l:
                m = re.match(r"!(\d+) = .*?scope: !(\d+)", l)
                scope[m[1]] = m[2]
            elif "!DISubprogram(" in l:
                m = re.match(r"!(\d+) = .*?linkageName: \"([^\"]+)\"", l)
                if m:
                    sub[m[1]] = m[2]
    with open(dst, "w") as o:
        for f, ids in used.items():
            names, seen, todo = {f}, set(), list(ids)
            while todo:
                i = todo.pop()
                if i in seen:
                    continue
                seen.add(i)
                if i in loc:
                    s, at = loc[i]
                    while s in scope:
                        s = scope[s]
                    if s in sub:
                        names.add(sub[s])
                    if at:
                        todo.append(at)
            o.write("%s\t%s\n" % (f, " ".join(sorted(n for n in names if "latex_ast" in n))))


main(*sys.argv[1:])
