#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide a property of /repo's current tree
check.py --replay FILE                run a recorded counterexample against the real crate
check.py --setup                      build the engine"""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
EVIDENCE = os.path.join(HERE, "evidence")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
sys.path.insert(0, HERE)
import jobs as J  # noqa: E402

# the exploration stops here: whatever is not explored by then is reported as such
TIME = {"quick": 300, "thorough": 600}
REPLAY_TIME = 20
# instructions after which a path counts as one that does not end (if the real crate does not end either)
STEPS = 400000000
ENOUGH = 24  # violations that end the search for more


class Trouble(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env(), **kw)
    if r.returncode:
        raise Trouble("%s failed:\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def build_engine(_=None):
    run([os.path.join(HERE, "build_engine.sh"), BUILD])


def forget(target):
    """makes cargo compile the crate and the harness again, whatever the times of the files say"""
    for root, dirs, _ in os.walk(target):
        for d in list(dirs):
            if d.startswith(("latex-ast-", "latex_ast-", "harness-")) and os.path.basename(root) == ".fingerprint":
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                dirs.remove(d)


def build_ir(_=None):
    forget(os.path.join(BUILD, "ir"))
    run([os.path.join(HERE, "build_ir.sh"), BUILD])


def build_native(_=None):
    forget(os.path.join(BUILD, "nat"))
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "nat")
    for args in ([], ["--profile", "replayrel"]):
        r = subprocess.run(
            ["cargo", "build", "--offline", "--locked", "--quiet", "--bin", "replay"] + args,
            cwd=os.path.join(HERE, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
        if r.returncode:
            raise Trouble("building the replay failed:\n" + r.stdout[-4000:])


class Tools:
    """builds of this run, copied so that another run cannot replace them"""

    def __init__(self, which):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="latex-ast-check-")
        t = time.time()
        with open(os.path.join(BUILD, "lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            with ThreadPoolExecutor(3) as p:
                list(p.map(lambda f: f(), which))
            for src, dst in (("symir", "symir"), ("r.ll", "r.ll"), ("r.fns", "r.fns"), ("nat/debug/replay", "dev"), ("nat/replayrel/replay", "rel")):
                s = os.path.join(BUILD, src)
                if os.path.exists(s):
                    shutil.copy(s, os.path.join(self.dir, dst))
        self.build_s = time.time() - t

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def native(self, profile, cases):
        """runs (entry, template, model) natively, gives (verdict, out, covers) each; a case that kills or
        stalls the process gets a verdict of its own"""
        out = []
        while len(out) < len(cases):
            todo = cases[len(out):]
            text = "".join("%s\t%s\t%s\n" % c for c in todo)
            p = subprocess.Popen([self.path(profile)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            try:
                got, _ = p.communicate(text, timeout=REPLAY_TIME + 0.02 * len(todo))
                stalled = False
            except subprocess.TimeoutExpired:
                p.kill()
                got, _ = p.communicate()
                stalled = True
            lines = got.split("\n")[:-1]
            for l in lines:
                v, o, c = l.split("\t")
                out.append((v, o, c))
            if len(out) < len(cases):
                out.append(("no end within %d s" % REPLAY_TIME if stalled else "crash: exit %s" % p.returncode, "", ""))
        return out


def document(template, model):
    """the document a counterexample of a parsing property stands for"""
    out, i, m, holes = bytearray(), 0, list(model), []

    def take():
        return m.pop(0) if m else 0

    while i < len(template):
        if template[i] != 0x0E:
            out.append(template[i])
            i += 1
            continue
        k = chr(template[i + 1])
        i += 2
        if k.isdigit() or k.islower():
            a, b = holes[int(k, 36)]
            out += out[a:b]
            continue
        a = len(out)
        if k == "U":
            out += bytes(take() for _ in range(take() + 1))
        elif k == "?":
            if take():
                out.append(take())
        elif k == "<":
            end = template.index(0x10, i)
            out += template[i:end].split(b"\x0f")[take()]
            i = end + 1
        else:
            out.append(take())
        holes.append((a, len(out)))
    return bytes(out).decode("utf-8", "replace")


PARSING = ("p_c01 p_c02 p_c03 p_c04 p_c05 p_c06 p_c07 p_c08 p_c09 p_c10 p_c11 p_c12 p_c13 p_c14 p_c15_parsed p_c17 p_c18 p_c19").split()


def shown(template, limit=120):
    return J.dec(bytes.fromhex(template))[:limit]


def describe(entry, template, model):
    if entry in PARSING:
        return {"document": document(template, model)}
    return {"choices": model.hex()}


def demangle(names):
    for tool in ("llvm-cxxfilt-18", "llvm-cxxfilt", "c++filt"):
        if shutil.which(tool):
            r = subprocess.run([tool], input="\n".join(names), stdout=subprocess.PIPE, text=True)
            if r.returncode == 0:
                return r.stdout.split("\n")
    return names


def functions(names, inlined):
    """the crate's functions among these, and those that were compiled into them"""
    into = {}
    for l in open(inlined):
        f, inner = l.rstrip("\n").split("\t")
        into[f] = inner.split()
    out = set()
    for n in demangle(sorted({x for n in names for x in [n] + into.get(n, [])})):
        n = re.sub(r"\[[0-9a-f]+\]", "", n)
        if re.match(r"latex_ast::|<latex_ast::|<[^<>]* as latex_ast::", n) and "drop_glue" not in n and "drop_in_place" not in n:
            out.add(n)
    return sorted(out)


def known_findings():
    out = []
    for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\S+) situation=(\d+) (.*)", l.strip())
        if m:
            out.append({"property": m[1], "cover": int(m[2]), "what": m[3]})
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    work = J.CHECKS[prop][tier]
    threads = os.cpu_count() or 4
    tools = Tools([build_engine, build_ir, build_native])
    try:
        return explore(prop, tier, seed, work, threads, tools, t0)
    finally:
        tools.close()


def explore(prop, tier, seed, work, threads, tools, t0):
    with open(tools.path("jobs"), "w") as f:
        for i, (entry, t) in enumerate(work):
            f.write("%d\t%s\t%s\n" % (i, entry, J.enc(t).hex()))
    limit = float(os.environ.get("VERIF_TIME", TIME[tier]))
    r = subprocess.run(
        [tools.path("symir"), tools.path("r.ll"), tools.path("jobs"), tools.path("out"), "--time", str(limit),
         "--threads", str(threads), "--seed", str(seed), "--viol", "3", "--samples", "6", "--every", "211",
         "--steps", str(STEPS), "--enough", str(ENOUGH)],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if r.returncode:
        raise Trouble("the engine failed: " + r.stdout[-2000:])
    res = json.load(open(tools.path("out")))
    js = res["jobs"]

    # counterexamples, replayed against the real crate
    found = [(j, v) for j in js for v in j["violations"] if not v["msg"].startswith("step bound")]
    cases = [(j["entry"], j["template"], v["model"]) for j, v in found]
    verdicts = list(zip(tools.native("dev", cases), tools.native("rel", cases)))
    # paths past the bound on steps: a violation only if the crate, optimised, does not end either
    endless = [(j, v) for j in js for v in j["violations"] if v["msg"].startswith("step bound")]
    slow = [j for j, v in endless]
    endless = sorted({j["id"]: (j, v) for j, v in endless}.values(), key=lambda x: len(x[0]["template"]))
    endless = endless[::max(1, len(endless) // 24)]
    with ThreadPoolExecutor(8) as pool:
        for x, l in zip(endless, pool.map(lambda x: tools.native("rel", [(x[0]["entry"], x[0]["template"], x[1]["model"])])[0], endless)):
            if l[0] not in ("held", "excluded", "short"):
                found.append(x)
                verdicts.append((("held", "", ""), l))
    violations, doubtful = [], []
    for (j, v), (d, l) in zip(found, verdicts):
        bad = [x for x in (("dev", d[0]), ("release", l[0])) if x[1] not in ("held", "excluded", "short")]
        template, model = bytes.fromhex(j["template"]), bytes.fromhex(v["model"])
        item = {"property": prop, "entry": j["entry"], "template": j["template"], "model": v["model"],
                "solver_says": v["msg"], "natively": dict(bad), "stack": demangle(v["stack"])[:8]}
        item.update(describe(j["entry"], template, model))
        (violations if bad else doubtful).append(item)

    # what paths observed, against the real crate
    paths = [(j, s) for j in js for s in j["samples"]]
    cases = [(j["entry"], j["template"], s["model"]) for j, s in paths]
    validated, mismatches = 0, []
    for profile in ("dev", "rel"):
        for (j, s), (v, o, c) in zip(paths, tools.native(profile, cases)):
            same = v == "held" and o == s["out"] and sorted(set(c.split(","))) == sorted(set(str(x) for x in s["covers"]) or {""})
            if same:
                validated += 1
            else:
                mismatches.append((profile, j["entry"], j["template"], s["model"], v, o, s["out"]))

    covers = {}
    for j in js:
        for k, n in j["covers"].items():
            covers[int(k)] = covers.get(int(k), 0) + n
    missing = [k for k in J.REQUIRED[prop] if not covers.get(k)]
    errors = [j for j in js if j["error"]]
    incomplete = [j for j in js if not j["complete"] and not j["violations"]] + slow

    known = []
    for k in known_findings():
        if k["property"] == prop and covers.get(k["cover"]):
            known.append(k)
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    replays = []
    shutil.rmtree(os.path.join(EVIDENCE, "replay-" + prop), ignore_errors=True)
    seen = set()
    for v in violations:
        if v["solver_says"] in seen:
            continue
        seen.add(v["solver_says"])
        os.makedirs(os.path.join(EVIDENCE, "replay-" + prop), exist_ok=True)
        p = os.path.join(EVIDENCE, "replay-" + prop, "%d.json" % len(replays))
        json.dump(v, open(p, "w"), indent=1)
        replays.append(p)

    def render(j, s):
        d = {"entry": j["entry"], "template": shown(j["template"], 400)}
        d.update(describe(j["entry"], bytes.fromhex(j["template"]), bytes.fromhex(s["model"])))
        d["observed"] = bytes.fromhex(s["out"]).decode("utf-8", "replace")
        d["path_constraints"] = s["constraints"]
        for k in d:
            if isinstance(d[k], str) and len(d[k]) > 160:
                d[k] = d[k][:160] + "..."
        return d

    step = max(1, len(paths) // 12)
    fns = functions(res["functions"], tools.path("r.fns"))
    wall = time.time() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(j["paths"] for j in js),
            "transitions": sum(j["steps"] for j in js),
            "traces_validated_against_impl": validated,
            "samples": [render(j, s) for j, s in paths[::step]][:12],
            "exhaustive": False,
            "meaning": "states: symbolic paths, each one a class of inputs decided by the solver; transitions: instructions of the "
                       "compiled crate and harness interpreted symbolically; traces: models of paths run against the real crate, "
                       "in the dev and the release profile, with the same observation",
            "jobs": len(js), "jobs_complete": sum(j["complete"] for j in js),
            "bounds": [{"entry": j["entry"],
                        "template": shown(j["template"]),
                        "complete": j["complete"], "paths": j["paths"], "deepest_path_instructions": j["max_steps"],
                        "most_path_constraints": j["max_constraints"]} for j in js],
            "not_explored_completely": [j["id"] for j in incomplete],
            "situations_reached": {J.COVERS[k]: n for k, n in sorted(covers.items())},
            "solver": {"name": "z3", "queries": res["queries"], "sat": res["sat"], "unsat": res["unsat"],
                       "unknown": res["unknown"], "answered_from_earlier_queries": res["cache_hits"], "seconds": res["solver_s"]},
            "functions_encoded": fns, "functions_encoded_count": len(fns),
            "build_s": round(tools.build_s, 1), "explore_s": res["wall_s"],
        },
        "assumptions": [
            "within the templates listed under bounds: every value of every hole, nothing outside of them",
            "memory allocation succeeds; the call depth stays within the native stack",
            "the LLVM IR of rustc (release, overflow checks on) means what the interpreter takes it to mean; the traces validated check that on samples",
        ],
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    json.dump(evidence, open(os.path.join(EVIDENCE, prop + ".json"), "w"), indent=1)

    c = evidence["coverage"]
    print("%s %s: %d jobs (%d complete), %d paths, %d queries, %d functions, %d traces validated, %.0f s" % (
        prop, tier, len(js), c["jobs_complete"], c["states"], res["queries"], len(fns), validated, wall))
    for p, v in zip(replays, sorted(violations, key=lambda v: 0)):
        v = json.load(open(p))
        what = repr(v.get("document", v.get("choices")))
        print("  %s: %s" % (v["solver_says"], what if len(what) < 400 else what[:300] + "..."))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if violations:
        return 1
    for j in errors[:5]:
        print("error: job %s %s: %s" % (j["entry"], shown(j["template"]), j["error"]))
    for d in doubtful[:5]:
        print("error: does not reproduce: %s" % json.dumps(d)[:600])
    for m in mismatches[:5]:
        print("error: the interpreter and the real crate differ: %s" % (m,))
    for k in missing:
        print("error: never reached: %s" % J.COVERS[k])
    if errors or doubtful or mismatches or missing:
        return 2
    for j in incomplete[:3]:
        print("note: not explored completely: %s %s" % (j["entry"], shown(j["template"])))
    return 0


def replay(path):
    v = json.load(open(path))
    tools = Tools([build_native])
    try:
        case = [(v["entry"], v["template"], v["model"])]
        bad = False
        for profile in ("dev", "rel"):
            verdict = tools.native(profile, case)[0][0]
            bad |= verdict not in ("held", "excluded", "short")
            print("%s: %s" % (profile, verdict))
        print(repr(v.get("document", v.get("choices"))))
        return 1 if bad else 0
    finally:
        tools.close()


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        os.makedirs(BUILD, exist_ok=True)
        build_engine()
        return 0
    if a[:1] == ["--replay"]:
        return replay(a[1])
    return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Trouble as e:
        print("error: %s" % e)
        sys.exit(2)
