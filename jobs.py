"""What each check explores: entry points of the harness, with templates.

In a template, `~K` is a symbolic hole of kind K (harness/src/gen.rs): A any ASCII character, U any Unicode
character, ? nothing or any ASCII character, W ASCII whitespace, N space or newline, L a lowercase letter,
S a character LaTeX gives a meaning (or a letter), B/O/C a bracket / opening / closing bracket,
D one of `$ a \\n \\`, the letters of ONE_OF one of those texts, 0-9 and a-z the same character as that hole. Everything else stands for itself.
"""
import re


# holes that hold one of some texts
ONE_OF = {
    # stage 1
    "G": ["{", "}", "[", "]", "\\a", "\\", " ", "\n", "x", "%y\n", "\\c(", ")"],
    # environments
    "E": ["\\begin{a}", "\\end{a}", "\\begin{b}", "\\end{b}", "{", "}", "[x]", "\n", "x", "\\c", "%y\n", "\\begin {a}[", "]"],
    # maths and paragraphs
    "M": ["$", "$$", "\\(", "\\)", "\\[", "\\]", "\n\n", "\n", "x", "{", "}", "\\begin{a}", "\\end{a}", "\\c", " ", "%y\n"],
    # sections
    "P": ["\\begin{document}", "\\end{document}", "\\documentclass[k=v]{c}", "\\documentclass{d}", "{e}", "x", "\n\n", "\n", "$",
          "{", "}", "\\begin{a}", "\\end{a}", "\\c"],
    # options
    # a line more or none
    "H": ["\n", "", "x", " ", "\n\n"],
    "J": ["", "\n"],
    "K": [",", "=", " ", "\n", "k", "{", "}", "[", "]", "\\c", "{=,}", "%y\n", "$"],
}


def enc(t):
    """the template as the harness reads it"""
    b = t.replace("~", "\x0e").encode()
    for k, v in ONE_OF.items():
        b = b.replace(b"\x0e" + k.encode(), b"\x0e<" + b"\x0f".join(x.encode() for x in v) + b"\x10")
    return b


def dec(b):
    """the template as it is written here"""
    for k, v in ONE_OF.items():
        b = b.replace(b"\x0e<" + b"\x0f".join(x.encode() for x in v) + b"\x10", b"\x0e" + k.encode())
    return b.decode("utf-8", "replace").replace("\x0e", "~")


def free(kind, n):
    return ["~" + kind * 1 if n == 1 else ("~" + kind) * n]


def upto(kind, n):
    return [("~" + kind) * i for i in range(0, n + 1)]


DOC = ("\\documentclass{a}\n\\begin{document}", "\\end{document}")


def in_doc(ts, post=""):
    return [DOC[0] + t + DOC[1] + post for t in ts]


# ---------------------------------------------------------------- stage 1

# tokens, arguments, nesting
STAGE1 = [
    "\\~A~A{~A}[~A](~A)~A",
    "\\c~W{~A~A}~W[~A]~W(~A)~W~A",
    "\\c~?~?~?{~A}~?~?{~A}",
    "\\c{~A\\~A{~A}~A}~A",
    "\\c[~A~O~A~C~A]~A",
    "~O~A~O~A~C~A~C~A",
    "~A~O~O~A~C~C",
    "\\a~O~O~A~C~C~O~A~C",
    "{~A[~A(~A)~A]~A}",
    "{\\~A~A}\\~A~A",
    "\\~A\\~A\\~A~A",
    "\\ab~A\\cd~A{\\ef~A}",
    "\\c{a}~A~A~A{b}",
    "\\c{a}\n~A~A[b]",
    "~B~B~B~B~B",
    "\\c~B~B~B~B",
    "\\c{~B~B~B}~A",
    "a~Ab\\~A c~A",
    "\\a{\\b{\\c{\\d{~A~A}~A}~A}~A}",
    "\\c{\\}}~A{\\{}~A",
    "\\c{\\~A}{~A\\~A}",
    "{a{b}~A{c}~A}",
    "(a(b)~A[c)~A]",
]

# many lines: escaped line breaks, arguments and scopes that span lines
LINES1 = [
    "~N~A\n\\c{~N~A}~N~A",
    "\\c{~A\n~A}~N[~A\n]\n~A~A",
    "\\\n~A\\\n~A",
    "{~N~A\n{~A}~N\\~A}~N~A",
    "a\n\\c\n{\n~A\n}\n(\n~A)\n\\d~A",
    "\\c{a}~N~N~N~A\\d",
    "{\n\n~A}\n{~A\n}{~A",
    "a\\~A\nb\\~A{c}",
    "\\c{\\d{\n~A}\n~A}\n\\e~A",
]

COMMENTS = [
    "~A%~A~A\n~A",
    "~A%~A\n%~A\n~A~A",
    "\\~A%~A\n~A",
    "\\c%~A\n{~A%~A\n}~A",
    "~A~A%~A~A",
    "\\%~A%~A\\~A\n~A",
    "%~A\\%~A\n~A",
    "{%~B~A\n~A}~A",
    "a%~A\r\n~A%~A",
    "\\\\%~A\n~A",
    "\\c{a}%~A\n~W{~A}",
    "%%~A%~A\n%\n~A",
]

UNICODE = [
    "\\~U~U{~U}~U",
    "\\c~U{~U}~U[~U]",
    "~U\n~U%~U\n~U",
    "{~U}(~U)\\~U",
    "é~A\\cü~A{ß~A}世~A",
    "\\c\u3000{~A}\u00a0[~A]\u2028~A",
    "\\~U~A\\~U",
    "\\~A~U\\~A",
    "~U\\~A~U",
    "~U\\~U{~A}",
]

# concrete bulk around few holes: counters, depths and lengths a short input does not reach
LARGE1 = [
    "\n" * 300 + "~A~A\\c~A{~A}",
    "{" + "\n" * 260 + "~A}\n~A~A",
    "\\c{" + "\n" * 260 + "~A}\n\\~A~A",
    "x" * 300 + "~A~A\\c" + "y" * 300 + "~A{z}",
    "{" * 24 + "~A~A" + "}" * 24 + "~A",
    "\\a{" * 16 + "~A~A" + "}" * 16 + "~A",
    "([{" * 8 + "~A~A" + "}])" * 8 + "~A",
    "\\c" + "{a}" * 20 + "~A~A",
    "\\c" + "\n[a]" * 20 + "~A~A",
    "a{b}\\c{d}\n" * 12 + "~A~A~A",
    "\\abcdefghijklmnopqrstuvwxyz~A~A{a}",
    "\\c{" + "a" * 70 + "~A" + "b" * 70 + "~A}~A",
]

# ---------------------------------------------------------------- stage 2

ENV = [
    "\\begin{~A~A}~A\\end{~A~A}",
    "\\begin{ab}~A~A~A\\end{ab}~A",
    "\\begin{a}~A\\begin{~L}~A\\end{~L}~A\\end{~L}",
    "\\begin{~L}~A\\begin{~L}\\end{~L}\\end{~L}",
    "\\begin{a}[~A]{~A}(~A)~A\\end{a}~A",
    "\\begin~W{a}~A\\end~W{a}~A",
    "\\begin~A{a}~A\\end~A{a}",
    "\\begin~O~A~C~A\\end~O~A~C",
    "\\begin{a}~A\\end{a}~O~A~C~A",
    "\\begin{a}\\end{a}~A~A~A",
    "\\begin{~?~?~?}\\end{~?~?~?}",
    "\\c{\\begin{a}~A\\end{~A}}~A",
    "{\\begin{a}~A}\\end{a}~A",
    "[\\begin{a}{\\begin{b}~A\\end{b}}~A\\end{a}]~A",
    "\\begin{a}{~A\\end{~L}}\\end{a}",
    "\\begin{a}\\begin{a}~A\\end{a}~A\\end{~L}~A",
    "\\begin{a}~A\\end{a}~A\\begin{~L}~A\\end{~L}",
    "\\begin{a{~A}}~A\\end{a{~A}}",
    "\\begin{\\~A}\\end{\\~A}~A",
    "\\begi~A{a}\\en~A{a}~A",
    "\\begin~?{a}\\end~?{a}~?",
    "\\begin{a}\\end{b}~A",
    "~A\\end{~A}",
    "~A\\begin{~A}~A",
    "\\begin{a}\\c{~A}{\\~A}\\end{a}~A",
    "\\begin{a}{\\begin{b}\\end{b}~A}[~A]~A\\end{a}",
    "\\begin{a}{\\begin{b}\\end{~L}}\\end{a}~A",
    "\\begin{a*}~A\\end{a~A}~A",
    "\\begin{a}\\begin{b}~A\\end{a}\\end{b}",
    "\\begin\\end~A{a}~A",
    "\\begin{a}%~A\n~A\\end{a}~A",
    "\\begin {a}  [b]~A\\end\t{a}~A",
]

LINES2 = [
    "~N\\begin~N{a}~N~A\\end~N{a}~N~A",
    "\\begin{a}\n[~N~A]~N{~A}\n~A\\c\n\\end{a}\n~A",
    "\\begin{a}\n\\begin{b}~N\\end{b}~N\\c~A\n\\end{a}~N\\d~A",
    "a\n\\begin{a}\n\\c{\n~A}\n\\end{~L}\n~A",
    "\n\\begin{a}\n\n\\end{~A}",
    "\n\n\\c{\n\\end{~L}~A}",
    "{\n\\begin{~L}\n~A}\n",
    "\\begin{a}{\n}{\n}\n\\begin{b}\n~A\\end{b}\n\\end~A",
    "\\begin{a}\n\\end{a}\n\n\\begin{b}\n\\end{b}{~A}",
    "\\begin\n{\n~A}\n[\n~A]~A\\c\\end\n{\n~0}\n\\d",
    "\\begin{a}\n\\begin{b}\n\\begin~A\n\\end{b}\\end{a}",
]

LARGE2 = [
    "\\begin{a}" * 12 + "~A~A" + "\\end{a}" * 12 + "~A",
    "\\begin{a}\\begin{b}" * 8 + "~A" + "\\end{b}\\end{a}" * 8 + "~A",
    "\\begin{a}\n" + "\n" * 260 + "~A\\c\\end{a}\n\\d~A",
    "\\begin{a}{" + "\n" * 260 + "~A}~A\\c\\end{a}\n\\d~A",
    "\\begin{abcdefghijklmnopqrstuvwxyzabcdefghijklmn~A}~A\\end{abcdefghijklmnopqrstuvwxyzabcdefghijklmn~A}",
    "\\begin{a}\\end{a}\n" * 16 + "~A~A",
    "{" * 12 + "\\begin{a}~A\\end{a}~A" + "}" * 12 + "~A",
    "\\begin{a}" + "{b}" * 16 + "~A~A\\end{a}~A",
    "\\begin{é~U}~U\\end{é~0}~U",
    "\\begin\u3000{a}~U\\end\u00a0{a}~U",
]

# ---------------------------------------------------------------- stage 3

MATHS = [
    "$~A~A$~A",
    "$$~A~A$$~A",
    "~A$~A$~A$~A",
    "\\[~A~A\\]~A",
    "\\(~A~A\\)~A",
    "\\~A~A\\~A~A",
    "\\[~A\\(~A\\)~A\\]",
    "\\[\\[~A\\]~A\\~A",
    "\\(\\(~A\\)~A\\)~A",
    "\\(~A$~A$~A\\)",
    "$~A\\(~A\\)~A$",
    "$$~A$~A$~A$$~A",
    "$~A\\[~A\\~A$",
    "~D~D~D~D~D~D",
    "$~D~D~D~D~D",
    "{$~A}$~A",
    "\\c{$~A~A}~A$",
    "\\c{$~A$}[\\(~A\\)]~A",
    "{\\[~A\\]}\\]~A",
    "$\\begin{a}~A$~A\\end{a}$",
    "\\begin{a}$~A$~A\\[~A\\]\\end{a}",
    "\\begin{a}$\\end{a}~A$",
    "$${~A}$\\c$$~A",
    "$a$~A$b$~A$$c$$~A",
    "\\$~A$~A\\$~A$",
    "\\(~A\\]~A\\)",
    "$\n$~A$$\n$$~A",
    "\\[{~A\\]}~A\\]",
    "\\[~A\\]\\(~A\\)~A\\]",
    "\\c$~A$ $~A$",
]

PARAS = [
    "a~W~W~W~Wb",
    "~W~W~W~W~W",
    "a\n~A\n~A\nb",
    "~A\n~A~A\n~A",
    "~N~N~N~N~N~N",
    "a~N~Nb~N~Nc~N~N",
    "\\c~N~N~Na~N~N\\d",
    "{~N~N~A~N~N}~N~N",
    "$a~N~N~A$~N~N~A",
    "\\[~N~N~A~N~N\\]~N~N~A",
    "\\begin{a}~N~N~A~N~N\\end{a}~N~N~A",
    "a\n\n~A~N~Nb",
    "\n\n\n~A\n\n~A\n\n",
    "a \n \n ~Ab",
    "a\n~W\r\n~A",
    "\\c{a~N~Nb}[~N~N~A]",
    "~W\n\\c\n~W{~A}",
    "a\n%~A\n~N~A",
    "a%~A\n\n~A",
]

PARAS_U = [
    "a\n~U\nb",
    "a\n~U~U\n",
    "~U\n\n~U",
    "\n\u3000~U\n~A",
    "\n\u0085\n~U",
]

SECTIONS = [
    "~A\\begin{document}~A~A\\end{document}~A~A",
    "~A\\documentclass{a}~A\\begin{document}~A\\end{document}~A",
    "\\begin~W{document}[~A]~A{~A}~A\\end~W{document}~A",
    "\\begin{document}~A\\begin{document}~A\\end{document}~A\\end{document}~A",
    "\\begin{document}~A\\end{document}~A\\begin{document}~A\\end{document}~A",
    "{\\begin{document}~A\\end{document}}~A",
    "\\begin{~L}~A\\begin{document}~A\\end{document}~A\\end{~L}~A",
    "\\begin{documen~A}~A\\end{documen~A}~A",
    "\\begin{a}~A\\end{a}~A\\begin{document}~A\\end{document}~A",
    "\\begin{document}\\end{document}~A\\begin{a}~A\\end{a}~A",
    "\\begin{document}~A\\end{document}$~A$~A",
    "$~A\\begin{document}$\\end{document}",
    "\\begin{document}{$~A$}~A[~A]~N~N\\end{document}\\documentclass{~A}",
    "\\begin {document}a\\end\n{document}~A~A",
    "\\c{~A}~A\\begin{document}\\d{~A}~A\\end{document}\\e{~A}",
]

LINES3 = [
    "~N\\documentclass{a}~N\\begin{document}~N~A\\end{document}~N~A",
    "a\n\\begin\n{document}\n[~N]\n~A\\c\n\\end\n{document}\n\\d~A\n\\e",
    "\\begin{document}\n~N\n~A\n\n\n\\c~A\n\\end{document}\n~N\n\\d",
    "\\begin{document}\n$~N~A$\n\\[~N\n\\c~A\\]~N\\d\n\\end{document}",
    "\\begin{document}\n\\begin{a}\n[~N]\n$$~N$$\n\\c~A\\end{a}\n\\d\\end{document}",
    "\\begin{document}{\n~A}\n{\n~A$~A}\n\\end{document}",
    "\n\\begin{document}\n\\c{\n\\~A}\n\\end{document}\n",
    "\n\\begin{document}\n~A$\n\\end{document}\n",
    "\\begin{document}\n\\end{document}\n~A\n$~A",
    "\\begin{document}\n\\end{document}\n\n~A\n\\]\n",
    "~A\n\\)\n\\begin{document}\\end{document}",
    "\\begin{document}\n$$\n\n$a\n~A$\n$$\n\\c~A\n$\\d$\\e\\end{document}",
    "a\n\n$$~N~A$$~Nb~N\n\\c",
    "\n\\(~N\\(~N\\)~N\\)~N\\c~N\\)",
    "\n\\documentclass{a}\n~A\\documentclass{~A}\n",
    "\n\\documentclass{a}\n{~A}\n",
    "\\c\n\n{~A}\n\n\n\\d\n~A\n\\e",
    "a\n~A\n\nb~N\n\n\nc\\d",
]

LARGE3 = [
    "\\begin{document}" + "\n" * 260 + "~A\\c\\end{document}\n~A\\d",
    "\n" * 260 + "$~A\n$\\begin{document}~A\\end{document}\\c\n~A",
    "a\n\n" * 40 + "~A~A~A",
    "$a$ " * 20 + "~A~A~A",
    "\\(" * 12 + "~A~A" + "\\)" * 12 + "~A",
    "\\[\\(" * 8 + "~A" + "\\)\\]" * 8 + "~A",
    "$$" + "\n" * 260 + "~A$$~A\\c",
    "\\documentclass[" + ",".join("k%d=v%d" % (i, i) for i in range(20)) + ",~A~A]{a}~A",
    "a" + "\n" * 260 + "~A~A\\c",
    "{" * 10 + "$~A$~N~N" + "}" * 10 + "~A",
    "\\begin{a}" * 6 + "$~A$~N~N~A" + "\\end{a}" * 6,
    "\\begin{document}é$~U$ü\n~U\n\\end{document}~U",
    "x" * 200 + "$" + "y" * 200 + "~A~A$" + "z" * 200 + "~A",
]

CLASS = [
    "\\documentclass[~A~A~A~A]{c}",
    "\\documentclass[~A~A]{~A~A}~A",
    "\\documentclass[a~A~A=b~A~A]{c}",
    "\\documentclass[~Wa~W=~Wb~W,~Wc~W]{d}",
    "\\documentclass[a=~A=~A,~A]{c}",
    "\\documentclass[~W~W~W,~W~W]{c}",
    "\\documentclass[a=~W~W~W,~W~W=b]{c}",
    "\\documentclass[{~A,~A}=~A]{c}",
    "\\documentclass[a={~A,~A},\\~A=~A]{c}",
    "\\documentclass[a~A]~W[b~A]~W{c}",
    "\\documentclass{a~A}[b~A]~A",
    "\\documentclass{a}{~A}~A",
    "\\documentclass{a}~A\\documentclass{~A}",
    "\\documentclass~O~A~C~A~O~A~C",
    "\\documentclass~A~A~A",
    "\\documentclas~A{a}~A",
    "\\documentclass(~A=~A){b}~A",
    "\\documentclass[~A]\\begin{document}~A\\end{document}",
    "\\begin{document}\\documentclass[~A]{~A}\\end{document}~A",
    "\\c{\\documentclass[~A]{~A}}~A",
    "\\begin{a}\\documentclass[~A]{~A}\\end{a}~A",
    "\\documentclass[a]{b}\\begin{document}~A\\end{document}\\documentclass{~A}",
    "\\documentclass[\\c{~A}=~A,[~A]]{\\d{~A}}",
    "\\documentclass[a%~A\n,~A]{b}~A",
    "\\documentclass[\\begin{a}~A,\\end{a}=b]{c}~A",
    "\\documentclass\n[\na~N=~Nb,\nc]\n{d}",
    "\\documentclass[]{~A}~A",
    "\\documentclass[,~A,]{}~A",
    "\\documentclass[a]~A\\documentclass[b]{c}~A",
    "\\documentclass[a $~A$]{b}~A",
]
CLASS_U = [
    "\\documentclass[~U~U=a]{b}",
    "\\documentclass[a=~U~U]{~U}",
    "\\documentclass[\u3000a~U=\u00a0b]{c}",
]


def deep(n):
    """nesting: whatever does its work twice at each level never ends"""
    return [
        "{" * n + "~A" + "}" * n + "~A",
        "\\a{" * n + "~A" + "}" * n + "~A",
        "\\a{b}[" * n + "~A" + "]" * n + "~A",
        "\\a" * n + "{~A" + "}~A",
    ]


def deep2(n):
    return [
        "\\begin{a}" * n + "~A" + "\\end{a}" * n + "~A",
        "\\begin{a}{" * n + "~A" + "}\\end{a}" * n + "~A",
        "\\begin{a}{\\c[" * (n // 2) + "~A" + "]}\\end{a}" * (n // 2),
    ]


def deep3(n):
    return [
        "\\(" * n + "~A" + "\\)" * n + "~A",
        "\\[\\(" * (n // 2) + "~A" + "\\)\\]" * (n // 2) + "~A",
        "\\a{$" * n + "~A" + "$}" * n,
        "\\begin{a}$$" * n + "~A" + "$$\\end{a}" * n,
        "{\\[" * n + "~A" + "\\]}" * n,
    ]


def long1(n):
    """many of everything"""
    return [
        "x" * n + "~A~A",
        "\\" + "x" * n + "~A{~A}",
        "\\c" + "{a}" * n + "~A",
        "\\c " * n + "\\~A",
        "{a}" * n + "~A",
        "\\c{" + "\\\\" * n + "~A}~A",
        "%a\n" * n + "~A",
        "\\c" + " " * n + "~A{~A}",
    ]


def long2(n):
    return [
        "\\begin{a}b\\end{a}" * (n // 4) + "~A",
        "\\begin{" + "a" * n + "}~A\\end{" + "a" * n + "}~A",
        "\\begin{a}" + "[b]" * n + "~A\\end{a}",
        "\\begin{a}" + "\\c" * n + "~A\\end{a}~A",
    ]


def long3(n):
    return [
        "a\n\n" * n + "~A",
        "$a$" * n + "~A",
        "\\[\\]" * (n // 2) + "~A",
        "a" + "\n" * n + " ~A",
        "\\begin{document}" + "a\n\n" * (n // 2) + "$b$~A\\end{document}~A",
        "\\documentclass[" + "k=v," * n + "~A]{a}",
        "\\c\n" * n + "\\begin{document}\\end{document}~A\\d",
        "\\begin{document}\\end{document}\n" + "\\c\n" * n + "~A",
    ]


def wraps(stage):
    """as many of everything as about a byte can count"""
    out = []
    for k in (255, 256, 257, 258):
        n = "\n" * k
        out += [
            "x" + n + "\\c", "\\c" + n + "{a}\n\\d", "{" + n + "}\\c{" + n + "}\\d\n", "\\c" + "{\n}" * k + "\\d", "{" * k + "\n\\c" + "}" * k + "\\d",
            "\\" + "x" * k + "{a}\\b", "\\c\n" * k + "\\d", "a%\n" * k + "\\d", "\\\\" * k + "%\n", "\\c{" + "\\{" * k + "}d", "\\c[" * k + "]" * k,
            "{a" * (k - 1) + "}" * k + "\n\\c", "\\c" + "{a}" * k + "[", " " * k + "\\c" + " " * k + "(b)", "\\c" * k + "{", "a" + "}" * k,
        ]
        if stage > 1:
            out += [
                "\\begin{a}\n\\end{a}" * k + "\\d", "\\begin{a}" + n + "\\c\\end{a}\\d", "\\begin{a}" + "[\n]" * k + "\\c\\end{a}\\d", "\\begin" + n + "{a}\\end" + n + "{a}\\d",
                "\\begin{" + "a" * k + "}\\end{" + "a" * k + "}\\d", "\\begin{a}" + "\\c\n" * k + "\\end{b}", "\\begin{a}{" + n + "}" + "{\n\\end{a}}",
                "\\begin{a}" * k + "\n" + "\\end{a}" * k + "\\d",
            ]
        if stage > 2:
            out += [
                "a" + n + "b", "a\n" + " " * k + "\nb" + n, "a\n\n" * k + "\\c", "$a$" * k + "\\c", "$$" + n + "\\c$$" + n + "$", "\\(" * k + "\n" + "\\)" * k + "b", "\\[" * k + "a" + "\\]" * k + "\\]",
                "$" + "\\c\n" * k + "$\\d", "$" * (2 * k) + "a", "$" * (2 * k + 1), "a" + " " * k + "\nb" + "\t" * k + n + " c",
                n + "\\begin{document}" + n + "\\c" + n + "\\end{document}" + n + "\\d\\]",
                "\\begin{document}" + "[\n]" * k + "\\c\n\n\\end{document}" + "a\n\nb" * k + "\\c",
                "\\c\n" * k + "\\begin{document}" + "\\d\n" * k + "$\\end{document}", "\\begin{document}\\end{document}" * k,
            ]
    return family(out)


def options(n, holes):
    """many options of a document class, and long ones"""
    c = "\\documentclass"
    out = [
        c + "[" + "k=v," * n + "~A]{a}", c + "[" + "," * n + "~A]{a}", c + "[k]" * n + "{a}[~A]", c + "[" + "k" * n + "=" + "v" * n + "~A]{a}",
        c + "[a=" + "b=" * n + "~A]{a}", c + "[ " + " " * n + "a" + " \n" * n + "=" + "\t" * n + "b " + " " * n + "~A]{a}", c + "{" + "a\n" * n + "~A}[b]",
        "\\c\n" * n + c + "\n" * n + "[a]{b}~A" + c + "{c}", c + "[" + "{" * min(n, 60) + "a,~A" + "}" * min(n, 60) + "]{b}" + "{c}" * (n % 2),
        c + "{b}" + "(c)" * n + "~A", c + "[" + "\\c{a}\n," * n + "~A]{b}",
    ]
    return out if holes else fixed(out)


# ---------------------------------------------------------------- the checks

ALL1 = STAGE1 + LINES1 + COMMENTS + UNICODE + LARGE1
ALL2 = ENV + LINES2 + LARGE2
ALL3 = MATHS + PARAS + SECTIONS + LINES3 + LARGE3


def js(entry, templates):
    return [(entry, t) for t in templates]


def more(t):
    """a skeleton with one more character at either end"""
    return ["~A" + t, t + "~A"]


def widened(ts):
    out = []
    for t in ts:
        out += more(t)
    return out


COMMENTS3 = [
    "\\begin{document}%~A\n~A\\end{document}%~A",
    "$%~A\n~A$%~A",
    "\\documentclass[a%~A\n]{b}%~A\n\\begin%~A\n{document}\\end{document}",
    "\\begin{a}%~A$\\begin{b}\n\\end{a}%~A~A",
    "a\n%~A\n\n~A%\\]",
    "\\begin{a%~A\n}\\end{a%~A\n}",
    "\\[%\\]~A\n\\]\\%~A%$\n~A",
]

# explored by the thorough tier alone
HEAVY = {
    "\\c~?~?~?{~A}~?~?{~A}",
    "\\c~W{~A~A}~W[~A]~W(~A)~W~A",
    "\\c~U{~U}~U[~U]",
    "\\begin~W{document}[~A]~A{~A}~A\\end~W{document}~A",
    "\\begin{~?~?~?}\\end{~?~?~?}",
    "\\~U~U{~U}~U",
    "~U\n~U%~U\n~U",
    "~O~A~O~A~C~A~C~A",
    "\\~A~A{~A}[~A](~A)~A",
}
# ... with these in their place
LIGHT = [
    "\\c~?~?{~A}~?{~A}",
    "\\c~W{~A}~W[~A]~A",
    "\\c~U{~U}~A[~A]",
    "\\begin~W{document}[~A]~W{a}~A\\end~W{document}~A",
    "\\begin{~?~?}\\end{~?~?}",
    "\\~U{~U}~U",
    "~U\n%~U\n~U",
    "~O~A~O~A~C~C~A",
    "\\~A~A{~A}[~A]~A",
]


def unicoded(ts, holes=99):
    """each any-ASCII hole in turn taken over all of Unicode"""
    out = []
    for t in ts:
        if t.count("~") > holes or len(t) > 400:
            continue
        i = t.find("~A")
        while i >= 0:
            out.append(t[:i] + "~U" + t[i + 2:])
            i = t.find("~A", i + 1)
    return out


TOKEN = re.compile(r"(?s)\\begin\{\w+\}|\\end\{\w+\}|\\[a-z]+|\\.|%[^\n]*\n|~[0-9a-z]|.")


def lined(ts):
    """a line down, with and without newlines in the place of each hole"""
    out = []
    for t in ts:
        if len(t) < 400 and t.count("~") <= 6 and not any("~" + k in t for k in "GEMPK"):
            out.append("x\n" + t.replace("~A", "~H").replace("~U", "~H"))
            # with or without a newline between any two tokens
            ws = TOKEN.findall(re.sub("~[A-Z?]", "", t))
            if not re.search("~.", "".join(ws)) and 1 < len(ws) <= 10:
                out.append("\n\n~J" + "~J".join(ws) + "~Jx")
    return family(out)


def family(*lists):
    out = []
    for l in lists:
        for t in l:
            if t not in out:
                out.append(t)
    return out


def light(ts):
    return [t for t in ts if t not in HEAVY]


SMALL = upto("A", 4) + upto("U", 2)


def huge(stage):
    return [HUGE1, HUGE1 + HUGE2, HUGE1 + HUGE2 + HUGE3][stage - 1]


def fixed(ts):
    """the same documents with nothing in their holes"""
    return [t.replace("~A", "") for t in ts]


def parse(entry, quick, thorough=None, a=4, u=2, ta=6, tu=3, wide=True, stage=0, uni=True):
    """jobs of a property that is about documents"""
    q = family(upto("A", a), upto("U", u), light(quick), unicoded(light(quick), 3) if uni else [], fixed(huge(stage)) + wraps(stage) if stage else [], lined(quick))
    ts = family(quick, thorough or [])
    t = family(upto("A", ta), upto("U", tu), ts, unicoded(ts), widened(ts) if wide else [], huge(stage) + wraps(stage) if stage else [])
    return {"quick": js(entry, q), "thorough": js(entry, t)}


def both(*parts):
    out = {"quick": [], "thorough": []}
    for p in parts:
        for k in out:
            out[k] += p[k]
    return out


def built(entry, quick, thorough):
    return {"quick": js(entry, quick), "thorough": js(entry, quick + thorough)}


DEEP1, DEEP2, DEEP3 = (deep(56) + long1(300), deep2(56) + long2(300), deep3(56) + long3(300))
# explored by the thorough tier: deeper, longer
HUGE1, HUGE2, HUGE3 = (deep(270) + long1(5000), deep2(130) + long2(2000), deep3(130) + long3(1500))
# more lines than fit into 16 bits
MANY = "\n" * 65540
MANY1 = [MANY + "\\c~A", "\\c{" + MANY + "}\\d~A", "{" + MANY + "\\c~A}\\d"]
MANY2 = ["\\begin{a}{" + MANY + "}\\c~A\\end{a}\n\\d", "\\begin{a}" + MANY + "\\c~A\\end{a}\n\\d"]
MANY3 = [
    "\\begin{document}" + MANY + "\\c$~A$\\end{document}\n\\d", "$" + MANY + "\\c$\\d~A\\]",
    "\\begin{document}\\end{document}" + MANY + "\\c\\(~A\\)\\d",
]


def named(n):
    """whatever the name of an environment or a command is: (name, the same name again)"""
    return "~L" * n, "".join("~" + "0123456789abcdefghijklmnopqrstuvwxyz"[i] for i in range(n))


NAMES1, NAMES2, NAMES3, NAMES_K = [], [], [], []
for _n in range(2, 17):
    _a, _b = named(_n)
    NAMES_K += ["\\documentclass[" + _a + "=" + _b + ",~A]{" + _b + "}", "\\documentclass[a, " + _a + "]{c}[~A]"]
    NAMES1 += ["\\" + _a + "%x\n{a}~A", "\\" + _a + "*[a]{b}~A"]
    NAMES2 += ["\\begin{" + _a + "}%x\n\\c{~A\n}\n\\end{" + _b + "}\n\\d", "\\begin{" + _a + "*}[b]~A\\end{" + _b + "*}\\c{}"]
    NAMES3 += [
        "\\begin{" + _a + "}%x\n$a$\n\n~A\\end{" + _b + "}\n\\d",
        "\\begin{document}\\" + _a + "{$a$}[b\n\nc]~A$d$\n\n\\end{document}",
        "\\" + _a + "[a=b]{$c$\n\n}~A\\begin{document}\\begin{" + _b + "*}$~A$\n\n\\end{" + _b + "*}\\end{document}",
    ]

# every sequence of tokens
TOKENS1 = ["~G~G~G~G~G", "~G~A~G~A~G", "\\c{~G~G~G}~G", "{~G~G~G}~G", "\\c{x}~G~G{y}~G"]
TOKENS2 = [
    "~E~E~E~E", "~E~A~E~A~E", "\\begin{a}~E~E~E\\end{a}~E", "{~E~E~E}~E", "\\c{~E~E~E}[~E]",
    "\\begin{b}{~E~E}~E\\end{b}", "\\begin{a}\n~E~E\n\\end{a}\n~E", "\\begin{a}\\begin{b}~E~E~E\\end{b}",
]
TOKENS3 = [
    "~M~M~M~M", "~M~A~M~A", "\\begin{document}~M~M~M\\end{document}~M", "$~M~M~M$~M", "\\c{~M~M~M}[~M]", "\\(~M~M~M\\)",
    "\\begin{a}~M~M~M\\end{a}", "{~M~M}~M~M", "\\[~M~M\\]~M\n~A", "x\n\n~M~M~M", "$$~M~M$$\n~M", "\\begin{a}{~M~M}~M\\end{a}~M",
]
TOKENS_P = [
    "~P~P~P~P", "~P~A~P~A~P", "\\begin{document}~P~P\\end{document}~P", "\\documentclass~P~P~P", "\\documentclass[a,b]{c}~P~P~P",
    "~P\\begin{document}~P~A\\end{document}~P", "~P\n\\begin{document}\n~P\n\\end{document}\n~P~P",
]
TOKENS_K = ["\\documentclass[~K~K~K]{x}~A", "\\documentclass[a~K~K~Kb]{c}", "\\documentclass[~K~A~K~A]{c}", "\\documentclass[k=~K~K,~K]{c}"]
MORE1 = ["~G~G~G~G~G~G", "\\c{~G~G~G~G}~G", "{~G~A~G~A}~G"]
MORE2 = ["~E~E~E~E~E", "\\begin{a}~E~E~E~E\\end{a}", "\\begin{a}{~E~E~E}~E\\end{a}~E"]
MORE3 = ["~M~M~M~M~M", "\\begin{document}~M~M~M~M\\end{document}", "$~M~M~M~M", "\\(~M~M~M~M"]
MORE_P = ["~P~P~P~P~P", "\\begin{document}~P~P~P\\end{document}~P"]
MORE_K = ["\\documentclass[~K~K~K~K]{x}", "\\documentclass[~K~K~K~K~K]{x}"]
TOKENS_SLOW = TOKENS1[:1] + TOKENS2[:2] + TOKENS3[:2] + TOKENS_P[:2]
L1 = LIGHT[:3] + LIGHT[5:]
S1 = family(STAGE1, LINES1, COMMENTS, UNICODE, LARGE1, DEEP1, L1, TOKENS1, NAMES1)
S2 = family(ENV, LINES2, LARGE2, DEEP2, [LIGHT[4]], TOKENS2, NAMES2)
S3 = family(MATHS, PARAS, SECTIONS, LINES3, LARGE3, DEEP3, [LIGHT[3]], TOKENS3, TOKENS_P, NAMES3)

CHECKS = {
    "C01": parse("p_c01", S1, MORE1, a=5, ta=7, stage=1),
    "C02": parse("p_c02", family([t for t in family(S1, S2, S3, CLASS) if t not in TOKENS_SLOW], ["~G~G~G~G"]),
                 family(PARAS_U, CLASS_U, TOKENS_SLOW), ta=5, wide=False, stage=3, uni=False),
    "C03": parse("p_c03", S1 + MANY1, MORE1, a=5, ta=7, stage=1),
    "C04": parse("p_c04", S1, MORE1, a=5, ta=7, stage=1),
    "C05": parse("p_c05", family(S2, COMMENTS, LINES1), family(S1, MORE2), stage=2),
    "C06": both(
        parse("p_c06", family(S2, COMMENTS, LINES1), family(S1, MORE2), stage=2),
        built("p_c06_built", ["2222A2", "2312A1", "2212A1x", "2222A2l"], ["2322A2", "2233A3", "2412A1", "2223A2x"]),
    ),
    "C07": parse("p_c07", S2, family(S1, COMMENTS3, MORE2), stage=2),
    "C08": parse("p_c08", family(S2, LINES1, MANY2), family(S1, MORE2), stage=2),
    "C09": parse("p_c09", family(S3, CLASS, COMMENTS3, NAMES_K, options(300, 0)), family(PARAS_U, CLASS_U, S2, MORE3, MORE_P, MORE_K), stage=3),
    "C10": both(
        parse("p_c10", family(S3, CLASS), family(PARAS_U, CLASS_U, S2, COMMENTS3, MORE3, MORE_P), stage=3),
        built("p_c10_built", ["3212A1", "3111A1x", "3222A2l"], ["3222A2", "3312A1", "3212A1x"]),
    ),
    "C11": both(
        parse("p_c11", family(MATHS, in_doc(MATHS), LARGE3, DEEP3, TOKENS3, NAMES3), family(S2, PARAS, MORE3), stage=3),
        built("p_c11_built", ["2312A1", "2323A2", "2212A1x", "2322A2l"], ["2412A1", "2421A1", "2223A2x"]),
    ),
    "C12": both(
        parse("p_c12", family(PARAS, PARAS_U, in_doc(PARAS), LARGE3, DEEP3, TOKENS3[:4], NAMES3), family(MATHS, in_doc(PARAS_U), TOKENS3, MORE3), stage=3),
        built("p_c12_built", ["3222A2", "3323A2", "3112A2x", "3222A2l"], ["3412A1", "3223A2x"]),
    ),
    "C13": parse("p_c13", family(CLASS, CLASS_U, TOKENS_K, TOKENS_P, NAMES_K, NAMES3, options(40, 1), [t for k in (255, 256, 257, 300, 1000) for t in options(k, 0)]), family(options(300, 1), SECTIONS, LARGE3, MORE_K, MORE_P)),
    "C14": both(
        parse("p_c14", family(MANY1, MANY2, MANY3, LINES1, LINES2, LINES3, LARGE1, LARGE2, LARGE3, DEEP1, DEEP2, DEEP3, SECTIONS, TOKENS2, TOKENS3, NAMES2, NAMES3), family(S1, S2, S3, CLASS, MORE3), wide=False, stage=3),
        built("p_c14_built", ["1222A2", "2222A2", "3222A2", "1212A1x", "2112A2x", "3112A2x", "1222A2l", "2222A2l", "3222A2l"], ["1323A2", "2323A2", "3323A2", "2212A1x", "3212A1x"]),
        built("p_c14_document", ["3222A2", "3112A2x", "3222A2l"], ["3323A2", "3212A1x"]),
    ),
    "C15": both(
        built("p_c15", ["1222A2", "2222A2", "3212A2", "3212U1", "1112A1x", "2112A1x", "3112A1x", "1222A2l", "2222A2l", "3222A2l"], ["1323A3", "2323A2", "3222A3", "3222U2", "1212A1x", "2212A1x", "3212A1x"]),
        built("p_c15_parts", ["1223A3", "2223A3", "3223A3", "3212U2", "1212A1x", "2212A1x", "3112A2x", "1222A2l", "2222A2l", "3222A2l"], ["1323A3", "2323A3", "3323A3", "3222U2", "3212A1x"]),
        parse("p_c15_parsed", family(LINES1, LINES2, LINES3, PARAS, MATHS), family(S1, S2, S3), wide=False),
    ),
    "C16": both(
        built("p_c16", ["1212A1", "2212A1", "3111A2", "3201A1", "1111A1x", "2111A1x", "3101A1x", "1212A1l", "2212A2l", "3101A2l"], ["3212A1", "1222A2", "2222A2", "3112A3", "3111A1x", "2212A1x"]),
        built("p_c16_into", ["2312A1", "2323A2", "2112A1x", "2322A2l"], ["2412A1", "2421A1", "2212A1x"]),
        built("p_c16_valid", ["1222A2", "2222A2", "3212A2", "1313A1s", "2313A1s", "3303A1s", "1222A2l", "2222A2l", "3222A2l"],
              ["1323A2", "2323A2", "3302A1", "3322A2s", "3404A1s"]),
    ),
    "C17": parse("p_c17", family(LINES3, MANY3, MATHS, PARAS, SECTIONS, LARGE3, DEEP3, TOKENS3, TOKENS_P, NAMES3), family(MORE3, MORE_P, in_doc(MATHS), in_doc(PARAS), S2, CLASS, PARAS_U), stage=3),
    "C18": parse("p_c18", family(SECTIONS, LINES3, [LIGHT[3]], CLASS[17:20], TOKENS_P, NAMES3), family(S3, CLASS, MORE_P), stage=3),
    "C19": parse("p_c19", family(COMMENTS, COMMENTS3, TOKENS1[:2], TOKENS2[:2], TOKENS3[:2], TOKENS_P[:2], NAMES1, NAMES3), family(S1, S2, S3), a=5, stage=3),
    "C20": {"quick": [("p_c20", "")], "thorough": [("p_c20", "")]},
    "C21": built("p_c21", ["1222A2", "2222A2", "3222A2", "3212U1", "1212A1x", "2112A2x", "3112A2x", "1222A2l", "2222A2l", "3222A2l"], ["1323A2", "2323A2", "3323A2", "3222U2", "2212A1x", "3212A1x"]),
    "C22": built("p_c22", ["1312A1", "1323A2", "1221U1", "2312A1", "2323A2", "2221U1", "1212A1x", "2212A1x", "1312A2l", "2312A2l"], ["1412A1", "1421A1", "1422A2", "2412A1", "2421A1", "1312A1x", "2223A2x"]),
    "C23": built("p_c23", ["2312A1", "2323A2", "3312A1", "3323A2", "2112A1x", "2212A1x", "3212A1x", "2322A2l", "3222A2l"], ["2412A1", "2421A1", "2422A2", "3412A1", "3421A1", "3223A2x"]),
}

# situations every run has to reach (harness/src/parsing.rs: cov), or it decided nothing
COVERS = {
    1: "accepted", 2: "rejected", 3: "several lines", 4: "no document environment", 5: "comment", 6: "environment",
    7: "maths block", 8: "paragraph break", 9: "document environment", 10: "document class", 11: "class option",
    12: "trailing section", 13: "environment error", 14: "maths error", 15: "document class error",
}
REQUIRED = {
    "C01": [1], "C02": [1, 2], "C03": [1, 2], "C04": [1, 2], "C05": [1, 6], "C06": [1, 6], "C07": [1, 2, 6, 13],
    "C08": [1, 2, 6, 13], "C09": [1, 4, 9], "C10": [1, 4, 9], "C11": [1, 2, 7, 14], "C12": [1, 8],
    "C13": [1, 2, 10, 11, 15], "C14": [1, 3], "C15": [1, 2], "C16": [1, 2], "C17": [1, 2, 7, 8, 9, 12],
    "C18": [1, 2, 9, 12], "C19": [1, 5], "C20": [1, 2], "C21": [1],
    "C22": [1, 2], "C23": [1],
}
