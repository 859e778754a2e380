"""Command specifications used by the checks, in mitex's JSON form and as the
tables of Spec.tla (translated here, independently of mitex's own decoder)."""
import re

R = lambda p: {"kind": "right", "pattern": p}
NONE = {"kind": "none"}
FIX = lambda n: {"kind": "fixed-len", "len": n}
RNG = lambda a, b: {"kind": "range-len", "min": a, "max": b}
GREEDY = {"kind": "greedy"}
GLOB = lambda p: {"kind": "glob", "pattern": p}
LEFT = {"kind": "left1"}
INFIX = {"kind": "infix-greedy"}
CTX = {"none": "none", "math": "is-math", "matrix": "is-matrix", "cases": "is-cases",
       "figure": "is-figure", "table": "is-table", "itemize": "is-itemize", "enumerate": "is-enumerate"}


def cmd(shape, alias=None):
    return {"kind": "cmd", "args": shape, "alias": alias}


def env(pattern, ctx="none", alias=None):
    return {"kind": "env", "args": pattern, "ctx_feature": {"kind": CTX[ctx]}, "alias": alias}


# every kind of shape and context, under short names
SMALL = {
    "s": cmd(R(NONE)), "sa": cmd(R(NONE), "al"), "z": cmd(R(FIX(0))), "z*": cmd(R(FIX(0)), "zs"),
    "o": cmd(R(FIX(1))), "o*": cmd(R(FIX(1)), "os"), "f": cmd(R(FIX(2)), "fr"), "t": cmd(R(FIX(3))),
    "h": cmd(R(FIX(1)), "#hs"), "hh": cmd(R(FIX(2)), "#h2"), "g": cmd(R(GREEDY), "gr"), "gh": cmd(R(GREEDY), "#gh"),
    "q": cmd(R(GLOB("{,b}t")), "sq"), "qb": cmd(R(GLOB("{,b}")), "qb"), "qq": cmd(R(GLOB("{,b}tt")), "#qq"),
    "qp": cmd(R(GLOB("b*p")), "qp"), "qs": cmd(R(GLOB("*")), "qs"), "qc": cmd(R(GLOB("[bp]t{b,pt}t")), "qc"),
    "qn": cmd(R(GLOB("t[!b]")), "qn"), "r": cmd(R(RNG(1, 2)), "rr"), "l": cmd(LEFT, "lim"), "i": cmd(INFIX, "over"),
    "ih": cmd(INFIX, "#ih"), "lh": cmd(LEFT, "#lh"),
    "textbf": cmd(R(FIX(1)), "bold"), "textit": cmd(R(FIX(1)), "italic"), "substack": cmd(R(FIX(1)), "substack"),
    "item": cmd(R(NONE), ""), "label": cmd(R(FIX(1)), "mitexlabel"), "caption": cmd(R(FIX(1)), "cap"),
    "centering": cmd(R(NONE), ""), "includegraphics": cmd(R(GLOB("{,b}t")), "#img"),
    "color": cmd(R(GREEDY), "#mitexcolor"), "textcolor": cmd(R(GLOB("{,b}tt")), "#colortext"),
    "colorbox": cmd(R(GLOB("{,b}tt")), "#mitexcolorbox"), "hline": cmd(R(NONE), ""),
    "toprule": cmd(R(GLOB("{,b}")), "toprule"), "midrule": cmd(R(GLOB("{,b}")), "midrule"),
    "bottomrule": cmd(R(GLOB("{,b}")), "bottomrule"),
    "langle": cmd(R(NONE), "chevron.l"), "rangle": cmd(R(NONE), "chevron.r"), "|": cmd(R(NONE), "parallel"),
    "{": cmd(R(NONE), "\\{"), "}": cmd(R(NONE), "\\}"),
    ",": cmd(R(NONE), "thin"), "!": cmd(R(NONE), "neg"), "&": cmd(R(NONE), "amp"), "%": cmd(R(NONE), "pct"), "\\": cmd(R(NONE), ""),
    "m": env(NONE, "matrix", "mat"), "mb": env(NONE, "matrix"), "a": env(FIX(1), "matrix", "arr"), "c": env(NONE, "cases", "cases"),
    "al": env(NONE, "math", "aligned"), "al*": env(NONE, "math", "aligned"), "ad": env(FIX(1), "math", "alat"),
    "n": env(NONE, "none", "quote(block: true)"), "nn": env(NONE), "fig": env(GLOB("{,b}"), "figure", "figure"),
    "tab": env(FIX(1), "table", "table"), "it": env(NONE, "itemize"), "en": env(NONE, "enumerate", "en"),
    "eg": env(GLOB("{,b}t"), "math", "eg"), "er": env(RNG(0, 2), "none", "er"),
}


def shape_tla(a):
    k = a["kind"]
    if k == "left1":
        return ["left1"]
    if k == "infix-greedy":
        return ["infix"]
    return pattern_tla(a["pattern"])


def pattern_tla(p):
    k = p["kind"]
    return {"none": lambda: ["none"], "fixed-len": lambda: ["n", p["len"]],
            "range-len": lambda: ["n", p["max"]], "greedy": lambda: ["greedy"],
            "glob": lambda: ["glob", p["pattern"]]}[k]()


def table(items):
    inv = {v: k for k, v in CTX.items()}
    t = {}
    for n, i in items.items():
        if i["kind"] == "cmd":
            e = {"t": "cmd", "a": shape_tla(i["args"])}
        else:
            e = {"t": "env", "a": pattern_tla(i["args"]), "ctx": inv[i["ctx_feature"]["kind"]]}
        if i.get("alias") is not None:
            e["al"] = i["alias"]
        t[n] = e
    return t


def dump_table(items):
    """From the harness's view of a specification."""
    t = {}
    for n, i in items.items():
        a = i["a"]
        if a[0] == "fixed":
            a = ["n", a[1]]
        elif a[0] == "range":
            a = ["n", a[2]]
        e = {"t": i["t"], "a": a}
        if i["t"] == "env":
            e["ctx"] = i["ctx"]
        if i["al"]:
            e["al"] = i["al"][0]
        t[n] = e
    return t


def restrict(t, docs):
    """The part of a table whose names can occur in the documents."""
    names = set()
    for d in docs:
        for m in re.finditer(r"\\([A-Za-z@]+)(\*?)", d):
            names.update((m[1], m[1] + "*"))
        for m in re.finditer(r"[A-Za-z@]+\*?", d):
            names.add(m[0])
        names.update(m[1] for m in re.finditer(r"\\(.)", d, re.S))
    names.update(("textbf", "textit", "label", "item", ""))
    return {n: v for n, v in t.items() if n in names} or {"zzz": {"t": "cmd", "a": ["none"]}}


# the smallest specifications: an explicit one is used however little it says
SPECS = {"small": {"commands": SMALL}, "empty": {"commands": {}}, "one": {"commands": {"s": SMALL["s"]}}}
