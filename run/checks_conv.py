"""C14 C15 C16 C17: conversion."""
import random
from check import *

MODES = ["text", "math"]
RUNINV = ("C20_ErrorsFail", "C14_Balanced")
FINE = ("C14_ModeRestored", "C16_EnvRestored", "C17_IndentRestored")
FINEP = ("C15_AppendOnly",)


def fine(chk, p, docs, obs=("text", "math"), sp="small"):
    """every single step of the converter, with the invariants on its state"""
    p.file("steps", docs, list(obs), sp=sp, grain="fine", invariants=FINE, properties=FINEP, timeout=850)


# ---------------------------------------------------------------------------
@check("C14")
def c14(chk, p):
    marks = ["$", "$$", "\\(", "\\)", "\\[", "\\]", "a", "{", "}"]
    p.enum("marks", [marks] * chk.pick(4, 5), MODES, minlen=1, invariants=RUNINV, timeout=850)
    # formulas in everything and everything in formulas
    openers = [("", ""), ("{", "}"), ("\\o{", "}"), ("\\h{", "}"), ("\\hh{u}{", "}"), ("\\textbf{", "}"), ("\\q[", "]{k}"), ("\\begin{m}", "\\end{m}"), ("\\begin{c}u&", "\\end{c}"), ("\\begin{al}", "\\\\v\\end{al}"),
               ("\\begin{ad}{1}", "\\end{ad}"), ("\\begin{n}", "\\end{n}"), ("\\begin{it}\\item ", "\\end{it}"), ("\\begin{fig}\\caption{", "}\\end{fig}"), ("\\begin{fig}", "\\end{fig}"),
               ("\\begin{tab}{c}", "&v\\end{tab}"), ("x^{", "}"), ("x_", ""), ("\\left(", "\\right)"), ("u\\i ", ""), ("\\gh ", ""), ("\\color{red}", ""), ("\\textcolor{red}{", "}"), ("\\colorbox[x]{", "}{y}"),
               ("(", ")"), ("\\iftrue ", "\\fi "), ("\\substack{", "\\\\v}"), ("\\sa ", "\\label{l}")]
    formulas = [("$", "$"), ("$$", "$$"), ("\\(", "\\)"), ("\\[", "\\]"), ("\\begin{m}", "\\end{m}"), ("$", "\\)"), ("\\[", "$$"), ("\\(", "\\]"), ("$", ""), ("", "\\]"), ("$$", "$")]
    docs = []
    for a, b in openers:
        for f, g in formulas:
            for inner in ("w", "w,1", "\\h{p}q", "\\begin{al}k\\end{al}l", "\\textbf{b}c"):
                docs.append("t1 " + a + f + inner + g + b + " t2")
                docs.append("t1 " + f + "i" + a + inner + b + "j" + g + " t2")
    r = random.Random(chk.seed)
    for _ in range(chk.pick(1500, 15000)):
        xs, stack = [], []
        for _ in range(r.randint(1, 5)):
            o = r.choice(openers + formulas[:5] * 4)
            xs += [r.choice(["w ", "x1", "", "$y$"]), o[0]]
            stack.append(o[1])
            if r.random() < 0.4:
                xs += [r.choice(["z", " ", ""]), stack.pop()]
        for c in reversed(stack):
            xs += [r.choice(["", "v "]), c]
        if r.random() < 0.1 and xs:
            del xs[r.randrange(len(xs))]
        docs.append(gen.join(xs + [" t3"]))
    p.file("nested", docs, MODES, invariants=RUNINV)
    p.file("random", rnd(chk, chk.pick(500, 6000)), MODES, invariants=RUNINV)
    p.file("random-default", rnd(chk, chk.pick(400, 4000), sp="default"), MODES, sp="default")
    fine(chk, p, docs[:: chk.pick(60, 8)])
    return {}


# ---------------------------------------------------------------------------
@check("C15")
def c15(chk, p):
    # every mark and every kind of content, up to three in a row
    L = ["a", "b1", "é中", " ", "\n", ",", "/", "#", "*", "@", "\"", ";", "(", ")", "[", "]", "^", "_", "~", "'", "{", "}", "\\s ", "\\sa ", "\\o", "\\h", "{}", "{ }", "\\\\", "&", "$", "%c\n", "-", "\\zzz "]
    p.enum("triples", [L] * 3, MODES, minlen=1, invariants=RUNINV, timeout=850)
    core = ["a", "#", "*", "_", "{", "}", "~", "\\h", " ", "\\\\", ";"]
    p.enum("deep", [core] * chk.pick(4, 5), MODES, minlen=4, invariants=RUNINV, timeout=850)
    # in front of, behind, and in every argument of every kind of command
    cmds = ["\\s", "\\sa", "\\z", "\\z*", "\\o", "\\o*", "\\f", "\\h", "\\hh", "\\t", "\\g", "\\gh", "\\q", "\\qb", "\\qq", "\\r", "\\l", "\\lh", "\\i", "\\ih", "\\textbf", "\\textit", "\\substack", "\\,", "\\%",
            "\\&", "\\{", "\\|", "\\langle"]
    args = ["", "{a,b}", "{#}", "x", " ;", "[o*]", "[]{}", "{}{u}", "{v}[w]", "{$m$}{n}{p}", "(q)", "~", "{a b\nc}", "{\\h{d}}{\\o e}", "\n", "'", "_1^2", "\\s", "{\\\\}", "{&}", "{%c\n}", "{{}}"]
    docs = []
    for c in cmds:
        for a in args:
            for w in ("%s", "$%s$", "{%s}", "\\o{%s}", "\\h{%s}", "$\\h{k%sl}$", "x%sy"):
                docs.append(w.replace("%s", c + a))
    p.file("commands", shuffled(chk, docs, chk.pick(3000, 99999)), MODES, invariants=RUNINV)
    # words and marks of Unicode
    r = random.Random(chk.seed)
    pool = ["é", "中文", "a", "Z", "9", "Ω", "٣", "ﬁ", "\u0301", "—", "…", "«", "𝑥"[:0] or "ξ", "\u00ad", "\u200d", "\u2028", "\u3000", "\u00a0", "\u0085"] + list(",/#*@\";()[]^_~'-+.:!?|")
    docs = ["".join(r.choice(pool) for _ in range(r.randint(1, 15))) for _ in range(chk.pick(1200, 12000))]
    docs = [x for x in docs if not x.startswith("]") and not x.startswith(")")] + ["\\o{%s}" % x for x in docs[:300]] + ["$%s$" % x for x in docs[:400]]
    p.file("unicode", docs, MODES, invariants=RUNINV)
    p.file("random", rnd(chk, chk.pick(700, 9000), damage=0.05), MODES, invariants=RUNINV)
    p.file("random-default", rnd(chk, chk.pick(500, 5000), sp="default", damage=0.05), MODES, sp="default", invariants=RUNINV)
    # every built-in name in both modes
    dn = p.default_table()
    docs = []
    for n in sorted(dn):
        if dn[n]["t"] == "cmd":
            docs += ["\\" + n + " {a}{b}c", "{u\\" + n + " x1}y"]
    p.file("names", shuffled(chk, docs, chk.pick(1500, 99999)), MODES, sp="default", invariants=RUNINV)
    fine(chk, p, rnd(chk, chk.pick(60, 600), damage=0, depth=2))
    return {}


# ---------------------------------------------------------------------------
@check("C16")
def c16(chk, p):
    opens = ["\\begin{m}", "\\begin{mb}", "\\begin{a}{q}", "\\begin{c}", "\\begin{al}", "\\begin{ad}{q}", "\\begin{al*}", "\\begin{eg}[o]{q}"]
    ends = {o: "\\end{" + o[7:].split("}")[0] + "}" for o in opens}
    L = ["&", "\\\\", "x", "{", "}", " ", "\\o{", "\\begin{m}", "\\end{m}"]
    p.enum("bodies", [opens] + [L] * chk.pick(3, 4), MODES, minlen=2, posts={o: e + "k&l\\\\" for o, e in ends.items()}, invariants=RUNINV, timeout=850)
    # one environment in another, in every place
    inner = ["\\begin{m}a&b\\\\c\\end{m}", "\\begin{c}a&b\\\\c\\end{c}", "\\begin{al}a&b\\\\c\\end{al}", "\\begin{a}{x}a&\\end{a}", "\\begin{ad}{x\\\\y&}a\\\\\\end{ad}", "\\substack{a\\\\b&c}", "{a\\\\b&c}", "\\o{a\\\\b&}",
             "\\h{a\\\\b}", "\\h{$a\\\\b$}", "\\textbf{a&b}", "\\left(a&b\\\\c\\right)", "x_{a\\\\b}", "\\color{r}a&b", "\\textcolor{r}{a\\\\b}", "$a&b$", "\\begin{n}a&b\\\\c\\end{n}", "\\g a&b\\\\", "a\\i b&c",
             "\\begin{tab}{c}a&b\\\\c\\end{tab}", "\\begin{fig}a&b\\\\\\end{fig}", "\\begin{it}\\item a&b\\\\\\end{it}", "(a&b)", "\\iftrue a&b\\else c\\fi", "\\qs[a&b]{c\\\\d}", "{{a\\\\b}\\\\c}"]
    places = [("\\begin{m}u&", "&v\\\\w\\end{m}"), ("\\begin{c}u\\\\", "\\\\v\\end{c}"), ("\\begin{al}", "&v\\\\\\end{al}"), ("\\begin{a}{", "}&v\\\\\\end{a}"), ("\\begin{ad}{q}u{", "}\\\\v\\end{ad}"), ("{", "\\\\}&"),
              ("", "&\\\\"), ("\\substack{u\\\\", "\\\\v}"), ("\\begin{m}\\o{", "\\\\}\\\\v\\end{m}"), ("\\begin{m}\\begin{c}", "\\\\\\end{c}\\\\v\\end{m}"), ("\\left(", "\\\\\\right)"), ("$", "\\\\$&"), ("\\h{", "}\\\\"),
              ("\\begin{it}\\item ", "\\end{it}"), ("\\begin{tab}{cc}", "&v\\\\\\end{tab}"), ("\\begin{fig}", "\\end{fig}\\\\&")]
    docs = [a + x + b + t for a, b in places for x in inner for t in ("", "z\\\\&")]
    docs += [a + a2 + x + b2 + b for a, b in places for a2, b2 in shuffled(chk, places, 5) for x in shuffled(chk, inner, chk.pick(6, 26))]
    p.file("places", shuffled(chk, docs, chk.pick(2200, 99999)), MODES, invariants=RUNINV)
    f = ("words", "space", "line", "menv", "group", "formula", "glob", "cmd", "script", "lr", "style", "infix", "comment", "label")
    p.file("random", rnd(chk, chk.pick(900, 9000), feats=f, damage=0.1), MODES, invariants=RUNINV)
    p.file("random-default", rnd(chk, chk.pick(500, 5000), sp="default", feats=f, damage=0.05), MODES, sp="default", invariants=RUNINV)
    # all built-in environments
    dn = p.default_table()
    docs = []
    for n in sorted(dn):
        if dn[n]["t"] == "env":
            for args in ("", "{cc}", "[t]{2}", "{ r|l }"):
                for body in ("a&b\\\\c&d", "x", "", "\\begin{pmatrix}a&b\\\\c\\end{pmatrix}&", "{a\\\\b}\\\\", "\\hline a & b \\\\ \\hline", "\\item x \\item y"):
                    docs += [w.replace("%s", "\\begin{%s}%s%s\\end{%s}" % (n, args, body, n)) for w in ("%s", "t $%s$ &")]
    p.file("environments", shuffled(chk, docs, chk.pick(2500, 99999)), MODES, sp="default", invariants=RUNINV)
    fine(chk, p, shuffled(chk, [a + x + b for a, b in places for x in inner], chk.pick(50, 400), 1))
    return {}


# ---------------------------------------------------------------------------
@check("C17")
def c17(chk, p):
    obs = ["text"]
    it = ["\\begin{it}", "\\end{it}", "\\begin{en}", "\\end{en}", "\\item", "\\item ", "x", "\n", "{", "}"]
    p.enum("lists", [["\\begin{it}", "\\begin{en}", "a\n\\begin{it}\n  "]] + [it] * chk.pick(4, 5), obs, minlen=3, post="\\end{it}\nz", invariants=RUNINV, timeout=850)
    r = random.Random(chk.seed)

    def lst(d):
        e = r.choice(["it", "en"])
        out = "\\begin{%s}" % e + r.choice(["", "\n", " ", "\n  ", "%c\n"])
        for _ in range(r.randint(0, 3)):
            out += "\\item" + r.choice([" ", "\n", "{}", "[k] ", " "])
            for _ in range(r.randint(0, 3)):
                k = r.random()
                out += lst(d - 1) if d and k < 0.3 else r.choice(["a b", "\n", "\n\n", " ", "$x$", "{y\nz}", "\\label{l}", "\\textbf{q\nr}", "\\begin{n}s\nt\\end{n}", "\\begin{m}u&v\\end{m}", "%c\n", "\\\\", "&",
                                                          "\\begin{fig}v\n\\caption{w}\\end{fig}", "\\begin{tab}{c}1&2\\\\3\\end{tab}", "\\h{i\nj}"])
        if r.random() < 0.05:
            return out
        return out + "\\end{%s}" % e + r.choice(["", "\n", " k\n l"])
    docs = [r.choice(["", "t\n", "\\begin{n}"[:0]]) + lst(r.randint(1, 4)) + r.choice(["z", "\nz", "\\item z"][: 2 if r.random() < 0.9 else 3]) for _ in range(chk.pick(1000, 10000))]
    p.file("nested-lists", docs, MODES, invariants=RUNINV)
    # tables
    tb = ["&", "\\\\", "a", " ", "\\hline", "\\toprule ", "%c\n", "{", "}", "\\midrule[x]"]
    p.enum("tables", [["\\begin{tab}{lc}", "\\begin{tab}{|c|r|}"]] + [tb] * chk.pick(4, 5), obs, minlen=3, post="\\end{tab}z", invariants=RUNINV, timeout=850)
    cl = ["l", "c", "r", "|", " ", "x", "", "%c\n", "p"]
    p.enum("columns", [["\\begin{tab}{"]] + [cl] * chk.pick(4, 5), obs, post="}a&b\\\\\\end{tab}", invariants=RUNINV, timeout=850)
    # every character of a keyboard, and what LaTeX knows, as a column type
    ty = [chr(i) for i in range(33, 127) if chr(i) not in "\\%"] + ["@{}", "p{2cm}", "m{1em}", "*{2}{c}", ">{x}", "!{|}", "||", "X", "S", "\t", "\n", "\\tabcolsep", "é", "\xa0", "L", "\u2028"]
    p.file("column-types", ["\\begin{tab}{%s}a&b\\\\c\\end{tab}" % (t if k == 0 else "l" + t + "r" if k == 1 else "c|" + t) for t in ty for k in range(3)] +
           ["\\begin{tabular}{l%sr}a&b\\\\c\\end{tabular}" % t for t in ty], MODES, invariants=RUNINV)
    # figures, captions, images and labels in every order
    fg = ["\\caption{A b}", "\\caption{$c$\\label{l1}}", "\\includegraphics{i.png}", "\\includegraphics[width=2cm]{j}", "\\centering ", "\\label{l2}", "w", "\n", "\\caption", "\\begin{tab}{c}k\\\\\\end{tab}", "{\\label{l3}}"]
    p.enum("figures", [["\\begin{fig}", "\\begin{fig}[ht]\n", "\\begin{it}\\item \\begin{fig}"]] + [fg] * chk.pick(3, 4), obs, minlen=1, post="\\end{fig}v", invariants=RUNINV, timeout=850)
    hosts = [("", ""), ("{", "}"), ("\\begin{fig}", "\\end{fig}"), ("\\begin{al}", "\\end{al}"), ("\\begin{m}", "\\end{m}"), ("\\begin{c}", "\\end{c}"), ("\\begin{tab}{c}", "\\end{tab}"), ("\\begin{n}", "\\end{n}"),
             ("\\begin{it}\\item ", "\\end{it}"), ("$", "$"), ("\\o{", "}"), ("\\h{", "}"), ("\\textbf{", "}"), ("\\caption{", "}"), ("\\begin{en}\\item ", "\\end{en}")]
    docs = []
    for a, b in hosts:
        for c, d in hosts:
            for lab in ("\\label{eq:1}", "\\label{ a b }", "\\label{x_1%c\ny}", "\\label{}"):
                docs += [a + "u" + c + "v" + lab + "w" + d + "x" + b + "y", a + lab + c + "k" + d + b]
    p.file("labels", shuffled(chk, docs, chk.pick(1500, 99999)), MODES, invariants=RUNINV)
    opt = ["width", "=", "0.5", "\\textwidth", "height", ",", " ", "scale=2", "\\textheight", "x", "[", "%c\n"]
    p.enum("images", [["\\includegraphics[", "\\begin{fig}\\includegraphics["]] + [opt] * chk.pick(3, 4), ["text"], minlen=1, post="]{ f.png }z", timeout=850)
    vals = ["0.5\\textwidth", ".5\\textheight", "\\textwidth", "\\textheight", "2cm", "", "1\\linewidth", "0.5\\textwidth\\textwidth", "a=b", " 3pt ", "0.5 \\textheight", "{4em}"]
    docs = ["\\includegraphics[%s%s%s]{f.png}z" % (k, e, v) for k in ("width", "height", "scale", " width ") for e in ("=", " = ", "") for v in vals]
    docs += ["\\includegraphics[width=%s,%sheight=%s%s]{f.png}z" % (v, s, w, t) for v in vals for w in vals for s, t in (("", ""), (" ", ",angle=45"))]
    p.file("image-options", docs, ["text"], invariants=RUNINV)
    f = ("words", "space", "line", "comment", "formula", "list", "table", "figure", "label", "image", "menv", "tenv", "group", "style")
    p.file("random", rnd(chk, chk.pick(700, 9000), feats=f, math=0.05, damage=0.1), MODES, invariants=RUNINV)
    p.file("random-default", rnd(chk, chk.pick(400, 5000), sp="default", feats=f, math=0.05, damage=0.05), MODES, sp="default", invariants=RUNINV)
    fine(chk, p, docs[:: chk.pick(35, 5)] + [lst(2) for _ in range(chk.pick(25, 200))])
    return {}
