"""C09 C10 C12 C13 C20 C24 C19: trees, scopes, errors, comments."""
import random
from check import *

LEAF = ("C09_LeavesAreTokens",)
SHAPES = ("C10_Shapes", "C10_EnvShapes")


# ---------------------------------------------------------------------------
@check("C09")
def c09(chk, p):
    obs = ["leaves", "leavesm"]
    wide = ["a", "bc", " ", "\n", "%c\n", "{", "}", "[", "]", "(", ")", "$", "_", "^", "'", "&", "\\\\", "\\s", "\\o", "\\f", "\\q", "\\g", "\\i", "\\l",
            "\\left", "\\right", "\\begin{m}", "\\end{m}", "\\begin{it}", "\\item", "\\(", "\\]", "\\iffalse", "\\fi", "\\begin", "\\zzz", "/", "~", "\\else"]
    p.enum("triples", [wide] * 3, obs, minlen=1, invariants=LEAF)
    core = ["ab", " ", "%c\n", "{", "}", "[", "]", "_", "\\f", "\\q", "\\l", "&"]
    p.enum("trivia", [core] * chk.pick(4, 5), obs, minlen=4, invariants=LEAF, timeout=850)
    # white space everywhere between the parts of constructs
    T = chk.pick(["", " ", "\n%c\n"], ["", " ", "\n", "%c\n", " %x\n\n"])
    heads = ["\\f", "\\q", "\\qq", "\\g", "\\l", "x^", "x_", "\\left", "\\begin{a}", "\\begin{eg}", "\\item", "\\o*", "\\qs"]
    p.enum("parts", [heads, T, ["{a}", "[b]", "c", "(d)", "\\s"], T, ["{e f}", "[g]", "h1", "&", "'"], T, ["", "}", "\\end{a}", "k"]], obs, invariants=LEAF, timeout=850)
    deep = ["\\iffalse ", "\\fi ", "\\else ", "\\iftypst ", "\\iftrue ", "a", "{", "}", "\\end{m}"]
    p.enum("blocks", [deep] * chk.pick(4, 5), obs, minlen=2, invariants=LEAF, timeout=850)
    p.file("random", rnd(chk, chk.pick(600, 9000), damage=0.35), obs, invariants=LEAF)
    p.file("random-default", rnd(chk, chk.pick(250, 4000), sp="default", damage=0.3), obs, sp="default", invariants=LEAF)
    if chk.thorough:
        p.file("fine", rnd(chk, 300, damage=0.3, depth=2), obs, invariants=LEAF, grain="fine")
    return {}


# ---------------------------------------------------------------------------
@check("C10")
def c10(chk, p):
    obs = ["tree"]
    inv = SHAPES + LEAF
    cmds = ["\\s", "\\z", "\\o", "\\o*", "\\f", "\\t", "\\h", "\\g", "\\q", "\\qb", "\\qq", "\\qp", "\\qs", "\\qc", "\\qn", "\\r", "\\l", "\\i", "\\zzz",
            "\\begin{m}", "\\begin{a}", "\\begin{ad}", "\\begin{fig}", "\\begin{eg}", "\\begin{er}", "\\begin{zz}", "\\begin{n}"]
    L = ["{a}", "b", "cd", "[e]", "[", "(f)", " ", "\\s", "\\o", "_", "'", "&", "\\\\", "}", "\\end{m}", "%c\n", ")"]
    p.enum("shapes", [cmds] + [L] * chk.pick(2, 3), obs, minlen=1, invariants=inv, timeout=850)
    kinds = ["{a}", "b", "[c]", "(d)", " ", "&"]
    globs = ["\\q", "\\qb", "\\qq", "\\qp", "\\qs", "\\qc", "\\qn", "\\t", "\\r", "\\begin{eg}", "\\begin{er}"]
    p.enum("kinds", [globs] + [kinds] * chk.pick(4, 6), obs, minlen=5, invariants=inv, timeout=850)
    # where the enclosing scope ends
    scopes = [("{", "}"), ("\\o{", "}"), ("\\q[", "]{y}"), ("$", "$"), ("\\(", "\\)"), ("\\left(", "\\right)"), ("\\begin{m}", "\\end{m}"), ("\\begin{it}\\item ", "\\end{it}"),
              ("\\begin{c}", "&\\end{c}"), ("x^{", "}"), ("\\begin{eg}[", "]{z}\\end{eg}"), ("(", ")"), ("[", "]"), ("", "")]
    docs = []
    for a, b in scopes:
        for c in cmds:
            for args in ("", "{u}", "[v]", "[v]{u}", " w", "{u}{u}", "{u}[v]", "\\s", "\\o", "12", "(p)", "{u}&x", "{u}\\\\x", "\n%c\n{u}"):
                docs.append(a + c + args + b + "t")
    p.file("scopes", docs, obs, invariants=inv)
    # single items of every kind as arguments
    items = ["@", "*", ";", "#", "~", "\"", "/", ",", "^", "_", "'", "&", "$x$", "$", "\\(y\\)", "\\\\", "\\left(z\\right)", "\\begin{m}q\\end{m}", "\\item", "\\i", "\\l", "\\g k",
             "\\frac", "%c", "\\iffalse k\\fi", "\\begin", "\\right", "\\)", "é中", "()", "[", "\\label", "\\fi"]
    docs = [c + sp + a + t for c in ("\\o", "\\f", "\\q", "\\qs", "x^", "\\begin{a}", "\\g", "\\qp") for a in items for sp in ("", " ", "\n") for t in ("", "{r}", "s")]
    p.file("items", docs, obs, invariants=inv)
    p.file("random", rnd(chk, chk.pick(900, 9000), damage=0.3), ["tree", "math"], invariants=inv)
    # the shapes of the built-in commands
    dn = p.default_table()
    tails = ["{a}{b}{c}", "[o]{a}{b}", "{a}[o]{b}", "xyz", " x y z", "[o][p]q", "(u){a}", "_2^3"]
    docs = []
    for n in sorted(dn):
        a, b = ("\\begin{%s}" % n, "\\end{%s}" % n) if dn[n]["t"] == "env" else ("{e\\" + n, "}")
        docs += [a + t + b for t in tails]
    p.file("default", shuffled(chk, docs, chk.pick(4000, 99999)), obs, sp="default")
    return {}


# ---------------------------------------------------------------------------
@check("C12")
def c12(chk, p):
    inv = ("C12_Closers", "C09_LeavesAreTokens")
    marks = ["{", "}", "\\o{", "\\q[", "[", "]", "(", ")", "$", "$$", "\\(", "\\)", "\\[", "\\]", "\\left(", "\\right)", "\\begin{m}", "\\end{m}", "\\begin{n}", "a", "&", "\\\\", "\\right"]
    p.enum("marks", [marks] * 3, ["tree"], minlen=1, invariants=inv, timeout=850)
    core = ["{", "}", "\\q[", "]", "$", "\\left(", "\\right)", "\\begin{m}", "\\end{m}", "x"]
    p.enum("nested", [core] * chk.pick(4, 6), ["tree", "mathok"], minlen=4, invariants=inv, timeout=850)
    form = ["$", "$$", "\\(", "\\)", "\\[", "\\]", "{", "}", "y"]
    p.enum("formulas", [form] * chk.pick(5, 6), ["tree", "textok"], minlen=4, invariants=inv, timeout=850)
    # openers within openers, one closer missing or wrong
    pairs = [("{", "}"), ("\\f{a}{", "}"), ("\\q[", "]{k}"), ("\\qp(", ")"), ("$", "$"), ("$$", "$$"), ("\\(", "\\)"), ("\\[", "\\]"), ("\\left[", "\\right]"),
             ("\\begin{m}", "\\end{m}"), ("\\begin{it}\\item ", "\\end{it}"), ("\\begin{eg}[", "]{l}\\end{eg}"), ("x_{", "}"), ("\\g ", ""), ("a\\i ", ""), ("\\iffalse ", "\\fi "),
             ("\\begin{tab}{cc}", "\\end{tab}")]
    r = random.Random(chk.seed)
    docs = []
    for _ in range(chk.pick(3500, 30000)):
        k = [r.choice(pairs) for _ in range(r.randint(2, 5))]
        xs = []
        for a, _b in k:
            xs += [a, r.choice(["", "u", "v ", "&", "\\s "])]
        for _a, b in reversed(k):
            xs += [b, r.choice(["", "w", " ", "\\\\"])]
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            i = r.randrange(len(xs))
            if r.random() < 0.6:
                del xs[i]
            else:
                xs.insert(i, r.choice(pairs)[r.randint(0, 1)])
            if not xs:
                break
        docs.append(gen.join(xs) + "z")
    p.file("damaged", docs, ["tree", "text", "math"], invariants=inv)
    p.file("random", rnd(chk, chk.pick(500, 6000), damage=0.8), ["tree", "text"], invariants=inv)
    return {}


# ---------------------------------------------------------------------------
@check("C13")
def c13(chk, p):
    inv = ("C13_Attach", "C09_LeavesAreTokens")
    core = ["_", "^", "'", "a", "bc", "{d}", " ", "\\s", "\\l", "\\i ", "&", "("]
    p.enum("scripts", [core] * 4, ["tree", "math"], minlen=1, invariants=inv, timeout=850)
    wide = core + ["\\o", "{", "}", "\\lh", "\\ih ", "\\frac", "1", "$", "\\q[u]", "\\left(x\\right)", "\\begin{m}k\\end{m}", "%c\n", "\n", "\\\\", ")", "\\langle", "\\iffalse q\\fi", "[e]"]
    p.enum("operands", [wide] * chk.pick(3, 4), ["tree", "math"], minlen=2, invariants=inv, timeout=850)
    # bounds of operands: group, cell, argument, delimiters, formula, row
    scopes = [("u{", "}v"), ("\\o{", "}v"), ("\\q[", "]{v}"), ("\\left(", "\\right)v"), ("\\begin{m}k&", "&v\\end{m}"), ("\\begin{m}k\\\\", "\\\\v\\end{m}"), ("\\begin{c}k&", "\\\\v\\end{c}"),
              ("(", ")v"), ("u^{", "}v"), ("k\\i ", "")]
    ins = ["a\\i b", "\\i b", "a\\i", "a b\\i c d", "a\\i b\\i c", "{a\\i b}c", "a\\l", "a b\\l_c", "\\l", "a\\l\\l", "a_b\\l", "a\\l_b^c", "ab_1", "a_bc", "a_\\o{x}y", "a^\\f xy", "a''_b",
           "a'_b'", "a_b_c", "a^{b}^{c}_d", "_a", "^a b", "'", "a _b", "a_ b", "a^", "a_b \\i c", "\\s_a", "\\o{x}^2", "\\o x^2", "{x}y^2", "\\sa'", "(a)^2", "a_(b)", "a_[b]", "a^-1", "a^\\s b",
           "a^\\l", "a_\\i b", "a,b_c", "a/b_c", "a&b_c", "1 2^3", "a%c\n_b", "a\n^b", "a_%c\nbc", "a^'", "a_'b", "a\\ih b", "a\\lh", "x_\\left(y\\right)z", "x^\\begin{m}y\\end{m}z"]
    docs = [a + x + y + b for a, b in scopes for x in ins for y in ("", " ", "w", "_z", "\\i q")]
    p.file("bounds", docs, ["tree", "math", "text"], invariants=inv)
    f = ("words", "space", "script", "prime", "left", "infix", "group", "cmd", "lr", "menv", "brackets", "comment", "greedy", "glob", "formula")
    p.file("random", rnd(chk, chk.pick(1200, 12000), feats=f, math=0.8, damage=0.1), ["tree", "math", "text"], invariants=inv)
    p.file("random-default", rnd(chk, chk.pick(400, 5000), sp="default", feats=f, math=0.8), ["tree", "math"], sp="default", invariants=inv)
    return {}
