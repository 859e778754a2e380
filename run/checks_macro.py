"""C04 C05 C06 C07 C08: macros, environments, conditionals, scopes."""
import random
from check import *


# ---------------------------------------------------------------------------
@check("C04")
def c04(chk, p):
    obs = ["exp"]
    inv = ("C05_NothingLeft", "C04_OthersPass")
    # one command, every shape of definition, every short way to use it
    defs = ["\\newcommand{\\f}{X}", "\\newcommand{\\f}[1]{<#1>}", "\\newcommand{\\f}[2]{#2 #1#2}", "\\newcommand{\\f}[2][d]{#1|#2}",
            "\\newcommand{\\f}[1][]{(#1)}", "\\newcommand{\\f}[3][ab c]{#3#2#1}", "\\newcommand{\\f}{}", "\\newcommand{\\f}[1]{#1a1 #2#}"]
    uses = ["\\f", "{ab}", "cd", "[e]", " ", "%k\n", "\\s", "}", "{", "$"]
    p.enum("uses", [defs] + [uses] * chk.pick(4, 5), obs, minlen=2, invariants=inv, timeout=850)
    # commands that use commands
    defs2 = ["\\newcommand{\\g}{\\f}", "\\newcommand{\\g}[1]{\\f{#1}#1}", "\\newcommand{\\g}[1]{\\f #1}", "\\newcommand{\\g}[2][\\f x]{#2\\f#1}",
             "\\newcommand{\\g}[1]{\\newcommand{\\h}[1]{#1-}}", "\\newcommand{\\g}[1]{\\begin{m}#1\\end{m}}"]
    uses2 = ["\\f", "\\g", "\\h", "{\\g y}", "ab", "[\\f]", "\\f{z}", "{", "}", "\n"]
    p.enum("nested", [defs[1:5], defs2] + [uses2] * chk.pick(3, 4), obs, minlen=3, invariants=inv, timeout=850)
    # what counts as one argument
    args = ["{a b}", "{{a}b}", "{}", "a", "bc", "é中", "\\o", "\\o*", "+", "@", ";", "$", "$$", "\\\\", "&", "^", "'", "[", "]", "(", "\\(", "\\begin{m}", "\\end{m}",
            "\\left", "%c\n{k}", " {k}", "\n\nq", "1", "\\begin", "\\frac", "/"]
    p.enum("arguments", [["\\newcommand{\\f}[2]{<#1,#2>}\\f", "\\newcommand{\\f}[2][d]{<#1,#2>}\\f", "\\newcommand{\\f}[1]{<#1>}\\f\\f"], args, args, ["", "x", "{y}"]],
           obs, invariants=inv)
    opts = ["[", "]", "a", "{", "}", "{]}", " ", "\\f", "\\s", "%\n"]
    p.enum("optional", [["\\newcommand{\\f}[2][d]{<#1,#2>}\\f", "\\newcommand{\\f}[1][\\s d]{<#1>}\\f", "\\newcommand{\\f}[2][]{<#1,#2>}\\f", "\\newcommand{\\f}[1]{<#1>}\\f"]]
           + [opts] * chk.pick(3, 4), obs, invariants=inv, minlen=1)
    # all numbers of arguments; big bodies; arguments beyond the ninth
    r = random.Random(chk.seed)
    docs = []
    for n in range(10):
        for k in (n - 1, n, n + 1):
            for opt in (False, True):
                if k >= 0 and (n or not opt):
                    body = "".join(f"#{i}" + r.choice(["", ",", " ", "x", "0"]) for i in r.sample(range(1, 10), r.randint(1, 9)))
                    use = "".join(r.choice([f"{{a{i}}}", f" {i}", "{b c}", "\\s", " z"]) for i in range(k))
                    docs.append(f"\\newcommand{{\\F}}[{n}]" + ("[o p]" if opt else "") + "{" + body + "}\\F" + r.choice(["", "[q]"]) + use + "z")
    p.replay("counts", docs, ["exp", "text", "math"])
    feats = gen.ALL + ("macro",)
    p.replay("random", rnd(chk, chk.pick(700, 8000), feats=feats, damage=0.2), ["exp", "text", "math"], invariants=inv)
    p.replay("random-default", rnd(chk, chk.pick(250, 3000), sp="default", feats=feats, damage=0.1), ["exp", "text"], sp="default")
    p.replay("random-environments", rnd(chk, chk.pick(300, 3000), feats=feats + ("menvs",), damage=0.2), ["exp"], invariants=inv)
    if chk.thorough:
        # every step of the machine
        p.enum("steps", [defs] + [uses] * 3, obs, minlen=2, invariants=inv, grain="fine", properties=("C04_Steps",), timeout=850)
    return {}


# ---------------------------------------------------------------------------
@check("C05")
def c05(chk, p):
    obs = ["exp"]
    inv = ("C05_NothingLeft",)
    seqs = ["\\newcommand{\\f}{A}", "\\newcommand*{\\f}[1]{(#1)}", "\\renewcommand{\\f}{B}", "\\providecommand{\\f}{C}", "\\DeclareRobustCommand{\\f}{D}",
            "\\renewcommand*{\\s}{E}", "\\newcommand{\\s}{F}", "\\renewcommand{\\zz}{G}", "\\f x", "\\s ", "{", "}", "\\zz ",
            "\\newenvironment{f}{P}{Q}", "\\renewenvironment{m}{R}{S}"]
    p.enum("sequences", [seqs] * 3, obs, minlen=1, invariants=inv)
    core = ["\\newcommand{\\f}{A}", "\\renewcommand{\\f}{B\\s}", "\\providecommand{\\f}{C}", "\\DeclareRobustCommand{\\f}{D}", "\\f ", "\\renewcommand{\\s}{E}",
            "\\providecommand{\\s}{H}", "\\s "]
    p.enum("longer", [core] * chk.pick(4, 5), obs, minlen=4, invariants=inv, timeout=850)
    envs = ["\\newenvironment{e}{(}{)}", "\\newenvironment{e}{[}{]}", "\\renewenvironment{e}{<}{>}", "\\renewenvironment{m}{{}{}}", "\\renewenvironment{zz}{u}{v}",
            "\\begin{e}x\\end{e}", "\\begin{m}x\\end{m}", "\\newcommand{\\e}{K}", "\\e ", "\\newcommand{\\f}{\\begin{e}}", "\\f ", "\\end{e}"]
    p.enum("environments", [envs] * chk.pick(3, 4), obs, minlen=1, invariants=inv, timeout=850)
    # definitions inside of definitions, arguments, groups, environments, formulas
    hosts = [("", ""), ("{", "}"), ("$", "$"), ("\\begin{m}", "\\end{m}"), ("\\o{", "}"), ("\\newcommand{\\h}{", "}\\h "), ("\\iftrue ", "\\fi "), ("\\iffalse ", "\\fi "),
             ("\\iffalse \\else ", "\\fi "), ("\\newcommand{\\h}[1]{#1}\\h{", "}"), ("\\left(", "\\right)"), ("\\begin{it}\\item ", "\\end{it}"), ("%", "\n"), ("\\s[", "]")]
    docs = []
    for a, b in hosts:
        for x in core[:4] + ["\\newcommand{\\g}[1]{#1\\f}"]:
            for pre in ("", core[0]):
                for post in ("\\f ", "{\\f}\\g{w}"):
                    docs += [pre + a + x + b + post, pre + a + x + "\\f " + b + post, a + "\\f " + x + b + post]
    p.replay("hosts", docs, ["exp", "textok"], invariants=inv)
    # white space and comments between the parts
    T = ["", " ", "%c\n", "\n%{\n "]
    p.enum("parts", [["\\newcommand", "\\providecommand*", "\\DeclareRobustCommand"], T, ["{\\f}", "{ \\f }", "{%c\n\\f%d\n}"], T, ["", "[1]", "[1][d]"], T, ["{A#1}", "{}"], T,
                     ["\\f{x}", "\\f [z]"]], obs, invariants=inv)
    p.enum("parts-env", [["\\newenvironment"], T, ["{e}", "{ e }"], T, ["", "[1]", "[1][d]"], T, ["{(#1}", "{}"], T, ["{#1)}"], T, ["\\begin{e}{x}y\\end{e}"]], obs, invariants=inv)
    feats = gen.ALL + ("macro", "menvs")
    p.replay("random", rnd(chk, chk.pick(900, 9000), feats=feats, damage=0.15), ["exp", "text"], invariants=inv)
    p.replay("random-default", rnd(chk, chk.pick(250, 3000), sp="default", feats=feats, damage=0.1), ["exp", "text"], sp="default", invariants=inv)
    if chk.thorough:
        p.enum("steps", [core] * 4, obs, minlen=1, invariants=inv, grain="fine", properties=("C04_Steps",), timeout=850)
    return {}


# ---------------------------------------------------------------------------
@check("C06")
def c06(chk, p):
    obs = ["exp"]
    inv = ("C05_NothingLeft",)
    defs = ["\\newenvironment{e}{(}{)}", "\\newenvironment{e}[1]{(#1}{#1)}", "\\newenvironment{e}[2][d]{(#1,#2|}{|#2,#1)}", "\\newenvironment{e}{\\begin{m}}{\\end{m}}",
            "\\newenvironment{e}[1][d]{<#1}{>#1}"]
    L = ["\\begin{e}", "\\end{e}", "\\begin{m}", "\\end{m}", "x", "{yz}", "[k]", "{", "}", " "]
    p.enum("bodies", [defs] + [L] * chk.pick(4, 5), obs, minlen=1, invariants=inv, timeout=850)
    two = ["\\newenvironment{e}{(}{)}\\newenvironment{g}{\\begin{e}}{\\end{e}}", "\\newenvironment{e}[1]{(#1}{#1)}\\newenvironment{g}[1]{\\begin{e}{#1}}{#1\\end{e}}",
           "\\newcommand{\\f}[1]{\\begin{e}#1\\end{e}}\\newenvironment{e}{\\begin{m}}{\\end{m}}\\newenvironment{g}{\\f{}}{\\f z}",
           "\\newcommand{\\b}{\\begin{e}}\\newcommand{\\k}{\\end{e}}\\newenvironment{e}{(}{)}\\newenvironment{g}[1][\\b x]{#1}{\\k #1}",
           "\\newenvironment{e}[1]{\\newcommand{\\f}[1]{#1+}}{\\f 9}\\newenvironment{g}{[}{]}"]
    L2 = ["\\begin{e}", "\\end{e}", "\\begin{g}", "\\end{g}", "\\f y", "{u}", "\\b ", "\\k ", "&"]
    p.enum("nested", [two] + [L2] * chk.pick(4, 5), obs, minlen=2, invariants=inv, timeout=850)
    deep = ["\\begin{e}", "\\end{e}", "x", "\\begin{m}", "\\end{m}"]
    p.enum("deep", [defs[:1] + defs[1:2]] + [deep] * chk.pick(6, 8), obs, minlen=6, invariants=inv, timeout=850)
    feats = gen.ALL + ("macro", "menvs")
    docs = [d for d in rnd(chk, chk.pick(2500, 20000), feats=feats, damage=0.2) if "environment" in d]
    p.replay("random", docs[:chk.pick(700, 8000)], ["exp", "text", "math"], invariants=inv)
    docs = [d for d in rnd(chk, chk.pick(1000, 9000), sp="default", feats=feats, damage=0.1) if "environment" in d]
    p.replay("random-default", docs[:chk.pick(200, 3000)], ["exp", "text"], sp="default", invariants=inv)
    return {}


# ---------------------------------------------------------------------------
@check("C07")
def c07(chk, p):
    inv = ("C07_Selected", "C05_NothingLeft")
    core = ["\\iftrue ", "\\iffalse ", "\\else ", "\\fi ", "x"]
    p.enum("nesting", [core] * chk.pick(6, 7), ["exp"], minlen=1, invariants=inv, timeout=850)
    wide = ["\\iftrue ", "\\iffalse ", "\\iftypst", "\\else", "\\fi", "a", "b ", "{", "}", "\\newcommand{\\s}{D}", "\\s ", "\\ifx ", "%\\fi\n"]
    p.enum("effects", [wide] * chk.pick(4, 5), ["exp", "textok"], minlen=1, invariants=inv, timeout=850)
    # whole nests with distinct pieces in every branch
    r = random.Random(chk.seed)
    n = [0]

    def mark():
        n[0] += 1
        return r.choice(["w%d " % n[0], "w%d " % n[0], "\\s ", "\\f ", "{w%d}" % n[0], "$w$ ", "%%c%d\n" % n[0], "\\zzz ", "\\begin{m}k&l\\end{m} ",
                         "\\newcommand{\\f}{F%d}" % n[0], "\\providecommand{\\f}{P%d}" % n[0], "\\renewcommand{\\f}{R%d}" % n[0], "\\o{w%d}" % n[0],
                         "\\newenvironment{e}{(}{%d)}" % n[0], "\\begin{e}u\\end{e}", "}", "\\end{m}"][: 14 if r.random() < 0.93 else 17])

    def nest(d):
        out = "".join(mark() for _ in range(r.randint(0, 2)))
        for _ in range(r.randint(0, 2) if d else 0):
            k = r.choice(["\\iftrue ", "\\iffalse ", "\\iftrue ", "\\iffalse ", "\\iftypst "] + (["\\ifx "] if r.random() < 0.1 else []))
            if k == "\\iftypst ":
                out += "\\iftypst" + r.choice([" ", "#", ""]) + r.choice(["t()", "a b", "#h", "x\\y", "é"]) + " "
            else:
                out += k + nest(d - 1)
            if r.random() < 0.6:
                out += "\\else " + nest(d - 1)
            if r.random() < 0.95:
                out += "\\fi "
            out += "".join(mark() for _ in range(r.randint(0, 2)))
        return out
    docs = [nest(r.randint(1, 4)) for _ in range(chk.pick(1500, 15000))]
    p.replay("nests", docs, ["exp", "text", "math"], invariants=inv)
    # conditionals produced by, and inside of, macros
    pre = ["\\newcommand{\\T}{\\iftrue}\\newcommand{\\F}{\\iffalse}\\newcommand{\\E}{\\else}\\newcommand{\\I}{\\fi}\\newcommand{\\W}[2]{\\iftrue #1\\else #2\\fi}"]
    L = ["\\T ", "\\F ", "\\E ", "\\I ", "\\iffalse ", "\\else ", "\\fi ", "x", "\\W{a}{b}", "\\W", "{c\\fi}"]
    p.enum("macros", [pre] + [L] * chk.pick(4, 5), ["exp"], minlen=2, invariants=("C05_NothingLeft",), timeout=850)
    p.replay("random", rnd(chk, chk.pick(400, 5000), feats=gen.ALL + ("macro", "menvs"), damage=0.2), ["exp", "text"], invariants=("C05_NothingLeft",))
    # the verbatim branch
    body = ["#", "a", " ", "b(1)", "\\x", "\\else", "\\fi", "\\iftrue", "{", "}", "%z\n", "$", "\n", "\"", "[*c*]"]
    p.enum("typst", [["\\iftypst", "x\\iftypst ", "$\\iftypst"]] + [body] * chk.pick(3, 4) + [["\\fi", "\\else y\\fi"], ["", "z", "$"]], ["text"], minlen=1)
    return {}


# ---------------------------------------------------------------------------
def histories(chk, p, name, op, conf, hists, invariants):
    """hists: None (all histories up to conf['len']) or a list of histories"""
    cp = os.path.join(chk.work, name + ".json")
    conf = dict(conf, mode="docs" if hists is not None else "edit")
    write_json(cp, conf)
    e = {"CONF": cp}
    if hists is not None:
        e["DOCS"] = os.path.join(chk.work, name + ".ndjson")
        write_ndjson(e["DOCS"], [{"ops": h} for h in hists])
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {i}\n" for i in invariants) + "PROPERTY RollRestores\n"
    r = tlc(chk.work, name, "SnapMap", cfg, e, 850)
    if not r.ok:
        raise ToolError(f"{name}: the model violates {r.violated}\n" + r.text[-2000:])
    chk.count_tlc(name, r)
    return [(x["ops"] if hists is None else hists[x["id"] - 1], x["obs"]) for x in r.recs]


@check("C08")
def c08(chk, p):
    inv = ("TypeOK", "Same", "LogIsRight", "NoLeak")
    r = random.Random(chk.seed)

    def rand_hist(keys, vals, n, also):
        h, d = [], 0
        while len(h) < n:
            k = r.random()
            if k < 0.4:
                h.append(["ins", r.choice(keys), r.choice(vals)])
            elif k < 0.55 and "rem" in also:
                h.append(["rem", r.choice(keys)])
            elif k < 0.8:
                h.append(["snap"]); d += 1
            elif d and (k < 0.92 or "commit" not in also):
                h.append(["roll"]); d -= 1
            elif d:
                h.append(["commit"]); d -= 1
        return h + [["roll"]] * d

    def judge(name, op, want, jobs):
        out = p.h.run(jobs)
        for (h, obs), y in zip(want, out):
            if y.get("skipped"):
                continue
            got = y.get("obs")
            if op == "snap":
                exp = [[bool(a), list(v)] for a, v in obs]
            else:
                exp = [[list(v), init] for _, v in obs]
            if got != exp:
                k = next((i for i in range(len(exp)) if not got or i >= len(got) or got[i] != exp[i]), -1) if got else -1
                chk.violation(f"history {h[:k + 1] if k >= 0 else h}: " + (f"saw {got[k]} want {exp[k]}" if k >= 0 else str({a: y[a] for a in y if a != 'id'})),
                              {"op": op, "history": h, "want": exp, "got": got})
            else:
                chk.traces += 1
        chk.sample({"run": name, "history": want[-1][0], "observations": want[-1][1][-2:]})

    also = ["rem", "commit"]
    conf = {"keys": ["a", "b"], "vals": [1, 2], "len": chk.pick(5, 6), "init": {"a": 0}, "absent": 0, "also": also}
    w = histories(chk, p, "map-all", "snap", conf, None, inv)
    judge("map-all", "snap", w, [{"op": "snap", "keys": conf["keys"], "ops": h} for h, _ in w])
    conf = {"keys": ["a"], "vals": [1, 2], "len": chk.pick(7, 8), "init": {"a": 0}, "absent": 0, "also": also}
    w = histories(chk, p, "map-one-key", "snap", conf, None, inv)
    judge("map-one-key", "snap", w, [{"op": "snap", "keys": conf["keys"], "ops": h} for h, _ in w])
    conf = {"keys": list("abcde"), "vals": [1, 2, 3], "len": 0, "init": {"a": 0}, "absent": 0, "also": also}
    w = histories(chk, p, "map-long", "snap", conf, [rand_hist(conf["keys"], conf["vals"], r.randint(6, 40), also) for _ in range(chk.pick(300, 3000))], inv)
    judge("map-long", "snap", w, [{"op": "snap", "keys": conf["keys"], "ops": h} for h, _ in w])
    # the macro engine: definitions under three names, one of them built in
    names = ["f", "g", "newcommand"]
    init = ["-", "-", "newcommand"]
    src = "\\newcommand{\\f}[1]{x#1}\\newcommand{\\g}{y}"
    conf = {"keys": names, "vals": names, "len": chk.pick(4, 5), "init": {"newcommand": "newcommand"}, "absent": "-", "also": []}
    w = histories(chk, p, "scopes-all", "scope", conf, None, inv)

    def eng(h):
        return [["add"] + o[1:] if o[0] == "ins" else o for o in h]
    judge("scopes-all", "scope", w, [{"op": "scope", "doc": src, "spec": "small", "names": names, "ops": eng(h)} for h, _ in w])
    w = histories(chk, p, "scopes-long", "scope", conf, [rand_hist(names, names, r.randint(6, 30), []) for _ in range(chk.pick(300, 3000))], inv)
    judge("scopes-long", "scope", w, [{"op": "scope", "doc": src, "spec": "small", "names": names, "ops": eng(h)} for h, _ in w])
    return {}
