"""C18 .. C24: histories, totality, errors, specifications, command line, comments."""
import random
import re
from check import *

RUNINV = ("C20_ErrorsFail",)
MODES = ["text", "math"]


# ---------------------------------------------------------------------------
CALLS = [
    ("\\newcommand{\\f}{x}\\f y", "text", "small"), ("\\f{a}{b}", "math", "small"), ("\\renewcommand{\\f}[1]{(#1)}\\f{a}{b}", "math", "small"),
    ("\\newenvironment{n}{p}{q}\\begin{n}k\\end{n}", "text", "small"), ("\\begin{n}k\\end{n}", "text", "small"), ("\\newcommand{\\newcommand}{w}\\newcommand{\\o}{r}", "text", "small"),
    ("\\newcommand{\\o}{s}\\o t", "text", "small"), ("\\zzz", "math", "small"), ("\\iffalse{", "text", "small"), ("\\iftrue a", "text", "small"), ("\\label{l}$", "text", "small"),
    ("\\begin{it}\\item a", "text", "small"), ("\\frac{a}{b}", "math", "default"), ("\\frac{a}{b}", "math", "none"), ("\\o{x}", "math", "default"), ("\\o{x}", "math", "small"),
    ("\\newcommand{\\zzz}{u}\\zzz", "math", "small"), ("\\begin{al}a\\label{m}\\\\b\\end{al}", "text", "small"), ("\\begin{m}a&b", "math", "small"), ("a_", "math", "none"),
    # as long as another one, of which it differs in little
    ("\\frac{a}{c}", "math", "none"), ("\\frac{a}{b}", "text", "none"), ("b_", "math", "none"),
]
TINY = [("\\newcommand\\f x", "text", "small"), ("\\s", "math", "small"), ("\\newcommand{\\s}{x}\\s", "text", "small"), ("\\newcommand{\\z}{}\\z", "text", "small"), ("\\z", "math", "small"), ("$a", "text", "small"),
        ("\\newcommand{\\newcommand}{}", "text", "small")]


def session_calls(chk, p, name, calls, conf, invariants, properties=("Final",), timeout=600):
    docs = [c[0] for c in calls]
    ids = sorted({"default" if c[2] == "none" else c[2] for c in calls})
    e = p.paths(name, conf, docs, ids)
    dp = os.path.join(chk.work, name + ".calls.ndjson")
    write_ndjson(dp, [{"cs": list(d), "mode": m, "sp": "default" if s == "none" else s} for d, m, s in calls])
    e["DOCS"] = dp
    cfg = CFGS + "".join(f"INVARIANT {i}\n" for i in invariants) + "".join(f"PROPERTY {i}\n" for i in properties)
    r = tlc(chk.work, name, "Session", cfg, e, timeout)
    chk.count_tlc(name, r)
    if not r.ok:
        raise ToolError(f"the specification violates {r.violated} ({name}):\n" + r.text[-2500:])
    return r


CFGS = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"


def match(got, want):
    return got[0] == want[0] and (not want[0] or got[1] == want[1])


@check("C18")
def c18(chk, p):
    # every interleaving of two or three conversions, step by step
    session_calls(chk, p, "interleavings", TINY, {"mode": "par", "threads": 2, "len": 0}, ["NeverWritten", "Isolated"])
    if chk.thorough:
        session_calls(chk, p, "interleavings3", TINY[1:5], {"mode": "par", "threads": 3, "len": 0}, ["NeverWritten", "Isolated"], timeout=850)
    # every sequence of calls; each is then made in a process that has made many others before
    n = chk.pick(3, 4)
    calls = CALLS if not chk.thorough else CALLS[:5] + CALLS[7:9] + CALLS[12:15] + CALLS[-4:]
    r = session_calls(chk, p, "histories", calls, {"mode": "seq", "threads": 0, "len": n}, ["NeverWritten", "SameAsAlone"], timeout=850)
    recs = r.recs
    if len(recs) != len(calls) ** n + len(calls):
        raise ToolError(f"{len(recs)} histories came back from TLC")
    alone = {x["calls"][0]: x["outs"][0] for x in recs if len(x["calls"]) == 1}
    out = p.h.run([{"op": "session", "calls": [list(calls[c - 1]) for c in x["calls"]]} for x in recs])
    text = {}
    for x, y in zip(recs, out):
        if y.get("skipped"):
            continue
        data = {"calls": [calls[c - 1] for c in x["calls"]], "want": x["outs"]}
        if "results" not in y:
            chk.violation(f"{'hang' if 'hang' in y else 'crash'} in a sequence of conversions", data)
            continue
        for c, g, w in zip(x["calls"], y["results"], x["outs"]):
            if not match(g, w):
                chk.violation(f"{calls[c - 1]!r} gave {g!r} in a sequence of conversions, alone {w!r}", dict(data, got=y["results"]))
                break
            if text.setdefault(c, g) != g:
                chk.violation(f"{calls[c - 1]!r} gave {g!r} and {text[c]!r}", dict(data, got=y["results"]))
                break
        chk.traces += 1
    chk.sample({"calls": [calls[c - 1] for c in recs[-1]["calls"]], "spec_result": recs[-1]["outs"]})
    # threads: the fixed calls and random documents, in new processes
    g = rnd(chk, chk.pick(150, 1500), feats=gen.ALL + ("macro",), damage=0)
    g += rnd(chk, chk.pick(60, 600), feats=tuple(f for f in gen.ALL if f != "typst"), damage=1)
    docs = [(d, random.Random(i).choice(MODES), "small") for i, d in enumerate(dict.fromkeys(g))]
    r = session_calls(chk, p, "alone", docs, {"mode": "seq", "threads": 0, "len": 1}, ["NeverWritten", "SameAsAlone"], timeout=850)
    alone2 = {x["calls"][0]: x["outs"][0] for x in r.recs}
    for k in range(chk.pick(12, 60)):
        sel = list(range(1, len(calls) + 1))
        sel2 = shuffled(chk, alone2, 40, k)
        cs = [calls[c - 1] for c in sel] + [docs[c - 1] for c in sel2]
        want = [alone[c] for c in sel] + [alone2[c] for c in sel2]
        order = shuffled(chk, range(len(cs)), len(cs), 100 + k)
        cs, want = [cs[i] for i in order], [want[i] for i in order]
        y = p.h.run([{"op": "threads", "calls": [list(c) for c in cs], "threads": 8, "rounds": chk.pick(6, 30)}])[0]
        if "results" not in y:
            chk.violation(f"{'hang' if 'hang' in y else 'crash'} in concurrent conversions", {"calls": cs})
            continue
        for c, got, w in zip(cs, y["results"], want):
            if len(got) != 1 or not match(got[0], w):
                chk.violation(f"{c!r} gave {got!r} when converted on eight threads, alone {w!r}", {"calls": cs, "call": c, "got": got, "want": w})
                break
        chk.traces += len(cs)
    return {}


# ---------------------------------------------------------------------------
ENDS = ["endlex", "endexp", "endtree", "endtreem", "endtext", "endmath"]
ALLVIEWS = ["lex", "ifs", "exp", "tree", "treem", "text", "math", "nomacro"]


def total(chk, p, name, docs, sp="small"):
    """TLC says for which documents the expansion ends; the code must end on those"""
    docs = list(dict.fromkeys(docs))
    conf = {"mode": "docs", "plan": ["lex", "exp"], "obs": ["endexp"], "alphabet": [], "post": [], "posts": [], "slots": [],
            "minlen": 0, "sp": sp, "grain": "run"}
    e = p.paths(name, conf, docs, [sp])
    dp = os.path.join(chk.work, name + ".docs.ndjson")
    write_ndjson(dp, [{"id": i, "cs": list(d), "sp": sp} for i, d in enumerate(docs)])
    e["DOCS"] = dp
    r = tlc(chk.work, name, "MCMitex", pipeline.CFG + "INVARIANT TypeOK\nINVARIANT C19_Total\n", e, 850)
    chk.count_tlc(name, r)
    if not r.ok or len(r.recs) != len(docs):
        raise ToolError(f"{name}: {len(r.recs)} of {len(docs)} documents came back from TLC\n" + r.text[-2000:])
    ends(chk, p, name, [docs[x["id"]] for x in r.recs if not x.get("skip")], sp)


def ends(chk, p, name, docs, sp):
    out = p.h.run([{"op": "doc", "doc": d, "spec": sp, "views": ALLVIEWS} for d in docs])
    for d, y in zip(docs, out):
        if y.get("skipped"):
            continue
        b = "hang" if "hang" in y else "crash (%s)" % y["crash"] if "crash" in y else None
        if y.get("panic"):
            b = "panic in %s: %s" % tuple(y["panic"][0])
        if b:
            chk.violation(f"{b} on {d!r}", {"doc": d, "spec": sp, "run": name})
        chk.traces += 1
    chk.sample({"run": name, "doc": docs[len(docs) // 2], "ended": True}, 12)


def truncations(d):
    return [d[:k] for k in range(1, len(d) + 1)]


@check("C19")
def c19(chk, p):
    # every short sequence of marks and commands that need something after them
    L = ["\\begin", "\\end", "{", "}", "[", "]", "\\left", "\\right", "$", "\\[", "\\]", "_", "^", "'", "\\i", "\\l", "\\h", "\\q", "\\color", "\\label", "\\item", "\\fi", "\\else", "\\iftypst ", "\\iffalse ", "&", "#", "%",
         "m", "\\", "\\newcommand", "\\caption", "\\includegraphics", "\\begin{m}", "\\end{m}", "\\begin{fig}", "\\begin{tab}"]
    p.enum("pairs", [L] * 2, ENDS, minlen=1, invariants=("C19_Total",))
    few = ["\\begin{tab}", "\\begin{fig}", "\\end{fig}", "{", "}", "\\color", "[", "_", "\\i", "$", "\\label", "\\left", "\\newcommand", "\\l", "\\textcolor", "\\iftypst "]
    p.enum("triples", [few] * chk.pick(3, 4), ENDS, minlen=3, invariants=("C19_Total",), timeout=850)
    # every command and environment of both specifications, cut off everywhere
    docs = []
    for sp in ("small", "default"):
        t = p.default_table() if sp == "default" else specs.table(specs.SMALL)
        docs = []
        for n in sorted(t):
            if t[n]["t"] == "cmd":
                c = "\\" + n
                docs += [c, "{" + c, "{" + c + "}", c + "}", "a_" + c, "a^" + c + "_b", "[" + c + "]", c + "[", c + "[]{", c + "{}{", "$" + c + "$", "$" + c, "\\left" + c + "\\right" + c, c + " " + c + "'",
                         "\\begin{%s}x\\end{%s}" % (n, n), c + "{\\begin{matrix}}", "\\begin{figure}" + c + "\\end{figure}", "\\begin{tabular}{c}" + c + "&" + c, c + c + c, c + "é{中}", "&" + c + "&", "\\label{" + c + "}",
                         "\\begin{itemize}\\item" + c + "\\end{itemize}", "\\includegraphics[" + c + "]{" + c, "\\newcommand{" + c + "}{" + c + "}", "\\newcommand" + c, "\\caption" + c]
            else:
                b = "\\begin{%s}" % n
                e = "\\end{%s}" % n
                docs += [b, e, b + e, b + "{", b + "{c}", b + "[", b + "[]" + e, b + "{}{}&\\\\" + e, b + b + e, e + b, "{" + b + "}" + e, b + "$" + e + "$", "x_" + b + e, b + "\\item" + e, "\\left" + b + "\\right" + e, b + "{é|l}" + e,
                         "\\caption{" + b + "}", b + "\\caption" + e, b + "\\label" + e, b + "\\includegraphics" + e, b + "\\hline\\\\&" + e, b + "\\i" + e, b + "'^_" + e, "\\%s" % n, "\\%s{}" % n]
        ends(chk, p, "every-name-" + sp, shuffled(chk, docs, chk.pick(6000, 10 ** 6)), sp)
    # documents with damage, and all beginnings of documents
    mac = gen.ALL + ("macro", "menvs")
    total(chk, p, "damaged", rnd(chk, chk.pick(2500, 40000), damage=1, feats=mac))
    total(chk, p, "damaged-default", rnd(chk, chk.pick(1000, 15000), sp="default", damage=1), sp="default")
    docs = []
    for d in rnd(chk, chk.pick(40, 400), damage=0, feats=mac, limit=60):
        docs += truncations(d)
    total(chk, p, "truncated", shuffled(chk, docs, chk.pick(3000, 40000)))
    # junk: any characters, any lexemes
    r = random.Random(chk.seed)
    chars = list("\\\\\\\\{}[]()$$%&#^_'~\"@*;/,.-+=<>|!? \n\t\r0123aZ") + ["é", "中", "\u0301", "\u00a0", "\u2028", "\ufeff", "\0", "\u007f", "ﬁ", "٣", "\u3000", "\U0001d465"[:0] or "ξ"]
    lex = L + ["\\newcommand{\\f}", "[1]", "[9]", "[10]", "#1", "#9", "#0", "\\f", "\\newenvironment{e}", "\\begin{e}", "\\end{e}", "\\renewcommand", "\\providecommand*{\\o}", "\\DeclareRobustCommand", "\\mitexrecurse", "\\iftrue",
               "\\ifx", "\\q[", "\\textbf{", "\\substack{", "\\centering", "\\toprule", "\\hline", "\\\\", "\\$", "\\begin{it}", "\\begin{al}", "{l|}", "{w=1}", "\\left.", "\\right.", "~", "\n", " ", "ab", "1", "é"]
    docs = ["".join(r.choice(chars) for _ in range(r.randint(1, 14))) for _ in range(chk.pick(6000, 60000))]
    docs += ["".join(r.choice(lex) for _ in range(r.randint(1, 10))) for _ in range(chk.pick(6000, 60000))]
    total(chk, p, "junk", docs)
    # characters beyond the BMP are not in the specification of macros; they change no decision there
    ends(chk, p, "astral", [d.replace("é", "\U0001d465").replace("中", "\U0001f600") for d in docs if "\\f" not in d and "newcommand" not in d and ("é" in d or "中" in d)], "small")
    # deep and long documents
    docs = []
    n = chk.pick(200, 300)
    for a, b in [("{", "}"), ("[", "]"), ("(", ")"), ("x^{", "}"), ("x_", ""), ("\\o{", "}"), ("\\o ", ""), ("\\q[", "]{a}"), ("\\q[]{", "}"), ("\\f{a}{", "}"), ("\\left(", "\\right)"), ("\\begin{m}", "\\end{m}"),
                 ("\\begin{it}\\item ", "\\end{it}"), ("\\begin{fig}", "\\end{fig}"), ("\\begin{tab}{c}", "\\end{tab}"), ("$", "$"), ("\\(", "\\)"), ("{a\\i ", "}"), ("\\iffalse ", "\\fi "), ("\\iftrue ", "\\else x\\fi "),
                 ("\\ifx ", "\\fi "), ("\\h{$", "$}"), ("{\\g ", "}"), ("\\color{", "}"), ("\\textcolor{r}{", "}"), ("a'", ""), ("\\l ", ""), ("_", ""), ("^{_", "}"), ("\\qs{", "}"), ("\\qs[", "]"), ("\\begin{ad}{", "}\\end{ad}"),
                 ("\\caption{", "}"), ("\\substack{", "\\\\}"), ("\\begin{eg}[", "]{a}\\end{eg}")]:
        for x, y in ((a, b), (a, ""), ("", b or "}")):
            docs.append(x * n + "z" + y * n)
            docs.append(x * (n - 1) + "z\\\\&" + y * n)
        docs.append((a + "z" + b) * chk.pick(400, 3000))
    ends(chk, p, "deep", docs, "small")
    total(chk, p, "macros", ["\\newcommand{\\a}{xx}" + "".join("\\newcommand{\\%s}{\\%s\\%s}" % (chr(98 + i), chr(97 + i), chr(97 + i)) for i in range(k)) + "\\%s" % chr(97 + k) for k in range(8)] +
          ["\\newcommand{\\f}[1]{(#1)}" + "\\f{" * k + "x" + "}" * k for k in (1, 5, 20, 60)])
    return {}


# ---------------------------------------------------------------------------
OK = ["textok", "mathok"]
HOSTS = [("", ""), ("{", "}"), ("\\o{", "}"), ("\\f{u}{", "}"), ("\\f{", "}{u}"), ("\\h{", "}"), ("\\hh{u}{", "}"), ("\\textbf{", "}"), ("\\q[", "]{k}"), ("\\q[u]{", "}"), ("\\begin{m}", "\\end{m}"), ("\\begin{c}u&", "\\\\v\\end{c}"),
         ("\\begin{al}", "\\\\v\\end{al}"), ("\\begin{ad}{", "}u\\end{ad}"), ("\\begin{ad}{1}u&", "\\end{ad}"), ("\\begin{n}", "\\end{n}"), ("\\begin{it}\\item ", "\\end{it}"), ("\\begin{en}\\item u\\item ", "\\end{en}"),
         ("\\begin{fig}\\caption{", "}\\end{fig}"), ("\\begin{fig}", "\\end{fig}"), ("\\begin{tab}{c}", "&v\\\\\\end{tab}"), ("\\begin{tab}{l|r}u&v\\\\", "\\end{tab}"), ("x^{", "}"), ("x_u^{", "}"), ("\\left(", "\\right)"),
         ("u\\i ", ""), ("{", "\\i u}"), ("\\gh ", ""), ("{\\g ", "}"), ("\\textcolor{red}{", "}"), ("\\colorbox[x]{y}{", "}"), ("(", ")"), ("k[u", "]"), ("\\iftrue ", "\\fi "), ("\\iffalse u\\else ", "\\fi "), ("\\substack{u\\\\", "}"),
         ("\\sa\\l_{", "}"), ("u %c\n", ""), ("\\t{u}{v}{", "}"), ("\\qq{u}{", "}"), ("\\r{", "}"), ("\\caption{", "}"), ("\\begin{eg}[", "]{u}v\\end{eg}"), ("\\begin{a}{u}", "\\end{a}"), ("$", "$"), ("\\[", "\\]"), ("\\(u", "\\)")]
GOODS = ["w", "\\s ", "\\o{w}", "\\f{w}{x}", "\\q[w]{x}", "\\begin{m}a&b\\\\c\\end{m}", "\\begin{c}a&b\\\\c\\end{c}", "{}", "{a,b}", "a'", "x_1^2", "\\left[a\\right)", "a\\\\b", "\\textbf{a}", "~;", "\\begin{it}\\item a\\end{it}",
         "\\begin{tab}{lc}a&b\\\\\\hline c\\end{tab}", "\\begin{fig}\\centering a\\caption{b}\\label{c}\\end{fig}", "\\includegraphics[width=2cm]{f.png}", "\\iffalse \\zzz }\\fi ", "%\\zzz }\n", "\\iftrue a\\else }\\fi ", "\\textcolor{red}{a}", "$a$", "\\[a\\]",
         "{a\\i b}", "\\h{$a$}", "\\DeclareRobustCommand{\\p}[2]{#2\\o{#1}}\\p ab", "\\newenvironment{ee}[1]{#1}{z}\\begin{ee}{a}b\\end{ee}", "\\langle ", "\\|", "\\%"]
FAULTS = ["\\zzz ", "\\zzz{w}", "\\begin{zzz}w\\end{zzz}", "}", "\\end{m}", "\\)", "\\]", "$w\\)", "\\(w$", "\\(w\\]", "\\[w$$", "$w$$", "\\begin w", "\\begin", "\\end{}", "\\end w", "\\begin{m}w}", "{w\\end{m}", "\\[w\\)", "\\left(}", "x_}", "\\o}",
          "\\m{w}"[:0], "\\n{w}", "\\begin{o}w\\end{o}", "x_\\zzz ", "x^{\\zzz}", "\\left\\zzz w\\right)", "\\q[\\zzz]{w}", "\\o\\zzz ", "\\newcommand{\\s}{\\zzz}\\s ", "\\newcommand{\\p}[1]{#1}\\p\\zzz "]
FAULTS = [f for f in FAULTS if f]


@check("C20")
def c20(chk, p):
    # every short sequence of marks: what is rejected
    L = ["a", "{", "}", "$", "\\(", "\\)", "\\]", "\\begin{m}", "\\end{m}", "\\end{c}", "\\begin{zz}", "\\zzz ", "\\begin x", "[", "]", "\\o", "\\q", "\\left(", "\\right)", "_", "\\i ", "&", "\\item ", "'"]
    p.enum("triples", [L] * chk.pick(2, 3), OK, minlen=1, invariants=RUNINV, timeout=850)
    core = ["a", "{", "}", "$", "\\)", "\\(", "\\begin{m}", "\\end{m}", "\\zzz ", "\\q["]
    p.enum("deep", [core] * chk.pick(4, 5), OK, minlen=4, invariants=RUNINV, timeout=850)
    mac = ["\\f", "\\g", "{", "}", "a", "[", "]", " ", "ab", "\\begin{e}", "\\end{e}"]
    p.enum("macro-arguments", [["\\newcommand{\\f}[2]{(#1)#2}\\newcommand{\\g}[2][u]{#1#2}\\newenvironment{e}[1]{#1}{!}"]] + [mac] * chk.pick(3, 4), OK, minlen=2, invariants=RUNINV, timeout=850)
    # one fault anywhere in a document that is otherwise in order: always rejected; without it: accepted
    r = random.Random(chk.seed)
    docs = {}

    def wrap(x, k):
        for _ in range(k):
            a, b = r.choice(HOSTS)
            if a in ("$", "\\[", "\\(u") and (x.count("$") or "\\[" in x or "\\(" in x):
                a, b = "{", "}"
            l, g = r.choice(GOODS + [""] * 20), r.choice(GOODS + [""] * 20)
            if "newenv" in l + g or "$" in l + g or "\\[" in l + g or a in ("$", "\\[", "\\(u"):
                l = g = ""
            x = a + l + x + g + b
        return x
    for h in HOSTS:
        for f in FAULTS:
            if h[0] == "$" and "$" in f:
                continue
            docs[h[0] + f + h[1]] = False
            docs["u " + h[0] + f + h[1] + " v"] = False
        for g in GOODS:
            if not (h[0] in ("$", "\\[", "\\(u") and ("$" in g or "\\[" in g)):
                docs[h[0] + g + h[1]] = True
                docs["u " + h[0] + g + h[1] + " v"] = True
    items = list(docs.items())
    r.shuffle(items)
    docs = dict(items[: chk.pick(2200, 10 ** 6)])
    for _ in range(chk.pick(1500, 20000)):
        docs[wrap(r.choice(FAULTS), r.randint(2, 4))] = False
        docs[wrap(r.choice(GOODS), r.randint(2, 4))] = True
    p.file("made", list(docs), OK, extra=lambda d: {"good": docs[d]}, invariants=RUNINV + ("C20_AsMade",), timeout=850)
    p.file("random", rnd(chk, chk.pick(1200, 15000), damage=0.5, feats=gen.ALL + ("unknown",)), OK, invariants=RUNINV, timeout=850)
    p.replay("random-macros", rnd(chk, chk.pick(500, 6000), damage=0.5, feats=gen.ALL + ("unknown", "macro", "menvs")), OK, invariants=RUNINV, timeout=850)
    p.file("random-default", rnd(chk, chk.pick(700, 8000), sp="default", damage=0.3, feats=gen.ALL + ("unknown",)), OK, sp="default", timeout=850)
    # every built-in name is accepted with its arguments, and no longer or shorter name is
    t = p.default_table()
    docs = {}
    for n in sorted(t):
        if not n or not n[0].isalpha():
            continue
        a = t[n]["a"]
        if t[n]["t"] == "cmd":
            if n in ("item", "label", "caption", "includegraphics", "color", "textcolor", "colorbox", "right", "left", "begin", "end", "fi", "else") or n.startswith("if"):
                continue
            args = "{a}" * (a[1] if a[0] == "n" else 1 if a[0] == "greedy" else 0 if a[0] in ("none", "left1", "infix") else 2)
            docs["u \\%s%s v" % (n, args)] = True
            if n + "x" not in t and n[-1] != "*":
                docs["u \\%sx%s v" % (n, args)] = False
        elif t[n]["ctx"] in ("none", "math", "matrix", "cases"):
            args = "{c}" * (a[1] if a[0] == "n" else 0)
            docs["u \\begin{%s}%sa\\end{%s} v" % (n, args, n)] = True
            docs["u \\begin{x%s}%sa\\end{x%s} v" % (n, args, n)] = False
    p.file("names", shuffled(chk, docs, chk.pick(900, 10 ** 6)), OK, sp="default", extra=lambda d: {"good": docs[d]}, invariants=("C20_AsMade",), timeout=850)
    return {}


# ---------------------------------------------------------------------------
def spectable(chk, name, conf, recs=None, timeout=600):
    cp = os.path.join(chk.work, name + ".conf.json")
    write_json(cp, dict({"len": 1, "names": [], "aliases": [], "patterns": [], "nums": []}, **conf))
    e = {"CONF": cp}
    if recs is not None:
        e["DOCS"] = os.path.join(chk.work, name + ".docs.ndjson")
        write_ndjson(e["DOCS"], recs)
    r = tlc(chk.work, name, "SpecTable", CFGS + "".join(f"INVARIANT {i}\n" for i in ("Faithful", "RoundTrip", "LaterWins")) + "PROPERTY EncodingKeeps\n", e, timeout)
    chk.count_tlc(name, r)
    if not r.ok:
        raise ToolError(f"the specification violates {r.violated} ({name}):\n" + r.text[-2500:])
    if recs is not None and len(r.recs) != len(recs):
        raise ToolError(f"{name}: {len(r.recs)} of {len(recs)} came back from TLC")
    return r.recs


def tables_agree(chk, p, name, recs):
    """recs: (forms, items the specification gives)"""
    out = p.h.run([{"op": "spec", "json": json.dumps({"commands": f}, ensure_ascii=False)} for f, _ in recs])
    for (forms, want), y in zip(recs, out):
        if y.get("skipped"):
            continue
        data = {"forms": forms, "want": want, "got": y, "run": name}
        bad = None
        if "items" not in y:
            bad = "not accepted: %s" % y.get("bad", "crash")
        elif y.get("panic"):
            bad = "panic in %s: %s" % tuple(y["panic"][0])
        elif y["items"] != want:
            bad = "items: " + pipeline.diff(y["items"], want)
        elif y["bytes"] != [want]:
            bad = "after the binary encoding: " + pipeline.diff(y["bytes"], [want])
        elif y["json"] != [want]:
            bad = "after JSON: " + pipeline.diff(y["json"], [want])
        elif y["lookup"]:
            bad = "looking up %r by kind" % (y["lookup"],)
        if bad:
            chk.violation(f"specification {forms!r}: {bad}", data)
        chk.traces += 1
    chk.sample({"run": name, "forms": recs[len(recs) // 2][0], "items": recs[len(recs) // 2][1]}, 10)


NAMEPOOL = ["a", "ab", "alpha", "abcdefg", "abcdefgh", "abcdefghi", "n" * 15, "n" * 16, "n" * 17, "x" * 70, "é中", "*", "a*", "", " ", "\\", "{", "\"", "a\nb", "ﬁ"]


def form(r, al, pats):
    ctx = {"kind": r.choice(list(specs.CTX.values()))}
    pat = r.choice([specs.NONE, specs.FIX(r.choice([0, 1, 2, 3, 9, 127, 128, 255])), specs.RNG(r.randint(0, 255), r.randint(0, 255)), specs.GREEDY, specs.GLOB(r.choice(pats))])
    k = r.randint(0, 13)
    if k < 7:
        return {"kind": ["sym", "cmd0", "cmd1", "cmd2", "left1-cmd", "matrix-env", "normal-env"][k]}
    if k < 10:
        return {"kind": ["alias-sym", "greedy-cmd", "infix-cmd"][k - 7], "alias": r.choice(al)}
    if k == 10:
        return {"kind": "glob-cmd", "pattern": r.choice(pats), "alias": r.choice(al)}
    if k == 11:
        return {"kind": "glob-env", "pattern": r.choice(pats), "alias": r.choice(al), "ctx_feature": ctx}
    f = {"kind": "cmd", "args": r.choice([specs.R(pat), specs.R(pat), specs.LEFT, specs.INFIX])} if k == 12 else {"kind": "env", "args": pat, "ctx_feature": ctx}
    if r.random() < 0.6:
        f["alias"] = r.choice(al)
    return f


@check("C21")
def c21(chk, p):
    al = ["", "f", "#f", "abcdefg", "abcdefgh", "quote(block: true)", "é"]
    pats = ["t", "*", "{,b}t", "[bp]t{b,pt}t", "{,b}tttttttt"]
    one = spectable(chk, "one", {"mode": "table", "len": 1, "names": ["a", "abcdefgh", "é*"], "aliases": al if chk.thorough else al[:5], "patterns": pats if chk.thorough else pats[1:4], "nums": [0, 1, 2, 255] if chk.thorough else [0, 2, 255]}, timeout=850)
    few = spectable(chk, "several", {"mode": "table", "len": chk.pick(2, 3), "names": ["a", "b"] if chk.thorough else ["a", "b", "c*"], "aliases": ["x"], "patterns": ["t"], "nums": [1]}, timeout=850)
    seen, recs = set(), []
    for x in one + few:
        k = json.dumps(x["forms"], sort_keys=True)
        if k not in seen:
            seen.add(k)
            recs.append((x["forms"], x["items"]))
    tables_agree(chk, p, "enumerated", recs)
    r = random.Random(chk.seed)
    docs = []
    for _ in range(chk.pick(250, 3000)):
        n = r.choice([1, 2, 3, 5, 8, 13, 40, 120])
        names = [r.choice(NAMEPOOL[:13] + NAMEPOOL[14:]) + r.choice(["", str(r.randint(0, 999)), "*"]) for _ in range(n)]
        docs.append({"forms": {m: form(r, NAMEPOOL[:14], NAMEPOOL[:13] + pats) for m in names if m}})
        docs[-1]["forms"].setdefault("q", {"kind": "sym"})
    # an empty pattern on its own (see known_findings.txt)
    docs.append({"forms": {"a": {"kind": "glob-cmd", "pattern": "", "alias": "f"}}})
    got = spectable(chk, "random", {"mode": "recorded"}, docs)
    tables_agree(chk, p, "random", [(docs[x["id"] - 1]["forms"], x["items"]) for x in got])
    return {}


# ---------------------------------------------------------------------------
TEXTS = ["%", "% c", "%}$", "%\\end{m}{", "%\\fi \\iffalse", "%%&\\\\", "%\\newcommand{\\s}{u}\\"]
BREAKS = ["\\f\n{a}\n{b}", "\\f\na\nb", "x\n^\n2\n_\n3", "x\n'\n'", "\\q\n[\nn\n]\n{\nx\n}", "\\left\n(\na\n\\right\n)", "$\na\n$", "\\[\na\n\\]", "{\n}", "{\na\n}",
          "\\begin{m}\na\n&\nb\n\\\\\nc\n\\end{m}", "\\begin{c}\na\n&\n\\\\\n\\end{c}", "\\begin{al}\na\n&\nb\n\\\\\n\\label{l}\n\\end{al}", "\\begin{a}\n{c}\na\n\\end{a}",
          "\\begin{it}\n\\item\na\n\\item\n\\begin{en}\n\\item\nb\n\\end{en}\n\\end{it}", "\\begin{tab}\n{c|c}\n\\hline\na\n&\nb\n\\\\\n\\hline\n\\end{tab}",
          "\\begin{fig}\n[h]\n\\caption\n{a\n}\n\\includegraphics\n[width=1cm\n]\n{a.png\n}\n\\label\n{b\n}\n\\end{fig}", "\\g\na\n\\s", "{\\g\na}", "a\n\\i\nb", "a\n\\l\n_b", "\\sum\n\\l\n_b",
          "\\newcommand\n{\\k}\n[1]\n{a\n#1\nb}\n\\k\n{x\ny}", "\\newcommand\n\\k\n{a\n}\nx\n\\k\ny", "\\newcommand{\\k}\n[2]\n[d\n]\n{#1\n#2}\\k\n[e\n]\n{f}", "\\renewcommand\n{\\s}\n{b\n}\n\\s",
          "\\newenvironment\n{e}\n[1]\n{p\n#1}\n{q\n}\n\\begin{e}\n{x}\nk\n\\end{e}", "\\iftrue\na\n\\else\nb\n\\fi", "\\iffalse\na\n\\else\nb\n\\fi\nc", "\\begin{n}\na\n\\end{n}", "\\color\n{red}\na\n", "\\textbf\n{a\n}",
          "\\o\na\n", "\\item\n", "\\substack\n{a\n\\\\\nb}", "$a\n\\text\n{b}$", "\\textcolor\n[rgb]\n{1,0,0}\n{a\n}", "a\n\n\nb", "\\begin{eg}\n[x\n]\n{y\n}\nz\n\\end{eg}", "\\r\na\nb\nc", "\\qp\n[a\n]\n(b\n)\nc", "\\operatorname\n{a\n}"]


def paras(d):
    return not re.search(r"command|environment|\\(if|fi|else|caption|begin\{fig)", d)


def edits(chk, p, name, docs, n, texts, sp="small", timeout=850):
    docs = list(dict.fromkeys(docs))
    e = p.paths(name, {"edits": n, "texts": [list(t) for t in texts], "sp": sp}, docs + ["".join(t) for t in texts], [sp])
    e["DOCS"] = os.path.join(chk.work, name + ".docs.ndjson")
    write_ndjson(e["DOCS"], [{"id": i, "cs": list(d), "paras": paras(d)} for i, d in enumerate(docs)])
    r = tlc(chk.work, name, "Comments", CFGS + "PROPERTY Quiet\n", e, timeout)
    chk.count_tlc(name, r)
    if not r.ok:
        raise ToolError(f"the specification violates {r.violated} ({name}):\n" + r.text[-3500:])
    if len({x["id"] for x in r.recs}) != len(docs):
        raise ToolError(f"{name}: not all documents came back from TLC")
    recs = list({("".join(x["cs"])): x for x in r.recs if x["want"]}.items())
    out = p.h.run([{"op": "doc", "doc": d, "spec": sp, "views": ["text", "math"]} for d, _ in recs])
    def squash(s, v):
        if v == "text" and paras(docs[x["id"]]):  # an empty line is a new paragraph
            s = re.sub(r"(?=\s)[^\S\n]*\n[^\S\n]*\n\s*(?=\S)", "¶", s)
        s = "".join(c for c in s if not c.isspace())
        while "$$" in s:
            s = s.replace("$$", "")
        return s

    for (d, x), y in zip(recs, out):
        if y.get("skipped"):
            continue
        b = pipeline.broken(y, ["text", "math"])
        data = {"doc": d, "without_the_comments": docs[x["id"]], "spec": sp, "want": x["want"], "run": name}
        if b:
            chk.violation(f"{b} on {d!r}", data)
            continue
        for v, w in zip(("text", "math"), x["want"]):
            g = [y[v][0], squash(y[v][1], v) if y[v][0] else ""]
            if g != w:
                chk.violation(f"{v} of {d!r} ({docs[x['id']]!r} with other comments): {pipeline.diff(g, w)}", dict(data, got=g))
                break
        chk.traces += 1
    for d, x in recs[:: max(1, len(recs) // 3)][:3]:
        chk.sample({"run": name, "doc": d, "spec_result": x["want"]}, 12)


@check("C24")
def c24(chk, p):
    edits(chk, p, "places", BREAKS, 1, TEXTS)
    edits(chk, p, "twice", shuffled(chk, [d for d in BREAKS if d.count("\n") <= 5], chk.pick(12, 40)), 2, ["%", "%}$", "%\\fi"] if chk.thorough else ["% c"])
    feats = tuple(f for f in gen.ALL if f != "typst")
    lines = lambda ds: [d for d in ds if 0 < d.count("\n") + d.count("\r") <= 14]
    edits(chk, p, "random", lines(rnd(chk, chk.pick(90, 1500), feats=feats)), 1, TEXTS[2:4] if not chk.thorough else TEXTS)
    edits(chk, p, "macros", lines(rnd(chk, chk.pick(70, 1200), feats=feats + ("macro", "menvs"))), 1, TEXTS[3:5] if not chk.thorough else TEXTS)
    edits(chk, p, "damaged", lines(rnd(chk, chk.pick(50, 1000), damage=0.6, feats=feats + ("unknown",))), 1, TEXTS[2:3])
    return {}
