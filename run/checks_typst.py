"""C25 .. C28: what Typst makes of the converted documents."""
import random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from check import *
from checks_pkg import scratch, tool, TYPST
from checks_sys import CFGS

# pictures are only described, not loaded
PICTURES = '#let scope = mitex-scope + (image: (..a) => metadata((kind: "image", pos: a.pos(), named: a.named())))\n'
SCOPE = '#import "/packages/mitex/specs/mod.typ": mitex-scope\n'


def typst_query(root, name, text, timeout=300):
    path = os.path.join(root, name + ".typ")
    open(path, "w").write(text)
    r = subprocess.run([TYPST, "query", "--root", root, "--package-path", os.path.join(root, "registry"), path, "<out>", "--field", "value"], env=env(), capture_output=True, text=True, timeout=timeout)
    if r.returncode:
        return None, r.stderr
    return json.loads(r.stdout)[0], ""


class Reader:
    """Typst reads converted documents: the content of each, or what it objects to"""

    def __init__(self, chk):
        self.root = scratch(chk, "typst")
        shutil.copytree(os.path.join(REPO, "packages"), os.path.join(self.root, "packages"))
        shutil.copy(os.path.join(VERIF, "typst", "norm.typ"), self.root)

    def read(self, items, how="norm"):
        """items: (mode, typst source); a list of ("ok", nodes) or ("error", message)"""
        return self.ask(items, f'#import "norm.typ": {how}\n' + SCOPE + PICTURES +
                        '#let d(x) = eval(x.at(1), mode: if x.at(0) == "math" { "math" } else { "markup" }, scope: scope)\n'
                        f'#context [#metadata(json("docs.json").map(x => {how}(d(x)))) <out>]')

    def read_files(self, names, how="tnorm"):
        """files of Typst"""
        return self.ask(names, f'#import "norm.typ": {how}\n#let d(x) = include x\n'
                        f'#context [#metadata(json("docs.json").map(x => {how}(d(x)))) <out>]')

    def ask(self, items, text):
        res = [None] * len(items)
        todo = [list(range(len(items)))]
        n = 0
        while todo:
            part = todo.pop()
            if not part:
                continue
            n += 1
            with open(os.path.join(self.root, "docs.json"), "w") as f:
                json.dump([items[i] for i in part], f)
            v, err = typst_query(self.root, "read", text)
            if v is not None:
                for i, x in zip(part, v):
                    res[i] = ("ok", x)
            elif len(part) == 1:
                res[part[0]] = ("error", err.split("\n")[0])
            elif n < 200 or not any(x and x[0] == "error" for x in res):
                k = len(part) // 2
                todo += [part[:k], part[k:]]
        return [x or ("unread", "") for x in res]


# ---------------------------------------------------------------------------
# the nodes of Formula.tla
BLANK = {" ", "\u200b", ""}
WRAPS = {"overline", "underline", "limits", "scripts", "mid", "hide", "stretch", "overbrace", "underbrace", "overbracket", "underbracket", "align"}


def canon(ns):
    res = []
    for n in ns:
        k = n[0]
        if k == "t":
            c = n[1].replace("\ufe0e", "")  # the mark for the text form
            if c not in BLANK:
                res.append(["t", c])
        elif k == "att":
            b, t, s, tl, bl, tr, br = map(canon, n[1:])
            if tl or bl or br or (tr and tr[0][0] != "pr"):
                res.append(["att?", b, t, s, tl, bl, tr, br])
            elif tr and not t and not s:
                res += b + tr
            else:
                res.append(["att", b, t, s] + ([tr] if tr else []))
        elif k in ("frac", "root", "binom"):
            res.append([k] + [canon(x) for x in n[1:]])
        elif k == "lr":
            res.append(["lr", canon(n[1]), n[2].replace(" + 0pt", "").replace("0% + ", "")])
        elif k == "accent":
            res.append(["acc", canon(n[1]), n[2].strip('"').replace("\\u{", "").replace("}", "")])
        elif k == "mat":
            d = re.match(r'\("(.)', n[1])
            res.append(["mat", d[1] if d else "", [[canon(c) for c in row] for row in n[2:]]])
        elif k == "cases":
            res.append(["cases", "right" if n[1] == "true" else "left", [canon(c) for c in n[2:]]])
        elif k == "op":
            res.append(["op", canon(n[1]), n[2] == "true"])
        elif k == "styled":
            x = canon(n[1])
            # (the alignment of an array is a style around it, which does not show)
            res += x if len(x) == 1 and x[0][0] == "array" else [["style", x, n[2]]]
        elif k == "class":
            res.append(["class", n[1], canon(n[2])])
        elif k in ("&", "br", "pr", "h"):
            res.append(n)
        elif k in WRAPS and len(n) == 3:
            res.append([k, canon(n[2])])
        elif k == "cancel":
            f = dict(n[1])
            res.append(["cancel", "inverted" if f.get("inverted") == "true" else f.get("angle", ""), canon(n[2])])
        elif k == "box":
            f = dict(n[1])
            how = [x for x, y in (("fill", "fill"), ("stroke", "frame"), ("height", "height"), ("width", "width")) if x in f]
            res.append(["box", {"stroke": "frame"}.get(how[0], how[0]) if how else "", canon(n[2])])
        elif k == "smartquote":
            res.append(["t", "\"" if dict(n[1])["double"] == "true" else "'"])
        elif k in ("strong", "emph") and len(n) == 3:
            res.append([k, canon(n[2])])
        elif k == "pad" and n[2][0][0] == "block":
            x = n[2][0][2]
            res.append(["block", canon(x[0][1] if len(x) == 1 and x[0][0] == "op" else x)])
        elif k == "pad" and n[2][0][0] == "grid":
            g = n[2][0]
            f = dict(g[1])
            al = [a for a in re.findall(r"\w+", f.get("align", ""))]
            cells = [canon(c[0][2]) for c in g[2:]]
            m = int(f["columns"]) if f["columns"].isdigit() else len(re.findall("auto", f["columns"]))
            res.append(["array", al, [cells[i:i + m] for i in range(0, len(cells), m)]])
        else:
            res.append([k, n[1:]])
    return res


def primes(ns):
    """primes next to each other are primes together"""
    res = []
    for n in ns:
        if isinstance(n, list) and n and n[0] == "pr" and res and isinstance(res[-1], list) and res[-1] and res[-1][0] == "pr":
            res[-1] = ["pr", res[-1][1] + n[1]]
        else:
            res.append(n)
    return res


def trimmed(rows):
    """without the empty columns at the end, which do not show"""
    while rows and rows[0] and all(r and r[-1] == [] for r in rows) and len(rows[0]) > 1:
        rows = [r[:-1] for r in rows]
    return rows


def agrees(want, got):
    """the meaning against the canonical content (which lists the possible styles)"""
    if isinstance(want, list) != isinstance(got, list):
        return False
    if not isinstance(want, list):
        return want == got
    while want and want[0] == "style" and len(want[1]) == 1 and want[1][0][0] == "array":
        want = want[1][0]
    want, got = primes(want), primes(got)
    if want and got and want[0] == "mat" and got[0] == "mat":
        return want[1] == got[1] and agrees(trimmed(want[2]), trimmed(got[2]))
    if want and got and want[0] == "array" and got[0] == "array":
        a, b = trimmed(want[2]), trimmed(got[2])
        return agrees(a, b) and (not got[1] or want[1][:len(a[0])] == got[1][:len(b[0])])
    if len(got) == len(want) + 1 and got[-1] == ["br"]:
        got = got[:-1]  # a line break at the end begins no line
    if len(want) == 1 and isinstance(want[0], list) and want[0] and want[0][0] == "style?" and not (got and isinstance(got[0], list) and got[0] and got[0][0] == "style"):
        return agrees(want[0][1], got)  # (the style there is already)
    if want and got and want[0] == "style?" and got[0] == "style":
        while True:  # (any number of the styles there are its own)
            if agrees(want[1], got[1]):
                return True
            if len(got[1]) != 1 or got[1][0][0] != "style":
                return False
            got = got[1][0]
    if len(want) != len(got):
        return False
    if want and want[0] == "style" and got[0] == "style" and len(want[1]) == 1 and want[1][0][0] == "style" and not (len(got[1]) == 1 and got[1][0][0] == "style"):
        return agrees(want[1][0], got)  # (two styles are one)
    if want and want[0] == "style" and got[0] == "style" and isinstance(got[2], list):
        return want[2] in got[2] and agrees(want[1], got[1])
    return all(agrees(a, b) for a, b in zip(want, got))


def merged(ns):
    """a style around nothing but a style"""
    if not isinstance(ns, list):
        return False
    if ns and ns[0] == "style" and len(ns[1]) == 1 and ns[1][0][0] == "style":
        return True
    return any(merged(x) for x in ns)


PLAIN = [("a", "a"), ("x", "x"), ("2", "2"), ("+", "+"), ("-", "−"), ("=", "="), (",", ","), (";", ";"), ("(", "("), (")", ")"), ("/", "/"), ("!", "!"), ("|", "|"),
         ("[", "["), ("]", "]"), ("<", "<"), (">", ">"), (":", ":"), (".", "."), ("*", "*"), ("\"", "\""), ("?", "?"), ("@", "@"), ("`", "`"), ("12", "12"), ("ab", "ab"), ("~", "\u00a0"), ("é", "é")]


def atom(s, m, **k):
    a = {"s": s, "m": m, "split": False, "off": False, "first": True, "short": True, "top": True}
    a.update(k)
    return a


def atoms(symbols=()):
    res = [atom(s, [["t", c] for c in m], split=len(m) > 1, first=s not in "[]", off=s in "*@", short=len(s) == 1 and s not in "[]*~") for s, m in PLAIN]
    tab = json.load(open(os.path.join(VERIF, "run", "symbols.json")))
    for n in symbols:
        m = tab[n]
        res.append(atom("\\" + n + (" " if n[-1:].isalpha() else ""), m, split=len(m) > 1 and all(x[0] == "t" for x in m), off=any(x[0] == "h" for x in m) or m == [["t", "\u00a0"]] or m == [], first=n not in ("lbrack", "rbrack"),
                        short=len(m) == 1 and m[0][0] in ("t", "op")))
    return res


def formulas(chk, p, name, conf, rnd_num=0, timeout=800):
    cp = os.path.join(chk.work, name + ".formula.json")
    write_json(cp, conf)
    e = p.paths(name, {}, [], [])
    e["FORMULA"] = cp
    extra = ["-simulate", f"num={rnd_num}", "-depth", "400", "-seed", str(chk.seed)] if rnd_num else []
    r = tlc(chk.work, name, "MCFormula", "INIT FInit\nNEXT FNext\nCHECK_DEADLOCK FALSE\nINVARIANT Emit_\n", e, timeout, extra=extra)
    chk.count_tlc(name, r)
    return r


USE = ("_ ^ ' limits left frac cfrac dfrac tfrac binom dbinom tbinom stackrel overset underset not cancel xcancel bcancel sout overline underline underbar boxed fbox "
       "phantom hphantom vphantom pmod pod set Set bra Bra ket Ket braket Braket operatorname operatorname* operatornamewithlimits mathclap smash hbox sqrt textcolor colorbox "
       "mathbf bold bm boldsymbol pmb mathrm mathit mathnormal mathsf mathfrak mathtt Bbb mathbb mathcal mathscr text textmd textnormal textbf textit textrm textup textsf texttt "
       "displaystyle textstyle scriptstyle scriptscriptstyle bf rm it sf frak tt cal grave acute hat widehat tilde widetilde bar breve u dot ddot dddot ddddot H check widecheck v r "
       "mathring vec overrightarrow overleftarrow overleftharpoon overrightharpoon overleftrightarrow overlinesegment overgroup undergroup mathbin mathclose mathinner mathop mathopen "
       "mathord mathpunct mathrel big bigl bigm bigr Big Bigl Bigm Bigr bigg biggl biggm biggr Bigg Biggl Biggm Biggr overbrace underbrace overbracket underbracket xleftarrow "
       "xrightarrow xLeftarrow xRightarrow xleftrightarrow xLeftrightarrow xhookleftarrow xhookrightarrow xtwoheadleftarrow xtwoheadrightarrow xleftharpoonup xrightharpoonup "
       "xleftharpoondown xrightharpoondown xleftrightharpoons xrightleftharpoons xtofrom xmapsto xlongequal over choose atop brace brack matrix pmatrix bmatrix Bmatrix vmatrix Vmatrix "
       "aligned align align* equation equation* split gather gather* gathered smallmatrix cases rcases array subarray alignedat substack").split()
MACROS = ["mf", "mo", "mv", "mm", "me"]


def meanings_agree(chk, p, name, recs, reader):
    recs = {x["s"]: x["m"] for x in recs}
    recs = [(s, m) for s, m in recs.items() if not merged(m)]
    out = p.h.run([{"op": "doc", "doc": s, "spec": "default", "views": ["math"]} for s, _ in recs])
    ok = [(s, m, y["math"][1]) for (s, m), y in zip(recs, out) if y.get("math") and y["math"][0]]
    for (s, m), y in zip(recs, out):
        b = pipeline.broken(y, ["math"])
        if y.get("skipped"):
            continue
        if b or not y["math"][0]:
            chk.violation(f"{b or 'rejected'}: {s!r}", {"doc": s, "meaning": m, "got": y, "run": name})
    for (s, m, o), (st, g) in zip(ok, reader.read([("math", o) for _, _, o in ok])):
        if st == "unread":  # there are violations enough
            continue
        chk.traces += 1
        if st != "ok":
            chk.violation(f"Typst does not accept what {s!r} converts to: {o!r}: {g}", {"doc": s, "typst": o, "run": name, "error": g})
            continue
        g = canon(g)
        if not agrees(m, g):
            chk.violation(f"{s!r} converts to {o!r}, which means {json.dumps(g, ensure_ascii=False)[:400]}, not {json.dumps(m, ensure_ascii=False)[:400]}", {"doc": s, "typst": o, "want": m, "got": g, "run": name})
    for s, m, o in ok[:: max(1, len(ok) // 3)][:3]:
        chk.sample({"run": name, "doc": s, "typst": o, "meaning": m}, 12)



# what mitex is known to get wrong (known_findings.txt): a document for each, with its meaning
def t(*cs):
    return [["t", c] for c in cs]


KNOWN_SYMBOLS = ("o O aa bigstar lVert rVert preccurlyeq succcurlyeq argmax argmin dashleftarrow dashrightarrow approxcolon approxcoloncolon "
                 "lceil rceil lfloor rfloor lgroup rgroup ulcorner urcorner llcorner lrcorner lBrace rBrace rmoustache textbraceleft textbraceright").split()
KNOWN_USE = ["atop", "Vmatrix", "smallmatrix", "mathscr"]
FIXED = [
    ("x_1'", [["att", t("x"), [], t("1"), [["pr", 1]]]]),
    ("x'_1", [["att", t("x"), [], t("1"), [["pr", 1]]]]),
    ("_1^2", [["att", [], t("2"), t("1")]]),
    ("\\text{x}'", t("x") + [["pr", 1]]),
    ("a \\atop b", [["mat", "", [[t("a")], [t("b")]]]]),
    ("\\begin{Vmatrix}a\\end{Vmatrix}", [["mat", "‖", [[t("a")]]]]),
    ("\\begin{smallmatrix}a\\end{smallmatrix}", [["style", [["mat", "", [[t("a")]]]], "inline"]]),
    ("\\mathscr{\\frac{a}{b}}", [["style", [["frac", t("a"), t("b")]], "scr"]]),
    ("x_\\rmoustache ", [["att", t("x"), [], t("⎱")]]),
    ("\\left\\lfloor x\\right.", [["lr", t("⌊", "x"), "100%"]]),
    ("\\sqrt[]{x}", [["root", [], t("x")]]),
    ("{a\\bf}", t("a") + [["style", [], "bold"]]),
    ("\\begin{array}{cc}a&b\\end{array}", [["array", ["center", "center"], [[t("a"), t("b")]]]]),
]


def atoms_of(names, **k):
    return [dict(a, **k) for a in atoms(names)]


@check("C27")
def c27(chk, p):
    """What a formula means to its author is what Typst makes of the converted formula."""
    rd = Reader(chk)
    rnd = random.Random(chk.seed)
    tab = json.load(open(os.path.join(VERIF, "run", "symbols.json")))
    names = sorted(n for n in tab if n not in KNOWN_SYMBOLS)
    shown = [n for n in names if tab[n]]  # (without those that show nothing)
    use = [n for n in USE if n not in KNOWN_USE]
    few = [a for a in atoms(["sum", "alpha", "sin"]) if a["s"] in ("x", "ab", "\\sum ")]
    base = {"turns": False, "defs": False, "delims": [1, 2, 6, 7], "depth": 6}
    # known findings and what they are about
    meanings_agree(chk, p, "fixed", [{"s": s, "m": m} for s, m in FIXED] +
                   [{"s": "\\mathrm{\\%s }" % n, "m": [["style", tab[n], "upright"]]} for n in KNOWN_SYMBOLS], rd)
    # every symbol, alone and inside of others
    for i in range(0, len(shown), chk.pick(len(shown), 400)):
        part = shown[i:i + chk.pick(len(shown), 400)]
        r = formulas(chk, p, f"symbols{i}", dict(base, atoms=atoms_of(part, top=False), use=chk.pick(["_", "frac", "mathrm"], ["_", "frac", "sqrt", "mathrm", "matrix", "left"]), fuel=chk.pick(1, 2), depth=6))
        meanings_agree(chk, p, f"symbols{i}", r.recs, rd)
    # every command and environment, also inside of each other
    for i in range(chk.pick(1, 1)):
        r = formulas(chk, p, f"pairs{i}", dict(base, atoms=few, use=chk.pick(rnd.sample(use, 60) + ["_", "^"], use), fuel=2))
        meanings_agree(chk, p, f"pairs{i}", r.recs, rd)
    if chk.thorough:
        for i in range(8):
            r = formulas(chk, p, f"triples{i}", dict(base, atoms=few, use=rnd.sample(use, 10) + ["_", "^"], fuel=3))
            meanings_agree(chk, p, f"triples{i}", r.recs, rd)
    # long formulas of anything
    for i in range(chk.pick(1, 5)):
        r = formulas(chk, p, f"long{i}", dict(base, atoms=atoms(rnd.sample(shown, 60)), use=use + MACROS, fuel=14 + 4 * i, depth=9, turns=True, defs=True, delims=[i for i in range(1, 18) if i not in (11, 12)]), chk.pick(300, 1000))
        meanings_agree(chk, p, f"long{i}", r.recs, rd)
    return {}


# ---------------------------------------------------------------------------
# the nodes of Text.tla
WHITE = (["sp"], ["par"])
BLOCKS = ("head", "quote", "li", "ei", "table", "fig")


def is_block(n):
    return n[0] in BLOCKS or (n[0] == "eq" and n[1])


def flat(m):
    """text inside of a formula, where white space does not count"""
    res = []
    for n in m:
        if not (isinstance(n, list) and n and isinstance(n[0], str)):
            res.append(flat(n) if isinstance(n, list) else n)
        elif n[0] in ("sp", "lab"):
            pass
        elif n[0] == "eq":
            res += flat(n[2])
        elif n[0] == "sy":
            res.append(["t", n[1]])
        elif n[0] == "fill":
            x = flat(n[1])
            res.append(x[0] if len(x) == 1 and x[0][0] == "style?" else ["style?", x])
        elif n[0] == "box" and len(n) == 2:
            res.append(["box", "fill", flat(n[1])])
        elif n[0] in ("strong", "emph"):
            res.append([n[0], flat(n[1])])
        else:
            res.append([n[0]] + [flat(x) if isinstance(x, list) else x for x in n[1:]])
    return res


CHARS = {"\u2212": "-", "\u2019": "'", "\u2026": "..."}


def dots(m):
    """characters of text inside of a formula are those of text"""
    res = []
    for n in m:
        if n == ["t", "\u00a0"]:
            pass
        elif isinstance(n, list) and len(n) == 2 and n[0] == "t" and isinstance(n[1], str):
            res += [["t", c] for c in CHARS.get(n[1], n[1])]
        else:
            res.append(dots(n) if isinstance(n, list) else n)
    return res


def text_nodes(ns, block=False, want=True):
    """the canonical form of what a document shows"""
    out = []
    for n in ns:
        k = n[0]
        if k == "text":
            out += [["sp"] if c == " " else ["t", x] for c in n[1] for x in CHARS.get(c, c)]
        elif k == "t":
            out.append(n)
        elif k in ("li", "ei", "quote"):
            out.append([k, text_nodes(n[1], True, want)])
        elif k == "fig":
            out.append([k, [text_nodes(x, False, want) for x in n[1]], text_nodes(n[2], True, want)])
        elif k == "head":
            out.append([k, n[1], text_nodes(n[2], False, want)])
        elif k == "table":
            es, run = [], 0
            for e in n[3]:
                es.append(["cell", text_nodes(e[1], True, want)] if e[0] == "cell" else e)
            cells = sum(e[0] == "cell" for e in es)
            es += [["cell", []]] * (-cells % len(n[1]))  # the last row may end early
            out.append(["table", n[1], n[2], es])
        elif k in ("strong", "emph", "foot", "fill", "box"):
            x = text_nodes(n[1], False, want)
            out.append(x[0] if k == "fill" and len(x) == 1 and x[0][0] == "fill" else [k, x])
        elif k == "eq":
            out.append(["eq", n[1], dots(flat(n[2]) if want else canon(n[2]))])
        else:
            out.append(n)
    res = []
    for n in out:
        if n in WHITE:
            if res and res[-1] in WHITE:
                res[-1] = ["par"] if ["par"] in (n, res[-1]) else n
                continue
            if (not res and block) or (res and (is_block(res[-1]) or res[-1][0] == "br" or (res[-1][0] == "lab" and len(res) > 1 and is_block(res[-2])))):
                continue
        if (is_block(n) or n[0] == "br") and res and res[-1] in WHITE:
            res.pop()
        res.append(n)
    if block and res and res[-1] in WHITE:
        res.pop()
    return res


def shows(want, got):
    """a canonical document against another"""
    if len(want) != len(got):
        return False
    for a, b in zip(want, got):
        if a[0] == "sy":
            if b not in (["t", a[1]], ["eq", False, dots([["t", a[1]]])]):
                return False
        elif a[0] != b[0]:
            return False
        elif a[0] == "eq":
            if a[1] != b[1] or not agrees(a[2], b[2]):
                return False
        elif a[0] in ("li", "ei", "quote", "strong", "emph", "foot", "fill", "box", "cell"):
            if not shows(a[1], b[1]):
                return False
        elif a[0] == "head":
            if a[1] != b[1] or not shows(a[2], b[2]):
                return False
        elif a[0] == "fig":
            if len(a[1]) != len(b[1]) or not all(map(shows, a[1], b[1])) or not shows(a[2], b[2]):
                return False
        elif a[0] == "table":
            if a[1:3] != b[1:3] or not shows(a[3], b[3]):
                return False
        elif a[0] == "hline":
            if a[1] not in b[1]:
                return False
        elif a != b:
            return False
    return True


def word(w, **k):
    return dict({"s": w, "m": list(w), "bracket": w[0] in "[*"}, **k)


WORDS = [word(w) for w in ("a", "if", "x2", "-", "+", "=", "==", "1.", "12)", "*", "**b**", "/", "//", "/*", "http://a.b/c", "@b", "don't", "'tis'", "(a)", "[b]", "[", "]", "a.b", "e.g.", "...",
                           "!", "?", ":", ";", ",", "<b>", "<", ">", "|", "é", "中文", "/t:", "\"q\"", "x@y.z", "a/b", "`c`", "->", "=>", "!=", ":=")]
WORDS += [word("a--b", m=list("a–b")), word("---", m=list("—")), word("a~b", m=list("a\u00a0b"))]
SIGNS = [{"s": s, "m": m} for s, m in
         [("\\" + c, [["sy", c]]) for c in "&%$#_{}"] +
         [("\\dots{}", [["sy", "…"]]), ("\\textbackslash{}", [["sy", "\\"]]), ("\\textdegree{}", [["sy", "°"]]), ("\\textasciitilde{}", [["sy", "∼"]]), ("\\textunderscore{}", [["sy", "_"]]),
          ("\\S{}", [["sy", "§"]]), ("\\dag{}", [["sy", "†"]]), ("\\copyright{}", [["sy", "©"]]), ("\\ss{}", [["sy", "ß"]]), ("\\textbar{}", [["sy", "|"]])]]
TEXT_USE = ("emph textit textbf text textnormal textmd textrm textup footnote underline overline fbox hbox v H u r boxed sout textcolor colorbox section subsection subsubsection "
            "bf it rm sf tt color itemize enumerate quote abstract figure table caption tabular rule comment par br display ref image label group").split()
TEXT_MACROS = ["tq", "tn"]


def texts(chk, p, name, conf, rnd_num=0, timeout=800):
    cp = os.path.join(chk.work, name + ".text.json")
    write_json(cp, conf)
    e = p.paths(name, {}, [], [])
    e["FORMULA"] = cp
    extra = ["-simulate", f"num={rnd_num}", "-depth", "400", "-seed", str(chk.seed)] if rnd_num else []
    r = tlc(chk.work, name, "MCText", "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nINVARIANT TEmit\n", e, timeout, extra=extra)
    chk.count_tlc(name, r)
    return r


def documents_show(chk, p, name, recs, reader):
    recs = list({x["s"]: x["m"] for x in recs}.items())
    out = p.h.run([{"op": "doc", "doc": s, "spec": "default", "views": ["text"]} for s, _ in recs])
    ok = [(s, m, y["text"][1]) for (s, m), y in zip(recs, out) if y.get("text") and y["text"][0]]
    for (s, m), y in zip(recs, out):
        b = pipeline.broken(y, ["text"])
        if y.get("skipped"):
            continue
        if b or not y["text"][0]:
            chk.violation(f"{b or 'rejected'}: {s!r}", {"doc": s, "meaning": m, "got": y, "run": name})
    for (s, m, o), (st, g) in zip(ok, reader.read([("text", o) for _, _, o in ok], "tnorm")):
        if st == "unread":
            continue
        chk.traces += 1
        if st != "ok":
            chk.violation(f"Typst does not accept what {s!r} converts to: {o!r}: {g}", {"doc": s, "typst": o, "run": name, "error": g})
            continue
        m, g = text_nodes(m, True), text_nodes(g, True, False)
        if not shows(m, g):
            chk.violation(f"{s!r} converts to {o!r}, which shows {json.dumps(g, ensure_ascii=False)[:600]}, not {json.dumps(m, ensure_ascii=False)[:600]}", {"doc": s, "typst": o, "want": m, "got": g, "run": name})
    for s, m, o in ok[:: max(1, len(ok) // 3)][:3]:
        chk.sample({"run": name, "doc": s, "typst": o, "shows": m}, 12)


FUEL = {"tables": 4, "groups": 4}
# known findings: documents and what they ought to show
UNTRUE = [
    ("$x$$y$", [["eq", False, t("x")], ["eq", False, t("y")]]),
    ("``a''", [["t", "“"], ["t", "a"], ["t", "”"]]),
    ("\\begin{itemize}\\item[x] a\\end{itemize}", [["term", t("x"), t("a")]]),
    ("a\\\\[2pt]b", [["t", "a"], ["br"], ["t", "b"]]),
    ("\\cite{a,b}", [["cite", "a"], ["cite", "b"]]),
    ("\\cite[c]{a}", [["cite", "a", t("c")]]),
    ("a\n\\newcommand{\\q}{x}\nb", [["t", "a"], ["sp"], ["t", "b"]]),
    ("\\begin{figure}a\n\\label{l}\nb\\end{figure}", [["fig", [], [["t", "a"], ["sp"], ["t", "b"]]], ["lab", "l"]]),
    ("\\begin{tabular}{l}\\hline'a\\end{tabular}", [["table", ["left"], [], [["hline", "0.5pt"], ["cell", [["t", "'"], ["t", "a"]]]]]]),
]


@check("C28")
def c28(chk, p):
    """A document shows the text its author wrote, with its structure."""
    rd = Reader(chk)
    rnd = random.Random(chk.seed)
    few = [w for w in WORDS if w["s"] in ("a", "-")]
    fs = [{"s": "x", "m": t("x")}, {"s": "\\frac{1}{2}", "m": [["frac", t("1"), t("2")]]}]
    base = {"atoms": [], "use": [], "delims": [], "turns": False, "defs": False, "depth": 7}
    r = texts(chk, p, "words", dict(base, fuel=2, text={"vary": True, "words": WORDS, "symbols": SIGNS, "formulas": fs, "use": ["par", "br", "emph", "comment"]}))
    documents_show(chk, p, "words", r.recs, rd)
    one = [w for w in WORDS if w["s"] == "a"]
    documents_show(chk, p, "fixed", [{"s": s, "m": m} for s, m in UNTRUE], rd)
    kinds = {
        "lists": ["itemize", "enumerate", "par"],
        "nests": ["itemize", "enumerate", "quote", "emph"],
        "tables": ["tabular", "rule"],
        "figures": ["figure", "table", "caption", "label", "image"],
        "calls": ["emph", "textbf", "footnote", "underline", "fbox", "textcolor", "colorbox", "section", "text"],
        "groups": ["group", "bf", "it", "rm", "sf", "tt", "color", "par"],
        "pieces": ["display", "ref", "image", "br", "par", "comment", "section", "label"],
    }
    for name, use in kinds.items():
        r = texts(chk, p, name, dict(base, fuel=chk.pick(FUEL.get(name, 3), 4), text={"vary": False, "words": one, "symbols": [], "formulas": fs[:1] if name == "pieces" else [], "use": use}))
        documents_show(chk, p, name, r.recs, rd)
    for i in range(chk.pick(1, 5)):
        r = texts(chk, p, f"long{i}", dict(base, fuel=14 + 4 * i, depth=9, turns=True, defs=True, text={"vary": True, "words": WORDS, "symbols": SIGNS, "formulas": fs, "use": TEXT_USE + TEXT_MACROS}), chk.pick(600, 2000))
        documents_show(chk, p, f"long{i}", r.recs, rd)
    return {}


# ---------------------------------------------------------------------------
# a module with nothing but a memory, for the plugin that a compiled file loads and never calls
EMPTY_WASM = bytes([0, 97, 115, 109, 1, 0, 0, 0, 5, 3, 1, 0, 1, 7, 10, 1, 6]) + b"memory" + bytes([2, 0])


def package(root, wasm):
    """the package of the working tree, installed where compiled files look for it"""
    src = os.path.join(REPO, "packages", "mitex")
    meta = open(os.path.join(src, "typst.toml")).read()
    ver = re.search(r'(?m)^version\s*=\s*"(.*?)"', meta)[1]
    dst = os.path.join(root, "registry", "preview", "mitex", ver)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    open(os.path.join(dst, "mitex.wasm"), "wb").write(wasm)


def compiled_shows(chk, p, name, recs, reader):
    """the real command line compiles each document; Typst reads the file"""
    recs = list({x["s"]: x["m"] for x in recs}.items())
    d = os.path.join(reader.root, name)
    os.makedirs(d, exist_ok=True)

    def compile_(i):
        src, dst = os.path.join(d, f"{i}.tex"), os.path.join(d, f"{i}.typ")
        with open(src, "w", newline="") as f:
            f.write(recs[i][0])
        r = subprocess.run([tool("mitex"), "compile", src, dst], env=env(), capture_output=True, text=True, timeout=60)
        return (r.returncode, r.stderr.strip())

    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(compile_, range(len(recs))))
    ok = []
    for i, ((s, m), (rc, err)) in enumerate(zip(recs, runs)):
        if rc or not os.path.exists(os.path.join(d, f"{i}.typ")):
            chk.violation(f"rejected: {s!r}: {err}", {"doc": s, "meaning": m, "run": name, "error": err})
        else:
            ok.append(i)
    for i, (st, g) in zip(ok, reader.read_files([f"{name}/{i}.typ" for i in ok])):
        s, m = recs[i]
        if st == "unread":
            continue
        chk.traces += 1
        if st != "ok":
            chk.violation(f"Typst does not accept what {s!r} is compiled to: {g}", {"doc": s, "run": name, "error": g})
            continue
        m, g = text_nodes(m, True), text_nodes(g, True, False)
        if not shows(m, g):
            chk.violation(f"{s!r} is compiled to a file that shows {json.dumps(g, ensure_ascii=False)[:600]}, not {json.dumps(m, ensure_ascii=False)[:600]}", {"doc": s, "want": m, "got": g, "run": name})
    for i in ok[:: max(1, len(ok) // 3)][:3]:
        chk.sample({"run": name, "doc": recs[i][0], "shows": recs[i][1]}, 12)


@check("C26")
def c26(chk, p):
    """A compiled file is a document that shows what its author wrote."""
    build("sys")
    rd = Reader(chk)
    package(rd.root, EMPTY_WASM)
    rnd = random.Random(chk.seed)
    tab = json.load(open(os.path.join(VERIF, "run", "symbols.json")))
    names = sorted(n for n in tab if n not in KNOWN_SYMBOLS and tab[n])
    use = [n for n in USE if n not in KNOWN_USE + ["set"]]
    compiled_shows(chk, p, "fixed", [{"s": "$\\set{x}$", "m": [["eq", False, t("{", "x", "}")]]}], rd)
    base = {"atoms": [], "use": [], "delims": [1, 2, 6, 7], "turns": False, "defs": False, "depth": 6}
    none = {"vary": False, "words": [], "symbols": [], "use": []}
    # every name of the package: each symbol, each command and environment
    one = [a for a in atoms() if a["s"] == "x"]
    r1 = formulas(chk, p, "symbols", dict(base, atoms=atoms_of(names), fuel=1))
    r2 = formulas(chk, p, "commands", dict(base, atoms=one, use=use, fuel=2, depth=4))
    fs, seen = {}, {}
    for x in sorted(r1.recs + r2.recs, key=lambda x: (-x["s"].count("x"), x["s"])):  # (with arguments that show)
        k = tuple(sorted(set(re.findall(r"\\(?:begin\{)?(?:[A-Za-z]+\*?|.)", x["s"]))))
        if not merged(x["m"]) and (len(k) < 2 or "\\left" in k or (len(k) == 2 and any("begin" in y for y in k))) and seen.get(k, 0) < 2:
            seen[k] = seen.get(k, 0) + 1
            fs[x["s"]] = x["m"]
    r = texts(chk, p, "names", dict(base, fuel=1, text=dict(none, formulas=[{"s": s, "m": m} for s, m in fs.items()])))
    compiled_shows(chk, p, "names", r.recs, rd)
    # whole documents
    few = [{"s": s, "m": m} for s, m in rnd.sample(sorted(fs.items()), 60)]
    for i in range(chk.pick(1, 4)):
        r = texts(chk, p, f"long{i}", dict(base, fuel=14 + 4 * i, depth=9, turns=True, defs=True, text={"vary": True, "words": WORDS, "symbols": SIGNS, "formulas": few, "use": [u for u in TEXT_USE if u != "image"] + TEXT_MACROS}), chk.pick(300, 600))
        compiled_shows(chk, p, f"long{i}", r.recs, rd)
    return {}
