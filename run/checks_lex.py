"""C01 C02 C03 C11: characters, tokens, reading, patterns."""
import itertools, random
from check import *

# one or two representatives of every category
CHARS = ["a", "Z", "@", "*", "1", "é", "中", "\n", "\r", " ", "\t", "\u00a0", "%", "$", "\\", "{", "}", "[", ")", "&", "_", "'"]
PUNCT = list("{}[](),~/&^'\";#*@_")
WIDE = CHARS + PUNCT + list("bBxyz09.-+=<>|!?:`") + ["\u2028", "\u3000", "\u0085", "\u000b", "\u000c", "ß", "Ω", "😀", "\u0000", "\u200b", "\ufeff",
                                                    "\ufffd", "\u0301", "𝔸", "\u1680", "\u180e", "\u2060", "ａ", "＠", "％", "＄", "＼"]


@check("C01")
def c01(chk, p):
    inv = ("C01_Partition",)
    p.enum("triples", [CHARS] * 3, ["lex"], minlen=0, invariants=inv)
    p.enum("pairs", [sorted(set(WIDE) - {"😀", "𝔸"})] * 2, ["lex"], minlen=1, invariants=inv)
    deep = ["a", "*", "\\", "%", "\n", "$", " ", "{", "@"]
    p.enum("deep", [deep] * chk.pick(4, 5), ["lex"], minlen=4, invariants=inv)
    r = random.Random(chk.seed)
    docs = []
    for k in range(chk.pick(300, 3000)):
        pool = r.sample(WIDE, r.randint(2, 12))
        docs.append("".join(r.choice(pool) for _ in range(r.randint(5, 120))))
    docs += rnd(chk, chk.pick(150, 1500), damage=0.6)
    p.file("long", docs, ["lex"], invariants=inv)
    # every character of Unicode: the recorded classification, judged by the specification
    out = p.h.run([{"op": "chars"}])[0]
    b = pipeline.broken(out, ["lex"])
    if b:
        chk.violation("classifying all characters: " + b, out)
    else:
        runs = os.path.join(chk.work, "runs.json")
        write_json(runs, [[lo, hi, s.replace("\ufffd", "<C>")] for lo, hi, s in out["runs"]])
        e = p.paths("unicode", {"mode": "edit"}, [], ["small"])
        e["RUNS"] = runs
        r = tlc(chk.work, "unicode", "MCUnicode", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", e, 300)
        chk.count_tlc("unicode", r)
        for x in r.recs:
            chk.violation(f"characters {x['lo']:#x}..{x['hi']:#x} are tokenized as {x['got']!r}, want {x['want']!r}", x)
        if r.distinct != len(out["runs"]):
            raise ToolError("not every run of characters was judged")
        chk.traces += len(out["runs"])
    return {"exhaustive": False, "alphabet": "".join(WIDE)}


@check("C02")
def c02(chk, p):
    inv = ("C01_Partition", "C02_Names")
    n = chk.pick(4, 5)
    # \begin / \end clauses part by part
    parts = [" ", "\n", "\r", "%x", "%}\n", "{", "}", "a", "@", "*", "1", "\u2028"]
    p.enum("clauses", [["\\begin", "\\end"]] + [parts] * chk.pick(3, 4), ["lex"], minlen=1, invariants=inv)
    p.enum("names", [["\\begin{", "\\end {", "\\begin%c{\n{"]] + [["a", "@", "*", "1", "\\", " ", "%\n", "%\r", "}", "é"]] * chk.pick(3, 4) + [["}", "x"]],
           ["lex"], minlen=2, invariants=inv)
    # command names, stars and what follows
    p.enum("commands", [["\\"]] + [["o", "s", "@", "*", "1", "\\", "(", "]", " ", "%", "\n", "{", "é"]] * chk.pick(3, 4), ["lex"],
           minlen=1, invariants=inv)
    # reserved names, their prefixes and extensions
    kw = ["if", "iftypst", "iffalse", "iftrue", "ifcase", "ifnum", "ifcat", "ifx", "ifvoid", "ifhbox", "ifvbox", "ifhmode", "ifmmode",
          "ifvmode", "ifinner", "ifdim", "ifeof", "@ifstar", "else", "fi", "left", "right", "begin", "end", "o", "z", "qq", "newcommand"]
    names = set()
    for k in kw:
        names.update(k[:i] for i in range(1, len(k) + 1))
        names.update(k + x for x in ("a", "@", "*", "s*", "Z", "f"))
        names.update((k.upper(), k.capitalize(), "@" + k))
    docs = ["\\" + k + t for k in sorted(names) for t in ("", "{a}", "*x", " *", "\\fi", "1", "%\n")]
    docs += sample_product(chk, [["\\" + k for k in sorted(names)], ["", " ", "*", "{"]] * 4, chk.pick(300, 3000))
    r = random.Random(chk.seed)
    for _ in range(chk.pick(400, 4000)):
        t = lambda: "".join(r.choice([" ", "\n", "%c\n", "% } {\n", "%c\r", "%c\r\n", "%c\u2028x\n", "\r\n", "\r", "", "", "\t"]) for _ in range(r.randint(0, 3)))
        nm = "".join(r.choice(["a", "bc", "@", "M", "e"]) for _ in range(r.randint(0, 3))) + r.choice(["", "", "*", "**", "1", "* "])
        docs.append(r.choice(["x", "", "\\a", "{"]) + r.choice(["\\begin", "\\end"]) + t() + "{" + t() * (r.random() < 0.1) + nm + t() + "}" + r.choice(["y", "", "*", "{z}"]))
    p.file("reserved", docs, ["lex"], invariants=inv)
    dn = p.default_table()
    starred = [n for n in dn if n.endswith("*")]
    docs = []
    for n in sorted(dn):
        if re.fullmatch(r"[A-Za-z@]+\*?", n):
            docs += [f"\\{n}", f"\\{n}*", f"\\{n}x*"]
    p.file("default", shuffled(chk, docs, chk.pick(1500, 99999)) + ["\\" + s for s in starred], ["lex"], sp="default", invariants=inv)


# ---------------------------------------------------------------------------
# C03
def op_script(r, n, toks):
    """operations that a reader may see: peek, take, peek a character, consume
    some characters of the current token"""
    s = ""
    while len(s) < n:
        s += r.choice(["e", "e", "p", "pe", "pp", "ce", "c1", "1", "2", "p1p", "e"])
    return s


@check("C03")
def c03(chk, p):
    # the paged reader refines the plain one (small pages)
    for nm, consts in (("plain", {"PAGE": 3, "LEN": 7, "EXPAND": 0}), ("expanding", {"PAGE": 3, "LEN": 6, "EXPAND": 2})):
        cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT TypeOK\nINVARIANT SameView\nPROPERTY Refines\n"
        cfg += "CONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in consts.items())
        r = tlc(chk.work, "reader-" + nm, "Reader", cfg, {}, 300)
        if not r.ok:
            raise ToolError("the reader model fails: " + r.text[-2000:])
        chk.count_tlc("reader-" + nm, r)
    r = random.Random(chk.seed)
    jobs, meta = [], []

    def add(doc, ops, macros, sp="small"):
        jobs.append({"op": "read", "doc": doc, "ops": ops, "macros": macros, "spec": sp})
        meta.append((doc, ops, macros))
    fill = ["a ", "\\s", "{", "}", "$", "ab", "^", "1\n", "\\o{x}", "(", ","]
    # scripts around the ends of the internal pages (170 tokens) and of the input
    for macros in (False, True):
        for length in list(range(0, 4)) + list(range(165, 176)) + list(range(337, 344)) + [509, 510, 511, 512, 680, 850]:
            for _ in range(chk.pick(2, 10)):
                body = "".join(r.choice(["{", "}", "^", "&", "$ ", "[", "/"]) for _ in range(length * 2))
                # exactly `length` tokens before the interesting part
                body = "".join(r.choice("{}^&[/();") for _ in range(length))
                tail = r.choice(["", "word", "\\s x", "é中", "ab cd", "\\begin{m}x\\end{m}"])
                ops = "e" * max(0, length - r.randint(0, 3)) + op_script(r, 14, None) + "eeee"
                add(body + tail, ops, macros)
    # expansions and definitions that straddle a page
    for length in list(range(150, 172)) + [330, 338, 340]:
        for _ in range(chk.pick(1, 6)):
            body = "".join(r.choice("{}^&[/();") for _ in range(length))
            kind = r.randint(0, 4)
            if kind == 0:
                doc = body + "\\newcommand{\\f}[2]{(#1|#2)}\\f{a b}{" + "x " * r.randint(0, 40) + "}z" * r.randint(1, 4)
            elif kind == 1:
                doc = "\\newcommand{\\f}[1]{" + "#1 y" * r.randint(1, 90) + "}" + body + "\\f{uv}w"
            elif kind == 2:
                doc = "\\newenvironment{e}[1]{<#1}{#1>}" + body + "\\begin{e}{k}" + "b&" * r.randint(0, 30) + "\\end{e}z"
            elif kind == 3:
                doc = body + "\\iftrue " + "a " * r.randint(0, 30) + "\\else " + "b " * r.randint(0, 60) + "\\fi c"
            else:
                doc = "\\newcommand{\\f}{\\g\\g}\\newcommand{\\g}{" + "x " * r.randint(10, 90) + "}" + body + "\\f y"
            n = len(doc)
            ops = "e" * r.randint(max(0, length - 6), length + 3) + op_script(r, 30, None) + "e" * r.choice([10, 400])
            add(doc, ops, True)
    for d in rnd(chk, chk.pick(150, 2000), feats=gen.ALL + ("macro", "menvs"), damage=0.3):
        add(d, op_script(r, r.randint(5, 80), None) + "e" * r.choice([0, 3, 300]), r.random() < 0.6)
    run_reader(chk, p, "scripts", jobs, meta)


def run_reader(chk, p, name, jobs, meta):
    # TLC first: what every script must observe
    docs = [{"id": i, "cs": list(m[0]), "sp": "small", "ops": list(m[1]), "macros": m[2]} for i, m in enumerate(meta)]
    dp = os.path.join(chk.work, name + ".ndjson")
    write_ndjson(dp, docs)
    e = p.paths(name, {"mode": "reader"}, [], ["small"])
    e["DOCS"] = dp
    r = tlc(chk.work, name, "MCReader", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Once\n", e, 600)
    if not r.ok:
        raise ToolError("reader scripts: " + r.text[-2000:])
    chk.count_tlc(name, r)
    if len(r.recs) != len(docs):
        raise ToolError(f"{len(r.recs)} of {len(docs)} scripts came back")
    recs = [x for x in r.recs if not x.get("skip")]
    out = p.h.run([jobs[x["id"]] for x in recs])
    for x, y in zip(recs, out):
        doc, ops, macros = meta[x["id"]]
        if y.get("skipped"):
            continue
        data = {"doc": doc, "ops": ops, "macros": macros, "want": x["obs"], "got": y.get("obs")}
        if "obs" not in y:
            chk.violation(f"reading {doc!r} by {ops!r}: {y}", data)
        elif y["obs"] != x["obs"]:
            k = next(i for i in range(len(ops)) if i >= len(y["obs"]) or y["obs"][i] != x["obs"][i])
            chk.violation(f"reading {doc!r}: operation {k + 1} of {ops!r} saw {y['obs'][k]!r}, want {x['obs'][k]!r}", data)
        else:
            chk.traces += 1
    chk.sample({"script": meta[recs[0]["id"]][1], "doc": meta[recs[0]["id"]][0], "observations": recs[0]["obs"][:12]})
    chk.sample({"script": meta[recs[-1]["id"]][1][:40], "doc": meta[recs[-1]["id"]][0], "observations": recs[-1]["obs"][:12]})


# ---------------------------------------------------------------------------
# C11
def parse_pat(p, i=0, inb=False):
    out = []
    while i < len(p):
        c = p[i]
        if inb and c in ",}":
            return out, i
        if c == "?":
            out.append(set("tbp")); i += 1
        elif c == "*":
            out.append("*"); i += 1
        elif c == "[":
            j = p.index("]", i + 2)
            b = p[i + 1:j]
            neg, b = (b[0] in "!^", b[1:]) if b[0] in "!^" else (False, b)
            s, k = set(), 0
            while k < len(b):
                if k + 2 < len(b) and b[k + 1] == "-":
                    s |= {chr(x) for x in range(ord(b[k]), ord(b[k + 2]) + 1)}; k += 3
                else:
                    s.add(b[k]); k += 1
            out.append((set("tbp") - s) if neg else s & set("tbp"))
            i = j + 1
        elif c == "{":
            alts, i = [], i + 1
            while True:
                a, i = parse_pat(p, i, True)
                alts.append(a)
                if p[i] == "}":
                    i += 1
                    break
                i += 1
            out.append(("alt", alts))
        else:
            out.append({c}); i += 1
    return out, i


def first(seq, k):
    if not seq:
        return k
    h, r = seq[0], first(seq[1:], k)
    if h == "*":
        return set("tbp") | r
    if isinstance(h, set):
        return h
    u = set()
    for a in h[1]:
        u |= first(a, r)
    return u


def determined(seq, k=frozenset({""}), star=False):
    """the next argument always determines the alternative; no star before braces"""
    for i, h in enumerate(seq):
        if h == "*":
            star = True
        if isinstance(h, tuple):
            if star:
                return False
            r = first(seq[i + 1:], set(k))
            fs = [first(a, r) for a in h[1]]
            if any(fs[x] & fs[y] for x in range(len(fs)) for y in range(x)):
                return False
            if not all(determined(a, r) and "*" not in a for a in h[1]):
                return False
    return True


@check("C11")
def c11(chk, p):
    atoms = ["t", "b", "p", "?", "*", "[bp]", "[!b]", "[^tp]", "[b-p]"]
    alts = ["{,b}", "{t,b}", "{b,}", "{,t,b}", "{,[bp]}", "{bt,pt}", "{,bt}", "{t,bp}", "{b,p}t", "{,bpt}", "{tt,b,pp}", "{t{,b},p}", "{,{b,p}}", "{?}", "{t,[bp]t}"]
    pats = {""}
    for n in (1, 2, 3):
        for x in itertools.product(atoms + alts, repeat=n):
            if sum(a in alts for a in x) <= 2:
                pats.add("".join(x))
    pats = sorted(x for x in pats if determined(parse_pat(x)[0]))
    known = ["{,b}t", "{,b}", "{,b}tt", "b*p", "*", "[bp]t{b,pt}t", "t[!b]"]
    short = [x for x in pats if len(parse_pat(x)[0]) <= 2]
    pats = known + short + shuffled(chk, pats, chk.pick(500, 4000))
    pats += ["!" + x for x in shuffled(chk, pats, 40, 3)] + ["!!" + x for x in shuffled(chk, pats, 20, 4)]
    r = random.Random(chk.seed + 5)
    for _ in range(chk.pick(150, 1500)):
        x = "".join(r.choice(atoms + alts) for _ in range(r.randint(4, 7)))
        if determined(parse_pat(x)[0]):
            pats.append(x)
    pats = list(dict.fromkeys(pats))
    L = chk.pick(5, 7)
    # TLC enumerates the strings and judges what the code said about each
    strs = [""] + ["".join(x) for n in range(1, L + 1) for x in itertools.product("tbp", repeat=n)]
    jobs = []
    for x in pats:
        ss = strs
        jobs.append({"op": "glob", "pat": x, "strs": ss})
    out = p.h.run(jobs)
    recs = []
    for x, y in zip(pats, out):
        if y.get("skipped"):
            continue
        if "prefix" not in y or "full" not in y:
            chk.violation(f"matching against {x!r}: {y}", {"pattern": x})
            continue
        rec = {"pat": x, "prefix": [s for s, a in zip(strs, y["prefix"]) if a],
               "full": [s for s, a in zip(strs, y["full"]) if a] if "{" not in x else [], "braces": "{" in x}
        recs.append(rec)
    dp = os.path.join(chk.work, "glob.ndjson")
    write_ndjson(dp, recs)
    cfg = f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT L = {L}\nINVARIANT PrefixClosed\nINVARIANT FullImpliesPrefix\nINVARIANT Extendable\n"
    r = tlc(chk.work, "glob", "MCGlob", cfg, {"DOCS": dp}, 600)
    if not r.ok:
        raise ToolError("patterns: " + r.text[-2000:])
    chk.count_tlc("glob", r)
    for x in r.recs:
        chk.violation(f"pattern {x['pat']!r}: the {x['which']} matcher is wrong about {x['strs'][:8]!r}", x)
    chk.traces += len(recs) * len(strs)
    if r.distinct < 2 * len(recs):
        raise ToolError("not every pattern was judged")
    for x in recs[:3]:
        chk.sample({"pattern": x["pat"], "accepted_prefixes": x["prefix"][:10]})
