"""C25: the plugin and the package's functions that call it."""
import random, re, subprocess
from check import *
from checks_pkg import scratch, tool, TYPST
from checks_sys import CFGS
from checks_typst import Reader, package, typst_query, formulas, texts, text_nodes, shows, merged, atoms, atoms_of, dots, canon, PICTURES, WORDS, SIGNS, USE, KNOWN_USE, TEXT_USE, TEXT_MACROS


def build_wasm():
    """the plugin as a module for Typst, built from the working tree with a standard library from the toolchain's source"""
    e = dict(env(), RUSTC_BOOTSTRAP="1")
    triple = "wasm32-unknown-unknown"
    sysroot = os.path.join(TARGET, "sysroot")
    lib = os.path.join(sysroot, "lib", "rustlib", triple, "lib")

    def cargo(where, env, *args):
        r = subprocess.run(["cargo", *args, "--offline", "-q", "--release", "--target", triple], cwd=where, env=env, capture_output=True, text=True, timeout=700)
        if r.returncode:
            raise ToolError("the plugin does not build:\n" + r.stderr[-4000:])

    if not os.path.exists(os.path.join(lib, "done")):
        root = subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True).stdout.strip()
        out = os.path.join(TARGET, "wstd")
        cargo(os.path.join(VERIF, "wasm", "std"), dict(e, CARGO_TARGET_DIR=out), "--config", "source.crates-io.replace-with='v'", "--config", f"source.v.directory='{root}/lib/rustlib/src/rust/library/vendor'", "build", "-Zbuild-std=std,panic_abort")
        shutil.rmtree(lib, ignore_errors=True)
        os.makedirs(lib)
        deps = os.path.join(out, triple, "release", "deps")
        for f in os.listdir(deps):
            if f.endswith(".rlib"):
                shutil.copy(os.path.join(deps, f), lib)
        open(os.path.join(lib, "done"), "w").close()
    cargo(os.path.join(VERIF, "wasm"), dict(env(), CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUSTFLAGS=f"--sysroot {sysroot}"), "build")
    return open(os.path.join(TARGET, triple, "release", "mitex_plugin.wasm"), "rb").read()


# ---------------------------------------------------------------------------
RAWNAMES = ["label", "includegraphics", "color", "textcolor", "colorbox", "caption", "item"]


def variant(seed):
    """a specification in which names have exchanged their meanings"""
    r = random.Random(seed)
    res = {}
    for kind in ("cmd", "env"):
        names = [n for n, i in specs.SMALL.items() if i["kind"] == kind]
        items = [specs.SMALL[n] for n in names]
        r.shuffle(items)
        for n, i in zip(names, items):
            # (what these take is read as it stands)
            own = r.random() < 0.3 or n in RAWNAMES or i in [specs.SMALL[m] for m in RAWNAMES]
            if r.random() < 0.9:
                i = dict(specs.SMALL[n] if own else i)
                if r.random() < 0.2:
                    i["alias"] = r.choice([None, "v" + str(seed), "#w"])
                res[n] = i
    return res


RAW = [b"\xff", b"a\xc3", b"\xed\xa0\x80", b"$x$\x80", b"\xf8\x88\x80\x80\x80"]
BAD = [b"", b"x", b"{", b"[]", b"{\"commands\": 1}", b"{\"commands\": {\"a\": {\"kind\": \"nothing\"}}}", b"\\alpha", b"{\"commands\": {}} x"]
FN = {"math": "convert_math", "text": "convert_text", "compile": "compile_spec"}


class Host:
    """bytes of an input; what a result has to be"""

    def __init__(self, inputs):
        self.ins = inputs

    def bytes(self, i):
        x = self.ins[i - 1]
        if x["k"] == "doc":
            return x["doc"].encode()
        if x["k"] == "spec":
            return json.dumps({"commands": specs.SPECS[x["sp"]]["commands"]}).encode()
        return x["b"]

    def show(self, c):
        x = self.ins[c[1] - 1]
        return [c[0], x.get("doc") or x.get("sp") or repr(x.get("b")), c[2]]


def run_host(chk, p, name, inputs, conf, invariants=("TypeOK", "OnlyCompiled", "Pure", "NoGuess")):
    ids = {"default"} | {x["sp"] for x in inputs if "sp" in x}
    e = p.paths(name, conf, [x["doc"] for x in inputs if "doc" in x], sorted(ids))
    dp = os.path.join(chk.work, name + ".in.ndjson")
    write_ndjson(dp, [{"k": "doc" if "doc" in x else x["k"], "cs": list(x.get("doc", "")), "sp": x.get("sp", "")} for x in inputs])
    e["DOCS"] = dp
    cfg = CFGS + "".join(f"INVARIANT {i}\n" for i in invariants) + "PROPERTY Final\n"
    r = tlc(chk.work, name, "Plugin", cfg, e, 850)
    chk.count_tlc(name, r)
    if not r.ok:
        raise ToolError(f"the specification violates {r.violated} ({name}):\n" + r.text[-2500:])
    return r.recs


class Native:
    """the functions of the plugin in one process, one call after the other"""

    def __init__(self):
        self.p = subprocess.Popen([tool("plugin")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def call(self, fn, input, spec):
        try:
            self.p.stdin.write(json.dumps({"fn": fn, "input": list(input), "spec": list(spec)}) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            v = json.loads(line)
        except (OSError, ValueError):
            return ("crash", None)
        return ("ok", bytes(v["ok"])) if "ok" in v else ("error", v["err"]) if "err" in v else ("panic", None)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def judge(got, want, blobs):
    """does a result agree with the specification? blobs collects compiled specifications"""
    if want[0] == "none":
        return True
    if want[0] == "error":
        return got[0] == "error"
    if got[0] != "ok":
        return False
    if want[0] == "blob":
        return blobs.setdefault(want[1], got[1]) == got[1]
    return got[1] == want[1].encode()


def histories(chk, name, host, recs):
    """each sequence of calls, made in one process that has made all before"""
    n, blobs = Native(), {}
    for x in recs:
        held = {}
        for c, w in zip(x["calls"], x["outs"]):
            if w[0] == "none":
                continue
            g = n.call(FN[c[0]], host.bytes(c[1]), held[c[2]] if c[2] else b"")
            if not judge(g, w, blobs):
                chk.violation(f"{host.show(c)!r} of the plugin gave {str(g)[:300]}, not {w!r}", {"calls": [host.show(c) for c in x["calls"]], "want": x["outs"], "got": str(g), "run": name})
                if g[0] in ("crash", "panic"):
                    n.close()
                    n = Native()
                break
            if w[0] == "blob":
                held[w[1]] = g[1]
        chk.traces += 1
    n.close()
    x = recs[len(recs) // 2]
    chk.sample({"run": name, "calls": [host.show(c) for c in x["calls"]], "results": x["outs"]}, 12)
    return blobs


HOST = """#let w = plugin("mitex.wasm")
#let f = (math: w.convert_math, text: w.convert_text)
#let specs = json("specs.json").map(s => w.compile_spec(bytes(s)))
#let none_ = bytes(())
#context [#metadata((specs: specs.map(s => array(s)), docs: json("calls.json").map(c => array(f.at(c.at(0))(bytes(c.at(1)), if c.at(2) < 0 { none_ } else { specs.at(c.at(2)) }))))) <out>]
"""


def in_typst(chk, name, root, wasm, host, recs, blobs):
    """the same calls of the real module, made by Typst; calls that fail one by one"""
    d = os.path.join(root, name)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "mitex.wasm"), "wb").write(wasm)
    calls = {}
    for x in recs:
        for c, w in zip(x["calls"], x["outs"]):
            if w[0] != "none":
                calls[tuple(c)] = w
    names = sorted(w[1] for w in calls.values() if w[0] == "blob")
    ins = {w[1]: c[1] for c, w in calls.items() if w[0] == "blob"}
    good = [(c, w) for c, w in calls.items() if w[0] == "text"]

    def query(sp, cs):
        write_json(os.path.join(d, "specs.json"), [host.bytes(ins[n]).decode() for n in sp])
        write_json(os.path.join(d, "calls.json"), [[c[0], list(host.bytes(c[1])), sp.index(c[2]) if c[2] else -1] for c in cs])
        return typst_query(root, name + "/host", HOST)

    todo, n = [good], 0
    while todo:
        part = todo.pop()
        if not part:
            continue
        n += 1
        v, err = query(names, [c for c, _ in part])
        if v is None:
            if len(part) == 1:
                chk.violation(f"{host.show(part[0][0])!r} of the module fails in Typst: {err[:300]}", {"call": host.show(part[0][0]), "want": part[0][1], "run": name})
            elif n < 100:
                todo += [part[:len(part) // 2], part[len(part) // 2:]]
            continue
        for nm, s in zip(names, v["specs"]):
            if blobs.get(nm) != bytes(s):
                chk.violation(f"the module compiles the specification {nm} to other bytes than the library", {"spec": nm, "run": name})
        for (c, w), g in zip(part, v["docs"]):
            chk.traces += 1
            if bytes(g) != w[1].encode():
                chk.violation(f"{host.show(c)!r} of the module gave {bytes(g)!r}, not {w!r}", {"call": host.show(c), "want": w, "got": repr(bytes(g)), "run": name})
    # errors of a plugin end the compilation with a message (a trap has another)
    bad = [(c, w) for c, w in calls.items() if w[0] == "error"]
    for c, w in shuffled(chk, bad, chk.pick(12, 60)):
        if c[0] == "compile":
            write_json(os.path.join(d, "calls.json"), list(host.bytes(c[1])))
            v, err = typst_query(root, name + "/bad", '#let w = plugin("mitex.wasm")\n#metadata(array(w.compile_spec(bytes(json("calls.json"))))) <out>')
        else:
            v, err = query(names, [c])
        chk.traces += 1
        if v is not None or "plugin errored with" not in err:
            chk.violation(f"{host.show(c)!r} of the module is no error in Typst: {v or err[:300]}", {"call": host.show(c), "want": w, "got": str(v or err), "run": name})


# ---------------------------------------------------------------------------
CALLER = """#import "norm.typ": tnorm
#import "@preview/mitex:%s": mi, mimath, mitext, mitex, mitex-convert
#let fn = (mi: mi, mimath: mimath, mitext: mitext, mitex: mitex, "mitex-math": mitex.with(mode: "math"), "mitex-text": mitex.with(mode: "text"))
#let it(form, s) = if form == "raw" { raw(s) } else if form == "text" { text(s) } else { s }
#let d(x) = fn.at(x.at(0))(it(x.at(1), x.at(3)), ..if x.at(2) != "" { (block: x.at(2) == "true") })
#context [#metadata(json("docs.json").map(x => tnorm(d(x)))) <out>]
"""
CONVERT = """#import "@preview/mitex:%s": mitex-convert, mitex-wasm
#let it(form, s) = if form == "raw" { raw(s) } else if form == "text" { text(s) } else { s }
#let specs = json("specs.json").map(s => mitex-wasm.compile_spec(bytes(s)))
#context [#metadata(json("docs.json").map(x => mitex-convert(it(x.at(1), x.at(2)), ..x.at(0), ..if x.at(3) >= 0 { (spec: specs.at(x.at(3))) }))) <out>]
"""


def package_calls(chk, p, rd, version, fs, ds):
    gp = os.path.join(chk.work, "given.json")
    write_json(gp, {"formulas": fs, "documents": ds})
    e = p.paths("package", {"mode": "calls", "len": 0}, [], ["small"])
    dp = os.path.join(chk.work, "package.in.ndjson")
    write_ndjson(dp, [{"k": "doc", "cs": [], "sp": ""}])
    e.update(DOCS=dp, GIVEN=gp)
    r = tlc(chk.work, "package", "MCPackage", "INIT PInit_\nNEXT PNext_\nCHECK_DEADLOCK FALSE\nINVARIANT OneFormula\n", e, 600)
    chk.count_tlc("package", r)
    if not r.ok:
        raise ToolError("the specification violates " + str(r.violated))
    calls = [x["call"] for x in r.recs]
    calls = shuffled(chk, [c for c in calls if c[1] != "text" or c[3].strip()], chk.pick(2500, 12000))
    for c, (st, g) in zip(calls, rd.ask([c[:4] for c in calls], CALLER % version)):
        if st == "unread":
            continue
        chk.traces += 1
        if st != "ok":
            chk.violation(f"Typst does not accept {c[:4]!r}: {g}", {"call": c[:4], "error": g, "run": "package"})
            continue
        m, g = text_nodes(c[4], True), text_nodes(g, True, False)
        if not shows(m, g):
            chk.violation(f"{c[:4]!r} shows {json.dumps(g, ensure_ascii=False)[:500]}, not {json.dumps(m, ensure_ascii=False)[:500]}", {"call": c[:4], "want": m, "got": g, "run": "package"})
    for c in calls[:3]:
        chk.sample({"run": "package", "call": c[:4], "shows": c[4]}, 12)


def conversions(chk, rd, version, host, recs):
    """mitex-convert gives the text that the plugin gives"""
    r = random.Random(chk.seed)
    names = sorted({w[1] for x in recs for w in x["outs"] if w[0] == "blob"})
    ins = {w[1]: c[1] for x in recs for c, w in zip(x["calls"], x["outs"]) if w[0] == "blob"}
    write_json(os.path.join(rd.root, "specs.json"), [host.bytes(ins[n]).decode() for n in names])
    items, want = [], []
    for x in recs:
        for c, w in zip(x["calls"], x["outs"]):
            if w[0] == "text":
                doc = host.bytes(c[1]).decode()
                if "\r" in doc or not doc:  # (an element does not keep these)
                    form = "str"
                else:
                    form = r.choice(["str", "raw"])
                mode = {"mode": c[0]} if c[0] == "text" or r.random() < 0.5 else {}
                items.append([mode, form, doc, names.index(c[2]) if c[2] else -1])
                want.append(w[1])
    for i, w, (st, g) in zip(items, want, rd.ask(items, CONVERT % version)):
        if st == "unread":
            continue
        chk.traces += 1
        if st != "ok" or g != w:
            chk.violation(f"mitex-convert of {i!r} gave {g!r}, not {w!r}", {"call": i, "want": w, "got": g, "run": "convert"})


@check("C25")
def c25(chk, p):
    """The plugin and the package give what the library gives."""
    build("sys")
    wasm = build_wasm()
    rd = Reader(chk)
    package(rd.root, wasm)
    version = os.listdir(os.path.join(rd.root, "registry", "preview", "mitex"))[0]
    for k in range(chk.pick(4, 10)):
        specs.SPECS[f"v{k}"] = {"commands": variant(k)}
    specs.SPECS["other"] = {"commands": {"s": specs.cmd(specs.R(specs.FIX(1)), "one"), "alpha": specs.cmd(specs.R(specs.NONE), "beta"), "m": specs.env(specs.NONE, "cases", "cs")}}
    # every sequence of a few calls
    docs = ["\\s{a}", "\\begin{m}a&b\\end{m}", "\\alpha_1", "}"] + (["$\\s x$"] if chk.thorough else [])
    ins = [{"k": "doc", "doc": d} for d in docs] + [{"k": "spec", "sp": "small"}, {"k": "spec", "sp": "other"}, {"k": "raw", "b": RAW[0]}, {"k": "bad", "b": BAD[1]}]
    host = Host(ins)
    recs = run_host(chk, p, "calls", ins, {"mode": "calls", "len": 3})
    blobs = histories(chk, "calls", host, recs)
    in_typst(chk, "calls", rd.root, wasm, host, recs, blobs)
    conversions(chk, rd, version, host, [x for x in recs if x["outs"][0][0] == "blob"][::7])
    # every kind of malformed input
    ins = [{"k": "raw", "b": b} for b in RAW] + [{"k": "bad", "b": b} for b in BAD] + [{"k": "spec", "sp": "other"}]
    host = Host(ins)
    recs = run_host(chk, p, "malformed", ins, {"mode": "calls", "len": 1})
    in_typst(chk, "malformed", rd.root, wasm, host, recs, histories(chk, "malformed", host, recs))
    # random documents under random specifications
    vs = sorted(s for s in specs.SPECS if s[0] == "v") + ["small", "one", "empty"]
    ds = rnd(chk, chk.pick(500, 3000), feats=gen.ALL + ("macro",))
    ins = [{"k": "doc", "doc": d, "sp": vs[i % len(vs)]} for i, d in enumerate(dict.fromkeys(ds))]
    recs = run_host(chk, p, "random", ins, {"mode": "each", "len": 3}, ("TypeOK", "OnlyCompiled", "Pure"))
    # (the input of a compilation is the specification of its document)
    at = {s: len(ins) + 1 + k for k, s in enumerate(vs)}
    host = Host(ins + [{"k": "spec", "sp": s} for s in vs])
    for x in recs:
        x["calls"][0][1] = at[x["outs"][0][1]]
    blobs = histories(chk, "random", host, recs)
    in_typst(chk, "random", rd.root, wasm, host, recs, blobs)
    conversions(chk, rd, version, host, recs)
    # the functions of the package show formulas and documents
    one = [a for a in atoms() if a["s"] == "x"]
    base = {"atoms": one, "use": [u for u in USE if u not in KNOWN_USE], "delims": [1, 2, 6, 7], "turns": False, "defs": False, "depth": 4}
    fr = formulas(chk, p, "formulas", dict(base, fuel=2))
    seen, fs = {}, []
    for x in sorted(fr.recs, key=lambda x: (-x["s"].count("x"), x["s"])):  # (with arguments that show)
        k = tuple(sorted(set(re.findall(r"\\(?:begin\{)?(?:[A-Za-z]+\*?|.)", x["s"]))))
        if len(k) < 2 and x["s"].strip() and x["s"][0] not in "^_" and not merged(x["m"]) and seen.get(k, 0) < 1:
            seen[k] = 1
            fs.append({"s": x["s"], "m": x["m"]})
    tr = texts(chk, p, "documents", dict(base, atoms=[], use=[], fuel=14, depth=9, turns=True, defs=True, text={"vary": True, "words": WORDS, "symbols": SIGNS, "formulas": shuffled(chk, fs, 40), "use": [u for u in TEXT_USE if u != "image"] + TEXT_MACROS}), chk.pick(80, 400))
    package_calls(chk, p, rd, version, fs, [{"s": x["s"], "m": x["m"]} for x in tr.recs if x["s"]])
    return {}
