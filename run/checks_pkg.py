"""C22, C23, C25 ..: the built-in specification, the command line, the plugin."""
import random, resource, shutil, subprocess
from check import *
from checks_sys import spectable, CFGS, session_calls

OKV = ["text", "math"]
TYPST = "/opt/typst/bin/typst"


def scratch(chk, name):
    d = os.path.join(chk.work, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def tool(name):
    return os.path.join(TARGET, "debug", name)


# ---------------------------------------------------------------------------
# C22
def strip_null(x):
    if isinstance(x, dict):
        return {k: strip_null(v) for k, v in x.items() if v is not None}
    return x


def query(root, what="<mitex-packages>"):
    r = subprocess.run([TYPST, "query", "--root", root, os.path.join(root, "packages/mitex/specs/mod.typ"), what],
                       env=env(), capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        return None, r.stderr
    v = json.loads(r.stdout)
    return v, ""


def project(chk, name, packages, prelude):
    """a project with the given packages: lists of (name, declaration in Typst)"""
    root = scratch(chk, name)
    os.makedirs(os.path.join(root, "packages/mitex/specs"))
    os.makedirs(os.path.join(root, "crates/x"))
    open(os.path.join(root, "Cargo.toml"), "w").close()
    shutil.copy(prelude, os.path.join(root, "packages/mitex/specs/prelude.typ"))
    with open(os.path.join(root, "packages/mitex/specs/mod.typ"), "w") as f:
        f.write('#import "prelude.typ": *\n#let P(name, d) = { let r = process-spec(d); (name: name, spec: (commands: r.spec), scope: r.scope) }\n')
        f.write("#let packages = (\n")
        for i, p in enumerate(packages):
            f.write(f'  P("p{i}", (' + (", ".join(f"{json.dumps(n)}: {d}" for n, d in p) or ":") + ")),\n")
        f.write(")\n#metadata(packages) <mitex-packages>\n")
    return root


def declaration(d, key="k"):
    """[fn, args..] of the specification as a Typst expression"""
    h = {"define-sym": "sym", "of-sym": None}.get(d["fn"], "handle")
    q = json.dumps
    a = []
    if d["fn"] in ("sym", "cmd1", "cmd2", "matrix-env"):
        return d["fn"]
    if d["fn"] == "of-sym":
        return f"of-sym([{key}])"
    if d["fn"] == "left1-op":
        return f"left1-op({q(d['s'])})"
    if "pat" in d:
        a.append(q(d["pat"]))
    if "num" in d:
        a.append(str(d["num"]) if isinstance(d["num"], int) else str(d["num"][0]) if d["num"] else "none")
    if "s" in d:
        a.append(q(d["s"]))
    if "ctx" in d:
        a.append("kind: " + q(d["ctx"]))
    if d.get("al"):
        a.append("alias: " + q(d["al"][0]))
    if d["h"]:
        a.append(f"{h}: [{key}]")
    return f"{d['fn']}({', '.join(a)})"


@check("C22")
def c22(chk, p):
    build("sys")
    prelude = os.path.join(REPO, "packages/mitex/specs/prelude.typ")
    # what every declaration of the Typst side denotes
    names = ["a", "b*", "abcdefghi"] if chk.thorough else ["a", "b*"]
    als = ["x", "#y", "quote(block: true)"] if chk.thorough else ["x", "#y"]
    decl = spectable(chk, "declarations", {"mode": "defs", "names": names, "aliases": als, "patterns": ["t", "{,b}t"] if not chk.thorough else ["t", "{,b}t", "[bp]t*"], "nums": [0, 1, 3, 255] if chk.thorough else [0, 1, 3]})
    root = project(chk, "defs", [[(x["name"], declaration(x["d"], f"k{i}"))] for i, x in enumerate(decl)], prelude)
    v, err = query(root)
    if v is None:
        chk.violation("the declarations are not accepted by Typst: " + err[-300:], {"run": "declarations", "stderr": err[-3000:]})
        return {}
    got = v[0]["value"]
    out = p.h.run([{"op": "spec", "json": json.dumps({"commands": g["spec"]["commands"]})} for g in got])
    for i, (x, g, y) in enumerate(zip(decl, got, out)):
        want = {x["name"]: x["item"]}
        key = {k: f"k{i}" for k in x["key"]}
        scope = {k: (s or {}).get("text") for k, s in g["scope"].items()}
        data = {"declaration": x, "typst": declaration(x["d"]), "got": g, "run": "declarations"}
        if y.get("items") != want:
            chk.violation(f"{declaration(x['d'])} as {x['name']}: denotes {y.get('items', y)!r}, not {want!r}", data)
        elif scope != key:
            chk.violation(f"{declaration(x['d'])} as {x['name']}: handler under {scope!r}, not {key!r}", data)
        chk.traces += 1
    chk.sample({"run": "declarations", "declaration": declaration(decl[len(decl) // 2]["d"]), "item": decl[len(decl) // 2]["item"]})

    # the packages of the repository, merged by the specification, against the built-in one
    v, err = query(REPO)
    if v is None or len(v) != 1:
        chk.violation("the packages of the repository cannot be queried: " + err[-300:], {"run": "built-in", "stderr": err[-3000:]})
        return {}
    pk = [strip_null(x["spec"]["commands"]) for x in v[0]["value"]]
    got = spectable(chk, "built-in", {"mode": "packages"}, [{"packages": pk}])
    want = got[0]["items"]
    y = p.h.run([{"op": "spec", "spec": "default"}])[0]
    same_items(chk, "the built-in specification", want, y, {"run": "built-in"})
    # what users rely on since the pinned release
    pinned = json.load(open(os.path.join(VERIF, "run", "pinned.json")))
    have = y.get("items", {})
    for n in sorted(pinned):
        if have.get(n) != pinned[n]:
            chk.violation(f"{n} was {pinned[n]!r} and is {have.get(n)!r}", {"run": "pinned", "name": n, "want": pinned[n], "got": have.get(n)})
        chk.traces += 1
    # merges of several packages, by both builders
    r = random.Random(chk.seed)
    projects = []
    for _ in range(chk.pick(6, 60)):
        ps = []
        for _ in range(r.choice([1, 2, 2, 3, 4, 6])):
            ps.append([(n, r.choice(decl)["d"]) for n in r.sample(["a", "b", "c*", "abcdefghi", "d", "é", "e", "f", "g", "h"], r.choice([0, 1, 3, 6]))])
        projects.append(ps)
    recs, roots = [], []
    for i, ps in enumerate(projects):
        roots.append(project(chk, f"merge{i}", [[(n, declaration(d)) for n, d in q] for q in ps], prelude))
        v, err = query(roots[-1])
        if v is None:
            raise ToolError("typst query: " + err[-1000:])
        recs.append({"packages": [strip_null(x["spec"]["commands"]) for x in v[0]["value"]]})
    got = {x["id"] - 1: x["items"] for x in spectable(chk, "merges", {"mode": "packages"}, recs)}
    got = {i: (x if isinstance(x, dict) else {}) for i, x in got.items()}
    jobs = []
    for i, root in enumerate(roots):
        e = env()
        e["CARGO_MANIFEST_DIR"] = os.path.join(root, "crates/x")
        e["OUT_DIR"] = os.path.join(root, "out")
        e["CARGO_FEATURE_GENERATE"] = "1"
        for kind, cmd, where in (("build script", [tool("specgen")], os.path.join(root, "out/mitex-artifacts/spec")),
                                 ("mitex spec generate", [tool("mitex"), "spec", "generate"], os.path.join(root, "target/mitex-artifacts/spec"))):
            q = subprocess.run(cmd, env=e, cwd=root, capture_output=True, text=True, timeout=120)
            data = {"run": "merges", "builder": kind, "packages": recs[i]["packages"]}
            if q.returncode != 0:
                chk.violation(f"{kind} fails on {recs[i]['packages']!r}: {q.stderr[-300:]}", data)
                continue
            for f in ("default.rkyv", "default.json", "packages.json"):
                pth = os.path.join(where, f)
                if not os.path.exists(pth):
                    chk.violation(f"{kind} does not write {f}", data)
                    continue
                if f == "packages.json":
                    pj = [strip_null(x["spec"]["commands"]) for x in json.load(open(pth))]
                    for a, b in zip(pj + [None] * len(recs[i]["packages"]), recs[i]["packages"]):
                        jobs.append((i, kind, f, {"op": "spec", "json": json.dumps({"commands": a})}, b))
                else:
                    jobs.append((i, kind, f, {"op": "spec", "rkyv": pth} if f.endswith("rkyv") else {"op": "spec", "json": open(pth).read()}, None))
    outs = p.h.run([j[3] for j in jobs])
    single = [j[4] for j in jobs if j[4] is not None]
    one = iter(spectable(chk, "singles", {"mode": "packages"}, [{"packages": [b]} for b in single]) if single else [])
    one = {x["id"] - 1: x["items"] if isinstance(x["items"], dict) else {} for x in one}
    k = 0
    for (i, kind, f, _, b), y in zip(jobs, outs):
        if b is not None:
            want = one[k]
            k += 1
        else:
            want = got[i]
        same_items(chk, f"{f} of {kind}", want, y, {"run": "merges", "packages": recs[i]["packages"]})
    chk.sample({"run": "merges", "packages": recs[-1]["packages"], "items": got[len(recs) - 1]})

    # conversion without a specification uses the built-in one, with one only that one
    some = shuffled(chk, sorted(want0(have)), chk.pick(120, 1000))
    docs = [use(n, have[n]) for n in some]
    p.file("default", docs, OKV, sp="default", invariants=())
    p.file("explicit", docs, OKV, sp="small", invariants=())
    calls = [(d, m, s) for d in docs[:: chk.pick(6, 4)] for m in ("text", "math") for s in ("none", "default", "small")]
    calls += [(d, m, s) for d in docs[:: chk.pick(12, 6)] + ["", "a b", "\\s", "x\\alpha", "$y$", "\\newcommand{\\f}{z}\\f", "{", "}"] for m in ("text", "math") for s in ("empty", "one")]
    r = session_calls(chk, p, "none", calls, {"mode": "seq", "threads": 0, "len": 1}, ["NeverWritten", "SameAsAlone"])
    want = {x["calls"][0]: x["outs"][0] for x in r.recs}
    y = p.h.run([{"op": "session", "calls": [list(c)]} for c in calls])
    for i, (c, o) in enumerate(zip(calls, y)):
        g = o["results"][0] if "results" in o else o
        w = want[i + 1]
        if not isinstance(g, list) or g[0] != w[0] or (w[0] and g[1] != w[1]):
            chk.violation(f"{c[0]!r} in {c[1]} mode with specification {c[2]}: {g!r}, not {w!r}", {"run": "none", "call": c, "want": w, "got": g})
        chk.traces += 1
    return {}


def want0(have):
    return [n for n in have if all(ord(c) < 128 for c in n)]


def use(n, it):
    if it["t"] == "env":
        return "\\begin{%s}{a}b&c\\\\d\\end{%s}" % (n, n)
    return "x\\%s{a}[b]{c}d" % n


def same_items(chk, what, want, y, data):
    chk.traces += 1
    if "items" not in y or y.get("panic"):
        chk.violation(f"{what}: {y!r}"[:600], data)
        return
    have = y["items"]
    for n in sorted(set(want) | set(have)):
        if want.get(n) != have.get(n):
            chk.violation(f"{what}: {n} is {have.get(n)!r}, not {want.get(n)!r}", dict(data, name=n, want=want.get(n), got=have.get(n)))
            return
    if y["bytes"] != [have]:
        chk.violation(f"{what}: changed by the binary encoding", data)
    elif y["lookup"]:
        chk.violation(f"{what}: looking up {y['lookup']!r}", data)


# ---------------------------------------------------------------------------
# C23
CLIDOCS = ["\\section{A} b $x^2_1$ \\begin{itemize}\\item c\\end{itemize}", "\\zzz", "", "a % c\r\n\\newcommand{\\f}[1]{(#1)}\\f é中", "\\begin{equation}a\\label{l}\\end{equation}\n", "$\\frac{1}{2}"]
CLIBAD = b"a\xff\xfeb"
FILES = {"a.tex": 1, "b.tex": 2, "c": 3, "d/e.x.tex": 4, ".h": 5, "u.tex": 7, "x.typ": 6, "o": 4}
SMALLTOK = ["a.tex", "q", "b.tex", "-i", "-o", "--stage", "syntax", ""]
BIGTOK = ["a.tex", "./a.tex", "b.tex", "c", "d/e.x.tex", "d", "m.tex", "u.tex", ".h", "x.typ", "q", "m/q.typ", "-ofull", "-", "-i", "-o", "-oq", "-ia.tex", "-o=q", "--input", "--input=a.tex", "--input=", "--output=d", "--output", "--output=q", "--stage", "--stage=syntax",
          "--stage=document", "syntax", "document", "-w", "-wd", "--", "-h", "--help", "--help=x", "--nope", "-n", "", "o", "./q", "--out=q", "-i=c"]


def worlds():
    base = [{"path": p, "state": ["bytes", k]} for p, k in FILES.items()] + [{"path": "d", "state": ["dir"]}, {"path": "full", "state": ["full"]}]
    w = [base]
    w.append(base + [{"path": p, "state": ["bytes", 1]} for p in ("a.typ", "q", "b.typ", "c.typ", "u.typ", "m.typ", "d/e.x.typ")])
    w.append(base + [{"path": p, "state": ["dir"]} for p in ("a.typ", "q", "c.typ", "m")])
    return w


def place(root, world):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for x in sorted(world, key=lambda x: x["path"].count("/") * 2 + (x["state"][0] != "dir")):
        q = os.path.join(root, x["path"])
        if x["state"][0] == "dir":
            os.makedirs(q)
        elif x["state"][0] == "full":
            os.symlink("/dev/full", q)
        else:
            with open(q, "wb") as f:
                f.write(filebytes(x["state"][1]))


def filebytes(k):
    return CLIBAD if k > len(CLIDOCS) else CLIDOCS[k - 1].encode()


def snapshot(root):
    r = {}
    for d, ds, fs in os.walk(root):
        for x in ds + fs:
            q = os.path.join(d, x)
            n = os.path.relpath(q, root)
            r[n] = ["full"] if os.path.islink(q) and os.readlink(q) == "/dev/full" else ["dir"] if os.path.isdir(q) else ["file", open(q, "rb").read()]
    return r


def cli_runs(chk, name, recs, ws, want, dumps):
    from concurrent.futures import ThreadPoolExecutor
    base = scratch(chk, "cli-" + name)
    exe = tool("mitex")

    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))

    def one(t):
        k, rs = t
        root = os.path.join(base, f"t{k}")
        res = []
        dirty = True
        for j, x in enumerate(rs):
            w = ws[x["world"] - 1]
            if dirty or j == 0 or rs[j - 1]["world"] != x["world"]:
                place(root, w)
                before = snapshot(root)
            sub = "c" if j % 5 == 4 else "compile"
            try:
                r = subprocess.run([exe, sub] + x["args"], cwd=root, preexec_fn=limits, stdin=subprocess.DEVNULL, capture_output=True, timeout=60, env=env())
                rc = r.returncode
                err = r.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired:
                rc, err = "no answer in 60 s", ""
            after = snapshot(root)
            ch = {p: after.get(p, ["none"]) for p in set(before) | set(after) if before.get(p) != after.get(p)}
            dirty = bool(ch)
            res.append((x, rc, err, ch))
        shutil.rmtree(root, ignore_errors=True)
        return res

    order = sorted(recs, key=lambda x: x["world"])
    n = CORES * 4
    parts = [(k, order[k * len(order) // n:(k + 1) * len(order) // n]) for k in range(n)]
    heads = {}
    with ThreadPoolExecutor(CORES) as ex:
        allres = [y for z in ex.map(one, parts) for y in z]
    for x, rc, err, ch in allres:
        chk.traces += 1
        data = {"run": name, "args": x["args"], "world": ws[x["world"] - 1], "want": {"status": x["status"], "changed": x["changed"]}, "got": {"status": rc, "stderr": err[-500:], "changed": {p: (s[0], s[1].decode(errors="replace")[-300:] if len(s) > 1 else "") for p, s in ch.items()}}}
        say = f"mitex compile {' '.join(map(repr, x['args']))} with {'other outputs' if x['world'] > 1 else 'no outputs'}: "
        if (rc == 0) != (x["status"] == "ok") or not isinstance(rc, int) or rc < 0 or rc == 101:
            chk.violation(say + f"exit status {rc}, expected {'zero' if x['status'] == 'ok' else 'a failure'}", data)
            continue
        exp = {c["path"]: c["state"] for c in x["changed"]}
        if set(exp) - set(p for p in ch):
            # unchanged because it had that content before?
            chk.violation(say + f"does not write {sorted(set(exp) - set(ch))}", data)
            continue
        if set(ch) - set(exp):
            chk.violation(say + f"touches {sorted(set(ch) - set(exp))}", data)
            continue
        for pth, s in exp.items():
            g = ch[pth]
            if g[0] != "file":
                chk.violation(say + f"{pth} is {g[0]}", data)
                continue
            body = (want[s[1]][1] if s[0] == "conv" else dumps[s[1]]).encode()
            if not g[1].endswith(body):
                chk.violation(say + f"{pth} does not end with the {'conversion' if s[0] == 'conv' else 'tree'} of its input", dict(data, body=body.decode()[:2000]))
                continue
            heads.setdefault(g[1][:len(g[1]) - len(body)], data)
    if len(heads) > 1:
        hs = sorted(heads, key=len)
        chk.violation(f"the beginning of the output depends on the input: {hs[0][-80:]!r}, {hs[-1][-80:]!r}", heads[hs[-1]])
    for h in heads:
        if b'#import "@preview/mitex' not in h:
            chk.violation(f"the output does not import the package: {h[:80]!r}", heads[h])
    for x in allres[:: max(1, len(allres) // 4)][:4]:
        chk.sample({"run": name, "args": x[0]["args"], "world": x[0]["world"], "status": x[0]["status"], "changed": x[0]["changed"]}, 10)
    shutil.rmtree(base, ignore_errors=True)


@check("C23")
def c23(chk, p):
    build("sys")
    ws = worlds()
    r = random.Random(chk.seed)
    given = []
    firsts = ["a.tex", "b.tex", "c", "./a.tex", "d/e.x.tex", "d", "m.tex", "u.tex", ".h", "x.typ", "o"]
    outs = ["", "q", "./q", "a.tex", "a.typ", "d", "m/q.typ", "full", "d/q.typ", "-", "q/", "x.typ"]
    for w in range(len(ws)):
        for i in firsts:
            given += [{"args": a, "world": w + 1} for a in ([i], ["-i", i], ["--input=" + i], ["--stage", "syntax", i], [i, "--stage=syntax"], ["--", i])]
            for o in outs if (chk.thorough or w == 0) else outs[:5]:
                given += [{"args": a, "world": w + 1} for a in ([i, o], ["-i", i, "-o", o], ["--output=" + o, "--input=" + i])]
    for _ in range(chk.pick(1500, 30000)):
        given.append({"args": [r.choice(BIGTOK) for _ in range(r.choice([2, 3, 3, 4, 4, 5, 6]))], "world": r.randint(1, len(ws))})
    # arguments near valid ones
    for _ in range(chk.pick(800, 8000)):
        g = list(r.choice([["-i", "a.tex", "-o", "q"], ["a.tex", "q"], ["--stage", "syntax", "-w", ".", "d/e.x.tex"], ["--input=c", "--output", "d/q.typ", "--stage=document"], ["a.tex"]]))
        for _ in range(r.choice([1, 1, 2])):
            k = r.randint(0, len(g))
            if r.random() < 0.5 and k < len(g):
                g[k] = r.choice(BIGTOK)
            else:
                g.insert(k, r.choice(BIGTOK))
        given.append({"args": g, "world": r.randint(1, len(ws))})
    toks = {x for g in given for x in g["args"]} | set(SMALLTOK)
    toks |= {y for x in toks for y in (x.split("=", 1)[-1], x[2:])} | {y["path"] for w in ws for y in w}
    toks |= {y for x in toks for y in (x + ".typ", os.path.splitext(x)[0] + ".typ")}
    paths = sorted({os.path.normpath(x) for x in toks if x and not x.endswith("/")} - {"."})
    e = p.paths("cli", {"tokens": SMALLTOK, "minlen": 0, "len": chk.pick(3, 4), "paths": paths, "worlds": ws if chk.thorough else ws[:2], "given": [g for g in given if g["world"] <= (3 if chk.thorough else 2)]}, CLIDOCS, ["default"])
    e["DOCS"] = os.path.join(chk.work, "cli.docs.ndjson")
    write_ndjson(e["DOCS"], [{"cs": list(d), "utf8": True} for d in CLIDOCS] + [{"cs": ["?"], "utf8": False}])
    conf = json.load(open(e["CONF"]))
    conf["given"] = given
    conf["worlds"] = ws
    write_json(e["CONF"], conf)
    cfg = CFGS + "".join(f"INVARIANT C23_{i}\n" for i in ("FailureLeavesFiles", "OneFile", "InputKept", "Converted", "NoMixing", "SameMeaning"))
    t = tlc(chk.work, "cli", "Cli", cfg, e, 850)
    chk.count_tlc("cli", t)
    if not t.ok:
        raise ToolError(f"the specification violates {t.violated}:\n" + t.text[-2500:])
    want = {x["doc"]: x["conv"] for x in t.recs if "doc" in x}
    recs = {json.dumps([x["args"], x["world"]]): x for x in t.recs if "args" in x}
    d = p.h.run([{"op": "dump", "doc": x} for x in CLIDOCS])
    dumps = {i + 1: x["dump"] for i, x in enumerate(d)}
    cli_runs(chk, "runs", list(recs.values()), ws, want, dumps)
    return {}
