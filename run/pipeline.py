"""Conformance of documents: TLC enumerates or judges, the harness runs."""
import json, os, random
import specs
from lib import *

VIEWDEP = {"lex": ["lex"], "exp": ["lex", "exp"], "tree": ["lex", "tree"], "treem": ["lex", "exp", "treem"],
           "text": ["lex", "exp", "treem", "text"], "math": ["lex", "exp", "treem", "math"]}
ORDER = ["lex", "exp", "tree", "treem", "text", "math"]
OBSVIEW = {"leaves": "tree", "leavesm": "treem", "textok": "text", "mathok": "math"}


def view_of(o):
    if o.startswith("end"):
        return o[3:]
    return OBSVIEW.get(o, o)


def plan_of(obs):
    need = set()
    for o in obs:
        need.update(VIEWDEP[view_of(o)])
    return [v for v in ORDER if v in need]


def render(e):
    if e[0] == "T":
        return f"{e[1]}:{len(e[2].encode('utf-16-le')) // 2}:{e[2]}"
    return e[1] + "(" + " ".join(render(c) for c in e[2]) + ")"


def leaves(e, acc):
    if e[0] == "T":
        acc.append([e[1], e[2]])
    else:
        for c in e[2]:
            leaves(c, acc)
    return acc


def project(o, x):
    if o in ("tree", "treem"):
        return render(x)
    if o in ("leaves", "leavesm"):
        return leaves(x, [])
    if o in ("text", "math"):
        return x if x[0] else [False, ""]
    if o in ("textok", "mathok"):
        return [x[0]]
    if o.startswith("end"):
        return True
    return x


CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"


def diff(got, want):
    g, w = str(got), str(want)
    k = 0
    while k < min(len(g), len(w)) and g[k] == w[k]:
        k += 1
    k = max(0, k - 60)
    return f"got ..{g[k:k + 200]!r} want ..{w[k:k + 200]!r}"


def broken(rec, obs):
    """Did the real code fail to produce one of the observations?"""
    for k in ("hang", "crash"):
        if k in rec:
            return f"{k} ({rec[k]})"
    for p in rec.get("panic", []):
        if p[0] in [view_of(o) for o in obs]:
            return f"panic in {p[0]}: {p[1]}"
    return None


class Pipe:
    def __init__(self, chk):
        self.chk = chk
        self.h = Harness(chk.work, specs.SPECS)
        self._default = None
        self.n = 0

    def default_table(self):
        if self._default is None:
            r = self.h.run([{"op": "spec", "spec": "default"}])[0]
            if "items" not in r:
                raise ToolError("no default specification: %r" % (r,))
            self._default = specs.dump_table(r["items"])
        return self._default

    def tables(self, docs, ids):
        t = {}
        for i in ids:
            if i == "default":
                t[i] = specs.restrict(self.default_table(), docs)
            else:
                t[i] = specs.table(specs.SPECS[i]["commands"])
        return t

    def paths(self, name, conf, docs, ids):
        cp = os.path.join(self.chk.work, name + ".conf.json")
        sp = os.path.join(self.chk.work, name + ".specs.json")
        write_json(cp, conf)
        write_json(sp, self.tables(docs, ids))
        return {"CONF": cp, "SPECS": sp}

    # -- the specification enumerates, the code replays -----------------------
    def enum(self, name, slots, obs, sp="small", minlen=None, post="", posts=None, invariants=(),
             grain="run", timeout=600, module="MCMitex", properties=()):
        """Every document made of one lexeme per slot (a slot is a list of
        lexemes), from the first minlen slots on; posts: what follows, by the
        first lexeme."""
        chk = self.chk
        minlen = len(slots) if minlen is None else minlen
        alphabet, ranges, seen = [], [], {}
        for sl in slots:
            k = tuple(sl)
            if k not in seen:
                seen[k] = [len(alphabet) + 1, len(alphabet) + len(sl)]
                alphabet += list(sl)
            ranges.append(seen[k])
        ps = [list((posts or {}).get(a, post)) for a in alphabet]
        conf = {"mode": "edit", "plan": plan_of(obs), "obs": list(obs), "alphabet": [list(a) for a in alphabet],
                "post": list(post), "posts": ps, "minlen": minlen, "slots": ranges, "sp": sp, "grain": grain}
        e = self.paths(name, conf, ["".join(alphabet) + post] + list(alphabet) + ["".join(p) for p in ps], [sp])
        cfg = CFG + "".join(f"INVARIANT {i}\n" for i in ("TypeOK",) + tuple(invariants))
        cfg += "".join(f"PROPERTY {i}\n" for i in properties)
        r = tlc(chk.work, name, module, cfg, e, timeout)
        chk.count_tlc(name, r)
        if not r.ok:
            raise ToolError(f"the specification violates its own property {r.violated} ({name}):\n" + r.text[-2500:])
        n, k = (1 if minlen == 0 else 0), 1
        for i, sl in enumerate(slots):
            k *= len(sl)
            n += k if i + 1 >= minlen else 0
        if len(r.recs) != n:
            raise ToolError(f"{name}: {len(r.recs)} of {n} documents came back from TLC")
        self.compare(name, [("".join(x["cs"]), x["want"]) for x in r.recs if not x.get("skip")], obs, sp)

    # -- the specification says what random documents give, the code replays ---
    def replay(self, name, docs, obs, sp="small", invariants=(), timeout=600, module="MCMitex"):
        """As file(), but TLC goes first, so that documents whose expansion never ends are not run"""
        chk = self.chk
        docs = list(dict.fromkeys(docs))
        conf = {"mode": "docs", "plan": plan_of(obs), "obs": list(obs), "alphabet": [], "post": [], "posts": [], "slots": [],
                "minlen": 0, "sp": sp, "grain": "run"}
        e = self.paths(name, conf, docs, [sp])
        dp = os.path.join(chk.work, name + ".docs.ndjson")
        write_ndjson(dp, [{"id": i, "cs": list(d), "sp": sp} for i, d in enumerate(docs)])
        e["DOCS"] = dp
        cfg = CFG + "".join(f"INVARIANT {i}\n" for i in ("TypeOK",) + tuple(invariants))
        r = tlc(chk.work, name, module, cfg, e, timeout)
        chk.count_tlc(name, r)
        if not r.ok:
            raise ToolError(f"the specification violates its own property {r.violated} ({name}):\n" + r.text[-2500:])
        if len(r.recs) != len(docs):
            raise ToolError(f"{name}: {len(r.recs)} of {len(docs)} documents came back from TLC")
        self.compare(name, [(docs[x["id"]], x["want"]) for x in r.recs if not x.get("skip")], obs, sp)

    def compare(self, name, recs, obs, sp):
        """recs: (document, what the specification says)"""
        chk = self.chk
        views = sorted({view_of(o) for o in obs})
        out = self.h.run([{"op": "doc", "doc": d, "spec": sp, "views": views} for d, _ in recs])
        for (doc, wants), y in zip(recs, out):
            if y.get("skipped"):
                continue
            b = broken(y, obs)
            if b:
                chk.violation(f"{b} on {doc!r}", {"doc": doc, "spec": sp, "want": wants, "run": name})
                continue
            for o in obs:
                got, want = project(o, y[view_of(o)]), wants[o]
                if got != want:
                    chk.violation(f"{o} of {doc!r}: {diff(got, want)}",
                                  {"doc": doc, "spec": sp, "observation": o, "got": got, "want": want, "run": name})
                    break
            chk.traces += 1
        for doc, wants in recs[:: max(1, len(recs) // 3)][:3]:
            chk.sample({"run": name, "doc": doc, "spec_result": wants}, 12)

    # -- the code runs, the specification judges -------------------------------
    def file(self, name, docs, obs, sp="small", invariants=(), grain="run", timeout=600, module="MCMitex", extra=None, properties=()):
        """docs: strings; the recorded runs of the code are checked by TLC"""
        chk = self.chk
        docs = list(dict.fromkeys(docs))
        views = sorted({view_of(o) for o in obs})
        out = self.h.run([{"op": "doc", "doc": d, "spec": sp, "views": views} for d in docs])
        recs = []
        for i, (d, y) in enumerate(zip(docs, out)):
            if y.get("skipped"):
                continue
            b = broken(y, obs)
            if b:
                chk.violation(f"{b} on {d!r}", {"doc": d, "spec": sp, "run": name})
                continue
            rec = {"id": i, "cs": list(d), "sp": sp}
            if extra:
                rec.update(extra(d))
            for v in views:
                rec[v] = y[v]
            recs.append(rec)
        if not recs:
            return
        conf = {"mode": "file", "plan": plan_of(obs), "obs": list(obs), "alphabet": [], "post": [], "posts": [], "slots": [],
                "minlen": 0, "sp": sp, "grain": grain}
        e = self.paths(name, conf, docs, [sp])
        dp = os.path.join(chk.work, name + ".docs.ndjson")
        write_ndjson(dp, recs)
        e["DOCS"] = dp
        cfg = CFG + "".join(f"INVARIANT {i}\n" for i in ("TypeOK",) + tuple(invariants))
        cfg += "".join(f"PROPERTY {i}\n" for i in properties)
        r = tlc(chk.work, name, module, cfg, e, timeout)
        chk.count_tlc(name, r)
        if not r.ok:
            raise ToolError(f"the specification violates its own property {r.violated} ({name}):\n" + r.text[-2500:])
        if grain == "run" and r.distinct < len(recs) * (len(conf["plan"]) + 1) - 2 * sum(1 for x in r.recs if x.get("skip")) * 6:
            raise ToolError(f"{name}: TLC did not finish all documents")
        for x in r.recs:
            if x.get("skip"):
                continue
            d = docs[x["id"]]
            o = x["bad"][0]
            got = project(o, out[x["id"]][view_of(o)])
            chk.violation(f"{o} of {d!r}: {diff(got, x['want'][o])}",
                          {"doc": d, "spec": sp, "observation": o, "got": got, "want": x["want"][o], "run": name})
        chk.traces += len(recs)
        for d in docs[:: max(1, len(docs) // 2)][:2]:
            chk.sample({"run": name, "doc": d, "code_result": {o: project(o, out[docs.index(d)].get(view_of(o)))
                                                                for o in obs if view_of(o) in out[docs.index(d)]}}, 12)
