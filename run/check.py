"""check.py <property> <quick|thorough>: decide one property of mitex.

Exit 0: held on everything explored.  1: violated (VIOLATION line).  2: the
check itself failed."""
import os, random, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, pipeline, specs
from lib import *

CHECKS = {}


def check(prop):
    def f(fn):
        CHECKS[prop] = fn
        return fn
    return f


def rnd(chk, n, sp="small", feats=gen.ALL, **kw):
    ds = gen.docs(n, chk.seed * 1000 + hash_of(chk.prop, sp, feats), sp, feats, **kw)
    # other kinds of line ends and spaces in some of them
    r = random.Random(chk.seed * 31 + len(ds))
    vary = {"\n": ["\n", "\r", "\r\n", "\n\n", "\u2028", "\x0b", "\x85"], " ": [" ", " ", "\t", "  ", "\xa0", "\u3000"]}
    return ["".join(r.choice(vary[c]) if c in vary else c for c in d) if r.random() < 0.12 else d for d in ds]


def hash_of(*xs):
    h = 0
    for c in repr(xs):
        h = (h * 131 + ord(c)) % 999983
    return h


def shuffled(chk, xs, n, salt=0):
    r = random.Random(chk.seed * 7919 + salt)
    xs = list(xs)
    r.shuffle(xs)
    return xs[:n]


def sample_product(chk, slots, n, salt=0):
    """n random documents with one lexeme per slot"""
    r = random.Random(chk.seed * 104729 + salt)
    return ["".join(r.choice(s) for s in slots) for _ in range(n)]


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
import checks_lex, checks_macro, checks_tree, checks_conv, checks_sys, checks_pkg, checks_typst, checks_plugin  # noqa: E402,F401


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ["VERIF_TIER"] = tier
    if prop == "setup":
        build()
        return 0
    chk = Check(prop, tier, seed)
    try:
        build()
        extra = CHECKS[prop](chk, pipeline.Pipe(chk))
    except ToolError as e:
        print(f"{prop}: the check failed: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    if not chk.traces:
        print(f"{prop}: nothing was compared")
        return 2
    return chk.finish(extra=extra)


if __name__ == "__main__":
    sys.exit(main())
