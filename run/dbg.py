"""dbg.py <doc> [spec]: show what the specification and the code say."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import pipeline
build()
c = Check("DBG", "quick", 1)
p = pipeline.Pipe(c)
docs = [sys.argv[1].encode().decode("unicode_escape")]
p.file("dbg", docs, ["lex", "exp", "tree", "treem", "text", "math"], sp=sys.argv[2] if len(sys.argv) > 2 else "small")
for s in c.samples: print(json.dumps(s, indent=1, ensure_ascii=False))
for v in c.violations: print("VIOL", v[0])
