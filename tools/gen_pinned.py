#!/usr/bin/env python3
"""Writes run/pinned.json, the items of the built-in specification. Only after reading the differences."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "run"))
from lib import *
import pipeline
build("harness")
chk = Check("C22", "pin", 1)
items = pipeline.Pipe(chk).h.run([{"op": "spec", "spec": "default"}])[0]["items"]
p = os.path.join(here, "run", "pinned.json")
old = json.load(open(p))
for n in sorted(set(old) | set(items)):
    if old.get(n) != items.get(n):
        print(n, old.get(n), "->", items.get(n))
if "--write" in sys.argv:
    json.dump(items, open(p, "w"), sort_keys=True, ensure_ascii=True, indent=0)
shutil.rmtree(chk.work)
