#!/usr/bin/env python3
"""Build tools, library bitcode and every property's executables once (all cached by content)."""
import json, os, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import kvbuild
t = time.time()
kvbuild.tools()
for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]:
    try:
        kvbuild.build(c["property"])
    except kvbuild.BuildError as e:
        print("setup: build of", c["property"], "failed:", str(e)[-2000:])
    print(c["property"], "%.1f s" % (time.time() - t), flush=True)
