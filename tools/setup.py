"""Builds every explorer once (the checks rebuild when /repo changes)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
import buildlib
from registry import CHECKS
done = set()
for c in CHECKS.values():
    for p in c["parts"]:
        k = (p["variant"], p["name"])
        if k not in done:
            done.add(k)
            print(buildlib.build(p["variant"], p["name"], p["sources"], p.get("link", ())))
