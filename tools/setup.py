#!/usr/bin/env python3
"""Builds every conformance driver from /repo's working tree (the checks rebuild what changed)."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
for f in sorted(glob.glob(os.path.join(lib.VERIF, "harness", "*.cpp"))):
    n = os.path.basename(f)[:-4]
    if n != "multi":
        print(lib.build(n))
import area_worlds
print(lib.build_multi(sorted(area_worlds.MODULES))[0])
