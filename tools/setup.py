#!/usr/bin/env python3
"""Builds what the checks need ahead of time (each check rebuilds by itself when /repo changed)."""
import os, sys, importlib, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
from vlib import build
specs = []
for f in sorted(glob.glob(os.path.join(V, "checks", "c[0-9]*.py"))):
    m = importlib.import_module("checks." + os.path.basename(f)[:-3])
    specs += [s for s in getattr(m, "PROGRAMS", []) if s not in specs]
build.programs(specs)
print("built %d programs" % len(specs))
