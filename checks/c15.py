"""C15 accessors: read paths vs an independent decoder of the stored bytes."""
from vlib import build, prog
LEVEL = "exploration"
TECHNIQUE = "sanitizer runs of every accessor read path with an independent byte-level oracle and guarded exact-size destinations"
SRC = ["c15_p0.cpp", "c15_p1.cpp", "c15_p2.cpp", "c15_p3.cpp", "c15_p4.cpp", "c15_p5.cpp"]
CFGS = ("asan",)
PROGRAMS = [(c, SRC, "c15", True, (), ("-lsimdjson",)) for c in CFGS]
def run(ctx):
    ctx.rule = "one case is one accessor (element type x component type x normalisation x layout x data) read by every path; non-trivial when the tuple of delivered component values is new"
    ctx.assumptions = ["little-endian host", "integers read as another integer type under normalisation, and values out of the destination's range, are only required to agree between the paths"]
    for c, e in zip(CFGS, build.programs(PROGRAMS)):
        prog.run(ctx, e, c)
def replay(ctx, r):
    prog.replay(ctx, build.programs([p for p in PROGRAMS if p[0] == r["label"]])[0], r)
