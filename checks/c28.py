"""C28 bounds: storage, moves, updates and document round trips of accessor bounds."""
from vlib import build, prog
LEVEL = "exploration"
TECHNIQUE = "sanitizer runs of bounds arrays with a lock-step value model, running-minimum/maximum oracle, and generated documents whose stated bounds are compared exactly after load, move and export"
SRC = ["c28_bounds.cpp"]
CFGS = ("asan", "rel")
PROGRAMS = [(c, SRC, "c28", True, (), ("-lsimdjson",)) for c in CFGS]
def run(ctx):
    ctx.rule = "one case is one bounds array, one sequence of moves, one sequence of updates, or one document with generated bounds; distinct by the values"
    ctx.assumptions = ["elements are not NaN (no order is defined for them)", "bounds of integer accessors are stated as whole numbers"]
    for c, e in zip(CFGS, build.programs(PROGRAMS)):
        prog.run(ctx, e, c)
def replay(ctx, r):
    prog.replay(ctx, build.programs([p for p in PROGRAMS if p[0] == r["label"]])[0], r)
