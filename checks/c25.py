"""C25 math: vec/quat/mat against textbook definitions in long double."""
from vlib import build, prog
LEVEL = "exploration"
TECHNIQUE = "sanitizer runs of every vector/quaternion/matrix operation with a long-double reference implementation as oracle"
SRC = ["c25_math.cpp"]
CFGS = ("asan", "rel")
PROGRAMS = [(c, SRC, "c25", False, (), ()) for c in CFGS]
def run(ctx):
    ctx.rule = "one case evaluates every operation of a type/size on fresh operands against the reference; non-trivial when the operand tuple is new"
    ctx.assumptions = ["integer operands are chosen so that results are representable (no wrap-around)", "inverse is only compared where the matrix is invertible at working precision; tolerances follow the condition of the operands"]
    for c, e in zip(CFGS, build.programs(PROGRAMS)):
        prog.run(ctx, e, c)
def replay(ctx, r):
    prog.replay(ctx, build.programs([p for p in PROGRAMS if p[0] == r["label"]])[0], r)
