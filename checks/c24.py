"""C24 containers: model-based operation sequences against the standard containers."""
from vlib import build, prog
LEVEL = "exploration"
TECHNIQUE = "ASan/UBSan runs of random operation sequences on SmallVector/StaticVector/Optional with a lock-step std model, a live-object registry and allocators that check every free"
SRC = ["c24_containers.cpp"]
CFGS = ("asan", "rel", "cpp20")
PROGRAMS = [(c, SRC, "c24", False, (), ()) for c in CFGS]
def run(ctx):
    ctx.rule = "one case runs an operation sequence (4-40 operations over three vectors, or 3-24 over two optionals) in lock-step with the std model; distinct by the sequence"
    ctx.assumptions = ["moved-from small vectors are expected to be empty and reusable (as std::vector's), moved-from elements and optionals may hold anything",
                       "clear() may keep or give back the heap block; capacity is only required to be >= size and what reserve() asked for"]
    for c, e in zip(CFGS, build.programs(PROGRAMS)):
        prog.run(ctx, e, c)
def replay(ctx, r):
    prog.replay(ctx, build.programs([p for p in PROGRAMS if p[0] == r["label"]])[0], r)
