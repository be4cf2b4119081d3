"""C13 base64 decoders."""
from vlib import build, prog
LEVEL = "exploration"
TECHNIQUE = "sanitizer runs (ASan/UBSan, exact-size heap blocks) with byte-exact round-trip oracle"
SRC = ["c13_base64.cpp"]
CFGS = ("asan", "rel")
PROGRAMS = [(c, SRC, "c13", True, (), ("-lsimdjson",)) for c in CFGS]
def run(ctx):
    ctx.rule = "an evaluated case counts as non-trivial when a distinct byte string/alignment was decoded by every available decoder and compared byte for byte"
    ctx.assumptions = ["x86 implementations only (no NEON hardware here)", "non-empty byte strings; the empty text is outside the decoders' documented precondition"]
    for c, e in zip(CFGS, build.programs(PROGRAMS)):
        prog.run(ctx, e, c)
def replay(ctx, r):
    prog.replay(ctx, build.program(r["label"], SRC, "c13"), r)
