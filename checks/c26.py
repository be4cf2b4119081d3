"""C26 tables: names, sizes, enumerations, flags, extension listing and checksums."""
from vlib import build, prog
LEVEL = "exploration"
TECHNIQUE = "sanitizer runs of every helper against independent tables of the specification and a bitwise CRC-32C reference, with exhaustive code sweeps and mutated names, directly and through the parser"
SRC = ["c26_tables.cpp"]
CFGS = ("asan", "rel")
PROGRAMS = [(c, SRC, "c26", True, (), ("-lsimdjson",)) for c in CFGS]
def run(ctx):
    ctx.rule = "one case is one table sweep, one checksum input, one set of extension bits, one (mutated) name, or a block of 64 component codes; distinct by the input"
    ctx.assumptions = ["5124 (signed int) is not a glTF component type; the library documents accepting it, so it is not judged through the parser", "the checksum is CRC-32C's polynomial with zero initial value and no final inversion, as the library defines it"]
    for c, e in zip(CFGS, build.programs(PROGRAMS)):
        prog.run(ctx, e, c)
def replay(ctx, r):
    prog.replay(ctx, build.programs([p for p in PROGRAMS if p[0] == r["label"]])[0], r)
