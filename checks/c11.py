"""C11: threads with objects of their own, and readers of a shared asset, do not disturb each other."""
import json, os, shutil, tempfile
from vlib import build, prog
from vlib.common import *
TECHNIQUE = "ThreadSanitizer on randomised groups of threads (own parsers, exporters, decoders; readers of shared assets), in fresh processes for first use and with injected delays; every result is compared with a single-threaded run, also in an optimised build without the sanitizer"
LEVEL = "exploration"
CFGS = ("tsan", "rel")
PROGRAMS = [(c, ["c11_threads.cpp"], "c11", True, (), ("-lsimdjson",)) for c in CFGS]
TS = {"TSAN_OPTIONS": "exitcode=96:halt_on_error=1:color=never:second_deadlock_stack=1"}

def documents(ctx, top, n):
    r = ctx.rng("docs")
    for i in range(n):
        g = Gen(r, size=r.choice([1, 2, 2, 3]), sources=r.choice([("data",), ("data", "glb"), ("data", "file")])); doc = g.document()
        d = os.path.join(top, str(i)); os.mkdir(d); write_files(d, g.files)
        js = serialise(doc, r, None); data = glb(js, g.glb_bin) if g.glb_bin is not None else js
        if i % 12 == 11: data = data[:len(data) * 2 // 3]
        open(os.path.join(d, "doc%d" % i), "wb").write(data)
def go(ctx, fn):
    top = tempfile.mkdtemp(prefix="c11-")
    try:
        documents(ctx, top, 48); os.environ["FG_DOCS"] = top; fn(dict(TS, FG_DOCS=top))
    finally: os.environ.pop("FG_DOCS", None); shutil.rmtree(top, ignore_errors=True)
def run(ctx):
    ctx.rule = "one evaluation starts 2-8 threads with 2-6 jobs each and compares every job's result; distinct by the order in which the jobs of the threads were observed to start and end"
    ctx.assumptions = ["sharing one parser or exporter between threads, or changing an asset while others read it, is outside the promise", "simdjson's compiled part is not instrumented", "schedules are those the machine produced with the injected delays"]
    def body(env):
        for (cfg, *_), exe in zip(PROGRAMS, build.programs(PROGRAMS)):
            prog.run(ctx, exe, cfg, shards=ctx.scale(40, 200) if cfg == "tsan" else ctx.scale(80, 400), parallel=4, env=env)
    go(ctx, body)
def replay(ctx, r):
    os.environ["FG_REPEAT"] = "40"; os.environ.update(TS)
    go(ctx, lambda env: prog.replay(ctx, build.programs([p for p in PROGRAMS if p[0] == r["label"]])[0], r))
