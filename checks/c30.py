"""C30: faults while reading or writing files are reported, and leave no trace."""
import os
from vlib import pool
from vlib.common import *
from checks.c29 import strike, some_document
TECHNIQUE = "fault injection under ASan, UBSan and LeakSanitizer: the k-th operation on a file (stat, open, read, write, map, make a folder, close) fails, is interrupted or is incomplete in a forked copy of the process; monitors compare the outcome, files, descriptors and later calls with undisturbed ones"
CFGS = ("oom",)
PROGRAMS = programs(CFGS)
def reading(w, i):
    r = w.rng; w.scratch(); d = w.drv("oom"); doc, g = some_document(w, r, r.choice([("file",), ("data", "file"), ("file", "glb"), ("data", "file", "glb")])); data = pack(w, doc, g)
    opts = r.choice([1, 1, 0x81, 0x91, 0x80]); parser = r.choice(["", "p"]); kind = r.choice(["bytes", "path", "mapped", "stream", "stream"]); cbs = r.choice(["", "", "extras"] if parser else ["", "", "map=alloc,unmap"]); what = data
    if kind != "bytes":
        what = os.path.join(w.tmp, "the document"); open(what, "wb").write(data)
    if parser: d.call("load", parser, "", "bytes", "auto", 1, ALL_EXT, CAT_ALL, w.tmp, cbs, data)
    strike(w, "oom", 24 * (4 if w.thorough else 1), "", "", ["load", parser, "", kind, r.choice(["auto", "auto", "glb" if g.glb_bin is not None else "json"]), opts, ALL_EXT, CAT_ALL, w.tmp, cbs, what], "%s opts=%x parser=%r cbs=%s\n%r" % (kind, opts, parser, cbs, data[:3000]), op="iof")
    d.call("dropall")
def writing(w, i):
    r = w.rng; w.scratch(); d = w.drv("oom"); doc, g = some_document(w, r, ("data", "glb")); data = pack(w, doc, g)
    err, dump, _ = load(w, data, cfg="oom", asset="a", opts=1)
    if err != "None": w.viol("setup", "%s %r" % (err, data[:3000])); return
    for kind in ("buffers", "images"):
        for k in range(len(dump[kind])):
            if r.random() < .5: d.call("source", "a", kind, k, r.choice(["vector", "array", "byteview"]), r.randbytes(r.choice([0, 1, 5, 700, 9000, 100000])), 2)
    op = r.choice(["filejson", "fileglb"]); folder = os.path.join(w.tmp, "out"); os.makedirs(folder); sub = r.choice(["", "new", "new/deep"])
    args = [op, "a", os.path.join(folder, sub, "scene" + (".glb" if op == "fileglb" else ".gltf")), r.choice([0, 2]), r.choice(["", "buf", "buf/deep"]), r.choice(["", "img"]), r.choice(["", "x"]), "", ""]
    strike(w, "oom", 24 * (4 if w.thorough else 1), folder, "a", args, "%s\n%r" % (args[1:], data[:3000]), op="iof"); d.call("dropall")
def sections(ctx): return [("reading", ctx.scale(500, 8000), reading), ("writing", ctx.scale(250, 4000), writing)]
def run(ctx):
    ctx.rule = "one evaluation = one load or export of which up to 24 (thorough 96) operations on files were made to fail, one at a time; distinct = operation, input and fault"
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
