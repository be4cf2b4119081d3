"""C29: running out of memory at any point is survivable."""
import json, os
from vlib import pool, faults as F
from vlib.common import *
TECHNIQUE = "fault injection under ASan, UBSan and LeakSanitizer: the k-th allocation of a library call fails in a forked copy of the process; monitors check how the call ends, that nothing leaks or is corrupted, and that the same objects give the undisturbed result afterwards"
CFGS = ("oom", "oomsv")
PROGRAMS = programs(CFGS)
WRONG = {20: "other-exception", 21: "success-with-other-result", 22: "asset-changed", 23: "later-call-fails", 24: "later-result-differs", 25: "leak", 26: "descriptor-leak"}
def strike(w, cfg, points, folder, slot, args, what, op="oom"):
    """Fail allocations (op "iof": file operations) of one operation; one row per point."""
    io = op == "iof"; r = w.drv(cfg).call(op, w.rng.getrandbits(60), points, folder, slot, *args)
    if r[0] == "unstable": w.viol("unstable:" + args[0], what); return
    if r[0] != "ok": raise RuntimeError("oom: " + r[0])
    n = int(r[1]); w.count("file_operations_in_reach" if io else "allocations_in_reach", n); w.count("operations_" + args[0])
    if n and args[0] != "uriseq": w.sample("%d faults, one by one, at %d " % (len(r) // 3 - 1, n) + ("file operations" if io else "allocations") + " of %s %s" % (args[0], what[:200]))
    for k, code, text in zip(r[3::3], r[4::3], r[5::3]):
        code = int(code); w.count("faults_" + k.split("@")[0] if io else "failed_allocations")
        if code == 3: w.count("not_reached"); continue
        w.count({0: "ended_with_bad_alloc", 1: "ended_with_error", 2: "coped", 42: "ended_in_noexcept"}.get(code, "wrong"))
        if code in (1, 2) or code in (0, 42) and not io: w.seen("%s|%s|%s" % (args[0], what[:300], k)); continue
        from vlib.drv import summarize
        kind = WRONG.get(code) or (("hang" if code in (1014, 1024, 1009) else summarize(text)) if text.strip() or code in (1014, 1024, 1009) else "exit%d" % code)
        if code == 25: kind = summarize(text)
        if code == 42: kind = "terminate"
        w.viol("%s:%s" % (args[0] + (":" + k.split("@")[0] if io else ""), kind), ("file operation" if io else "allocation") + " %s of %d fails in %s\n%s\n%s" % (k, n, args[0], text, what))
def some_document(w, r, sources):
    g = Gen(r, size=r.choice([1, 1, 2, 3]), sources=sources); doc = g.document(); write_files(w.tmp, g.files); return doc, g
def source(w, r, data):
    k = r.choice(["bytes", "bytes", "path", "mapped", "stream"])
    if k == "bytes": return k, data
    p = os.path.join(w.tmp, "the document"); open(p, "wb").write(data); return k, p
def pick(w, i): return "oomsv" if i % 4 == 3 else "oom"
def loading(w, i):
    r = w.rng; w.scratch(); cfg = pick(w, i); d = w.drv(cfg); doc, g = some_document(w, r, r.choice([("data",), ("data", "glb"), ("data", "file", "glb")]))
    if r.random() < .1:
        f = F.fault(doc, r)
        if f: doc = f[2]
    data = pack(w, doc, g); opts = r.choice([0, 1, 3, 9, 0x11, 0x81, 0x91, 0xf1, 0xff]) ; ext = r.choice([ALL_EXT, ALL_EXT, ALL_EXT, 0]); cats = CAT_ALL if r.random() < .8 else r.getrandbits(14)
    parser = "" if r.random() < .5 else "p"; cbs = r.choice(["", "", "b64", "extras"] if parser else ["", "", "map=alloc,unmap", "map=alt,unmap,b64", "extras"])
    if parser: # a parser that has been used before, perhaps in vain
        d.call("load", parser, "", "bytes", "auto", 1, ext, CAT_ALL, w.tmp, cbs, r.choice([data, data[:len(data) // 2], b'{"asset":{"version":"2.0"}}', glb(b'{"asset":{"version":"2.0"}}', b"\1\2\3\4")]))
    kind, what = source(w, r, data)
    strike(w, cfg, r.choice([12, 24]) * (4 if w.thorough else 1), "", "", ["load", parser, "", kind, r.choice(["auto", "auto", "glb" if g.glb_bin is not None else "json"]), opts, ext, cats, w.tmp, cbs, what], "%s opts=%x parser=%r cbs=%s cats=%x\n%r" % (kind, opts, parser, cbs, cats, data[:3000]))
    d.call("dropall")
def exporting(w, i):
    r = w.rng; w.scratch(); cfg = pick(w, i); d = w.drv(cfg); doc, g = some_document(w, r, ("data", "glb")); data = pack(w, doc, g)
    err, dump, _ = load(w, data, cfg=cfg, asset="a", opts=1)
    if err != "None": w.viol("setup", "%s %r" % (err, data[:3000])); return
    for kind in ("buffers", "images"):
        for k in range(len(dump[kind])):
            if r.random() < .3: d.call("source", "a", kind, k, r.choice(["vector", "array", "byteview"]), r.randbytes(r.choice([0, 1, 5, 700])), 2)
    opts = r.choice([0, 1, 2, 3, 4]); op = r.choice(["exportjson", "exportglb", "filejson", "fileglb"]); slot = r.choice(["", "x"])
    if op.startswith("export"): args = [op, "a", opts, r.choice(["", "buf"]), r.choice(["", "img"]), slot, r.choice(["", "1"])]; folder = ""
    else:
        folder = os.path.join(w.tmp, "out"); os.makedirs(folder); sub = r.choice(["", "new", "new/deep"])
        args = [op, "a", os.path.join(folder, sub, "scene" + (".glb" if op == "fileglb" else ".gltf")), opts, r.choice(["", "buf"]), r.choice(["", "img"]), slot, "", ""]
    strike(w, cfg, r.choice([12, 24]) * (4 if w.thorough else 1), folder, "a", args, "%s\n%r" % (args[1:], data[:3000])); d.call("dropall")
def uris(w, i):
    r = w.rng; cfg = pick(w, i); us = []; args = ["uriseq"]
    texts = ["a.bin", "buffers/some%20long%20name%2Fof-a-buffer.bin", "https://user@host.example.com:8080/path/to/x?query=1#fragment", "data:application/octet-stream;base64,AAECAwQFBgcICQoL", "x" * 40, ""]
    for k in range(r.randint(2, 8)):
        q = r.random(); n = "u%d" % k
        if not us or q < .5: args += ["newU" if r.random() < .5 else "newUsv", n, r.choice(texts)]; us.append(n)
        elif q < .7: args += ["copyU", n, r.choice(us)]; us.append(n)
        elif q < .85: args += ["asgU", r.choice(us), r.choice(us)]
        else: args += ["viewU", "v", r.choice(us)]
    strike(w, cfg, 30, "", "", args, str(args)[:1500])
def sections(ctx): return [("loading", ctx.scale(560, 8000), loading), ("exporting", ctx.scale(320, 5000), exporting), ("uris", ctx.scale(60, 800), uris)]
def run(ctx):
    ctx.rule = "one evaluation = one operation (load, export, file export, URI sequence) of which up to 24 (thorough 96) allocations were failed, one at a time; distinct = operation, input and failed allocation"
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
