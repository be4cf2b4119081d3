"""C03: enabled extensions are parsed into exactly the data the document states."""
from vlib import pool
from vlib.common import *
from vlib import gen as G
TECHNIQUE = "sanitizer-instrumented runs on generated documents using every supported extension, compared member by member to a reference model of the extension specifications"
CFGS = ("asan", "rel")
PROGRAMS = programs(CFGS)

def check(w, g, doc, ext, i, sec):
    data = pack(w, doc, g)
    cfg = "rel" if i % 3 == 2 else "asan"; err, dump, _ = load(w, data, cfg=cfg, asset="a", ext=ext, opts=w.rng.choice([0, 1]))
    if err != "None":
        w.viol("rejected-" + sec, "valid document rejected with %s: %s" % (err, data[:4000])); return
    compare(w, dump, Model(ext, glb_bin=g.glb_bin).expect(doc), note=data[:4000].decode("utf-8", "replace"))
    lookups(w, cfg, "a", data[:2000])
    used = [e for e in doc.get("extensionsUsed", []) if e in EXT]
    for e in used: w.count("uses_" + e)
    w.seen(signature(doc, ext)); w.sample("extensions %s" % used)

def allext(w, i):
    g = Gen(w.rng, size=3, sources=("data", "glb")); doc = g.document()
    check(w, g, doc, ALL_EXT, i, "all")
def single(w, i):
    """One extension at a time, so that nothing else can supply the value."""
    e = G.ALL[i % len(G.ALL)]
    ex = {e} | ({"KHR_implicit_shapes"} if e == "KHR_physics_rigid_bodies" else set()) | ({"KHR_texture_transform"} if w.rng.random() < .3 else set())
    g = Gen(w.rng, exts=ex, size=3); g.want_q = 1; old = g.want
    g.want = lambda n, q=0.5: n in g.exts and w.rng.random() < max(q, 0.85)
    doc = g.document()
    check(w, g, doc, mask(ex), i, "single")
def single_root(w, i):
    """GODOT_single_root carries no data; listing it as used or required changes nothing."""
    g = Gen(w.rng, exts=(), size=2); doc = g.document()
    doc.setdefault("extensionsUsed", []).append("GODOT_single_root")
    if w.rng.random() < .5: doc["extensionsRequired"] = ["GODOT_single_root"]
    check(w, g, doc, ALL_EXT, i, "root")
def fallback(w, i):
    """Meshopt fallback buffers: no URI, extension required."""
    g = Gen(w.rng, exts={"EXT_meshopt_compression"}, size=3); g.want = lambda n, q=0.5: n in g.exts
    doc = g.document()
    doc["extensionsRequired"] = ["EXT_meshopt_compression"]; u = doc.setdefault("extensionsUsed", [])
    if "EXT_meshopt_compression" not in u: u.append("EXT_meshopt_compression")
    for b in doc["buffers"][(0 if w.rng.random() < .5 else 1):]:
        if w.rng.random() < .6:
            b.pop("uri", None)
            if w.rng.random() < .6: b["extensions"] = {"EXT_meshopt_compression": {"fallback": True}}
    check(w, g, doc, ALL_EXT, i, "fallback")

def sections(ctx):
    s = ctx.scale
    return [("single", s(1200, 20000), single), ("all", s(900, 20000), allext), ("fallback", s(80, 1000), fallback), ("single_root", s(40, 400), single_root)]
def run(ctx):
    ctx.rule = "one evaluation = one generated document loaded with its extensions enabled and every member compared; distinct = different sets of members present"
    ctx.assumptions = ["integers are written without fraction or exponent", "JointDrive.maxForce is compared only when stated (the library has no representation for unlimited)"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
