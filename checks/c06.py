"""C06: category selection."""
from vlib import pool
from vlib.common import *
from vlib import gen as G
from vlib.model import close_categories
TECHNIQUE = "sanitizer-instrumented runs of generated documents under random category masks, compared to the full load's model restricted to the selected kinds; unselected kinds are also replaced by junk"
CFGS = ("asan",)
PROGRAMS = programs(CFGS)
KINDS = ["accessors", "animations", "buffers", "bufferViews", "cameras", "images", "materials", "meshes", "nodes", "samplers", "scenes", "skins", "textures"]
JUNK = [5, "x", None, True, [], {}, [{}], {"name": 3}, -1, {"byteLength": "x"}, {"primitives": 4}, {"uri": "data:;base64,!"}, {"count": -1}]
COMBO = {"OnlyRenderable": sum(CAT[k] for k in KINDS if k not in ("animations", "skins")), "OnlyAnimations": CAT["animations"] | CAT["accessors"] | CAT["bufferViews"] | CAT["buffers"]}

def case(w, i):
    r = w.rng; g = Gen(r, size=3, sources=("data", "glb")); doc = g.document()
    k = i % 6
    if k == 0: m = CAT[KINDS[(i // 6) % len(KINDS)]]
    elif k == 1: m = r.getrandbits(14)
    elif k == 2: m = CAT_ALL & ~CAT[r.choice(KINDS)] if r.random() < .5 else 0
    elif k == 3: m = sum(CAT[x] for x in r.sample(KINDS, 2))
    elif k == 4: m = r.choice(list(COMBO.values()))
    else: m = CAT_ALL
    closed = close_categories(m)
    off = [x for x in KINDS if not closed & CAT[x]]
    data = pack(w, doc, g); want = Model(ALL_EXT, glb_bin=g.glb_bin, cats=m).expect(doc)
    err, dump, _ = load(w, data, opts=1, cats=m)
    w.seen("%x|%s" % (m, signature(doc))); w.count("unselected_kinds", len(off))
    if err != "None": w.viol("rejected", "%s with mask %x\n%s" % (err, m, data[:5000])); return
    ok = compare(w, dump, want, note="mask %x\n%s" % (m, data[:3000].decode("utf-8", "replace")))
    if off and ok:
        for x in r.sample(off, r.randint(1, len(off))): doc[x] = [r.choice(JUNK) for _ in range(r.randrange(3))]
        w.count("junk_loads")
        data = pack(w, doc, g); err, dump, _ = load(w, data, opts=1, cats=m)
        if err != "None": w.viol("skipped-kind-interpreted", "%s with mask %x and junk in %s\n%s" % (err, m, off, data[:5000])); return
        compare(w, dump, want, prefix="skipped-kind-matters", note="mask %x" % m)
def sections(ctx): return [("mask", ctx.scale(1800, 40000), case)]
def run(ctx):
    ctx.rule = "one evaluation = one document under one category mask, then again with junk in the kinds not selected; distinct = different (mask, members present)"
    ctx.assumptions = ["selecting a kind also selects the kinds it refers to, as documented by Category"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
