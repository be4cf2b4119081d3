"""C17: generated primitive indices draw the same geometry and stay in bounds."""
import json, struct
from vlib import pool
from vlib.common import *
TECHNIQUE = "sanitizer-instrumented loads with and without index generation; the generated accessor is decoded from its buffer view and both drawings are expanded to vertex lists per topology and compared; everything else must be unchanged"
CFGS = ("asan", "rel", "smallvec")
PROGRAMS = programs(CFGS)
SIZES = {"5121": ("B", 1), "5123": ("H", 2), "5125": ("I", 4)}
COUNTS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 84, 85, 86, 127, 128, 129, 252, 253, 254, 255, 256, 257, 258, 510, 1000, 21844, 21845, 21846, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000]

def expand(mode, idx):
    """The vertices a draw call visits, primitive by primitive, in order."""
    n = len(idx); out = []
    if mode == 0: out = [(v,) for v in idx]
    elif mode == 1: out = [(idx[k], idx[k + 1]) for k in range(0, n - 1, 2)]
    elif mode == 2: out = [(idx[k], idx[(k + 1) % n]) for k in range(n)] if n > 1 else []
    elif mode == 3: out = [(idx[k], idx[k + 1]) for k in range(n - 1)]
    elif mode == 4: out = [(idx[k], idx[k + 1], idx[k + 2]) for k in range(0, n - 2, 3)]
    elif mode == 5: out = [(idx[k], idx[k + 1 + k % 2], idx[k + 2 - k % 2]) for k in range(n - 2)]
    elif mode == 6: out = [(idx[k + 1], idx[k + 2], idx[0]) for k in range(n - 2)]
    return out
def raw_bytes(w, cfg, slot, accessor, a):
    return json.loads(w.drv(cfg).call("readacc", slot, accessor, w.rng.choice(["get", "iter", "copy"]), "u32")[0])
def judge(w, cfg, before, after, slot, note):
    for kind in ("accessors", "bufferViews", "buffers"):
        if after[kind][:len(before[kind])] != before[kind]: w.viol("changed:" + kind, note)
    strip = lambda d: {k: v for k, v in d.items() if k not in ("accessors", "bufferViews", "buffers", "meshes")}
    if strip(before) != strip(after): w.viol("changed:other", "%s" % note)
    extra = len(after["accessors"]) - len(before["accessors"]); need = 0; used = set()
    for mi, (m0, m1) in enumerate(zip(before["meshes"], after["meshes"])):
        if {k: v for k, v in m0.items() if k != "primitives"} != {k: v for k, v in m1.items() if k != "primitives"} or len(m0["primitives"]) != len(m1["primitives"]): w.viol("changed:mesh", note)
        for p0, p1 in zip(m0["primitives"], m1["primitives"]):
            q = dict(p1)
            if "indices" in p0:
                if p0 != p1: w.viol("changed:indexed-primitive", note)
                continue
            q.pop("indices", None); need += 1
            if q != p0: w.viol("changed:primitive", "%s became %s\n%s" % (p0, p1, note))
            if "indices" not in p1: w.viol("missing", "mode %d: %s" % (p0["mode"], note)); continue
            k = p1["indices"]; key = "mode%d" % p0["mode"]
            if not len(before["accessors"]) <= k < len(after["accessors"]) or k in used: w.viol("accessor-range:" + key, "%d: %s" % (k, note)); continue
            used.add(k); a = after["accessors"][k]
            pos = [i for n, i in p0["attributes"] if n == "POSITION"][0]; n = before["accessors"][pos]["count"]
            if a["type"] != "SCALAR" or a["componentType"] not in SIZES or a["normalized"] or "bufferView" not in a or "sparse" in a: w.viol("accessor-kind:" + key, "%s" % a); continue
            size = SIZES[a["componentType"]][1]; v = after["bufferViews"][a["bufferView"]] if a["bufferView"] < len(after["bufferViews"]) else None
            if v is None or v["buffer"] >= len(after["buffers"]): w.viol("view-range:" + key, "%s" % a); continue
            b = after["buffers"][v["buffer"]]; held = int(b["data"]["bytes"].split(":")[0]) if "bytes" in b["data"] else -1
            if a["byteOffset"] % size or a["byteOffset"] + a["count"] * size > v["byteLength"] or v["byteOffset"] + v["byteLength"] > min(b["byteLength"], held): w.viol("space:" + key, "%d vertices: %s in %s in %s" % (n, a, v, b)); continue
            idx = raw_bytes(w, cfg, slot, k, a); w.count("indices", len(idx)); w.count("accessor_" + a["componentType"]); w.count(key)
            if len(idx) != a["count"] or a["count"] < 1: w.viol("count:" + key, "%s" % a); continue
            if max(idx) >= n: w.viol("bounds:" + key, "index %d of %d vertices" % (max(idx), n)); continue
            if max(idx) == (1 << 8 * size) - 1: w.viol("restart:" + key, "index %d in %d bytes is the restart value" % (max(idx), size)); continue
            want = expand(p0["mode"], range(n)); got = expand(p1["mode"], idx)
            if want != got:
                d = next((j for j, (x, y) in enumerate(zip(want, got)) if x != y), min(len(want), len(got)))
                w.viol("geometry:" + key, "%d vertices: %d primitives drawn, %d wanted, first difference at %d: %s" % (n, len(got), len(want), d, idx[:40]))
    if extra != need: w.viol("spare-accessors", "%d accessors added for %d primitives: %s" % (extra, need, note))
def check(w, i, doc, data, g=None):
    cfg = CFGS[i % 4 % 3]
    cats = CAT_ALL
    if w.rng.random() < .2: # meshes bring what they need with them; without meshes there is nothing to do
        cats = w.rng.choice([CAT["meshes"], CAT["nodes"], CAT["scenes"], CAT["animations"] | CAT["accessors"], CAT["accessors"], w.rng.getrandbits(14)]); w.count("partial_categories")
    e0, before, _ = load(w, data, cfg=cfg, opts=1, cats=cats)
    e1, after, _ = load(w, data, cfg=cfg, asset="g", opts=1 | OPT["GenerateMeshIndices"], cats=cats)
    if e0 != "None": w.viol("setup", "%s %s" % (e0, data[:3000])); return
    if e1 != "None": w.viol("refused", "%s %s" % (e1, data[:3000])); return
    judge(w, cfg, before, after, "g", data[:3000])
def documents(w, i):
    r = w.rng; g = Gen(r, size=3, sources=("data", "glb"), unknown=False); doc = g.document(); n = 0
    for m in doc.get("meshes", []):
        for p in m["primitives"]:
            if "POSITION" not in p["attributes"]: continue
            if r.random() < .6: p.pop("indices", None)
            if "indices" not in p: n += 1; p["mode"] = r.randrange(7)
            else: continue
    if any("POSITION" not in p["attributes"] and "indices" not in p for m in doc.get("meshes", []) for p in m["primitives"]): w.count("skipped"); return
    w.seen(signature(doc, n)); check(w, i, doc, pack(w, doc, g), g)
def counts(w, i):
    """Every topology at the vertex counts where the index size changes, several primitives per mesh."""
    r = w.rng; prims = []; accs = []; views = []; bufs = []
    for k in range(r.choice([1, 1, 2, 4])):
        n = COUNTS[(i + k * 11) % len(COUNTS)] if r.random() < .7 else r.choice([r.randrange(1, 300), r.randrange(1, 3000)])
        a = {"componentType": 5126, "type": "VEC3", "count": n, "min": [0, 0, 0], "max": [0, 0, 0]}
        accs.append(a); p = {"attributes": {"POSITION": len(accs) - 1}, "mode": (i // len(COUNTS) + k) % 7}
        if p["mode"] == 4 and r.random() < .5: del p["mode"]
        if r.random() < .3: p["attributes"] = {"_A": 0, **p["attributes"], "_B": 0}
        if r.random() < .2: accs.append({"componentType": 5125, "type": "SCALAR", "count": 3}); p["indices"] = len(accs) - 1
        prims.append(p); w.seen("%d|%d|%s" % (n, p.get("mode", 4), "indices" in p))
    doc = {"asset": {"version": "2.0"}, "accessors": accs, "meshes": [{"primitives": prims[:2]}] + ([{"primitives": prims[2:], "name": "second"}] if prims[2:] else [])}
    check(w, i, doc, json.dumps(doc).encode())
def broken(w, i):
    """A position accessor that does not exist, or no positions: an error, never a crash."""
    r = w.rng; n = r.choice([0, 1, 2]); bad = r.choice([n, n + 1, 1 << 31, 1 << 32, (1 << 63) - 1, (1 << 64) - 1])
    doc = {"asset": {"version": "2.0"}, "accessors": [{"componentType": 5126, "type": "VEC3", "count": 3}] * n, "meshes": [{"primitives": [{"attributes": {r.choice(["POSITION"] * 3 + ["_X"]): bad}, "mode": r.randrange(7)}]}]}
    if not n: del doc["accessors"]
    err, dump, _ = load(w, json.dumps(doc).encode(), cfg="asan", opts=OPT["GenerateMeshIndices"]); w.seen("broken%d|%d" % (n, bad)); w.count("broken_" + err)
    if err == "None": w.viol("broken-accepted", json.dumps(doc))
def sections(ctx):
    s = ctx.scale
    return [("counts", s(2, 12) * 7 * len(COUNTS), counts), ("documents", s(500, 8000), documents), ("broken", s(60, 600), broken)]
def run(ctx):
    ctx.rule = "one evaluation is one document loaded with and without index generation; distinct by topology, vertex count and members present"
    ctx.assumptions = ["a primitive without positions has no vertex count to generate from: loading it with index generation is refused"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
