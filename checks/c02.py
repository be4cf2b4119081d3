"""C02: core documents are parsed into exactly the data they state."""
from vlib import pool
from vlib.common import *
TECHNIQUE = "sanitizer-instrumented runs on generated valid documents, with the loaded asset compared member by member to a reference model of the glTF 2.0 specification"
CFGS = ("asan", "rel")
PROGRAMS = programs(CFGS)
NOTE = "The dump of the asset covers every public data member; the model is written from the specification. Integers are written without fraction or exponent part and member names are unique."

def case(sources, size, unknown=True):
    def f(w, i):
        g = Gen(w.rng, exts=(), sources=sources, size=size, unknown=unknown)
        doc = g.document(); data = pack(w, doc, g)
        d = ""; opts = 0; lb = li = False
        if g.files:
            d = w.scratch(); write_files(d, g.files)
            lb, li = w.rng.random() < .5, w.rng.random() < .5
            opts = (16 if lb else 0) | (128 if li else 0)
        cfg = "rel" if i % 3 == 2 else "asan"; err, dump, _ = load(w, data, cfg=cfg, asset="a", opts=opts, dir=d, ext=w.rng.choice([0, ALL_EXT]))
        if err != "None":
            w.viol("rejected", "valid document rejected with %s: %s" % (err, data[:3000])); return
        lookups(w, cfg, "a", data[:2000])
        want = Model(0, g.files, g.glb_bin, lb, li).expect(doc)
        compare(w, dump, want, note=data[:3000].decode("utf-8", "replace"))
        w.count("objects", sum(len(v) for v in dump.values() if isinstance(v, list)))
        w.seen(signature(doc)); w.sample("document of %d bytes with %s" % (len(data), {k: len(v) for k, v in doc.items() if isinstance(v, list)}))
    return f

def no_asset(w, i):
    """DontRequireValidAssetMember: the asset declaration may be absent."""
    g = Gen(w.rng, exts=(), size=2); doc = g.document()
    if w.rng.random() < .6: del doc["asset"]
    err, dump, _ = load(w, pack(w, doc, g), opts=2)
    if err != "None": w.viol("rejected-without-asset", err); return
    a = dump.pop("asset", None)
    compare(w, dump, Model(0, asset_info=False).expect(doc))
    w.seen(signature(doc, a is None))

def minimal(w, i):
    """Every object with only its required members: the defaults of the specification."""
    doc = {"asset": {"version": "2.0"}, "buffers": [{"byteLength": 4, "uri": "data:application/octet-stream;base64,AAAAAA=="}], "bufferViews": [{"buffer": 0, "byteLength": 4}],
           "accessors": [{"componentType": 5126, "type": "SCALAR", "count": 1}, {"bufferView": 0, "componentType": 5126, "type": "SCALAR", "count": 1}], "images": [{"uri": "a.png"}, {"bufferView": 0, "mimeType": "image/png"}],
           "samplers": [{}], "textures": [{}, {"source": 0}], "materials": [{}, {"pbrMetallicRoughness": {}}, {"pbrMetallicRoughness": {"baseColorTexture": {"index": 1}}, "normalTexture": {"index": 0}, "occlusionTexture": {"index": 0}, "emissiveTexture": {"index": 0}}],
           "meshes": [{"primitives": [{"attributes": {"POSITION": 0}}]}], "nodes": [{}, {"mesh": 0}, {"children": [0, 1]}, {"matrix": [float(k) for k in range(16)]}], "cameras": [{"type": "perspective", "perspective": {"yfov": 1.0, "znear": 0.1}}, {"type": "orthographic", "orthographic": {"xmag": 1.0, "ymag": 2.0, "zfar": 3.0, "znear": 0.0}}],
           "skins": [{"joints": [0]}], "animations": [{"channels": [{"sampler": 0, "target": {"path": "translation"}}], "samplers": [{"input": 0, "output": 1}]}], "scenes": [{}, {"nodes": [2]}, {"name": "x"}]}
    keys = [k for k in doc if k != "asset"]
    for k in keys:
        if w.rng.random() < .2: del doc[k]
        elif w.rng.random() < .3: w.rng.shuffle(doc[k])
    data = serialise(doc, w.rng)
    err, dump, _ = load(w, data, cfg="rel" if i % 2 else "asan")
    if err != "None": w.viol("rejected-minimal", err + data.decode()); return
    compare(w, dump, Model(0).expect(doc), note=data.decode())
    w.seen(data)

def big(w, i):
    """Long arrays and large indices."""
    r = w.rng; n = r.choice([300, 1000, 4000]); doc = {"asset": {"version": "2.0"}}
    doc["nodes"] = [{"name": "n%d" % k, "children": [r.randrange(n) for _ in range(r.randrange(3))] or [0], "translation": [float(k), k / 7, -k / 3]} for k in range(n)]
    doc["scenes"] = [{"nodes": [r.randrange(n) for _ in range(r.choice([1, 40, 200]))]} for _ in range(10)]
    doc["accessors"] = [{"componentType": 5125, "type": "SCALAR", "count": r.choice([1, 2**32, 2**53 + 1, 2**40]), "byteOffset": r.choice([0, 4, 2**33]), "min": [r.randrange(2**32)], "max": [2**32 - 1]} for _ in range(n // 4)]
    doc["bufferViews"] = [{"buffer": 0, "byteLength": r.choice([1, 2**31, 2**33, 2**53 + 3]), "byteOffset": r.choice([0, 2**32, 2**60])} for _ in range(20)]
    doc["meshes"] = [{"primitives": [{"attributes": {"A%d" % z: r.randrange(2**33) for z in range(r.randrange(12))}, "targets": [{"POSITION": z} for z in range(r.randrange(1, 9))]} for _ in range(r.choice([1, 3, 9]))], "weights": [z / 3 for z in range(r.randrange(1, 12))]} for _ in range(50)]
    doc["skins"] = [{"joints": [r.randrange(n) for _ in range(r.choice([1, 5, 300]))]}]
    doc["animations"] = [{"channels": [{"sampler": k, "target": {"path": "weights", "node": k}} for k in range(70)], "samplers": [{"input": k, "output": k + 1, "interpolation": r.choice(["LINEAR", "STEP", "CUBICSPLINE"])} for k in range(70)]}]
    data = serialise(doc, r, "compact")
    err, dump, _ = load(w, data)
    if err != "None": w.viol("rejected-big", err); return
    compare(w, dump, Model(0).expect(doc))
    w.seen(data)

def sections(ctx):
    s = ctx.scale
    return [("minimal", s(150, 1500), minimal), ("core", s(1400, 30000), case(("data",), 3)), ("core_glb", s(300, 6000), case(("data", "glb"), 3)), ("core_files", s(300, 6000), case(("data", "file", "glb"), 3)),
            ("large", s(60, 1500), case(("data",), 8)), ("no_asset", s(100, 2000), no_asset), ("big", s(24, 300), big)]
def run(ctx):
    ctx.rule = "one evaluation = one generated document loaded and every member of the asset compared; distinct = different sets of members present"
    ctx.assumptions = ["integers are written without fraction or exponent", "member names within an object are unique", "top-level members not known to the specification do not occur outside extensions and extras"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
