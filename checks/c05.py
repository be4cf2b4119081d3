"""C05: structural violations are rejected."""
from vlib import pool
from vlib.common import *
from vlib import gen as G, faults as F
import copy, json
TECHNIQUE = "fault-injection runs under sanitizers: one structural fault per generated document, with the specification deciding whether it must be refused; accepted documents are compared to a reference model"
CFGS = ("asan",)
PROGRAMS = programs(CFGS)

def compact(d): return json.dumps(d, separators=(",", ":")).encode()
def faults(w, i):
    g = Gen(w.rng, size=3, sources=("data",), unknown=False, extras=False, hostile_names=False); doc = g.document()
    for _ in range(12):
        f = F.fault(doc, w.rng)
        if f is None: continue
        key, exp, bad, absent = f
        err, dump, _ = load(w, compact(bad), opts=1)
        w.count("faults"); w.count("rejected" if err != "None" else "accepted"); w.seen(key)
        if err != "None": continue
        if exp == "reject":
            w.viol("accepted:" + key, "loaded without error: %s" % compact(bad)[:6000].decode()); continue
        try: want = Model(ALL_EXT).expect(absent)
        except (KeyError, AssertionError): w.count("no-model"); want = None
        if want is None:
            w.viol("accepted:" + key, "loaded without error although the member is conditionally required: %s" % compact(bad)[:6000].decode()); continue
        compare(w, dump, want, prefix="invented:" + key, note=compact(bad)[:6000].decode(), limit=1)
VERSIONS = ["", " ", "1.0", "1.1", "3.0", "20.0", "21", "0.2", "12.0", "x", "-2.0", "\u00e9"]
def asset(w, i):
    """The asset declaration and bad JSON have errors of their own."""
    r = w.rng; g = Gen(r, size=2, unknown=False, extras=False, hostile_names=False); doc = g.document(); a = doc["asset"]
    k = i % 8; opts = 1
    if k == 0: a["version"] = r.choice(VERSIONS); want = "UnsupportedVersion"
    elif k == 1: a["version"] = r.choice([2, 2.0, None, True, [], {}, ["2.0"]]); want = "InvalidOrMissingAssetField"
    elif k == 2: del a["version"]; want = "InvalidOrMissingAssetField"
    elif k == 3: doc["asset"] = r.choice([0, "2.0", None, True, [], ["2.0"]]); want = "InvalidOrMissingAssetField"
    elif k == 4: del doc["asset"]; want = "InvalidOrMissingAssetField"
    elif k == 5:   # not required: whatever it holds is not looked at
        if r.random() < .5: a["version"] = r.choice(VERSIONS)
        else: doc["asset"] = r.choice([0, "x", None])
        if r.random() < .5: del doc["asset"]
        opts |= OPT["DontRequireValidAssetMember"]; want = "None"
    elif k == 6: want = "InvalidJson"
    else: want = "reject"
    data = compact(doc)
    if k == 6:
        t = r.randrange(5)
        if t == 0: data = data[:r.randrange(1, len(data))]
        elif t == 1: data = data + r.choice([b"}", b"]", b"x", b"{}", b","])
        elif t == 2:
            j = r.choice([n for n, c in enumerate(data) if c in b'{}[]"'] ); data = data[:j] + data[j + 1:]
        elif t == 3: data = data.replace(b":", b"=", 1) if r.random() < .5 else data.replace(b'"', b"'", 2)
        else: data = data.replace(b'"asset"', b'"ass\xffet\xc3"', 1)
        try: json.loads(data); return
        except (ValueError, UnicodeDecodeError): pass
        if not data: return
    if k == 7: data = r.choice([b"[]", b"[%s]" % data, b"1", b"null", b'"x"', b"true", b"[{}]", b"{}", b"   ", b"\0\0\0\0"])
    mode = r.choice(["json", "auto"]) if k != 6 else ("json" if data[:1] != b"{" else r.choice(["json", "auto"]))
    err, dump, _ = load(w, data, mode=mode, opts=opts)
    w.seen("asset|%d|%s" % (k, err)); w.count("asset_" + want)
    if want == "reject":
        if err == "None": w.viol("accepted-not-gltf", "loaded: %r" % data[:500])
    elif err != want: w.viol("asset-error:%d:%s" % (k, want), "got %s want %s for %r" % (err, want, data[:1500]))
F32, U32 = 5126, 5125
def contradictions(doc, r):
    """(kind, document) for members that are fine by themselves but contradict each other or what they refer to; the specification refuses each."""
    out = []
    def all_of(kind): return [(p, k, v) for p, k, v in F.walk(doc) if isinstance(v, dict) and F.kind_of(p + (k,)) == kind]
    def edit(name, path, fn):
        d = copy.deepcopy(doc); o = F.at(d, path)
        if fn(o) is not False: out.append((name, d))
    for p, k, v in all_of("accessors[]"):
        n = TYPE_N[v["type"]]; q = p + (k,)
        if v["componentType"] in (F32, U32): edit("normalized-%d" % v["componentType"], q, lambda o: o.update(normalized=True))
        for b in ("min", "max"):
            edit("bounds-element", q, lambda o: o.update({b: [0] * (n - 1) + [r.choice(["0", None, True, [], {}, [0]])]})); edit("bounds-element", q, lambda o: o.update({b: [r.choice(["0", None, False, [0], {"a": 1}])] + [0] * (n - 1)}))
            edit("bounds-more", q, lambda o: o.update({b: [0] * (n + r.choice([1, 2, 16]))}))
            if n > 1: edit("bounds-less", q, lambda o: o.update({b: [0] * r.randrange(1, n)}))
    for p, k, v in all_of("cameras[]"): edit("camera-without-" + v["type"], p + (k,), lambda o: o.pop(v["type"])); edit("camera-other", p + (k,), lambda o: o.update(type="orthographic" if v["type"] == "perspective" else "perspective"))
    for p, k, v in all_of("images[]"): edit("image-without-data", p + (k,), lambda o: (o.pop("uri", None), o.pop("bufferView", None)))
    nv = len(doc.get("extensions", {}).get("KHR_materials_variants", {}).get("variants", []))
    for p, k, v in all_of("meshes[].primitives[].extensions.KHR_materials_variants.mappings[]"):
        for bad in (nv, nv + 1, 2 ** 32, 2 ** 63): edit("variant-beyond", p + (k,), lambda o: o["variants"].insert(r.randrange(len(o["variants"]) + 1), bad))
    S = {"box": {"size": [1, 2, 3]}, "sphere": {"radius": 2}, "capsule": {"height": 2, "radiusBottom": 1, "radiusTop": .5}, "cylinder": {"height": 2, "radiusBottom": 1, "radiusTop": .5}}
    for p, k, v in all_of("extensions.KHR_implicit_shapes.shapes[]"):
        for t, x in S.items():
            if t != v["type"]:
                edit("shape-%s-and-%s" % (v["type"], t), p + (k,), lambda o: o.update({t: x})); edit("shape-%s-empty-%s" % (v["type"], t), p + (k,), lambda o: o.update({t: {}}))
                if v["type"] in v: edit("shape-type-%s-is-%s" % (v["type"], t), p + (k,), lambda o: o.update(type=t))
    for p, k, v in all_of("extensions.KHR_physics_rigid_bodies.physicsJoints[].limits[]"):
        edit("limit-both", p + (k,), lambda o: o.update(linearAxes=[0], angularAxes=[1])); edit("limit-neither", p + (k,), lambda o: (o.pop("linearAxes", None), o.pop("angularAxes", None)))
        for a in ("linearAxes", "angularAxes"):
            if a in v: edit("limit-axis", p + (k,), lambda o: o.update({a: r.choice([[3], [0, 4], [2, 255], [1, 256], [2 ** 32], [0, "1"], [-1], [0.5]])}))
    for p, k, v in all_of("extensions.KHR_physics_rigid_bodies.physicsJoints[].drives[]"): edit("drive-axis", p + (k,), lambda o: o.update(axis=r.choice([3, 4, 255, 256, 2 ** 32, 2 ** 63])))
    for p, k, v in all_of("extensions.KHR_physics_rigid_bodies.collisionFilters[]"): edit("filter-both", p + (k,), lambda o: o.update(collideWithSystems=["a"], notCollideWithSystems=["b"]))
    for arr in ("accessors", "animations", "bufferViews", "buffers", "cameras", "images", "materials", "meshes", "nodes", "samplers", "scenes", "skins", "textures"):
        if arr in doc: edit("array-element", (), lambda o: o[arr].insert(r.randrange(len(o[arr]) + 1), r.choice([0, "x", None, True, [], [{}]])))
    return out
def contradict(w, i):
    r = w.rng; kw = {}
    if i % 2: e = G.ALL[(i // 2) % len(G.ALL)] if i % 4 == 1 else r.choice(["KHR_physics_rigid_bodies", "KHR_implicit_shapes", "KHR_materials_variants"]); kw["exts"] = {e} | ({"KHR_implicit_shapes"} if e == "KHR_physics_rigid_bodies" else set())
    g = Gen(r, size=3, sources=("data",), unknown=False, extras=False, hostile_names=False, **kw); doc = g.document(); by = {}
    for n, d in contradictions(doc, r): by.setdefault(n, []).append(d)
    for n, ds in by.items():
        bad = r.choice(ds); err, dump, _ = load(w, compact(bad), opts=1); w.count("contradiction_" + n); w.seen("contradiction|%s|%d" % (n, len(ds)))
        if err == "None": w.viol("accepted-contradiction:" + n, "loaded without error: %s" % compact(bad)[:6000].decode())
def sections(ctx):
    s = ctx.scale
    return [("faults", s(2500, 40000), faults), ("contradict", s(800, 10000), contradict), ("asset", s(800, 10000), asset)]
def run(ctx):
    ctx.rule = "one evaluation = one generated document with 12 single faults tried; distinct = different (member, fault) pairs injected"
    ctx.assumptions = ["an optional member of the wrong type may also be treated as absent"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
