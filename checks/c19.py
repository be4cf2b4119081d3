"""C19: validation accepts valid assets, reports invalid ones, and is always safe."""
import copy, json, math, re
from vlib import pool
from vlib.common import *
from vlib import gen as G
TECHNIQUE = "sanitizer-instrumented validation of generated valid assets, of assets with every reference pointed outside its array one at a time, of documents with one stated constraint broken or just met, and of assets with random indices throughout"
CFGS = ("asan", "rel")
PROGRAMS = programs(CFGS)
BIG = [1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 2]

def verdict(w, cfg, slot, note, exporters=False):
    d = w.drv(cfg); v = d.call("validate", slot)[0]; w.count("validate_" + v)
    if exporters: # exporting with the validation option asks the same question
        for op in ("exportjson", "exportglb"):
            e = d.call_raw(op, slot, 2, "", "", "", "")[0].decode(); w.count("export_validated")
            if v != "None" and e == "None": w.viol("export-unvalidated:" + op, "validation gives %s, exporting with the option succeeds\n%s" % (v, note))
            if v == "None" and e != "None": w.viol("export-refused:" + op, "validation passes, exporting with the option gives %s\n%s" % (e, note))
    return v
def document(w, **kw):
    e = kw.pop("exts", None); g = Gen(w.rng, exts=e, size=kw.pop("size", 3), sources=kw.pop("sources", ("data", "glb")), **kw); return g, g.document()
def valid(w, i):
    r = w.rng; kw = {}
    if i % 3 == 0:
        e = G.ALL[(i // 3) % len(G.ALL)]; kw["exts"] = {e} | ({"KHR_implicit_shapes"} if e == "KHR_physics_rigid_bodies" else set())
    g, doc = document(w, **kw); cfg = CFGS[i % 8 == 7]
    if r.random() < .06:
        doc["extensionsUsed"] = doc.get("extensionsUsed", []) + ["GODOT_single_root"]; doc["scenes"] = [{"nodes": [0]}]; doc["scene"] = 0; doc.setdefault("nodes", [{}])[0].update({k: v for k, v in (("translation", [0, 0, 0]), ("scale", [1, 1, 1])) if r.random() < .5})
        for k in ("matrix", "rotation"): doc["nodes"][0].pop(k, None)
        for k, one in (("translation", [0, 0, 0]), ("scale", [1, 1, 1])):
            if k in doc["nodes"][0]: doc["nodes"][0][k] = one
    data = pack(w, doc, g); opts = 1 | r.choice([0, 0, OPT["DecomposeNodeMatrices"]])
    err, dump, _ = load(w, data, cfg=cfg, asset="a", opts=opts)
    if err != "None": w.viol("setup", "%s %s" % (err, data[:4000])); return
    v = verdict(w, cfg, "a", data[:6000], i % 4 == 0); w.seen(signature(doc, opts)); w.sample(data[:300].decode("utf-8", "replace"))
    if v != "None": w.viol("valid-rejected", "%s for %s" % (v, data[:20000]))
def kind(path): return re.sub(r"/\d+", "/*", path)
def refs(w, i):
    r = w.rng; kw = {}
    if i % 2: e = G.ALL[(i // 2) % len(G.ALL)]; kw["exts"] = {e} | ({"KHR_implicit_shapes"} if e == "KHR_physics_rigid_bodies" else set())
    g, doc = document(w, **kw); cfg = CFGS[i % 8 == 7]; d = w.drv(cfg); data = pack(w, doc, g)
    err, dump, _ = load(w, data, cfg=cfg, asset="a", opts=1)
    if err != "None": w.viol("setup", "%s %s" % (err, data[:4000])); return
    if d.call("validate", "a")[0] != "None": w.count("not_valid"); return
    todo = [x for x in json.loads(d.call("refs", "a")[0]) if x["k"] == "ref"]; r.shuffle(todo)
    byk = {}
    for x in todo: byk.setdefault(kind(x["p"]), []).append(x)
    for k, xs in byk.items():
        for x in xs[:4 if w.thorough else 2]:
            n = int(x["n"])
            for bad in [n, r.choice([n + 1] + BIG)]:
                if d.call("poke", "a", x["p"], str(bad))[0] != "ok": raise RuntimeError("poke " + x["p"])
                v = verdict(w, cfg, "a", "%s=%d of %d\n%s" % (x["p"], bad, n, data[:3000]), r.random() < .05); w.count("ref_" + k); w.seen("ref%s|%d|%d" % (k, n, bad == n))
                if v == "None": w.viol("dangling:" + k, "%s is %d of %d, validation passes\n%s" % (x["p"], bad, n, data[:3000]))
            d.call("poke", "a", x["p"], str(x["v"]))
    if d.call("validate", "a")[0] != "None": w.viol("restored", "%s" % data[:3000])

# ---- single constraints: (name, document, True if the specification allows it)
F, U8, U16, U32, I8, I16, D = 5126, 5121, 5123, 5125, 5120, 5122, 5130
COMP = [I8, U8, I16, U16, U32, F, D]
TYPES = ["SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4"]
ALLOWED = {"POSITION": (["VEC3"], [F], [F, I8, U8, I16, U16]), "NORMAL": (["VEC3"], [F], [F, I8, I16]), "TANGENT": (["VEC4"], [F], [F, I8, I16]), "TEXCOORD_0": (["VEC2"], [F, U8, U16], [F, I8, U8, I16, U16]), "TEXCOORD_12": (["VEC2"], [F, U8, U16], [F, I8, U8, I16, U16]),
           "COLOR_0": (["VEC3", "VEC4"], [F, U8, U16], [F, U8, U16]), "JOINTS_0": (["VEC4"], [U8, U16], [U8, U16]), "WEIGHTS_0": (["VEC4"], [F, U8, U16], [F, U8, U16]), "_OWN": (TYPES, [F, I8, U8, I16, U16], [F, I8, U8, I16, U16])}
def base():
    return {"asset": {"version": "2.0"}, "buffers": [{"byteLength": 4096, "uri": "data:application/octet-stream;base64," + "AAAA" * 1365 + "AA=="}], "bufferViews": [{"buffer": 0, "byteLength": 2048}],
            "accessors": [{"bufferView": 0, "componentType": F, "type": "VEC3", "count": 3, "min": [0, 0, 0], "max": [0, 0, 0]}], "meshes": [{"primitives": [{"attributes": {"POSITION": 0}}]}], "nodes": [{"mesh": 0}], "scenes": [{"nodes": [0]}], "scene": 0}
def anim(d, inp=None, out=None, path="translation", interp=None, **kw):
    d["accessors"] += [dict({"bufferView": 0, "componentType": F, "type": "SCALAR", "count": 4, "min": [0], "max": [0]}, **(inp or {})), dict({"bufferView": 0, "componentType": F, "type": "VEC3", "count": 4}, **(out or {}))]
    s = {"input": len(d["accessors"]) - 2, "output": len(d["accessors"]) - 1}
    if interp: s["interpolation"] = interp
    d["animations"] = [{"channels": [{"sampler": 0, "target": {"node": 0, "path": path}}], "samplers": [s]}]
    return d["animations"][0]
def skinned(d):
    d["accessors"] += [{"bufferView": 0, "componentType": U8, "type": "VEC4", "count": 3}, {"bufferView": 0, "componentType": F, "type": "VEC4", "count": 3}]
    d["meshes"][0]["primitives"][0]["attributes"].update(JOINTS_0=1, WEIGHTS_0=2); d["nodes"].append({}); d["skins"] = [{"joints": [1]}]; d["nodes"][0]["skin"] = 0
def light(d, **l): d["extensionsUsed"] = ["KHR_lights_punctual"]; d["extensions"] = {"KHR_lights_punctual": {"lights": [l]}}
MATX = {"anisotropy": {"anisotropyStrength": .5}, "clearcoat": {"clearcoatFactor": .5}, "iridescence": {"iridescenceFactor": .5}, "sheen": {"sheenRoughnessFactor": .5}, "specular": {"specularFactor": .5}, "transmission": {"transmissionFactor": .5},
        "volume": {"thicknessFactor": .5}, "emissive_strength": {"emissiveStrength": 2}, "ior": {"ior": 1.25}, "pbrSpecularGlossiness": {"glossinessFactor": .5}, "diffuse_transmission": {"diffuseTransmissionFactor": .5}}
def cases(r):
    out = []
    def add(name, ok, fn):
        d = base(); fn(d); out.append((name, ok, d))
    # extension listing
    def req(d, both): d["extensionsRequired"] = ["KHR_mesh_quantization"]; d["extensionsUsed"] = ["KHR_mesh_quantization"] if both else ["KHR_texture_transform", "KHR_materials_unlit"]
    add("required-not-used", False, lambda d: req(d, False)); add("required-used", True, lambda d: req(d, True))
    def req2(d): d["extensionsRequired"] = ["KHR_mesh_quantization"]
    add("required-none-used", False, req2)
    # accessors
    add("accessor-count", False, lambda d: d["accessors"][0].update(count=0)); add("accessor-count", True, lambda d: d["accessors"][0].update(count=1))
    for c in (U16, I16, U32, F):
        s = COMP_SIZE[c]
        for off in (s, 2 * s, 4 * s): add("accessor-offset-%d" % c, True, lambda d: d["accessors"].append({"bufferView": 0, "componentType": c, "type": "SCALAR", "count": 2, "byteOffset": off}))
        for off in range(1, s): add("accessor-offset-%d" % c, False, lambda d: d["accessors"].append({"bufferView": 0, "componentType": c, "type": "SCALAR", "count": 2, "byteOffset": s * r.randrange(4) + off}))
        def viewoff(d, o): d["bufferViews"].append({"buffer": 0, "byteLength": 64, "byteOffset": o}); d["accessors"].append({"bufferView": 1, "componentType": c, "type": "SCALAR", "count": 2, "byteOffset": s})
        add("view-offset-%d" % c, True, lambda d: viewoff(d, s * 3))
        for off in range(1, s): add("view-offset-%d" % c, False, lambda d: viewoff(d, s * r.randrange(4) + off))
    for t in TYPES:
        n = TYPE_N[t]
        for k in ("min", "max"):
            add("bounds-length", True, lambda d: d["accessors"].append({"bufferView": 0, "componentType": F, "type": t, "count": 2, k: [0.5] * n}))
            for m in {max(1, n - 1), n + 1} - {n}: add("bounds-length", False, lambda d: d["accessors"].append({"bufferView": 0, "componentType": F, "type": t, "count": 2, k: [0.5] * m}))
    for part in ("indices", "values"):
        for prop, val in (("byteStride", 16), ("target", 34962), (None, 0)):
            def sparse(d):
                d["bufferViews"] += [{"buffer": 0, "byteLength": 64}, {"buffer": 0, "byteLength": 64}]; d["accessors"].append({"componentType": F, "type": "SCALAR", "count": 4, "sparse": {"count": 1, "indices": {"bufferView": 1, "componentType": U8}, "values": {"bufferView": 2}}})
                if prop: d["bufferViews"][1 if part == "indices" else 2][prop] = val
            add("sparse-%s-%s" % (part, prop), prop is None, sparse)
    # animations
    add("animation", True, lambda d: anim(d)); add("animation-channels", False, lambda d: anim(d).update(channels=[])); add("animation-samplers", False, lambda d: anim(d).update(samplers=[], channels=[]))
    add("animation-twice", False, lambda d: (lambda a: a["channels"].append(copy.deepcopy(a["channels"][0])))(anim(d)))
    def other(d, t): a = anim(d); a["channels"].append({"sampler": 0, "target": t})
    add("animation-two-paths", True, lambda d: other(d, {"node": 0, "path": "scale"}))
    def two(d): d["nodes"].append({}); other(d, {"node": 1, "path": "translation"})
    add("animation-two-nodes", True, two)
    for t in TYPES[1:]: add("animation-input-type", False, lambda d: anim(d, {"type": t, "min": [0] * TYPE_N[t], "max": [0] * TYPE_N[t]}))
    for c in (I8, U8, I16, U16, U32): add("animation-input-component", False, lambda d: anim(d, {"componentType": c}))
    for interp in ("LINEAR", "STEP", None):
        for n in (1, 3, 5, 12): add("animation-count-%s" % interp, False, lambda d: anim(d, None, {"count": n}, r.choice(["translation", "scale"]), interp))
        add("animation-count-%s" % interp, True, lambda d: anim(d, None, {"count": 4}, r.choice(["translation", "scale"]), interp)); add("animation-one-%s" % interp, True, lambda d: anim(d, {"count": 1}, {"count": 1}, interp=interp))
    for n in (4, 11, 13, 8, 16): add("animation-count-cubic", False, lambda d: anim(d, None, {"count": n}, interp="CUBICSPLINE"))
    add("animation-count-cubic", True, lambda d: anim(d, None, {"count": 12}, interp="CUBICSPLINE")); add("animation-one-cubic", False, lambda d: anim(d, {"count": 1}, {"count": 3}, interp="CUBICSPLINE")); add("animation-two-cubic", True, lambda d: anim(d, {"count": 2}, {"count": 6}, interp="CUBICSPLINE"))
    # buffers and views
    add("view-length", False, lambda d: d["bufferViews"].append({"buffer": 0, "byteLength": 0})); add("view-length", True, lambda d: d["bufferViews"].append({"buffer": 0, "byteLength": 1}))
    add("buffer-length", False, lambda d: d["buffers"].append({"byteLength": 0})); add("buffer-length", True, lambda d: d["buffers"].append({"byteLength": 1, "uri": "data:application/octet-stream;base64,AA=="}))
    for s in range(0, 300): add("view-stride", s % 4 == 0 and 4 <= s <= 252, lambda d: d["bufferViews"].append({"buffer": 0, "byteLength": 512, "byteStride": s}))
    for mode, good, bad in (("ATTRIBUTES", [(4, 5), (8, 5), (256, 2)], [(2, 5), (6, 5), (260, 5), (9, 1)]), ("TRIANGLES", [(2, 6), (4, 9)], [(1, 6), (3, 6), (8, 6), (2, 5), (4, 7)]), ("INDICES", [(2, 5), (4, 7)], [(1, 5), (3, 5), (8, 5), (6, 5)])):
        for st, n in good + bad:
            def mo(d, used=True): d["extensionsUsed"] = ["EXT_meshopt_compression"] if used else []; d["bufferViews"].append({"buffer": 0, "byteLength": st * n, "extensions": {"EXT_meshopt_compression": {"buffer": 0, "byteLength": 16, "byteStride": st, "count": n, "mode": mode}}})
            if st * n: add("meshopt-" + mode, (st, n) in good, mo)
            if (st, n) in good:
                def mo2(d): mo(d); del d["extensionsUsed"]
                add("meshopt-unlisted", False, mo2)
    # cameras
    for k in ("xmag", "ymag", "zfar", "znear"): add("orthographic", True, lambda d: d.update(cameras=[{"type": "orthographic", "orthographic": {"xmag": 1, "ymag": 1, "zfar": 10, "znear": 0}}]))
    add("orthographic-zfar", False, lambda d: d.update(cameras=[{"type": "orthographic", "orthographic": {"xmag": 1, "ymag": 1, "zfar": 0, "znear": 0}}]))
    for k in ("yfov", "znear", "zfar", "aspectRatio"):
        for v in (0, 0.0): add("perspective-" + k, False, lambda d: d.update(cameras=[{"type": "perspective", "perspective": dict({"yfov": .7, "znear": .01, "zfar": 10, "aspectRatio": 1}, **{k: v})}]))
    add("perspective", True, lambda d: d.update(cameras=[{"type": "perspective", "perspective": {"yfov": .7, "znear": .01}}]))
    # lights
    for t in ("point", "spot"):
        for v, ok in ((1e-3, True), (5, True), (0, False), (-1, False), (-1e-3, False)): add("light-range-" + t, ok, lambda d: light(d, type=t, range=v, **({"spot": {}} if t == "spot" else {})))
    add("light-directional", True, lambda d: light(d, type="directional")); add("light-directional-range", False, lambda d: light(d, type="directional", range=5))
    for i, o, ok in ((0, .5, True), (.1, 1.5, True), (.2, math.pi / 2, True), (-.1, .5, False), (-1e-3, .5, False), (.6, .5, False), (.2, 1.6, False), (.2, 3.1, False)): add("light-cone", ok, lambda d: light(d, type="spot", spot={"innerConeAngle": i, "outerConeAngle": o}))
    # materials
    for e, x in MATX.items():
        for listed in (True, False):
            def mat(d):
                d["materials"] = [{"extensions": {"KHR_materials_" + e: x}}]
                d["extensionsUsed"] = ["KHR_materials_" + e] if listed else ["KHR_materials_unlit"]
            add("material-" + e, listed, mat)
    def packed(d, n, t, listed): d["images"] = [{"bufferView": 0, "mimeType": "image/png"}]; d["textures"] = [{"source": 0}]; d["materials"] = [{"extensions": {n: {t: {"index": 0}}}}]; d["extensionsUsed"] = [n] if listed else ["KHR_materials_unlit"]
    for listed in (True, False): add("material-packing-1", listed, lambda d: packed(d, "MSFT_packing_normalRoughnessMetallic", "normalRoughnessMetallicTexture", listed)); add("material-packing-2", listed, lambda d: packed(d, "MSFT_packing_occlusionRoughnessMetallic", "normalTexture", listed))
    # primitives
    def strided(d, s): d["bufferViews"].append(dict({"buffer": 0, "byteLength": 64}, **s)); d["accessors"].append({"bufferView": 1, "componentType": U16, "type": "SCALAR", "count": 3}); d["meshes"][0]["primitives"][0]["indices"] = 1
    add("indices-stride", False, lambda d: strided(d, {"byteStride": 4})); add("indices-stride", True, lambda d: strided(d, {}))
    for k in ("min", "max"): add("position-bounds", False, lambda d: d["accessors"][0].pop(k))
    for n in ("POS", "position", "TEXCOORD", "UV0", "", "JOINT_0", "NORMALS", "COLOR", "Tangent"): add("attribute-name", False, lambda d: d["meshes"][0]["primitives"][0]["attributes"].update({n: 0}))
    for n, (types, plain, quant) in ALLOWED.items():
        for q in (False, True):
            for t in TYPES:
                for c in COMP:
                    if c == D and n == "_OWN": continue    # nothing says which attributes may be doubles
                    def at(d):
                        if q: d["extensionsUsed"] = ["KHR_mesh_quantization"]; d["extensionsRequired"] = ["KHR_mesh_quantization"]
                        d["accessors"].append({"bufferView": 0, "componentType": c, "type": t, "count": 3, "min": [0] * TYPE_N[t], "max": [0] * TYPE_N[t]}); d["meshes"][0]["primitives"][0]["attributes"][n] = 1
                    add("attribute-%s%s" % (n, "-quantized" if q else ""), t in types and c in (quant if q else plain), at)
    # nodes
    for k in range(4):
        for v in (1.0, -1.0, 1.01, -1.01, 5): add("node-rotation", abs(v) <= 1, lambda d: d["nodes"][0].update(rotation=[v if j == k else 0 for j in range(4)]))
    add("node-weights", False, lambda d: d["nodes"].append({"weights": [.5]})); add("skin", True, skinned)
    def nomesh(d): skinned(d); d["nodes"].append({"skin": 0})
    add("node-skin-without-mesh", False, nomesh)
    for k in ("JOINTS_0", "WEIGHTS_0"):
        def gone(d): skinned(d); d["meshes"][0]["primitives"][0]["attributes"].pop(k)
        add("node-skin-without-" + k, False, gone)
        def second(d): skinned(d); d["meshes"][0]["primitives"].append({"attributes": {x: v for x, v in d["meshes"][0]["primitives"][0]["attributes"].items() if x != k}})
        add("node-skin-second-without-" + k, False, second)
    for e, m in (("visibility", "visible"), ("selectability", "selectable"), ("hoverability", "hoverable")):
        for listed in (True, False):
            def nv(d): d["nodes"][0]["extensions"] = {"KHR_node_" + e: {m: False}}; d["extensionsUsed"] = ["KHR_node_" + e] if listed else ["KHR_texture_transform"]
            add("node-" + e, listed, nv)
    for f in (9728, 9729, 9984, 9985, 9986, 9987): add("sampler-mag", f < 9800, lambda d: d.update(samplers=[{"magFilter": f}])); add("sampler-min", True, lambda d: d.update(samplers=[{"minFilter": f}]))
    def nojoints(d): skinned(d); d["skins"].append({"joints": []})
    add("skin-joints", False, nojoints)
    # GODOT_single_root
    def godot(d, ch): d["extensionsUsed"] = ["GODOT_single_root"]; ch(d)
    add("godot", True, lambda d: godot(d, lambda d: 0)); add("godot-scenes", False, lambda d: godot(d, lambda d: d["scenes"].append({"nodes": [0]}))); add("godot-scene", False, lambda d: godot(d, lambda d: d.pop("scene")))
    add("godot-nodes", False, lambda d: godot(d, lambda d: (d["nodes"].append({}), d["scenes"][0]["nodes"].append(1)))); add("godot-first", False, lambda d: godot(d, lambda d: (d["nodes"].append({}), d["scenes"][0].update(nodes=[1]))))
    for k, v in (("translation", [0, 0, 1]), ("scale", [1, 2, 1]), ("rotation", [0, 0, 1, 0]), ("matrix", [1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 5, 0, 0, 1])): add("godot-" + k, False, lambda d: godot(d, lambda d: d["nodes"][0].update({k: v})))
    for k, v in (("translation", [0, 0, 0]), ("scale", [1, 1, 1]), ("rotation", [0, 0, 0, 1])): add("godot-" + k, True, lambda d: godot(d, lambda d: d["nodes"][0].update({k: v})))
    add("godot-no-scenes", False, lambda d: godot(d, lambda d: (d.pop("scenes"), d.pop("scene"))))
    return out
_n = None
def ncases():
    global _n
    if _n is None:
        import random; _n = len(cases(random.Random(1)))
    return _n
def constraints(w, i):
    name, ok, doc = cases(w.rng)[i % ncases()]; cfg = CFGS[i % 5 == 4]; r = w.rng
    if r.random() < .4: # among other objects, not only as the first of its kind
        for k in ("materials", "samplers", "cameras", "animations"):
            if k in doc and r.random() < .5:
                first = {"materials": {}, "samplers": {}, "cameras": {"type": "perspective", "perspective": {"yfov": .7, "znear": .01}}, "animations": None}[k]
                if first is not None: doc[k].insert(0, first)
    data = json.dumps(doc).encode(); err, dump, _ = load(w, data, cfg=cfg, asset="a", opts=1)
    v = err if err != "None" else verdict(w, cfg, "a", data[:3000], r.random() < .2); w.seen("con%s|%s" % (name, i % ncases())); w.count("allowed" if ok else "broken"); w.count("refused_by_" + ("nobody" if v == "None" else "parser" if err != "None" else "validate"))
    if ok and v != "None": w.viol("allowed-rejected:" + name, "%s for %s" % (v, data))
    if not ok and v == "None": w.viol("broken-accepted:" + name, "%s" % data)
def garbage(w, i):
    """Any indices anywhere: whatever the answer is, there is one."""
    r = w.rng; g, doc = document(w, size=r.choice([2, 3])); cfg = "asan"; d = w.drv(cfg); data = pack(w, doc, g)
    cats = CAT_ALL if r.random() < .6 else r.getrandbits(18)
    err, dump, _ = load(w, data, cfg=cfg, asset="a", opts=1, cats=cats)
    if err != "None": w.viol("setup", "%s %s" % (err, data[:4000])); return
    d.call("validate", "a"); todo = json.loads(d.call("refs", "a")[0])
    for _ in range(4):
        args = []
        for x in todo:
            if r.random() > r.choice([.05, .3]): continue
            n = int(x["n"])
            if x["k"] == "ref": v = r.choice([0, max(0, n - 1), n, n + 1, r.choice(BIG), r.randrange(0, n + 3)])
            elif x["k"] == "num": v = r.choice([0, 1, 2, 3, 4, 5, 8, 255, 256, r.choice(BIG), r.getrandbits(64) - 1 if r.random() < .2 else 7]) & ((1 << 64) - 1)
            elif x["p"].endswith("/type") and r.random() < .5: v = 0
            else: continue
            if v == (1 << 64) - 1: v -= 1
            args += [x["p"], str(v)]
        if args: d.call("poke", "a", *args)
        w.count("garbage_" + d.call("validate", "a")[0]); w.seen("garbage%s" % hash(tuple(args)))
def altered(w, i):
    """One constraint broken, or one member changed harmlessly, at any object of an asset that was valid."""
    r = w.rng; kw = {}
    if i % 3: e = G.ALL[(i // 3) % len(G.ALL)]; kw["exts"] = {e} | ({"KHR_implicit_shapes"} if e == "KHR_physics_rigid_bodies" else set())
    g, doc = document(w, size=r.choice([2, 3, 3, 5]), **kw); cfg = CFGS[i % 6 == 5]; d = w.drv(cfg); data = pack(w, doc, g)
    err, dump, _ = load(w, data, cfg=cfg, asset="a", opts=1)
    if err != "None": w.viol("setup", "%s %s" % (err, data[:4000])); return
    if d.call("validate", "a")[0] != "None": w.count("not_valid"); return
    for x in json.loads(d.call("alter", "a", r.getrandbits(60), 8 if w.thorough else 3)[0]):
        w.count(("harmless_" if x["ok"] else "altered_") + x["n"]); w.seen("alter%s|%d|%d" % (x["n"], x["site"], x["of"]))
        if x["ok"] and x["e"] != "None": w.viol("harmless-rejected:" + x["n"], "%s at site %d of %d: %s\n%s" % (x["n"], x["site"], x["of"], x["e"], data[:6000]))
        if not x["ok"] and x["e"] == "None": w.viol("altered-accepted:" + x["n"], "%s at site %d of %d\n%s" % (x["n"], x["site"], x["of"], data[:6000]))
    if d.call("validate", "a")[0] != "None": w.viol("restored", "%s" % data[:3000])
def sections(ctx):
    s = ctx.scale
    return [("valid", s(1200, 16000), valid), ("constraints", s(2, 8) * ncases(), constraints), ("refs", s(300, 3000), refs), ("altered", s(500, 8000), altered), ("garbage", s(400, 5000), garbage)]
def run(ctx):
    ctx.rule = "one evaluation validates one asset (or every reference of one asset in turn); distinct by members present, reference kind and array length, constraint case, or values written"
    ctx.assumptions = ["enumerations hold one of their enumerators", "a texture has a source, directly or through an extension (the specification only leaves it to other mechanisms)", "constraints the library does not check are not judged", "attributes of an extension the library does not know are named with a leading underscore"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
