"""C32: work and memory grow in proportion to what is handled."""
import base64, json, os, random, shutil
from vlib import pool
from vlib.common import *
TECHNIQUE = "work counters: a build that counts control-flow edges, bytes moved, compared or searched by the C library's functions and bytes allocated inside library calls runs each operation on the same kind of document in two sizes; the growth of the counts is compared with the growth of the document"
CFGS = ("work", "worksv")
PROGRAMS = programs(CFGS)
GROW = 4      # the larger document has this many times the objects
LIMIT = 6.5   # and may cost this many times the work: proportional growth gives 4, with a logarithm 5, quadratic growth 16

class Doc:
    """A small document that loads, to which each dimension adds n of something."""
    def __init__(self, r):
        self.r = r; self.ext = set(); self.bin = None; self.files = {}
        raw = bytes(range(256)) * 4
        self.d = {"asset": {"version": "2.0"}, "buffers": [{"byteLength": len(raw), "uri": "data:application/octet-stream;base64," + base64.b64encode(raw).decode()}],
                  "bufferViews": [{"buffer": 0, "byteLength": 1024}], "accessors": [{"bufferView": 0, "componentType": 5126, "type": "VEC3", "count": 3, "min": [0, 0, 0], "max": [1, 1, 1]}, {"bufferView": 0, "componentType": 5126, "type": "SCALAR", "count": 3, "min": [0], "max": [1]}, {"bufferView": 0, "componentType": 5126, "type": "MAT4", "count": 4}, {"bufferView": 0, "componentType": 5126, "type": "VEC2", "count": 3}, {"bufferView": 0, "componentType": 5121, "type": "VEC4", "count": 3}, {"bufferView": 0, "componentType": 5126, "type": "VEC4", "count": 3}],
                  "images": [{"uri": "x.png"}], "samplers": [{}], "textures": [{"source": 0, "sampler": 0}], "materials": [{}], "meshes": [{"primitives": [{"attributes": {"POSITION": 0}}]}], "nodes": [{"mesh": 0}], "scenes": [{"nodes": [0]}]}
        self.read = []
    def add(self, kind, *objs):
        l = self.d.setdefault(kind, []); k = len(l); l.extend(objs); return k
    def extension(self, name, body):
        self.ext.add(name); e = self.d.setdefault("extensions", {}).setdefault(name, {})
        for k, v in body.items(): e.setdefault(k, []).extend(v)
        return e
    def data(self):
        if self.ext: self.d["extensionsUsed"] = self.d.get("extensionsUsed", []) + sorted(self.ext)
        js = json.dumps(self.d, separators=(",", ":")).encode()
        if self.bin is not None: return glb(js, self.bin)
        return js
    def view(self, raw):
        k = self.add("buffers", {"byteLength": len(raw), "uri": "data:application/octet-stream;base64," + base64.b64encode(raw).decode()}); return self.add("bufferViews", {"buffer": k, "byteLength": len(raw)})

D = {}
def dim(f): D[f.__name__] = f; return f
def many(kind, obj, *ext):
    def f(d, n): d.ext.update(ext); d.add(kind, *[obj(k) if callable(obj) else obj for k in range(n)])
    return f
TI = {"index": 0, "texCoord": 1, "extensions": {"KHR_texture_transform": {"offset": [.5, .25], "rotation": 1.5, "scale": [2, 3], "texCoord": 2}}}
D["accessors"] = many("accessors", {"bufferView": 0, "componentType": 5126, "type": "VEC3", "count": 3, "byteOffset": 4, "min": [0, 0, 0], "max": [1, 1, 1]})
D["sparse_accessors"] = many("accessors", {"componentType": 5126, "type": "VEC3", "count": 3, "sparse": {"count": 1, "indices": {"bufferView": 0, "componentType": 5125, "byteOffset": 256}, "values": {"bufferView": 0}}})
D["views"] = many("bufferViews", lambda k: {"buffer": 0, "byteLength": 64, "byteOffset": 4 * (k % 9), "byteStride": 16, "target": 34962, "name": "v%d" % k})
D["meshopt_views"] = many("bufferViews", {"buffer": 0, "byteLength": 64, "extensions": {"EXT_meshopt_compression": {"buffer": 0, "byteLength": 16, "byteStride": 16, "count": 4, "mode": "ATTRIBUTES", "filter": "NONE"}}}, "EXT_meshopt_compression")
D["buffers"] = many("buffers", lambda k: {"byteLength": 12, "name": "b%d" % k, "uri": "data:application/octet-stream;base64,AAECAwQFBgcICQoL"})
D["named_buffers"] = many("buffers", lambda k: {"byteLength": 3, "name": "same", "uri": "data:application/octet-stream;base64,AAEC"})
D["suffixed_buffers"] = many("buffers", lambda k: {"byteLength": 3, "name": "same" + "_1" * (k % 3), "uri": "data:application/octet-stream;base64,AAEC"})
D["images"] = many("images", lambda k: {"uri": "data:image/png;base64,AAECAwQFBgcICQoL", "name": "i%d" % (k % 7)})
D["image_views"] = many("images", {"bufferView": 0, "mimeType": "image/png"})
D["remote_images"] = many("images", lambda k: {"uri": "dir%%20x/image%d.png" % k})
D["textures"] = many("textures", {"source": 0, "sampler": 0, "name": "t", "extensions": {"KHR_texture_basisu": {"source": 0}, "MSFT_texture_dds": {"source": 0}, "EXT_texture_webp": {"source": 0}}})
D["samplers"] = many("samplers", {"magFilter": 9729, "minFilter": 9987, "wrapS": 33071, "wrapT": 33648})
D["materials"] = many("materials", lambda k: {"name": "m%d" % k, "pbrMetallicRoughness": {"baseColorFactor": [.1, .2, .3, 1], "baseColorTexture": TI, "metallicRoughnessTexture": TI}, "normalTexture": {**TI, "scale": 2}, "occlusionTexture": {**TI, "strength": .5}, "emissiveTexture": TI, "alphaMode": "MASK", "doubleSided": True})
D["rich_materials"] = many("materials", {"extensions": {"KHR_materials_clearcoat": {"clearcoatFactor": .5, "clearcoatTexture": TI, "clearcoatNormalTexture": TI}, "KHR_materials_sheen": {"sheenColorFactor": [.1, .2, .3], "sheenColorTexture": TI}, "KHR_materials_specular": {"specularTexture": TI}, "KHR_materials_transmission": {"transmissionTexture": TI}, "KHR_materials_volume": {"thicknessTexture": TI}, "KHR_materials_iridescence": {"iridescenceTexture": TI}, "KHR_materials_anisotropy": {"anisotropyTexture": TI}, "KHR_materials_ior": {"ior": 1.4}, "KHR_materials_unlit": {}}}, *["KHR_materials_" + x for x in ("clearcoat", "sheen", "specular", "transmission", "volume", "iridescence", "anisotropy", "ior", "unlit")])
D["cameras"] = many("cameras", lambda k: {"type": "perspective", "perspective": {"yfov": 1, "znear": .1}} if k % 2 else {"type": "orthographic", "orthographic": {"xmag": 1, "ymag": 1, "zfar": 9, "znear": 1}})
D["meshes"] = many("meshes", lambda k: {"name": "mesh%d" % k, "primitives": [{"attributes": {"POSITION": 0, "NORMAL": 0}, "material": 0, "mode": k % 7}]})
@dim
def nodes(d, n):
    k = d.add("nodes", *[{"name": "n%d" % j, "translation": [j, .5, 2], "rotation": [0, 0, 0, 1], "scale": [1, 2, 3]} for j in range(n)]); d.d["scenes"][0]["nodes"] += range(k, k + n)
@dim
def matrix_nodes(d, n): k = d.add("nodes", *[{"mesh": 0, "matrix": [2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 1, 2, 3, 1]}] * n); d.d["scenes"][0]["nodes"] += range(k, k + n)
@dim
def children(d, n): k = d.add("nodes", {}, *[{}] * n); d.d["nodes"][k] = {"children": list(range(k + 1, k + n + 1))}; d.d["scenes"][0]["nodes"].append(k)
@dim
def chain(d, n):
    n = n // 8; k = len(d.d["nodes"]); d.add("nodes", *[{"children": [k + j + 1]} if j < n - 1 else {} for j in range(n)]); d.d["scenes"][0]["nodes"].append(k)
@dim
def tree(d, n):
    k = len(d.d["nodes"]); d.add("nodes", *[{"children": [k + c for c in (2 * j + 1, 2 * j + 2) if c < n]} if 2 * j + 1 < n else {} for j in range(n)]); d.d["scenes"][0]["nodes"].append(k)
@dim
def scenes(d, n): d.add("scenes", *[{"nodes": [0], "name": "s"}] * n)
@dim
def node_weights(d, n): d.add("nodes", {"mesh": d.add("meshes", {"weights": [.5] * n, "primitives": [{"attributes": {"POSITION": 0}, "targets": [{"POSITION": 0}] * n}]}), "weights": [.25] * n})
@dim
def instances(d, n): d.ext.add("EXT_mesh_gpu_instancing"); d.add("nodes", *[{"mesh": 0, "extensions": {"EXT_mesh_gpu_instancing": {"attributes": {"TRANSLATION": 0, "_ID": 1}}}}] * n)
@dim
def instance_attributes(d, n): d.ext.add("EXT_mesh_gpu_instancing"); d.add("nodes", {"mesh": 0, "extensions": {"EXT_mesh_gpu_instancing": {"attributes": {"_A%d" % k: 0 for k in range(n)}}}})
@dim
def primitives(d, n): d.add("meshes", {"primitives": [{"attributes": {"POSITION": 0}, "mode": k % 7, "material": 0} for k in range(n)]})
@dim
def attributes(d, n): d.add("meshes", {"primitives": [{"attributes": {"POSITION": 0, **{"_A%d" % k: 0 for k in range(n)}}}]})
@dim
def texcoords(d, n): d.add("meshes", {"primitives": [{"attributes": {"POSITION": 0, **{"TEXCOORD_%d" % k: 3 for k in range(n)}}}]})
@dim
def target_attributes(d, n): d.add("meshes", {"primitives": [{"attributes": {"POSITION": 0}, "targets": [{"_A%d" % k: 0 for k in range(n)}]}]})
@dim
def draco(d, n): d.ext.add("KHR_draco_mesh_compression"); d.add("meshes", {"primitives": [{"attributes": {"POSITION": 0}, "extensions": {"KHR_draco_mesh_compression": {"bufferView": 0, "attributes": {"_A%d" % k: k for k in range(n)}}}}]})
@dim
def variants(d, n): d.extension("KHR_materials_variants", {"variants": [{"name": "v%d" % k} for k in range(n)]})
@dim
def mappings(d, n):
    d.extension("KHR_materials_variants", {"variants": [{"name": "w%d" % k} for k in range(n)]}); m = len(d.d["extensions"]["KHR_materials_variants"]["variants"])
    d.add("meshes", {"primitives": [{"attributes": {"POSITION": 0}, "extensions": {"KHR_materials_variants": {"mappings": [{"material": 0, "variants": [m - n + k]} for k in range(n)]}}}]})
@dim
def skins(d, n): k = d.add("nodes", {}, {}); d.add("skins", *[{"joints": [k, k + 1], "skeleton": k, "name": "s"}] * n)
@dim
def joints(d, n):
    k = d.add("nodes", *[{}] * n); d.add("skins", {"joints": list(range(k, k + n))})
@dim
def animations(d, n): d.add("animations", *[{"samplers": [{"input": 1, "output": 0}], "channels": [{"sampler": 0, "target": {"node": 0, "path": "translation"}}]}] * n)
@dim
def channels(d, n):
    k = d.add("nodes", *[{}] * n); d.add("animations", {"samplers": [{"input": 1, "output": 0, "interpolation": "STEP"} for _ in range(n)], "channels": [{"sampler": j, "target": {"node": k + j, "path": "scale"}} for j in range(n)]})
@dim
def lights(d, n): d.extension("KHR_lights_punctual", {"lights": [{"type": "spot", "color": [1, .5, 0], "intensity": 2, "range": 3, "name": "l%d" % k, "spot": {"innerConeAngle": .1, "outerConeAngle": .5}} for k in range(n)]})
@dim
def shapes(d, n): d.extension("KHR_implicit_shapes", {"shapes": [{"type": "sphere", "sphere": {"radius": .25}} if k % 2 else {"type": "box", "box": {"size": [1, 2, 3]}} for k in range(n)]})
@dim
def bodies(d, n): d.extension("KHR_physics_rigid_bodies", {"physicsMaterials": [{"staticFriction": .5}] * n, "collisionFilters": [{"collisionSystems": ["a"], "collideWithSystems": ["b"]}] * n, "physicsJoints": [{"limits": [{"min": 1, "max": 2, "linearAxes": [0, 1]}], "drives": [{"type": "linear", "mode": "force", "axis": 0, "maxForce": 1}]}] * n}); d.add("nodes", *[{"mesh": 0, "extensions": {"KHR_physics_rigid_bodies": {"motion": {"mass": 2}}}}] * n)
@dim
def collision_systems(d, n): d.extension("KHR_physics_rigid_bodies", {"collisionFilters": [{"collisionSystems": ["s%d" % k for k in range(n)], "notCollideWithSystems": ["t%d" % k for k in range(n)]}]})
@dim
def limits(d, n): d.extension("KHR_physics_rigid_bodies", {"physicsJoints": [{"limits": [{"min": 1, "max": 2, "angularAxes": [0]}] * n, "drives": [{"type": "angular", "mode": "acceleration", "axis": 1, "maxForce": 3, "stiffness": 2, "positionTarget": 1}] * n}]})
@dim
def extensions_used(d, n): d.d.setdefault("extensionsUsed", []).extend("VENDOR_%d" % k for k in range(n))
@dim
def extensions_required(d, n): d.d.setdefault("extensionsUsed", []).extend("VENDOR_r%d" % k for k in range(n)); d.ext.add("KHR_texture_transform"); d.d["extensionsRequired"] = ["KHR_texture_transform"] * n
@dim
def skinned(d, n):
    """Many nodes with a skin that share a mesh of many primitives."""
    n //= 4; k = d.add("nodes", {}); s = d.add("skins", {"joints": [k]}); m = d.add("meshes", {"primitives": [{"attributes": {"POSITION": 0, "JOINTS_0": 4, "WEIGHTS_0": 5}}] * n}); d.add("nodes", *[{"mesh": m, "skin": s}] * n)
@dim
def hidden(d, n): d.ext.add("KHR_node_visibility"); d.add("nodes", *[{"extensions": {"KHR_node_visibility": {"visible": False}}}] * n)
@dim
def plain_name(d, n): d.add("nodes", {"name": "n" * n * 8})
@dim
def quoted_name(d, n): d.add("nodes", {"name": '"' * n * 4})
@dim
def mixed_name(d, n): d.add("cameras", {"type": "perspective", "perspective": {"yfov": 1, "znear": .1}, "name": "ab\\c\n\"d\u00e9\x01" * n})
@dim
def object_uri(d, n): d.add("images", {"uri": "".join("a/b%20c" for _ in range(n))})
@dim
def reserved_uri(d, n): d.add("images", {"uri": "%25%3f%23" * n + "?" + "%26" * n + "#" + "%23" * n})
@dim
def long_remote(d, n): d.add("images", {"uri": "https://u:p@h" + "o" * n + ".org:80/" + "p/" * n + "?q=" + "&r" * n})
@dim
def long_mime(d, n): d.add("buffers", {"byteLength": 3, "uri": "data:application/octet-stream;" + "a=%41;" * n + "base64,AAEC"})
@dim
def data_bytes(d, n): d.view(d.r.randbytes(n * 12))
@dim
def binary_bytes(d, n): d.bin = d.r.randbytes(n * 16); d.d["buffers"].insert(0, {"byteLength": n * 16}); [v.__setitem__("buffer", v["buffer"] + 1) for v in d.d["bufferViews"]]
@dim
def image_bytes(d, n): d.add("images", {"uri": "data:image/jpeg;base64," + base64.b64encode(d.r.randbytes(n * 12)).decode()})
@dim
def file_bytes(d, n): b = d.r.randbytes(n * 16); d.files["big.bin"] = b; d.add("buffers", {"byteLength": len(b), "uri": "big.bin"})
@dim
def file_count(d, n):
    n //= 16; d.files["small.bin"] = b"abcd"; d.add("buffers", *[{"byteLength": 4, "uri": "small.bin"}] * n)
@dim
def many_extras(d, n): d.add("nodes", *[{"extras": {"k": k, "s": "x"}} for k in range(n)])
@dim
def big_extras(d, n): d.add("nodes", {"extras": {"a": [{"k": k, "s": ["x", None, True, {}]} for k in range(n)]}})
@dim
def unknown(d, n): d.d.setdefault("unknownMember", []).extend([{"a": 1, "b": [1, 2]}] * n); d.add("nodes", {"unknown": {"m%d" % k: k for k in range(n)}, "extensions": {"VENDOR_x%d" % k: {} for k in range(n)}})
@dim
def elements(d, n): d.read.append((d.add("accessors", {"bufferView": d.view(bytes(12 * n)), "componentType": 5126, "type": "VEC3", "count": n}), "v3"))
@dim
def strided_elements(d, n): v = d.view(d.r.randbytes(20 * n)); d.d["bufferViews"][v]["byteStride"] = 20; d.read.append((d.add("accessors", {"bufferView": v, "componentType": 5123, "type": "VEC2", "normalized": True, "count": n, "byteOffset": 4}), "v2"))
@dim
def sparse_elements(d, n):
    v = d.view(b"".join((2 * k).to_bytes(4, "little") for k in range(n // 2))); x = d.view(bytes(12 * (n // 2)))
    d.read.append((d.add("accessors", {"bufferView": d.view(bytes(12 * n)), "componentType": 5126, "type": "VEC3", "count": n, "sparse": {"count": n // 2, "indices": {"bufferView": v, "componentType": 5125}, "values": {"bufferView": x}}}), "v3"))
@dim
def unindexed(d, n):
    a = d.add("accessors", {"bufferView": d.view(bytes(12 * n)), "componentType": 5126, "type": "VEC3", "count": n, "min": [0, 0, 0], "max": [0, 0, 0]}); d.add("meshes", {"primitives": [{"attributes": {"POSITION": a}, "mode": m} for m in (1, 4, 5, 6)]})
@dim
def unindexed_primitives(d, n): d.add("meshes", *[{"primitives": [{"attributes": {"POSITION": 0}}]}] * n)

def costs(w, cfg, top, r, dims, n, opts):
    """Work and peak memory of each operation on a document with n of each dimension."""
    d = w.drv(cfg); doc = Doc(r); out = {}
    for k in dims: D[k](doc, n)
    shutil.rmtree(top, ignore_errors=True); os.makedirs(top); write_files(top, doc.files); data = doc.data(); size = len(data)
    def measure(name, *a):
        d.call("work"); x = d.call_raw(*a); e, m, al, pk = [int(v) for v in d.call("work")]; out[name] = (e + m // 8 + al // 8, pk); w.count("operations"); w.count("edges", e); w.count("moved", m); return x
    x = measure("load", "load", "", "a", "bytes", "auto", opts | 1 | OPT["LoadExternalBuffers"], ALL_EXT, CAT_ALL, top, "", data)
    if x[0] != b"None": w.viol("setup:" + "+".join(dims), "%s\n%s" % (x[0], data[:2000])); return None, 0
    v = measure("validate", "validate", "a")[0].decode(); w.count("validated_" + v)
    how = r.choice(["path", "mapped", "stream"]); write_files(top, {"main": data})
    x = measure("load-" + how, "load", "", "c", how, "auto", opts | 1, ALL_EXT, r.getrandbits(18) | CAT["buffers"] if r.random() < .5 else CAT_ALL, top, "", os.path.join(top, "main").encode()); d.call("drop", "c")
    for pretty in (0, 4):
        for op in ("exportjson", "exportglb"):
            x = measure("%s%s" % (op, "-pretty" * (pretty > 0)), op, "a", pretty, "", "", "", "")
            if x[0] != b"None" : del out["%s%s" % (op, "-pretty" * (pretty > 0))]; w.count("not_exported")
    if len(doc.d["buffers"]) + len(doc.d.get("images", ())) < 9000:
        x = measure("filejson", "filejson", "a", os.path.join(top, "out", "x.gltf"), 0, "", "", "", "", "")
        if x[0] != b"None": del out["filejson"]; w.count("not_exported")
    measure("traverse", "scene", "a", 0, "")
    for a, dest in doc.read:
        for how in ("get", "iter", "copy"): measure("read-%s" % how, "readacc", "a", a, how, dest)
    measure("move", "moveasset", "a", "b"); d.call("dropall"); shutil.rmtree(top, ignore_errors=True)
    return out, size
def judge(w, cfg, label, small, large, note, grown=GROW):
    for op in small:
        if op not in large: continue
        for what, k, floor, limit in (("work", 0, 20000, LIMIT), ("memory", 1, 40000, 2 * LIMIT)): # a string that doubles may be half empty
            a, b = max(small[op][k], floor), large[op][k]; q = b / a * GROW / max(GROW, grown)
            w.count("grew_%s" % ("below_4" if q < 4 else "4_to_4.5" if q < 4.5 else "4.5_to_5.5" if q < 5.5 else "more"))
            if q > limit: w.viol("%s:%s/%s" % (what, op, label), "%s: %d, with %.1f times as much: %d (%.1f times)\n%s" % (cfg, small[op][k], grown, b, b / a, note))
NAMES = sorted(D)
def grow(w, cfg, dims, n, opts, label):
    top = os.path.join(w.scratch(), "f"); seed = w.rng.getrandbits(32)
    a, sa = costs(w, cfg, top, random.Random(seed), dims, n, opts); b, sb = costs(w, cfg, top, random.Random(seed), dims, GROW * n, opts)
    if a is None or b is None: return
    w.seen("%s|%s|%d" % (cfg, "+".join(dims), opts)); w.sample("%s x%d: %d and %d bytes, work %s and %s" % ("+".join(dims), n, sa, sb, {k: v[0] for k, v in a.items()}, {k: v[0] for k, v in b.items()}))
    judge(w, cfg, label, a, b, "%s of %s, documents of %d and %d bytes" % (n, "+".join(dims), sa, sb))
def single(w, i):
    """One kind of thing grows."""
    r = w.rng; name = NAMES[i % len(NAMES)]; grow(w, CFGS[i // len(NAMES) % 2], [name], r.randrange(3000, 4500), OPT["GenerateMeshIndices"] if name.startswith("unindexed") else r.choice([0, OPT["DecomposeNodeMatrices"]]), name)
def mixed(w, i):
    """Several grow together: what one of them costs must not depend on how many there are of another."""
    r = w.rng; names = [x for x in NAMES if x not in ALONE]; random.Random(i // len(PAIRS)).shuffle(names); a, b = PAIRS[i % len(PAIRS)] # any two meet in one of these cases
    grow(w, CFGS[(i + i // len(PAIRS)) % 2], sorted(set(names[a::BLOCKS] + names[b::BLOCKS])), 1500, r.choice([0, OPT["DecomposeNodeMatrices"]]), "mixed")
ALONE = ("file_count",); BLOCKS = 9; PAIRS = [(a, b) for a in range(BLOCKS) for b in range(a)]
def pieces(r, n):
    k = r.randrange(12)
    if k == 0: return "escape", '"' * n
    if k == 1: return "escape", "\\\x01\n\u00e9x" * n
    if k == 2: return "escape", "plain text " * n
    if k == 3: return "pretty", json.dumps([{"a": [1, 2, {}], "b\"\\": "x,y"}] * n)
    if k == 4: return "pretty", "[" * (n // 40) + "]" * (n // 40)
    if k == 5: return "pretty", json.dumps(["\\\"" * n, "," * n])
    if k == 6: return "decodepercents", "%41" * n
    if k == 7: return "decodepercents", "a%zz%2" * n
    if k == 8: return "decodepercents", "abcdef" * n
    if k == 9: return "uriseq", "http://" + "%61" * n + "@" + "h" * n + ":80/" + "%2f/" * n + "?" + "%3f" * n + "#" + "%23" * n
    if k == 10: return "uriseq", "data:image/png;base64," + "AAAA" * n
    return "uriseq", "a:b@c/" * n
def texts(w, i):
    """The functions on texts."""
    r = w.rng; seed = r.getrandbits(32); n = r.randrange(3000, 9000); cfg = CFGS[i % 2]; d = w.drv(cfg); got = []; sizes = []
    for m in (n, GROW * n):
        q = random.Random(seed); q.randrange = lambda a, b=None: i % 12 if a == 12 else random.Random.randrange(q, a, b)
        op, text = pieces(q, m)
        if op == "uriseq": args = (op, q.choice(["newU", "newV", "newUsv"]), "n", text.encode()); args += (("copyU", "m", "n") if args[1] != "newV" else ("fromV", "m", "n"))
        else: args = (op, text.encode())
        d.call("work"); out = d.call_raw(*args); e, mv, al, pk = [int(v) for v in d.call("work")]; sizes.append(len(text) + sum(map(len, out))); got.append({op: (e + mv // 8 + al // 8, pk)}); w.count("operations")
    w.seen("text%d|%s" % (i % 12, cfg)); judge(w, cfg, "texts", got[0], got[1], "%s %r..." % (op, text[:60]), grown=sizes[1] / sizes[0])
def sections(ctx):
    s = ctx.scale
    return [("single", s(2, 12) * len(NAMES), single), ("mixed", s(len(PAIRS), 20 * len(PAIRS)), mixed), ("texts", s(48, 600), texts)]
def run(ctx):
    ctx.rule = "one evaluation runs every operation on one kind of document in two sizes and compares the growth of work and peak memory with that of the document; distinct by what grows, build and options"
    ctx.assumptions = ["a cost is edges taken + (bytes moved, compared or searched + bytes allocated) / 8; simdjson's own edges are not counted", "a size ratio of %d may cost %.1f times as much" % (GROW, LIMIT), "looking up one attribute by name may take as long as there are attributes"]
    pool.run(ctx, sections(ctx), CFGS, timeout=120.0)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS, timeout=120.0)
