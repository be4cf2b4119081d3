"""Reference model: the canonical dump a loaded asset must have for a glTF document.

Written from the glTF 2.0 specification and the extension specifications; it never looks at the library.
Names of dump members follow harness/dump.hpp.
"""
import base64, struct, urllib.parse
from .consts import EXT, CAT, CAT_ALL, MIME

def f32(x):
    return struct.unpack("<f", struct.pack("<f", float(x)))[0]

def fnv(b):
    h = 1469598103934665603
    for c in b:
        h = ((h ^ c) * 1099511628211) & 0xffffffffffffffff
    return h
def bytes_repr(b):
    r = "%d:%016x" % (len(b), fnv(b))
    if len(b) <= 256: r += ":" + b.hex()
    return r
def latin(s):
    """Names are dumped as raw UTF-8 bytes transported as latin-1."""
    return s.encode("utf-8").decode("latin-1")

ALPHA = {"OPAQUE": 0, "MASK": 1, "BLEND": 2}
INTERP = {"LINEAR": 0, "STEP": 1, "CUBICSPLINE": 2}
PATHS = {"translation": 1, "rotation": 2, "scale": 3, "weights": 4}
LIGHTS = {"directional": 0, "spot": 1, "point": 2}
MODES = {"ATTRIBUTES": 0, "TRIANGLES": 1, "INDICES": 2}
FILTERS = {"NONE": 0, "OCTAHEDRAL": 1, "QUATERNION": 2, "EXPONENTIAL": 3}
COMBINE = {"average": 0, "minimum": 1, "maximum": 2, "multiply": 3}

def close_categories(c):
    if c == CAT_ALL: return c
    C = CAT
    def has(n): return c & C[n]
    if has("scenes"): c |= C["nodes"]
    if has("nodes"): c |= C["cameras"] | C["meshes"] | C["skins"]
    if has("skins"): c |= C["accessors"] | C["nodes"] | C["cameras"] | C["meshes"] | C["skins"]
    if has("meshes"): c |= C["accessors"] | C["materials"]
    if has("materials"): c |= C["textures"]
    if has("animations"): c |= C["accessors"]
    if has("textures"): c |= C["images"] | C["samplers"]
    if has("images") or has("accessors"): c |= C["bufferViews"]
    if has("bufferViews"): c |= C["buffers"]
    return c

class Model:
    def __init__(self, exts, files=None, glb_bin=None, load_buffers=False, load_images=False, asset_info=True, cats=CAT_ALL, num=f32):
        self.exts = exts; self.files = files or {}; self.glb_bin = glb_bin
        self.load_buffers = load_buffers; self.load_images = load_images; self.asset_info = asset_info
        self.cats = close_categories(cats); self.num = num
    def on(self, name): return bool(self.exts & EXT[name])
    def nv(self, v): return [self.num(x) for x in v]
    def fv(self, v): return [f32(x) for x in v]

    def ext(self, o, name):
        """Extension object of o if that extension is enabled."""
        if not self.on(name): return None
        return o.get("extensions", {}).get(name)

    # ---- data sources
    def uri_source(self, uri, load, mime=None):
        if uri.startswith("data:"):
            head, payload = uri[5:].split(",", 1)
            assert head.endswith(";base64")
            m = MIME.get(head[:-7], "None")
            return {"k": "array", "bytes": bytes_repr(base64.b64decode(payload)), "mime": mime or m}
        p = urllib.parse.unquote(uri)
        if load:
            return {"k": "array", "bytes": bytes_repr(self.files[p]), "mime": mime or "None"}
        return {"k": "uri", "offset": 0, "path": latin(p), "valid": True, "local": True, "mime": mime or "None"}

    # ---- textures
    def tex(self, o, key):
        t = o.get(key)
        if t is None: return None
        r = {"index": t["index"], "texCoord": t.get("texCoord", 0)}
        x = self.ext(t, "KHR_texture_transform")
        if x is not None:
            r["transform"] = {"rotation": self.num(x.get("rotation", 0.0)), "offset": self.nv(x.get("offset", [0.0, 0.0])), "scale": self.nv(x.get("scale", [1.0, 1.0]))}
            if "texCoord" in x: r["transform"]["texCoord"] = x["texCoord"]
        return r
    def put(self, d, k, v):
        if v is not None: d[k] = v
    def normal_tex(self, o, key):
        r = self.tex(o, key)
        if r is not None: r["normalScale"] = self.num(o[key].get("scale", 1.0))
        return r

    def expect(self, doc):
        C = CAT; c = self.cats
        def sel(n): return bool(c & C[n])
        def arr(n): return doc.get(n, []) if sel(n) else []
        r = {}
        if self.asset_info:
            a = doc["asset"]
            r["asset"] = {"version": latin(a["version"]), "copyright": latin(a.get("copyright", "")), "generator": latin(a.get("generator", ""))}
        r["extensionsUsed"] = [latin(x) for x in doc.get("extensionsUsed", [])]
        r["extensionsRequired"] = [latin(x) for x in doc.get("extensionsRequired", [])]
        if "scene" in doc: r["scene"] = doc["scene"]
        for n in ("accessors", "animations", "bufferViews", "cameras", "images", "materials", "meshes", "nodes", "samplers", "scenes", "skins", "textures"):
            r[n] = [getattr(self, "m_" + n)(x) for x in arr(n)]
        r["buffers"] = [self.m_buffer(x, i, doc) for i, x in enumerate(arr("buffers"))]
        x = doc.get("extensions", {})
        l = x.get("KHR_lights_punctual") if self.on("KHR_lights_punctual") else None
        r["lights"] = [self.m_light(y) for y in (l or {}).get("lights", [])]
        v = x.get("KHR_materials_variants") if self.on("KHR_materials_variants") else None
        r["variants"] = [latin(y["name"]) for y in (v or {}).get("variants", [])]
        nvar = len(r["variants"])
        for m in r["meshes"]:
            for p in m["primitives"]:
                mp = p["mappings"]
                if mp: p["mappings"] = (mp + [None] * nvar)[:nvar]
        s = x.get("KHR_implicit_shapes") if self.on("KHR_implicit_shapes") else None
        r["shapes"] = [self.m_shape(y) for y in (s or {}).get("shapes", [])]
        p = (x.get("KHR_physics_rigid_bodies") if self.on("KHR_physics_rigid_bodies") else None) or {}
        r["physicsMaterials"] = [{"sf": self.num(y.get("staticFriction", 0.6)), "df": self.num(y.get("dynamicFriction", 0.6)), "restitution": self.num(y.get("restitution", 0.0)),
                                  "fc": COMBINE[y.get("frictionCombine", "average")], "rc": COMBINE[y.get("restitutionCombine", "average")]} for y in p.get("physicsMaterials", [])]
        r["physicsJoints"] = [self.m_joint(y) for y in p.get("physicsJoints", [])]
        r["collisionFilters"] = [{"systems": [latin(z) for z in y.get("collisionSystems", [])], "not": [latin(z) for z in y.get("notCollideWithSystems", [])], "with": [latin(z) for z in y.get("collideWithSystems", [])]} for y in p.get("collisionFilters", [])]
        return r

    def nm(self, o): return latin(o.get("name", ""))

    def m_accessors(self, o):
        r = {"byteOffset": o.get("byteOffset", 0), "count": o["count"], "type": o["type"], "componentType": str(o["componentType"]), "normalized": o.get("normalized", False), "name": self.nm(o)}
        for k in ("min", "max"):
            if k in o:
                if o["componentType"] in (5126, 5130): r[k] = {"t": "f", "v": [float(x) for x in o[k]]}
                else: r[k] = {"t": "i", "v": [int(x) for x in o[k]]}
        if "bufferView" in o: r["bufferView"] = o["bufferView"]
        if "sparse" in o:
            s = o["sparse"]
            r["sparse"] = {"count": s["count"], "iv": s["indices"]["bufferView"], "io": s["indices"].get("byteOffset", 0), "ct": str(s["indices"]["componentType"]),
                           "vv": s["values"]["bufferView"], "vo": s["values"].get("byteOffset", 0)}
        return r
    def m_animations(self, o):
        def ch(c):
            r = {"sampler": c["sampler"], "path": PATHS[c["target"]["path"]]}
            if "node" in c["target"]: r["node"] = c["target"]["node"]
            return r
        return {"channels": [ch(c) for c in o["channels"]],
                "samplers": [{"input": s["input"], "output": s["output"], "interpolation": INTERP[s.get("interpolation", "LINEAR")]} for s in o["samplers"]], "name": self.nm(o)}
    def m_buffer(self, o, i, doc):
        r = {"byteLength": o["byteLength"], "name": self.nm(o)}
        if "uri" in o: r["data"] = self.uri_source(o["uri"], self.load_buffers)
        elif i == 0 and self.glb_bin is not None: r["data"] = {"k": "glb", "bytes": self.glb_bin}
        elif "EXT_meshopt_compression" in doc.get("extensionsRequired", []): r["data"] = {"k": "fallback"}
        else: r["data"] = {"k": "none"}
        return r
    def m_bufferViews(self, o):
        r = {"buffer": o["buffer"], "byteOffset": o.get("byteOffset", 0), "byteLength": o["byteLength"], "name": self.nm(o)}
        self.put(r, "byteStride", o.get("byteStride")); self.put(r, "target", o.get("target"))
        m = self.ext(o, "EXT_meshopt_compression")
        if m is not None:
            r["meshopt"] = {"buffer": m["buffer"], "byteOffset": m.get("byteOffset", 0), "byteLength": m["byteLength"], "count": m["count"], "mode": MODES[m["mode"]], "filter": FILTERS[m.get("filter", "NONE")], "byteStride": m["byteStride"]}
        return r
    def m_cameras(self, o):
        r = {"type": o["type"], "name": self.nm(o)}
        d = o[o["type"]]
        for k in (("aspectRatio", "yfov", "zfar", "znear") if o["type"] == "perspective" else ("xmag", "ymag", "zfar", "znear")):
            if k in d: r[k] = self.num(d[k])
        return r
    def m_images(self, o):
        if "uri" in o:
            return {"data": self.uri_source(o["uri"], self.load_images, MIME.get(o["mimeType"], "None") if "mimeType" in o else None), "name": self.nm(o)}
        return {"data": {"k": "view", "view": o["bufferView"], "mime": MIME.get(o["mimeType"], "None")}, "name": self.nm(o)}
    def m_light(self, o):
        r = {"type": LIGHTS[o["type"]], "color": self.nv(o.get("color", [1.0, 1.0, 1.0])), "intensity": self.num(o.get("intensity", 1.0)), "name": self.nm(o)}
        if "range" in o: r["range"] = self.num(o["range"])
        if o["type"] == "spot":
            s = o["spot"]
            r["inner"] = self.num(s.get("innerConeAngle", 0.0)); r["outer"] = self.num(s.get("outerConeAngle", 0.785398163397448309616))
        return r
    def m_materials(self, o):
        n = self.num
        p = o.get("pbrMetallicRoughness", {})
        pbr = {"baseColorFactor": self.nv(p.get("baseColorFactor", [1.0] * 4)), "metallicFactor": n(p.get("metallicFactor", 1.0)), "roughnessFactor": n(p.get("roughnessFactor", 1.0))}
        self.put(pbr, "baseColorTexture", self.tex(p, "baseColorTexture")); self.put(pbr, "metallicRoughnessTexture", self.tex(p, "metallicRoughnessTexture"))
        r = {"pbr": pbr, "emissiveFactor": self.nv(o.get("emissiveFactor", [0.0] * 3)), "alphaMode": ALPHA[o.get("alphaMode", "OPAQUE")], "doubleSided": o.get("doubleSided", False),
             "alphaCutoff": n(o.get("alphaCutoff", 0.5)), "name": self.nm(o)}
        self.put(r, "normalTexture", self.normal_tex(o, "normalTexture"))
        t = self.tex(o, "occlusionTexture")
        if t is not None:
            t["strength"] = n(o["occlusionTexture"].get("strength", 1.0)); r["occlusionTexture"] = t
        self.put(r, "emissiveTexture", self.tex(o, "emissiveTexture"))
        e = lambda name: self.ext(o, name)
        r["unlit"] = e("KHR_materials_unlit") is not None
        r["emissiveStrength"] = n((e("KHR_materials_emissive_strength") or {}).get("emissiveStrength", 1.0))
        r["ior"] = n((e("KHR_materials_ior") or {}).get("ior", 1.5))
        r["dispersion"] = n((e("KHR_materials_dispersion") or {}).get("dispersion", 0.0))
        def build(name, key, nums, vecs, texs):
            x = e(name)
            if x is None: return
            d = {}
            for k, j, dv in nums: d[k] = n(x.get(j, dv)) if (j in x or dv != float("inf")) else "inf"
            for k, j, dv in vecs: d[k] = self.nv(x.get(j, dv))
            for k, j in texs: self.put(d, k, self.tex(x, j))
            r[key] = d
            return d, x
        build("KHR_materials_anisotropy", "anisotropy", [("strength", "anisotropyStrength", 0.0), ("rotation", "anisotropyRotation", 0.0)], [], [("texture", "anisotropyTexture")])
        b = build("KHR_materials_clearcoat", "clearcoat", [("factor", "clearcoatFactor", 0.0), ("roughness", "clearcoatRoughnessFactor", 0.0)], [], [("texture", "clearcoatTexture"), ("roughnessTexture", "clearcoatRoughnessTexture")])
        if b: self.put(b[0], "normalTexture", self.normal_tex(b[1], "clearcoatNormalTexture"))
        build("KHR_materials_diffuse_transmission", "diffuseTransmission", [("factor", "diffuseTransmissionFactor", 0.0)], [("colorFactor", "diffuseTransmissionColorFactor", [1.0] * 3)], [("texture", "diffuseTransmissionTexture"), ("colorTexture", "diffuseTransmissionColorTexture")])
        build("KHR_materials_iridescence", "iridescence", [("factor", "iridescenceFactor", 0.0), ("ior", "iridescenceIor", 1.3), ("min", "iridescenceThicknessMinimum", 100.0), ("max", "iridescenceThicknessMaximum", 400.0)], [], [("texture", "iridescenceTexture"), ("thicknessTexture", "iridescenceThicknessTexture")])
        build("KHR_materials_sheen", "sheen", [("roughness", "sheenRoughnessFactor", 0.0)], [("color", "sheenColorFactor", [0.0] * 3)], [("colorTexture", "sheenColorTexture"), ("roughnessTexture", "sheenRoughnessTexture")])
        build("KHR_materials_specular", "specular", [("factor", "specularFactor", 1.0)], [("color", "specularColorFactor", [1.0] * 3)], [("texture", "specularTexture"), ("colorTexture", "specularColorTexture")])
        build("KHR_materials_pbrSpecularGlossiness", "specularGlossiness", [("glossiness", "glossinessFactor", 1.0)], [("diffuse", "diffuseFactor", [1.0] * 4), ("specular", "specularFactor", [1.0] * 3)], [("diffuseTexture", "diffuseTexture"), ("texture", "specularGlossinessTexture")])
        build("KHR_materials_transmission", "transmission", [("factor", "transmissionFactor", 0.0)], [], [("texture", "transmissionTexture")])
        build("KHR_materials_volume", "volume", [("thickness", "thicknessFactor", 0.0), ("distance", "attenuationDistance", float("inf"))], [("color", "attenuationColor", [1.0] * 3)], [("texture", "thicknessTexture")])
        x = e("MSFT_packing_normalRoughnessMetallic")
        if x is not None: self.put(r, "packedNRM", self.tex(x, "normalRoughnessMetallicTexture"))
        x = e("MSFT_packing_occlusionRoughnessMetallic")
        if x is not None:
            d = {}
            self.put(d, "orm", self.tex(x, "occlusionRoughnessMetallicTexture")); self.put(d, "rmo", self.tex(x, "roughnessMetallicOcclusionTexture")); self.put(d, "normal", self.tex(x, "normalTexture"))
            r["packedORM"] = d
        return r
    def attrs(self, o): return sorted([latin(k), v] for k, v in o.items())
    def m_meshes(self, o):
        def prim(p):
            r = {"attributes": self.attrs(p["attributes"]), "mode": p.get("mode", 4), "targets": [{"a": self.attrs(t)} for t in p.get("targets", [])]}
            self.put(r, "indices", p.get("indices")); self.put(r, "material", p.get("material"))
            mp = []
            v = self.ext(p, "KHR_materials_variants")
            if v is not None:
                for m in v["mappings"]:
                    for i in m["variants"]:
                        while len(mp) <= i: mp.append(None)
                        mp[i] = m["material"]
            r["mappings"] = mp
            d = self.ext(p, "KHR_draco_mesh_compression")
            if d is not None: r["draco"] = {"view": d["bufferView"], "attributes": self.attrs(d["attributes"])}
            return r
        return {"primitives": [prim(p) for p in o["primitives"]], "weights": self.nv(o.get("weights", [])), "name": self.nm(o)}
    def m_nodes(self, o):
        r = {"children": list(o.get("children", [])), "weights": self.nv(o.get("weights", [])), "name": self.nm(o)}
        for k in ("mesh", "skin", "camera"): self.put(r, k, o.get(k))
        if "matrix" in o: r["matrix"] = self.fv(o["matrix"])
        else:
            r["t"] = self.fv(o.get("translation", [0.0] * 3)); r["r"] = self.fv(o.get("rotation", [0.0, 0.0, 0.0, 1.0])); r["s"] = self.fv(o.get("scale", [1.0] * 3))
        l = self.ext(o, "KHR_lights_punctual")
        if l is not None: r["light"] = l["light"]
        x = self.ext(o, "EXT_mesh_gpu_instancing")
        r["instancing"] = self.attrs(x["attributes"]) if x is not None else []
        for k, ename in (("visible", "KHR_node_visibility"), ("selectable", "KHR_node_selectability"), ("hoverable", "KHR_node_hoverability")):
            x = self.ext(o, ename)
            r[k] = True if x is None else x.get(k, True)
        b = self.ext(o, "KHR_physics_rigid_bodies")
        if b is not None: r["rigid"] = self.m_rigid(b)
        return r
    def m_rigid(self, b):
        r = {}; n = self.num
        if "motion" in b:
            m = b["motion"]
            d = {"isKinematic": m.get("isKinematic", False), "centerOfMass": self.fv(m.get("centerOfMass", [0.0] * 3)), "linearVelocity": self.fv(m.get("linearVelocity", [0.0] * 3)),
                 "angularVelocity": self.fv(m.get("angularVelocity", [0.0] * 3)), "gravityFactor": n(m.get("gravityFactor", 1.0))}
            if "mass" in m: d["mass"] = n(m["mass"])
            if "inertiaDiagonal" in m: d["inertialDiagonal"] = self.fv(m["inertiaDiagonal"])
            if "inertiaOrientation" in m: d["inertialOrientation"] = self.fv(m["inertiaOrientation"])
            r["motion"] = d
        def geo(g):
            d = {"convexHull": g.get("convexHull", False)}
            self.put(d, "shape", g.get("shape")); self.put(d, "node", g.get("node"))
            return d
        if "collider" in b:
            x = b["collider"]; d = {"geometry": geo(x["geometry"])}
            self.put(d, "material", x.get("physicsMaterial")); self.put(d, "filter", x.get("collisionFilter")); r["collider"] = d
        if "trigger" in b:
            x = b["trigger"]
            if "geometry" in x:
                d = {"geometry": geo(x["geometry"])}; self.put(d, "filter", x.get("collisionFilter"))
            else: d = {"nodes": list(x["nodes"])}
            r["trigger"] = d
        if "joint" in b:
            x = b["joint"]; r["joint"] = {"connectedNode": x["connectedNode"], "joint": x["joint"], "enableCollision": x.get("enableCollision", False)}
        return r
    def m_joint(self, o):
        n = self.num
        def lim(l):
            d = {"linearAxes": list(l.get("linearAxes", [])), "angularAxes": list(l.get("angularAxes", [])), "damping": n(l.get("damping", 0.0))}
            for k in ("min", "max", "stiffness"):
                if k in l: d[k] = n(l[k])
            return d
        def drv(l):
            return {"type": {"linear": 0, "angular": 1}[l["type"]], "mode": {"force": 0, "acceleration": 1}[l["mode"]], "axis": l["axis"], "maxForce": n(l["maxForce"]) if "maxForce" in l else "*",
                    "positionTarget": n(l.get("positionTarget", 0.0)), "velocityTarget": n(l.get("velocityTarget", 0.0)), "stiffness": n(l.get("stiffness", 0.0)), "damping": n(l.get("damping", 0.0))}
        return {"limits": [lim(l) for l in o.get("limits", [])], "drives": [drv(l) for l in o.get("drives", [])]}
    def m_shape(self, o):
        t = o["type"]; x = o.get(t, {}); n = self.num
        if t == "sphere": return {"type": t, "radius": n(x.get("radius", 0.5))}
        if t == "box": return {"type": t, "size": self.fv(x.get("size", [1.0] * 3))}
        return {"type": t, "height": n(x.get("height", 0.5)), "bottom": n(x.get("radiusBottom", 0.25)), "top": n(x.get("radiusTop", 0.25))}
    def m_samplers(self, o):
        r = {"wrapS": o.get("wrapS", 10497), "wrapT": o.get("wrapT", 10497), "name": self.nm(o)}
        self.put(r, "mag", o.get("magFilter")); self.put(r, "min", o.get("minFilter"))
        return r
    def m_scenes(self, o): return {"nodes": list(o.get("nodes", [])), "name": self.nm(o)}
    def m_skins(self, o):
        r = {"joints": list(o["joints"]), "name": self.nm(o)}
        self.put(r, "ibm", o.get("inverseBindMatrices")); self.put(r, "skeleton", o.get("skeleton"))
        return r
    def m_textures(self, o):
        r = {"name": self.nm(o)}
        self.put(r, "sampler", o.get("sampler")); self.put(r, "source", o.get("source"))
        for k, e in (("basisu", "KHR_texture_basisu"), ("dds", "MSFT_texture_dds"), ("webp", "EXT_texture_webp")):
            x = self.ext(o, e)
            if x is not None: self.put(r, k, x.get("source"))
        return r

def normalize_dump(d, ignore=("categories",)):
    """Dump of the driver, with attribute lists sorted (JSON objects are unordered) and derived members removed."""
    for k in ignore: d.pop(k, None)
    for m in d.get("meshes", []):
        for p in m["primitives"]:
            p["attributes"].sort()
            for t in p["targets"]: t["a"].sort()
            if "draco" in p: p["draco"]["attributes"].sort()
    for n in d.get("nodes", []): n["instancing"].sort()
    for l in ("buffers", "images"):
        for x in d.get(l, []): x["data"].pop("uri", None)
    return d

def diff(a, b, path="", out=None, limit=6):
    """Differences between got (a) and want (b); the want value "*" matches anything."""
    if out is None: out = []
    if len(out) >= limit: return out
    if isinstance(b, str) and b == "*": return out
    if isinstance(a, dict) and isinstance(b, dict):
        if b.get("k") == "glb":
            raw = b["bytes"]; want = [bytes_repr(raw), bytes_repr(raw + b"\0" * (-len(raw) % 4))]   # the chunk, with or without its padding
            if a.get("bytes") not in want: out.append((path + ".bytes", a.get("bytes"), want[0]))
            return out
        for k in sorted(set(a) | set(b)):
            if k not in a: out.append((path + "." + k, "(absent)", b[k]))
            elif k not in b: out.append((path + "." + k, a[k], "(absent)"))
            else: diff(a[k], b[k], path + "." + k, out, limit)
    elif isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b): out.append((path + ".length", "%d %s" % (len(a), str(a)[:200]), "%d %s" % (len(b), str(b)[:200])))
        else:
            for i, (x, y) in enumerate(zip(a, b)): diff(x, y, path + "[%d]" % i, out, limit)
    else:
        if isinstance(a, bool) != isinstance(b, bool) or a != b: out.append((path, a, b))
    return out
def diff_key(path):
    import re
    return re.sub(r"\[\d+\]", "[]", path).lstrip(".")
