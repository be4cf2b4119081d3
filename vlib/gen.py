"""Random generator of valid glTF documents (dict form), a varying JSON serialiser and a GLB packer.

Documents conform to the glTF 2.0 specification and the extension specifications (structure, ranges, accessor rules,
node forest), so the same generator feeds the fidelity checks and the "validation accepts valid assets" check.
"""
import base64, json, math, struct, urllib.parse
from .consts import EXT, COMP_SIZE, TYPE_N, TYPE_ROWS, elem_size

FMT = {5120: "b", 5121: "B", 5122: "h", 5123: "H", 5124: "i", 5125: "I", 5126: "f", 5130: "d"}
LIM = {5120: (-128, 127), 5121: (0, 255), 5122: (-32768, 32767), 5123: (0, 65535), 5124: (-2**31, 2**31 - 1), 5125: (0, 2**32 - 1)}
MAT_EXT = ["KHR_materials_specular", "KHR_materials_ior", "KHR_materials_iridescence", "KHR_materials_volume", "KHR_materials_transmission", "KHR_materials_clearcoat",
           "KHR_materials_emissive_strength", "KHR_materials_sheen", "KHR_materials_unlit", "KHR_materials_anisotropy", "KHR_materials_pbrSpecularGlossiness",
           "MSFT_packing_normalRoughnessMetallic", "MSFT_packing_occlusionRoughnessMetallic", "KHR_materials_dispersion", "KHR_materials_diffuse_transmission"]
NODE_EXT = ["KHR_lights_punctual", "EXT_mesh_gpu_instancing", "KHR_node_visibility", "KHR_node_selectability", "KHR_node_hoverability", "KHR_physics_rigid_bodies"]
OTHER_EXT = ["KHR_texture_transform", "KHR_texture_basisu", "MSFT_texture_dds", "EXT_texture_webp", "KHR_mesh_quantization", "EXT_meshopt_compression", "KHR_materials_variants",
             "KHR_accessor_float64", "KHR_draco_mesh_compression", "KHR_implicit_shapes"]
ALL = MAT_EXT + NODE_EXT + OTHER_EXT

def f32(x): return struct.unpack("<f", struct.pack("<f", float(x)))[0]

class Gen:
    def __init__(self, rng, exts=None, sources=("data",), size=3, unknown=True, extras=True, required=(), float64=True, textures_ok=True, hostile_names=True):
        self.r = rng; self.size = size; self.sources = sources; self.unknown = unknown; self.extras = extras; self.hostile = hostile_names
        self.exts = set(ALL if exts is None else exts)
        if not float64: self.exts.discard("KHR_accessor_float64")
        self.used = set(); self.required = list(required)
        self.files = {}; self.glb_bin = None; self.fileno = 0

    # ---- primitives
    def p(self, q=0.5): return self.r.random() < q
    def i(self, a, b): return self.r.randint(a, b)
    def name(self):
        r = self.r
        if not self.hostile or r.random() < 0.5:
            return "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_- .") for _ in range(r.randint(1, r.choice([4, 12, 60]))))
        pool = ['"', "\\", "\n", "\t", "\x01", "\x1f", "\b", "\f", "\r", "/", "\u00e9", "\u20ac", "\U0001F600", "\u2028", "{", "}", "[", "]", ":", ",", " ", "a", "%41", "\u0000" if False else "\x7f", "\ud7ff", "\ufeff", "null"]
        return "".join(r.choice(pool) for _ in range(r.randint(1, 12)))
    def fl(self, lo=None, hi=None):
        r = self.r
        if lo is not None:
            k = r.random()
            if k < 0.12: return float(lo)
            if k < 0.24: return float(hi)
            return min(max(r.choice([round(r.uniform(lo, hi), r.randint(1, 6)), f32(r.uniform(lo, hi)), r.uniform(lo, hi)]), float(lo)), float(hi))
        k = r.randrange(7)
        if k == 0: return float(r.randint(-10, 10))
        if k == 1: return round(r.uniform(-100, 100), r.randint(0, 5))
        if k == 2: return r.uniform(-1, 1)
        if k == 3: return f32(r.gauss(0, 1000))
        if k == 4: return r.uniform(-1, 1) * 10.0 ** r.randint(-30, 30)
        if k == 5: return r.choice([0.0, 1.0, -1.0, 0.5, 16777217.0, 1e-38, 3.4028234e38, 1.1754944e-38, 0.1, 123456789.0, 4294967296.0])
        return struct.unpack("<f", struct.pack("<I", r.choice([r.getrandbits(31), r.getrandbits(31) | 0x80000000]) & 0xBF7FFFFF))[0]
    def fls(self, n, lo=None, hi=None): return [self.fl(lo, hi) for _ in range(n)]
    def opt(self, d, k, f, q=0.5):
        if self.p(q): d[k] = f()
    def common(self, o, name=True):
        if name and self.p(0.6): o["name"] = self.name()
        if self.extras and self.p(0.2): o["extras"] = {"n": self.i(0, 99), "s": self.name(), "a": [1, {"b": None}]}
        if self.unknown and self.p(0.12): o["unknownMember"] = self.r.choice([1, "x", None, [1, 2], {"index": 3, "name": "no"}, True])
        if self.unknown and self.p(0.12):
            o.setdefault("extensions", {})["VENDOR_unknown"] = {"index": 7, "texture": {"index": 0}, "name": "v"}
            self.used.add("VENDOR_unknown")
        return o
    def ext(self, o, name, val):
        o.setdefault("extensions", {})[name] = val; self.used.add(name)
    def want(self, name, q=0.5): return name in self.exts and self.p(q)

    # ---- binary data
    def alloc_view(self, data, align=4, stride=None, target=None, extra=None):
        b = self.r.choice(self.bufs)
        while len(b) % align: b.append(self.r.getrandbits(8))
        if self.p(0.3):
            for _ in range(align * self.i(1, 3)): b.append(self.r.getrandbits(8))
        off = len(b); b += data
        v = {"buffer": [k for k, x in enumerate(self.bufs) if x is b][0], "byteLength": len(data)}
        if off or self.p(): v["byteOffset"] = off
        if stride: v["byteStride"] = stride
        if target: v["target"] = target
        self.common(v)
        self.doc["bufferViews"].append(v)
        return len(self.doc["bufferViews"]) - 1

    def rand_comp(self, c, lo=None, hi=None):
        if c in LIM:
            a, b = LIM[c]
            if lo is not None: a, b = max(a, lo), min(b, hi)
            return self.r.choice([a, b, self.r.randint(a, b), self.r.randint(a, b), self.r.randint(max(a, -3), min(b, 100))]) if a <= b else a
        if lo is not None: x = self.r.uniform(lo, hi)
        else: x = self.r.choice([self.r.uniform(-1, 1), self.r.uniform(-1000, 1000), 0.0, 1.0, self.r.gauss(0, 1e6)])
        return f32(x) if c == 5126 else x

    def pack_elem(self, typ, c, vals):
        """One element with the specification's column padding."""
        rows = TYPE_ROWS[typ]; out = bytearray()
        if typ.startswith("MAT"):
            for col in range(rows):
                part = struct.pack("<%d%s" % (rows, FMT[c]), *vals[col * rows:(col + 1) * rows])
                out += part + bytes(self.r.getrandbits(8) for _ in range((-len(part)) % 4))
        else: out += struct.pack("<%d%s" % (len(vals), FMT[c]), *vals)
        return bytes(out)

    def accessor(self, typ, c, count, normalized=False, minmax=None, vertex=False, strided=False, sparse=None, noview=None, lo=None, hi=None, values=None, target=None):
        n = TYPE_N[typ]; es = elem_size(typ, c)
        if values is None: values = [[self.rand_comp(c, lo, hi) for _ in range(n)] for _ in range(count)]
        a = {"componentType": c, "type": typ, "count": count}
        sparse = self.p(0.15) if sparse is None else sparse
        noview = (sparse and self.p(0.3)) if noview is None else noview
        base = values
        if sparse:
            k = self.i(1, count); idx = sorted(self.r.sample(range(count), k))
            if noview: base = [[0] * n for _ in range(count)]
            else: base = [([self.rand_comp(c, lo, hi) for _ in range(n)] if j in set(idx) else v) for j, v in enumerate(values)]
            ic = self.r.choice([x for x in (5121, 5123, 5125) if count <= LIM[x][1]])
            ipad = COMP_SIZE[ic] * self.i(0, 2); vpad = COMP_SIZE[c] * self.i(0, 2)
            iv = self.alloc_view(bytes(ipad) + b"".join(struct.pack("<" + FMT[ic], x) for x in idx))
            vv = self.alloc_view(bytes(vpad) + b"".join(self.pack_elem(typ, c, values[x]) for x in idx), align=max(4, COMP_SIZE[c]))
            s = {"count": k, "indices": {"bufferView": iv, "componentType": ic}, "values": {"bufferView": vv}}
            if ipad or self.p(0.3): s["indices"]["byteOffset"] = ipad
            if vpad or self.p(0.3): s["values"]["byteOffset"] = vpad
            a["sparse"] = s
            if noview: values = [values[j] if j in set(idx) else [0] * n for j in range(count)]
        if not noview:
            pad = COMP_SIZE[c] * self.i(0, 3) if self.p(0.3) else 0
            stride = None
            if strided and vertex and self.p(0.4):
                stride = (es + 3) // 4 * 4 + 4 * self.i(0, 3)
                if COMP_SIZE[c] == 8: stride = (stride + 7) // 8 * 8
                if stride > 252: stride = None
            if vertex and stride is None and es % 4: stride = (es + 3) // 4 * 4   # vertex attribute elements are four-byte aligned
            data = bytearray(bytes(self.r.getrandbits(8) for _ in range(pad)))
            if vertex: 
                while len(data) % 4: data.append(0); pad += 1
            for j, v in enumerate(base):
                data += self.pack_elem(typ, c, v)
                if stride and j + 1 < len(base): data += bytes(self.r.getrandbits(8) for _ in range(stride - es))
            if self.p(0.2): data += bytes(4)
            a["bufferView"] = self.alloc_view(bytes(data), align=max(4, COMP_SIZE[c]), stride=stride, target=target if target and self.p(0.6) else None)
            if pad or self.p(0.3): a["byteOffset"] = pad
        if normalized: a["normalized"] = True
        elif self.p(0.15): a["normalized"] = False
        if minmax or (minmax is None and self.p(0.4)):
            cols = list(zip(*values))
            a["min"] = [min(x) for x in cols]; a["max"] = [max(x) for x in cols]
        self.common(a)
        self.doc["accessors"].append(a)
        return len(self.doc["accessors"]) - 1

    # ---- pieces
    def texinfo(self, kind=None):
        t = {"index": self.i(0, len(self.doc["textures"]) - 1)}
        if self.p(0.5): t["texCoord"] = self.i(0, 3)
        if kind == "normal" and self.p(0.6): t["scale"] = self.fl()
        if kind == "occlusion" and self.p(0.6): t["strength"] = self.fl(0, 1)
        if self.want("KHR_texture_transform", 0.4):
            x = {}
            self.opt(x, "offset", lambda: self.fls(2)); self.opt(x, "scale", lambda: self.fls(2)); self.opt(x, "rotation", lambda: self.fl(-7, 7)); self.opt(x, "texCoord", lambda: self.i(0, 3))
            self.ext(t, "KHR_texture_transform", self.common(x, name=False) if self.p(0.2) else x)
        return self.common(t, name=False)
    def tex(self, o, k, kind=None, q=0.5):
        if self.doc.get("textures") and self.p(q): o[k] = self.texinfo(kind)
    def material(self):
        m = self.common({})
        if self.p(0.7):
            b = {}
            self.opt(b, "baseColorFactor", lambda: self.fls(4, 0, 1)); self.opt(b, "metallicFactor", lambda: self.fl(0, 1)); self.opt(b, "roughnessFactor", lambda: self.fl(0, 1))
            self.tex(b, "baseColorTexture"); self.tex(b, "metallicRoughnessTexture")
            m["pbrMetallicRoughness"] = self.common(b, name=False)
        self.tex(m, "normalTexture", "normal"); self.tex(m, "occlusionTexture", "occlusion"); self.tex(m, "emissiveTexture")
        self.opt(m, "emissiveFactor", lambda: self.fls(3, 0, 1))
        if self.p():
            m["alphaMode"] = self.r.choice(["OPAQUE", "MASK", "BLEND"])
            if m["alphaMode"] == "MASK": self.opt(m, "alphaCutoff", lambda: abs(self.fl()) if self.p(0.3) else self.fl(0, 1))
        self.opt(m, "doubleSided", lambda: self.p())
        for e in MAT_EXT:
            if not self.want(e, 0.3): continue
            x = {}; F = lambda k, lo=0, hi=1: self.opt(x, k, lambda: self.fl(lo, hi)); V = lambda k, n=3: self.opt(x, k, lambda: self.fls(n, 0, 1)); T = lambda k, kind=None: self.tex(x, k, kind)
            s = e[len("KHR_materials_"):]
            if s == "specular": F("specularFactor"); T("specularTexture"); V("specularColorFactor"); T("specularColorTexture")
            elif s == "ior": self.opt(x, "ior", lambda: self.fl(1, 3))
            elif s == "iridescence": F("iridescenceFactor"); T("iridescenceTexture"); F("iridescenceIor", 1, 3); F("iridescenceThicknessMinimum", 0, 500); F("iridescenceThicknessMaximum", 0, 500); T("iridescenceThicknessTexture")
            elif s == "volume": F("thicknessFactor", 0, 10); T("thicknessTexture"); F("attenuationDistance", 0.001, 100); V("attenuationColor")
            elif s == "transmission": F("transmissionFactor"); T("transmissionTexture")
            elif s == "clearcoat": F("clearcoatFactor"); T("clearcoatTexture"); F("clearcoatRoughnessFactor"); T("clearcoatRoughnessTexture"); T("clearcoatNormalTexture", "normal")
            elif s == "emissive_strength": F("emissiveStrength", 0, 100)
            elif s == "sheen": V("sheenColorFactor"); T("sheenColorTexture"); F("sheenRoughnessFactor"); T("sheenRoughnessTexture")
            elif s == "anisotropy": F("anisotropyStrength"); F("anisotropyRotation", -4, 4); T("anisotropyTexture")
            elif s == "pbrSpecularGlossiness": V("diffuseFactor", 4); T("diffuseTexture"); V("specularFactor"); F("glossinessFactor"); T("specularGlossinessTexture")
            elif s == "dispersion": F("dispersion", 0, 2)
            elif s == "diffuse_transmission": F("diffuseTransmissionFactor"); T("diffuseTransmissionTexture"); V("diffuseTransmissionColorFactor"); T("diffuseTransmissionColorTexture")
            elif e == "MSFT_packing_normalRoughnessMetallic":
                if not self.doc["textures"]: continue
                x["normalRoughnessMetallicTexture"] = self.texinfo()
            elif e == "MSFT_packing_occlusionRoughnessMetallic": T("occlusionRoughnessMetallicTexture"); T("roughnessMetallicOcclusionTexture"); T("normalTexture")
            if self.unknown and self.p(0.1): x["vendorThing"] = {"index": 1}
            self.ext(m, e, x)
        return m

    def primitive(self, skinned=False, ntargets=0):
        r = self.r; cnt = self.i(3, 9)
        quant = "KHR_mesh_quantization" in self.used
        at = {}
        acc = lambda typ, c, **k: self.accessor(typ, c, cnt, vertex=True, strided=True, target=34962, **k)
        at["POSITION"] = acc("VEC3", 5126, minmax=True, lo=-50, hi=50)
        if quant and self.p(0.5): at["POSITION"] = acc("VEC3", r.choice([5120, 5121, 5122, 5123]), minmax=True, normalized=self.p())
        unit = [f32(0.0), f32(0.0), f32(1.0)]
        if self.p(0.4): at["NORMAL"] = acc("VEC3", 5126, values=[unit] * cnt, sparse=False)
        if self.p(0.3) and "NORMAL" in at: at["TANGENT"] = acc("VEC4", 5126, values=[[1.0, 0.0, 0.0, r.choice([1.0, -1.0])] for _ in range(cnt)], sparse=False)
        def uv():
            c = r.choice([5126, 5121, 5123]); return acc("VEC2", c, normalized=c != 5126)
        if self.p(0.5):
            at["TEXCOORD_0"] = uv()
            if self.p(0.4): at["TEXCOORD_1"] = uv()
        if self.p(0.3):
            c = r.choice([5126, 5121, 5123]); at["COLOR_0"] = acc(r.choice(["VEC3", "VEC4"]), c, normalized=c != 5126, lo=0 if c == 5126 else None, hi=1)
        if skinned:
            at["JOINTS_0"] = acc("VEC4", r.choice([5121, 5123]), lo=0, hi=0, sparse=False)
            at["WEIGHTS_0"] = acc("VEC4", 5126, values=[[1.0, 0.0, 0.0, 0.0]] * cnt, sparse=False)
        if self.p(0.2): at["_CUSTOM" + r.choice(["", "_X", "0"])] = acc(r.choice(["SCALAR", "VEC2", "VEC4"]), r.choice([5120, 5121, 5122, 5123, 5126]))
        q = {"attributes": at}
        mode = r.choice([None, 0, 1, 2, 3, 4, 4, 5, 6])
        if mode is not None: q["mode"] = mode
        ni = {1: 2}.get(mode, 1)
        if self.p(0.6):
            c = r.choice([5121, 5123, 5125]); k = 3 * self.i(1, 4) if mode in (None, 4) else (2 * self.i(1, 4) if mode == 1 else self.i(3, 8))
            q["indices"] = self.accessor("SCALAR", c, k, lo=0, hi=cnt - 1, target=34963, sparse=False if c == 5121 else None)
        if self.doc.get("materials") and self.p(0.6): q["material"] = self.i(0, len(self.doc["materials"]) - 1)
        if ntargets:
            q["targets"] = []
            for _ in range(ntargets):
                t = {"POSITION": self.accessor("VEC3", 5126, cnt, vertex=True, strided=True, target=34962, minmax=True, sparse=self.p(0.5), lo=-5, hi=5)}
                if self.p(0.3) and "NORMAL" in at: t["NORMAL"] = acc("VEC3", 5126, lo=-1, hi=1)
                q["targets"].append(t)
        if self.nvar and self.doc.get("materials") and self.want("KHR_materials_variants", 0.6):
            vs = list(range(self.nvar)); r.shuffle(vs); vs = vs[:self.i(1, self.nvar)]; maps = []
            while vs:
                k = self.i(1, len(vs)); maps.append({"material": self.i(0, len(self.doc["materials"]) - 1), "variants": vs[:k]}); vs = vs[k:]
            self.ext(q, "KHR_materials_variants", {"mappings": maps})
        if self.want("KHR_draco_mesh_compression", 0.2):
            v = self.alloc_view(bytes(r.getrandbits(8) for _ in range(self.i(1, 40))))
            self.ext(q, "KHR_draco_mesh_compression", {"bufferView": v, "attributes": {k: j for j, k in enumerate(at)}})
        return self.common(q, name=False)

    def light(self):
        l = self.common({"type": self.r.choice(["directional", "spot", "point"])})
        self.opt(l, "color", lambda: self.fls(3, 0, 1)); self.opt(l, "intensity", lambda: self.fl(0, 1000))
        if l["type"] != "directional": self.opt(l, "range", lambda: self.fl(0.01, 1000))
        if l["type"] == "spot":
            s = {}
            outer = self.fl(0.3, 1.5)
            if self.p(0.7): s["outerConeAngle"] = outer
            if self.p(0.7): s["innerConeAngle"] = self.fl(0, 0.29)
            l["spot"] = s
        return l
    def shape(self):
        t = self.r.choice(["sphere", "box", "capsule", "cylinder"]); s = {"type": t}; x = {}
        if t == "sphere": self.opt(x, "radius", lambda: self.fl(0.01, 10))
        elif t == "box": self.opt(x, "size", lambda: self.fls(3, 0.01, 10))
        else:
            for k in ("height", "radiusTop", "radiusBottom"): self.opt(x, k, lambda: self.fl(0.01, 10))
        s[t] = x
        if self.extras and self.p(0.2): s["extras"] = {"shape": self.i(0, 9)}
        return s
    def rigid(self, nnodes):
        b = {}
        phys = self.doc["extensions"].get("KHR_physics_rigid_bodies", {}) if "extensions" in self.doc else {}
        shapes = self.doc.get("extensions", {}).get("KHR_implicit_shapes", {}).get("shapes", [])
        if self.p():
            m = {}
            self.opt(m, "isKinematic", lambda: self.p()); self.opt(m, "mass", lambda: self.fl(0, 100)); self.opt(m, "centerOfMass", lambda: self.fls(3)); self.opt(m, "inertiaDiagonal", lambda: self.fls(3, 0, 10))
            if "inertiaDiagonal" in m: self.opt(m, "inertiaOrientation", lambda: [0.0, 0.0, 0.6, 0.8])
            self.opt(m, "linearVelocity", lambda: self.fls(3)); self.opt(m, "angularVelocity", lambda: self.fls(3)); self.opt(m, "gravityFactor", lambda: self.fl())
            b["motion"] = m
        def geo():
            g = {}
            if shapes and self.p(): g["shape"] = self.i(0, len(shapes) - 1)
            else: g["node"] = self.i(0, nnodes - 1)
            if "node" in g: self.opt(g, "convexHull", lambda: self.p())
            return g
        mats = phys.get("physicsMaterials", []); fil = phys.get("collisionFilters", []); jn = phys.get("physicsJoints", [])
        if self.p():
            c = {"geometry": geo()}
            if mats: self.opt(c, "physicsMaterial", lambda: self.i(0, len(mats) - 1))
            if fil: self.opt(c, "collisionFilter", lambda: self.i(0, len(fil) - 1))
            b["collider"] = c
        if self.p(0.4):
            if self.p():
                t = {"geometry": geo()}
                if fil: self.opt(t, "collisionFilter", lambda: self.i(0, len(fil) - 1))
            else: t = {"nodes": self.r.sample(range(nnodes), self.i(1, nnodes))}
            b["trigger"] = t
        if jn and self.p(0.4):
            b["joint"] = {"connectedNode": self.i(0, nnodes - 1), "joint": self.i(0, len(jn) - 1)}
            self.opt(b["joint"], "enableCollision", lambda: self.p())
        return b
    def physics(self):
        x = {}
        if self.p(0.7):
            x["physicsMaterials"] = []
            for _ in range(self.i(1, 3)):
                m = {}
                for k in ("staticFriction", "dynamicFriction", "restitution"): self.opt(m, k, lambda: self.fl(0, 1))
                for k in ("frictionCombine", "restitutionCombine"): self.opt(m, k, lambda: self.r.choice(["average", "minimum", "maximum", "multiply"]))
                if self.extras and self.p(0.2): m["extras"] = {"pm": 1}
                x["physicsMaterials"].append(m)
        if self.p(0.7):
            x["collisionFilters"] = []
            for _ in range(self.i(1, 3)):
                f = {}
                self.opt(f, "collisionSystems", lambda: [self.name() for _ in range(self.i(1, 3))])
                if self.p(0.7): f[self.r.choice(["notCollideWithSystems", "collideWithSystems"])] = [self.name() for _ in range(self.i(1, 3))]
                if self.extras and self.p(0.2): f["extras"] = {"cf": 1}
                x["collisionFilters"].append(f)
        if self.p(0.7):
            x["physicsJoints"] = []
            for _ in range(self.i(1, 3)):
                j = {}
                if self.p(0.7):
                    j["limits"] = []
                    for _ in range(self.i(1, 3)):
                        l = {self.r.choice(["linearAxes", "angularAxes"]): self.r.sample([0, 1, 2], self.i(1, 3))}
                        a, b = sorted([self.fl(-10, 10), self.fl(-10, 10)])
                        self.opt(l, "min", lambda: a); self.opt(l, "max", lambda: b); self.opt(l, "stiffness", lambda: self.fl(0, 10)); self.opt(l, "damping", lambda: self.fl(0, 10))
                        j["limits"].append(l)
                if self.p(0.7):
                    j["drives"] = []
                    for _ in range(self.i(1, 3)):
                        d = {"type": self.r.choice(["linear", "angular"]), "mode": self.r.choice(["force", "acceleration"]), "axis": self.i(0, 2)}
                        self.opt(d, "maxForce", lambda: self.fl(0, 100))
                        if self.p(): d["positionTarget"] = self.fl(-5, 5); d["stiffness"] = self.fl(0, 5)
                        if self.p(): d["velocityTarget"] = self.fl(-5, 5); d["damping"] = self.fl(0, 5)
                        j["drives"].append(d)
                if self.extras and self.p(0.2): j["extras"] = {"j": 1}
                x["physicsJoints"].append(j)
        return x

    # ---- URIs
    def filename(self, suffix):
        self.fileno += 1
        r = self.r
        stem = r.choice(["buf", "a b", "ü", "x%y", "sub/d", "p+q", "名", "semi;colon", "hash#tag", "q?m", "amp&", "very_long_" + "n" * 40]) + str(self.fileno)
        return stem + suffix
    def file_uri(self, data, suffix):
        n = self.filename(suffix)
        self.files[n] = bytes(data)
        safe = "/;&+" if self.p() else "/"
        return urllib.parse.quote(n, safe=safe)
    def data_uri(self, data, mime):
        return "data:%s;base64,%s" % (mime, base64.b64encode(bytes(data)).decode())

    def matrix(self):
        t = self.fls(3, -10, 10); s = [self.r.choice([0.5, 1.0, 2.0, 1.5]) for _ in range(3)]
        a = self.r.uniform(-3, 3); c, sn = math.cos(a), math.sin(a)
        return [c * s[0], sn * s[0], 0.0, 0.0, -sn * s[1], c * s[1], 0.0, 0.0, 0.0, 0.0, s[2], 0.0, t[0], t[1], t[2], 1.0]
    def quat(self):
        r = self.r
        if self.p(0.3): return r.choice([[0.0, 0.0, 0.0, 1.0], [1.0, 0.0, 0.0, 0.0], [0.0, -0.6, 0.0, 0.8], [0.0, 0.0, 0.6, -0.8]])
        v = [r.gauss(0, 1) for _ in range(4)]; n = math.sqrt(sum(x * x for x in v))
        return [x / n for x in v]

    def document(self):
        r = self.r; S = self.size
        d = self.doc = {"asset": self.common({"version": r.choice(["2.0", "2.0", "2.1", "2.0"])}, name=False)}
        self.opt(d["asset"], "generator", self.name); self.opt(d["asset"], "copyright", self.name); self.opt(d["asset"], "minVersion", lambda: "2.0", 0.2)
        for k in ("bufferViews", "accessors", "textures", "samplers", "images", "materials", "meshes", "nodes", "cameras", "skins", "animations", "scenes"): d[k] = []
        self.bufs = [bytearray() for _ in range(self.i(1, max(1, S - 1)))]
        glb = "glb" in self.sources and (self.sources == ("glb",) or self.p(0.6))
        n = lambda hi=S: self.i(0, hi)
        d["samplers"] = []
        for _ in range(n()):
            s = self.common({})
            self.opt(s, "magFilter", lambda: r.choice([9728, 9729])); self.opt(s, "minFilter", lambda: r.choice([9728, 9729, 9984, 9985, 9986, 9987]))
            self.opt(s, "wrapS", lambda: r.choice([33071, 33648, 10497])); self.opt(s, "wrapT", lambda: r.choice([33071, 33648, 10497]))
            d["samplers"].append(s)
        for _ in range(n()):
            im = self.common({}); mime = r.choice(["image/png", "image/jpeg", "image/png", "image/webp", "image/ktx2", "image/vnd-ms.dds"])
            data = bytes(r.getrandbits(8) for _ in range(self.i(1, 30)))
            k = r.randrange(3)
            if k == 0:
                im["bufferView"] = self.alloc_view(data); im["mimeType"] = mime
            elif k == 1 or "file" not in self.sources:
                im["uri"] = self.data_uri(data, mime); self.opt(im, "mimeType", lambda: mime, 0.3)
            else:
                im["uri"] = self.file_uri(data, ".img"); self.opt(im, "mimeType", lambda: mime, 0.5)
            d["images"].append(im)
        if d["images"]:
            for _ in range(n(S + 1)):
                t = self.common({})
                I = lambda: self.i(0, len(d["images"]) - 1)
                ex = [e for e in ("KHR_texture_basisu", "MSFT_texture_dds", "EXT_texture_webp") if self.want(e, 0.2)]
                if not ex or self.p(0.7): t["source"] = I()
                for e in ex: self.ext(t, e, {"source": I()})
                if d["samplers"]: self.opt(t, "sampler", lambda: self.i(0, len(d["samplers"]) - 1))
                d["textures"].append(t)
        x = {}
        self.nvar = 0
        for _ in range(n()): d["materials"].append(self.material())
        if self.want("KHR_materials_variants", 0.4):
            self.nvar = self.i(1, 4); d.setdefault("extensions", {})["KHR_materials_variants"] = {"variants": [{"name": self.name()} for _ in range(self.nvar)]}; self.used.add("KHR_materials_variants")
        nl = 0
        if self.want("KHR_lights_punctual", 0.4):
            nl = self.i(1, 3); d.setdefault("extensions", {})["KHR_lights_punctual"] = {"lights": [self.light() for _ in range(nl)]}; self.used.add("KHR_lights_punctual")
        if self.want("KHR_implicit_shapes", 0.4):
            d.setdefault("extensions", {})["KHR_implicit_shapes"] = {"shapes": [self.shape() for _ in range(self.i(1, 4))]}; self.used.add("KHR_implicit_shapes")
        phys = self.want("KHR_physics_rigid_bodies", 0.4)
        if phys:
            d.setdefault("extensions", {})["KHR_physics_rigid_bodies"] = self.physics(); self.used.add("KHR_physics_rigid_bodies")
        if self.want("KHR_mesh_quantization", 0.2): self.used.add("KHR_mesh_quantization")
        for _ in range(n()):
            c = self.common({"type": r.choice(["perspective", "orthographic"])})
            zn = self.fl(0.01, 1)
            if c["type"] == "perspective":
                p = {"yfov": self.fl(0.1, 3), "znear": zn}; self.opt(p, "zfar", lambda: self.fl(2, 1000)); self.opt(p, "aspectRatio", lambda: self.fl(0.1, 3)); c["perspective"] = p
            else: c["orthographic"] = {"xmag": self.fl(0.1, 10), "ymag": self.fl(0.1, 10), "zfar": self.fl(2, 1000), "znear": zn}
            d["cameras"].append(c)
        # meshes: the first may be skinned
        nm = n(); skinned = set(); ntarg = {}
        for k in range(nm):
            sk = k == 0 and self.p(0.5); nt = self.i(1, 2) if self.p(0.3) else 0
            m = self.common({"primitives": [self.primitive(sk, nt) for _ in range(self.i(1, 3))]})
            if sk: skinned.add(k)
            ntarg[k] = nt
            if nt: self.opt(m, "weights", lambda: self.fls(nt, 0, 1))
            d["meshes"].append(m)
        nn = self.i(0, S + 3); parent = {}
        for k in range(nn):
            o = self.common({})
            if k and self.p(0.6):
                parent[k] = self.i(0, k - 1); d["nodes"][parent[k]].setdefault("children", []).append(k)
            if nm and self.p(0.6):
                o["mesh"] = self.i(0, nm - 1)
                nt = ntarg[o["mesh"]]
                if nt and self.p(0.5): o["weights"] = self.fls(nt, 0, 1)
            if d["cameras"] and self.p(0.3): o["camera"] = self.i(0, len(d["cameras"]) - 1)
            q = r.randrange(3)
            if q == 0: o["matrix"] = self.matrix()
            elif q == 1:
                self.opt(o, "translation", lambda: self.fls(3)); self.opt(o, "rotation", self.quat); self.opt(o, "scale", lambda: self.fls(3, 0.1, 10))
            d["nodes"].append(o)
        for k, o in enumerate(d["nodes"]):
            if "children" in o: r.shuffle(o["children"])
            if nl and self.p(0.4): self.ext(o, "KHR_lights_punctual", {"light": self.i(0, nl - 1)})
            if "mesh" in o and self.want("EXT_mesh_gpu_instancing", 0.3):
                cnt = self.i(1, 4); at = {}
                if self.p(0.7): at["TRANSLATION"] = self.accessor("VEC3", 5126, cnt)
                if self.p(0.5): at["ROTATION"] = self.accessor("VEC4", 5126, cnt, values=[self.qf() for _ in range(cnt)], sparse=False)
                if self.p(0.5): at["SCALE"] = self.accessor("VEC3", 5126, cnt)
                if self.p(0.3) or not at: at["_ID"] = self.accessor("SCALAR", 5126, cnt)
                self.ext(o, "EXT_mesh_gpu_instancing", {"attributes": at})
            for e, key in (("KHR_node_visibility", "visible"), ("KHR_node_selectability", "selectable"), ("KHR_node_hoverability", "hoverable")):
                if self.want(e, 0.2): self.ext(o, e, {key: self.p()})
            if phys and self.p(0.5):
                b = self.rigid(nn)
                self.ext(o, "KHR_physics_rigid_bodies", b)
        roots = [k for k in range(nn) if k not in parent]
        # skins: joints are one tree
        if nn and self.p(0.5):
            root = r.choice(roots)
            tree = [root]
            for k in tree: tree += d["nodes"][k].get("children", [])
            js = r.sample(tree, self.i(1, len(tree)))
            s = self.common({"joints": js})
            if self.p(): s["inverseBindMatrices"] = self.accessor("MAT4", 5126, len(js), values=[[1.0 if a % 5 == 0 else 0.0 for a in range(16)] for _ in js], sparse=False)
            if self.p(): s["skeleton"] = root
            d["skins"].append(s)
            for k, o in enumerate(d["nodes"]):
                if o.get("mesh") in skinned and self.p(0.7): o["skin"] = 0
        if nn:
            for _ in range(n(2)):
                a = self.common({"channels": [], "samplers": []}); seen = set()
                for _ in range(self.i(1, 3)):
                    node = r.randrange(nn); cand = ["translation", "rotation", "scale"]
                    nt = ntarg.get(d["nodes"][node].get("mesh", -1), 0)
                    if nt: cand.append("weights")
                    path = r.choice(cand)
                    if (node, path) in seen: continue
                    seen.add((node, path))
                    kf = self.i(2, 4); interp = r.choice([None, "LINEAR", "STEP", "CUBICSPLINE"]); mul = 3 if interp == "CUBICSPLINE" else 1
                    t = sorted(r.sample(range(0, 100), kf))
                    inp = self.accessor("SCALAR", 5126, kf, values=[[f32(z / 8)] for z in t], minmax=True, sparse=False)
                    if path == "rotation":
                        c = r.choice([5126, 5126, 5120, 5122]); out = self.accessor("VEC4", c, kf * mul, normalized=c != 5126, sparse=False)
                    elif path == "weights": out = self.accessor("SCALAR", 5126, kf * mul * nt, sparse=False)
                    else: out = self.accessor("VEC3", 5126, kf * mul, sparse=False)
                    sm = {"input": inp, "output": out}
                    if interp: sm["interpolation"] = interp
                    a["samplers"].append(sm)
                    tg = {"path": path}
                    if self.p(0.95): tg["node"] = node
                    a["channels"].append({"sampler": len(a["samplers"]) - 1, "target": tg})
                if a["channels"]: d["animations"].append(a)
        for _ in range(n(2)):
            s = self.common({})
            if roots and self.p(0.85): s["nodes"] = r.sample(roots, self.i(1, len(roots)))
            d["scenes"].append(s)
        if d["scenes"]: self.opt(d, "scene", lambda: self.i(0, len(d["scenes"]) - 1))
        # free accessors of every type
        for _ in range(n(3)):
            typ = r.choice(list(TYPE_N)); c = r.choice([5120, 5121, 5122, 5123, 5125, 5126] + ([5130] if "KHR_accessor_float64" in self.exts else []))
            if c == 5130: self.used.add("KHR_accessor_float64")
            self.accessor(typ, c, self.i(1, 6), normalized=c in (5120, 5121, 5122, 5123) and self.p())
        if self.want("EXT_meshopt_compression", 0.25) and d["bufferViews"]:
            for v in d["bufferViews"]:
                if self.p(0.4):
                    m = {"buffer": v["buffer"], "byteLength": v["byteLength"], "count": 3, "byteStride": 4, "mode": r.choice(["ATTRIBUTES", "TRIANGLES", "INDICES"])}
                    self.opt(m, "byteOffset", lambda: v.get("byteOffset", 0)); self.opt(m, "filter", lambda: r.choice(["NONE"]) if m["mode"] != "ATTRIBUTES" else r.choice(["NONE", "OCTAHEDRAL", "QUATERNION", "EXPONENTIAL"]))
                    self.ext(v, "EXT_meshopt_compression", m)
        # buffers
        d["buffers"] = []
        for k, b in enumerate(self.bufs):
            if not b: b += bytes(r.getrandbits(8) for _ in range(self.i(1, 9)))
            o = self.common({"byteLength": len(b)})
            if k == 0 and glb: self.glb_bin = bytes(b)
            elif "file" in self.sources and (self.p() or "data" not in self.sources): o["uri"] = self.file_uri(b, ".bin")
            else: o["uri"] = self.data_uri(b, r.choice(["application/octet-stream", "application/gltf-buffer"]))
            d["buffers"].append(o)
        if self.p(0.8):
            for k in [k for k in d if isinstance(d[k], list) and not d[k]]: del d[k]
        for k in [k for k in d if isinstance(d[k], list) and not d[k]]: del d[k]  # empty arrays are not allowed by the schema
        if self.extras and self.p(0.3): d["extras"] = {"root": True}
        if self.unknown and self.p(0.2):
            d.setdefault("extensions", {})["VENDOR_unknown"] = {"lights": [{"type": "point"}]}; self.used.add("VENDOR_unknown")
        if self.used: d["extensionsUsed"] = sorted(self.used, key=lambda z: r.random())
        if self.required is not None and not self.required:
            req = [e for e in d.get("extensionsUsed", []) if e in EXT and self.p(0.15)]
            if req: d["extensionsRequired"] = req
        return d
    def qf(self): return [f32(x) for x in self.quat()]

# ---- serialisation
def num_text(x, r):
    if isinstance(x, bool): return "true" if x else "false"
    if isinstance(x, int): return str(x)
    c = [repr(x), "%.17g" % x, "%.16e" % x]
    if x == int(x) and abs(x) < 2**53 and not (x == 0 and math.copysign(1, x) < 0): c += [str(int(x)), str(int(x)) + ".0", str(int(x)) + ".000", "%de0" % int(x)]
    t = r.choice(c)
    if float(t) != x: t = repr(x)
    if "inf" in t or "nan" in t: raise ValueError(t)
    t = t.replace("e+", r.choice(["e+", "e", "E+", "E"]))
    if t.endswith("."): t += "0"
    return t
SHORT = {'"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}
def str_text(s, r, fancy):
    out = ['"']
    for ch in s:
        o = ord(ch)
        if ch in SHORT and not (fancy and r.random() < 0.2): out.append(SHORT[ch])
        elif o < 0x20 or ch in '"\\' or (fancy and r.random() < 0.1):
            if o > 0xffff:
                o -= 0x10000; out.append("\\u%04x\\u%04X" % (0xd800 + (o >> 10), 0xdc00 + (o & 0x3ff)))
            else: out.append(r.choice(["\\u%04x", "\\u%04X"]) % o)
        elif ch == "/" and fancy and r.random() < 0.5: out.append("\\/")
        else: out.append(ch)
    out.append('"')
    return "".join(out)
def serialise(doc, r, style=None, shuffle=None):
    """style: compact | pretty | wild"""
    style = style or r.choice(["compact", "pretty", "wild"]); shuffle = r.random() < 0.7 if shuffle is None else shuffle
    fancy = style == "wild"
    def ws(): return "".join(r.choice([" ", "\n", "\t", "\r"]) for _ in range(r.randint(0, 2))) if style == "wild" else (" " if style == "pretty" else "")
    def w(v):
        if v is None: return "null"
        if isinstance(v, (bool, int, float)): return num_text(v, r)
        if isinstance(v, str): return str_text(v, r, fancy)
        if isinstance(v, list): return "[" + ws() + ("," + ws()).join(w(x) + ws() for x in v) + "]"
        ks = list(v)
        if shuffle: r.shuffle(ks)
        return "{" + ws() + ("," + ws()).join(str_text(k, r, False) + ws() + ":" + ws() + w(v[k]) + ws() for k in ks) + "}"
    t = w(doc)
    if style == "wild" and r.random() < 0.5: t = r.choice(["", " ", "\n", "\r\n\t", " " * 5, "\n\n\n\n\n\n"]) + t + r.choice(["", "\n", " \n", " " * 9])
    return t.encode("utf-8")

def glb(js, binchunk=None, pad=True, extra=(), version=2, magic=b"glTF"):
    """Pack a binary container. extra: further (type, bytes) chunks after BIN."""
    js = js + b" " * (-len(js) % 4)
    body = struct.pack("<II", len(js), 0x4E4F534A) + js
    if binchunk is not None:
        b = binchunk + b"\0" * (-len(binchunk) % 4)
        body += struct.pack("<II", len(b), 0x004E4942) + b
    for t, b in extra:
        b = b + b"\0" * (-len(b) % 4); body += struct.pack("<II", len(b), t) + b
    return magic + struct.pack("<II", version, 12 + len(body)) + body
