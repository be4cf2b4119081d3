"""Single structural faults of a valid document, with what the specification says about them.

Every fault is (kind, expectation, mutated document, document with the faulty member removed or None):
  "reject"  - the document must not load
  "absent"  - the document must not load, or load as if the (optional) member were absent
"""
import copy, re

X = "extensions"
REQ = {
 "": ["asset"], "asset": ["version"],
 "accessors[]": ["componentType", "count", "type"], "accessors[].sparse": ["count", "indices", "values"],
 "accessors[].sparse.indices": ["bufferView", "componentType"], "accessors[].sparse.values": ["bufferView"],
 "animations[]": ["channels", "samplers"], "animations[].channels[]": ["sampler", "target"], "animations[].channels[].target": ["path"], "animations[].samplers[]": ["input", "output"],
 "buffers[]": ["byteLength"], "bufferViews[]": ["buffer", "byteLength"],
 "bufferViews[].extensions.EXT_meshopt_compression": ["buffer", "byteLength", "byteStride", "count", "mode"],
 "cameras[]": ["type"], "cameras[].perspective": ["yfov", "znear"], "cameras[].orthographic": ["xmag", "ymag", "zfar", "znear"],
 "meshes[]": ["primitives"], "meshes[].primitives[]": ["attributes"],
 "meshes[].primitives[].extensions.KHR_materials_variants": ["mappings"], "meshes[].primitives[].extensions.KHR_materials_variants.mappings[]": ["material", "variants"],
 "meshes[].primitives[].extensions.KHR_draco_mesh_compression": ["bufferView", "attributes"],
 "nodes[].extensions.KHR_lights_punctual": ["light"], "nodes[].extensions.EXT_mesh_gpu_instancing": ["attributes"],
 "skins[]": ["joints"],
 "extensions.KHR_lights_punctual": ["lights"], "extensions.KHR_lights_punctual.lights[]": ["type"],
 "extensions.KHR_materials_variants": ["variants"], "extensions.KHR_materials_variants.variants[]": ["name"],
 "extensions.KHR_implicit_shapes": ["shapes"], "extensions.KHR_implicit_shapes.shapes[]": ["type"],
 "extensions.KHR_physics_rigid_bodies.physicsJoints[].drives[]": ["type", "mode", "axis"],
 "nodes[].extensions.KHR_physics_rigid_bodies.collider": ["geometry"],
 "nodes[].extensions.KHR_physics_rigid_bodies.joint": ["connectedNode", "joint"],
}
# members the specification makes conditional, and root members that only name things
SKIP = {"extras", "unknownMember", "vendorThing", "VENDOR_unknown"}
FIXED = {"baseColorFactor": 4, "emissiveFactor": 3, "matrix": 16, "translation": 3, "rotation": 4, "scale": 3, "offset": 2, "specularColorFactor": 3, "attenuationColor": 3, "sheenColorFactor": 3,
         "diffuseFactor": 4, "specularFactor": 3, "diffuseTransmissionColorFactor": 3, "color": 3, "centerOfMass": 3, "inertiaDiagonal": 3, "inertiaOrientation": 4, "linearVelocity": 3, "angularVelocity": 3, "size": 3}
ENUM = {"type", "alphaMode", "interpolation", "path", "mode", "filter", "frictionCombine", "restitutionCombine"}
INDEX = {"bufferView", "buffer", "byteLength", "byteOffset", "byteStride", "count", "node", "mesh", "skin", "camera", "sampler", "source", "index", "texCoord", "material", "indices", "input", "output",
         "inverseBindMatrices", "skeleton", "scene", "light", "shape", "joint", "connectedNode", "physicsMaterial", "collisionFilter", "axis"}
ENUM_INT = {"componentType", "mode", "target", "magFilter", "minFilter", "wrapS", "wrapT"}

def kind_of(path):
    return "".join("[]" if isinstance(p, int) else ("." if i and True else "") + p for i, p in enumerate(path)).lstrip(".")
def required(kind, key):
    if key in REQ.get(kind, ()): return True
    if key == "index" and kind.startswith("materials[]") and re.search(r"Texture$", kind): return True
    return False
def walk(o, path=()):
    """All (parent, key, value, path of the parent)."""
    if isinstance(o, dict):
        for k, v in o.items():
            if k in SKIP: continue
            yield path, k, v
            yield from walk(v, path + (k,))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield path, i, v
            yield from walk(v, path + (i,))
def at(doc, path):
    for p in path: doc = doc[p]
    return doc

def wrong(v, key, r):
    """A value of a JSON type the member must not have."""
    if isinstance(v, bool): c = [0, 1, "true", [], {}, None]
    elif isinstance(v, int) and (key in INDEX or key in ENUM_INT or isinstance(key, int)): c = ["0", True, [], {}, None, -1, 0.5, -1.5e300, 1e300]
    elif isinstance(v, (int, float)): c = ["0.5", True, [], {}, None, [1.0]]
    elif isinstance(v, str): c = [0, 1.5, True, [], {}, None]
    elif isinstance(v, list): c = [0, "x", True, {}, None, {"0": 1}]
    else: c = [0, "x", True, [], None, [{}]]
    return r.choice(c)

def fault(doc, r):
    """One random fault, or None."""
    items = [x for x in walk(doc)]
    path, key, v = r.choice(items)
    if r.random() < 0.25:                         # favour required members
        q = [x for x in items if isinstance(x[1], str) and required(kind_of(x[0]), x[1])]
        if q: path, key, v = r.choice(q)
    kind = kind_of(path); d = copy.deepcopy(doc); o = at(d, path)
    if isinstance(key, int):
        o[key] = wrong(v, key, r)
        top = kind.split(".")[-1]
        # floating point members accept any number; integers inside e.g. translation are numbers
        if isinstance(v, (int, float)) and not isinstance(v, bool) and isinstance(o[key], (int, float)) and not isinstance(o[key], bool):
            if not (top in ("children", "joints", "nodes", "nodeIndices", "variants", "linearAxes", "angularAxes")): o[key] = "x"
        if kind in ("extensionsUsed", "extensionsRequired"): return ("%s[]:wrong-type" % kind, "reject", d, None)
        return ("%s[]:wrong-type" % kind, "reject", d, None)
    req = required(kind, key)
    full = (kind + "." if kind else "") + key
    c = r.random()
    absent = None
    if full == "extensions.KHR_materials_variants": return None     # the primitives' mappings refer to it
    if not req:
        absent = copy.deepcopy(doc); del at(absent, path)[key]
    if req and c < 0.4:
        del o[key]; return (full + ":missing", "reject", d, None)
    if key in FIXED and isinstance(v, list) and c < 0.5:
        if r.random() < 0.5: o[key] = v[:r.randint(0, len(v) - 1)]
        else: o[key] = v + [v[0]] * r.randint(1, 3)
        return (full + ":wrong-length", "reject" if req else "absent", d, absent)
    if key in ENUM and isinstance(v, str) and c < 0.6:
        o[key] = r.choice([v.lower(), v.upper(), v + "x", "", "X", v[:-1]])
        if o[key] == v: return None
        return (full + ":bad-enum", "reject", d, None)
    if key in ENUM_INT and isinstance(v, int) and c < 0.6:
        o[key] = r.choice([7, 255, 260, 2**32 + 4] if key == "mode" else [0, 5119, 5127, 5131, v + 65536, v + 2**32, 4242, 65535, 2**63])
        return (full + ":bad-enum", "reject" if req or key == "componentType" else "absent", d, absent)
    o[key] = wrong(v, key, r)
    if isinstance(v, (int, float)) and not isinstance(v, bool) and isinstance(o[key], (int, float)) and not isinstance(o[key], bool) and key not in INDEX | ENUM_INT and key != "mode": o[key] = None
    return (full + ":wrong-type", "reject" if req else "absent", d, absent)
