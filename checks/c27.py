"""C27: every build configuration gives the same results."""
import copy, json, math, struct
from vlib import pool
from vlib.common import *
from vlib import gen as G, faults as F
from checks import c20, c21
TECHNIQUE = "the same inputs run through eight differently configured instrumented builds of the library (small vector, memory pool, 64-bit floats, language standard, compiler, optimisation); every error, asset, accessor value, traversal, verdict and exported byte is compared with the default build"
CFGS = ("asan", "rel", "gccsan", "smallvec", "nopool", "f64", "cpp20", "smallnopool")
PROGRAMS = programs(CFGS)

def f32(x):
    try: return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError: return math.copysign(math.inf, x)
def near(a, b):
    """Equal up to the float precision the default build has."""
    if isinstance(a, bool) or isinstance(b, bool): return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b: return True
        return abs(f32(a) - f32(b)) <= 2e-5 * max(abs(a), abs(b)) + 1e-30 or a != a and b != b
    if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return a == b
def nearm(a, b):
    """Matrices: small entries may have lost digits to the large ones."""
    for x, y in zip(a, b):
        m = max([abs(v) for v in x + y] + [1e-30])
        if len(x) != len(y) or any(not (abs(u - v) <= 2e-3 * m or u == v or (u != u and v != v)) for u, v in zip(x, y)): return False
    return len(a) == len(b)
def where(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k) and not (near(a.get(k), b.get(k)) if k in a and k in b else False): return where(a.get(k), b.get(k), path + "." + k)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y and not near(x, y): return where(x, y, path + "[]")
    return path
def same(w, cfg, what, a, b, note):
    """a: the default build's, b: cfg's"""
    w.count("comparisons")
    if a == b: return True
    if cfg == "f64":
        try:
            if what.startswith("export"): a, b = c20.strict(a), c20.strict(b)
            if what in ("scene", "local"): ok = nearm([m["m"] if isinstance(m, dict) else m for m in a], [m["m"] if isinstance(m, dict) else m for m in b]) and [m["node"] for m in a if isinstance(m, dict)] == [m["node"] for m in b if isinstance(m, dict)]
            else: ok = near(a, b)
        except (c20.Bad, c21.Bad): ok = False
        if ok: w.count("wider"); return True
    p = where(a, b) if not isinstance(a, (bytes, str)) else ""
    w.viol("%s/%s%s" % (cfg, what, p), "default %s\n%s %s\n%s" % (str(a)[:1500], cfg, str(b)[:1500], note)); return False
def battery(w, cfg, data, opts, ext, cats, mode, plan, alter, **how):
    """Everything observable about one input in one build."""
    d = w.drv(cfg); o = {}; err, dump, _ = load(w, data, cfg=cfg, asset="a", opts=opts, ext=ext, cats=cats, mode=mode, **how)
    o["error"] = err; o["dump"] = dump
    if err != "None": return o
    if alter: d.call("pokestr", "a", *alter)
    o["validate"] = d.call("validate", "a")[0]
    for k, (op, pretty, extras) in enumerate(plan["exports"]):
        r = d.call_raw(op, "a", pretty, "b", "i", "", extras); o["export_error%d" % k] = r[0].decode(); out = r[1]
        if op == "exportglb" and out:
            try: out, o["binary%d" % k] = c21.container(out)
            except c21.Bad as e: o["container%d" % k] = str(e)
        o["export%d" % k] = out; o["paths%d" % k] = r[2]
    n = len(dump["accessors"])
    for k in plan["accessors"]:
        if n and plan["readable"]: 
            a = k % n
            if dump["accessors"][a]["type"] not in plan["dest"]: continue
            v = d.call("readacc", "a", a, plan["how"], "f" if str(dump["accessors"][a]["componentType"]) in ("5126", "5130", "Float", "Double") and dump["accessors"][a]["type"] == "SCALAR" else plan["dest"][dump["accessors"][a]["type"]])[0]; o["accessor%d" % k] = json.loads(v) if v[:1] in "[{" else v
    if plan["scene"]:
        for s in range(min(2, len(dump["scenes"]))): o["scene%d" % s] = json.loads(d.call("scene", "a", s, "")[0])
        o["local"] = json.loads(d.call("local", "a")[0])
    if plan["move"]:
        x = d.call("moveasset", "a", "m")[0]; o["moved"] = json.loads(x)
        d.call("newasset", "a"); x = d.call("moveassign", "m", "a", "drop")[0]; o["assigned"] = json.loads(x)
    return o
def compare_all(w, data, opts, ext, cats, mode, plan, note, alter=(), skip=()):
    ref = battery(w, "asan", data, opts, ext, cats, mode, plan, alter); w.count("outcome_" + ("loaded" if ref["error"] == "None" else "refused"))
    for cfg in CFGS[1:]:
        got = battery(w, cfg, data, opts, ext, cats, mode, plan, alter); w.count("inputs_" + cfg)
        for k in ref.keys() | got.keys():
            if k in skip: continue
            kind = k.rstrip("0123456789")
            if k not in got or k not in ref: w.viol("%s/%s" % (cfg, kind), "only one of the builds has it: errors %s and %s\n%s" % (ref["error"], got["error"], note)); break
            if not same(w, cfg, kind, ref[k], got[k], note): break
    return ref
def plan_of(r, dump_ok=True, acyclic=True):
    return {"exports": [(r.choice(["exportjson", "exportglb"]), r.choice([0, 4]), r.choice(["", "1"]))], "accessors": [r.randrange(50) for _ in range(3)] if dump_ok else [], "readable": dump_ok, "how": r.choice(["get", "iter", "copy"]),
            "dest": {"SCALAR": r.choice(["f", "u32"]), "VEC2": "v2", "VEC3": "v3", "VEC4": "v4"}, "scene": acyclic, "move": r.random() < .5}
def valid(w, i):
    r = w.rng; g = Gen(r, size=r.choice([2, 3, 3]), sources=("data", "glb")); doc = g.document(); data = pack(w, doc, g)
    opts = 1 | r.choice([0, 0, OPT["DecomposeNodeMatrices"], OPT["GenerateMeshIndices"]]); cats = CAT_ALL if r.random() < .7 else r.getrandbits(18); ext = ALL_EXT if r.random() < .7 else r.getrandbits(40) & ALL_EXT
    plan = plan_of(r, dump_ok=cats == CAT_ALL, acyclic=cats == CAT_ALL)
    if plan["dest"]["SCALAR"] == "u32": plan["accessors"] = plan["accessors"][:1]
    ref = compare_all(w, data, opts, ext, cats, r.choice(["auto", "glb" if data[:4] == b"glTF" else "json"]), plan, data[:3000])
    w.seen(signature(doc, opts, cats, ext)); w.sample(data[:200].decode("utf-8", "replace"))
def broken(w, i):
    r = w.rng; g = Gen(r, size=3, sources=("data",), unknown=False, extras=False, hostile_names=False); doc = g.document()
    for _ in range(3):
        f = F.fault(doc, r)
        if f is None: continue
        key, exp, bad, absent = f
        data = json.dumps(bad, separators=(",", ":")).encode()
        if r.random() < .2: p = r.randrange(len(data)); data = data[:p] + (b"" if r.random() < .5 else bytes([r.getrandbits(8)])) + data[p + 1:]
        plan = plan_of(r, dump_ok=False, acyclic=False); compare_all(w, data, 1, ALL_EXT, CAT_ALL, "auto", plan, data[:3000]); w.seen(key)
def crowded(w, i):
    """More of everything than the inline storage of a small vector holds, and moves in between."""
    r = w.rng; n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65, 100]); d = {"asset": {"version": "2.0"}}; F_ = 5126
    d["buffers"] = [{"byteLength": 256, "uri": "data:application/octet-stream;base64," + "AACAPwAAAEAAAEBA" * 21 + "AACAPw=="}]; d["bufferViews"] = [{"buffer": 0, "byteLength": 256}]
    d["accessors"] = [{"bufferView": 0, "componentType": F_, "type": "VEC3", "count": 3, "min": [1, 1, 1], "max": [3, 3, 3]}]
    names = ["POSITION"] + ["_A%d" % k for k in range(n)]; r.shuffle(names); t = r.choice([0, 1, n % 9])
    d["meshes"] = [{"primitives": [{"attributes": {k: 0 for k in names}, **({"targets": [{k: 0 for k in ["POSITION", "NORMAL", "TANGENT"] + ["_B%d" % j for j in range(n % 7)]} for _ in range(t)]} if t else {})} for _ in range(r.choice([1, 2, n or 1]))], **({"weights": [r.uniform(0, 1) for _ in range(n)]} if n else {})}]
    d["nodes"] = [{"mesh": 0, **({"children": list(range(1, n + 1))} if n else {}), **({"weights": [r.uniform(0, 1) for _ in range(n)]} if n else {})}] + [{"name": "c" * r.choice([0, 1, 15, 16, 40])} for _ in range(n)]
    d["scenes"] = [{"nodes": [0] if r.random() < .5 or not n else [0] + list(range(1, n + 1))[:0]}]
    if n: d["skins"] = [{"joints": list(range(1, n + 1))}]; d["animations"] = [{"samplers": [{"input": 0, "output": 0}] * n, "channels": [{"sampler": k, "target": {"node": k, "path": "translation"}} for k in range(n)]}]
    if n: d["extensionsUsed"] = ["KHR_materials_variants", "EXT_mesh_gpu_instancing"] + ["VENDOR_%d" % k for k in range(n)]; d["extensions"] = {"KHR_materials_variants": {"variants": [{"name": "v%d" % k} for k in range(n)]}}; d["materials"] = [{}] * 2; d["meshes"][0]["primitives"][0]["extensions"] = {"KHR_materials_variants": {"mappings": [{"material": k % 2, "variants": [j for j in range(n) if j % 2 == k]} for k in range(2) if [j for j in range(n) if j % 2 == k]]}}
    if n: d["nodes"][0]["extensions"] = {"EXT_mesh_gpu_instancing": {"attributes": {"TRANSLATION": 0, **{"_I%d" % k: 0 for k in range(n)}}}}
    data = json.dumps(d).encode(); plan = plan_of(r); plan["move"] = True; plan["dest"]["SCALAR"] = "f"
    alter = []
    if r.random() < .4: alter = ["nodes/0/name", "n" * r.choice([1, 15, 16, 17, 100, 1000])]
    compare_all(w, data, 1 | r.choice([0, OPT["GenerateMeshIndices"]]), ALL_EXT, CAT_ALL, "auto", plan, data[:3000], alter=alter); w.seen("crowd%d|%d|%s" % (n, t, alter[:1])); w.count("crowd_%d" % n)
def wide(w, i):
    """The build with 64-bit floats keeps the 64 bits of every number stated for a 64-bit member (defaults are written as float literals)."""
    r = w.rng; g = Gen(r, size=3, sources=("data", "glb")); doc = g.document()
    def widen(o):   # numbers no 32-bit float holds
        if isinstance(o, dict): return {k: v if k in ("extras", "unknownMember", "uri") else widen(v) for k, v in o.items()}
        if isinstance(o, list): return [widen(x) for x in o]
        if isinstance(o, float) and o not in (0.0, 1.0, -1.0) and (o in (1.3, .6) or r.random() < .8): w.count("widened"); y = o * (1 - 2.0 ** -r.randrange(26, 50)); return y if y else o
        return o
    doc = widen(doc); data = pack(w, doc, g); err, dump, _ = load(w, data, cfg="f64", opts=r.choice([0, 1]))
    w.seen(signature(doc, "wide")); w.count("inputs_f64")
    if err != "None": w.viol("f64/wide-rejected", "%s: %s" % (err, data[:3000])); return
    compare(w, dump, Model(ALL_EXT, glb_bin=g.glb_bin, num=lambda v: f32(v) if v in (1.3, .6) else float(v)).expect(doc), prefix="f64/wide", note=data[:3000].decode("utf-8", "replace"))
def sections(ctx):
    s = ctx.scale
    return [("valid", s(900, 8000), valid), ("broken", s(350, 4000), broken), ("crowded", s(300, 3000), crowded), ("wide", s(400, 6000), wide)]
def run(ctx):
    ctx.rule = "one evaluation runs one input (or three broken ones) through all eight builds and compares everything observable; distinct by members present, options, fault or sizes"
    ctx.assumptions = ["64-bit floats: numbers are compared up to float precision, matrices up to float rounding", "configurations differ in the documented macros, the language standard, the compiler and the optimisation level; instruction sets are C13 and C26, C++ modules and Android are not built here"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
