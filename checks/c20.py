"""C20: exported JSON is valid and loads back to the same asset."""
import json, math, re
from vlib import pool, schema
from vlib.common import *
from vlib import gen as G
TECHNIQUE = "sanitizer-instrumented export of generated and altered assets; a strict JSON reader, an independent table of the members the specification allows in every object, and a reload compared field by field with the exported asset"
CFGS = ("asan", "rel")
PROGRAMS = programs(CFGS)
TOKEN = re.compile(rb'"(?:[^"\\]|\\.)*"|[{}\[\]:,]|[^\s{}\[\]:,"]+', re.S)
PIECES = ['"', "\\", '\\"', "/", "\n", "\t", "\x01", "\x1f", "\x7f", "\u00e9", "\u20ac", "\U0001F600", "{", "}", ":", ",", " ", "a", "b", "7", "%41", "null"]

class Bad(Exception): pass
def strict(data):
    def pairs(p):
        ks = [k for k, _ in p]
        if len(set(ks)) != len(ks): raise Bad("member twice: %s" % [k for k in ks if ks.count(k) > 1][0])
        return dict(p)
    def const(c): raise Bad("not JSON: " + c)
    try: return json.loads(data.decode("utf-8"), object_pairs_hook=pairs, parse_constant=const)
    except UnicodeDecodeError as e: raise Bad("not UTF-8")
    except ValueError as e: raise Bad("not JSON: " + re.sub(r"( at)?: line.*", "", str(e)))

def hostile(r): return "".join(r.choice(PIECES) for _ in range(r.randint(0, r.choice([1, 3, 12]))))
def zero(o):
    """-0 and 0 are the same number to a reader that leaves out defaults."""
    if isinstance(o, float): return 0.0 if o == 0 else o
    if isinstance(o, list): return [zero(x) for x in o]
    if isinstance(o, dict): return {k: zero(v) for k, v in o.items()}
    return o
def expected(dump, paths, bin0=None):
    """What a reload of the exported text must give: data that was embedded is now referred to by its path."""
    d = json.loads(json.dumps(dump))
    for kind in ("buffers", "images"):
        for i, o in enumerate(d[kind]):
            p = paths[kind][i] if i < len(paths[kind]) else None
            if p is not None: o["data"] = {"k": "uri", "uri": p, "mime": o["data"].get("mime")}
            elif kind == "buffers" and i == 0 and bin0 is not None: o["data"] = {"k": "array", "bytes": bin0}
            if kind == "buffers": o["data"].pop("mime", None)
    return d
def got(dump, embedded=False):
    d = json.loads(json.dumps(dump))
    for kind in ("buffers", "images"):
        for i, o in enumerate(d[kind]):
            if o["data"]["k"] == "uri": o["data"] = {"k": "uri", "uri": o["data"]["uri"], "mime": o["data"]["mime"]}
            if kind == "buffers": o["data"].pop("mime", None)
    return d
def strip(d):
    for kind in ("buffers", "images"):
        for o in d[kind]:
            if o["data"]["k"] == "uri": o["data"] = {k: o["data"].get(k) for k in ("k", "uri", "mime") if k in o["data"]}
    return d
def well_formed(w, out, extras, note):
    """The text is JSON, nothing is doubled or misplaced; returns it parsed."""
    try: doc = strict(out)
    except Bad as e: w.viol("text:" + re.sub(r"member twice: .*", "member-twice", str(e)), "%s\n%r" % (e, out[:6000])); return None
    for kind, path in sorted(set(schema.violations(doc, extras)))[:4]: w.viol("schema-%s:%s" % (kind, path), "%r" % out[:6000])
    return doc
def extras_placed(w, doc, out):
    for path, cat in schema.EXTRAS.items():
        o = doc
        for part in path[:-2].split("."): o = o.get(part, {} if part in ("extensions",) or part.startswith("KHR") else [])
        for i, x in enumerate(o):
            w.count("extras")
            if x.get("extras") != {"c": CAT[cat], "i": i}: w.viol("extras:" + cat, "%s[%d] got %s\n%r" % (cat, i, x.get("extras"), out[:3000]))
def alter(w, slot, dump, how, cfg):
    """Change strings of the loaded asset to hostile ones, the way a program editing an asset would."""
    r = w.rng; args = []
    for kind in ("accessors", "animations", "buffers", "bufferViews", "cameras", "images", "lights", "materials", "meshes", "nodes", "samplers", "scenes", "skins", "textures"):
        for i in range(len(dump[kind])):
            if kind in ("buffers", "images"): continue     # these name files: see C22
            if r.random() < .4: args += ["%s/%d/name" % (kind, i), hostile(r)]
    if "asset" in dump:
        for k in ("copyright", "generator"):
            if r.random() < .4: args += ["asset/" + k, hostile(r)]
        if r.random() < .2: args += ["asset/version", "2." + hostile(r)]
    for i in range(len(dump["variants"])):
        if r.random() < .5: args += ["variants/%d" % i, hostile(r) or "v"]
    for i, m in enumerate(dump["meshes"]):
        for j, p in enumerate(m["primitives"]):
            for k in range(len(p["attributes"])):
                if r.random() < .2: args += ["meshes/%d/primitives/%d/attributes/%d" % (i, j, k), "_%d%s" % (k, hostile(r))]
    if args:
        res = w.drv(cfg).call("pokestr", slot, *args)
        if res[0] != "ok": raise RuntimeError("pokestr: %s" % res)
    w.count("altered_strings", len(args) // 2)
def roundtrip(w, i, g, doc, change=False, ext=ALL_EXT):
    r = w.rng; cfg = "rel" if i % 4 == 3 else "asan"; d = w.drv(cfg)
    data = pack(w, doc, g)
    err, dump, _ = load(w, data, cfg=cfg, asset="a", ext=ext, opts=1)
    if err != "None": w.viol("setup", "valid document rejected with %s: %s" % (err, data[:4000])); return
    if change:
        alter(w, "a", dump, change, cfg); dump = json.loads(d.call("dump", "a")[0])
    pretty = r.choice([0, 4]); extras = r.random() < .4
    bp, ip = r.choice([("", ""), ("b", "i"), ("x/y", "x/y"), ("", "img")])
    raw = d.call_raw("exportjson", "a", pretty, bp, ip, "", "1" if extras else "")
    err, out = raw[0].decode(), raw[1]
    if err != "None": w.viol("export-refused:" + err, "%s" % data[:4000]); return
    paths = json.loads(raw[2]); w.count("exports"); w.count("bytes", len(out)); w.seen(signature(doc, pretty, extras, change)); w.sample(out[:200].decode("utf-8", "replace"))
    d2 = well_formed(w, out, extras, data)
    if d2 is None: return
    if extras: extras_placed(w, d2, out)
    if r.random() < .5: # the other formatting differs in white space only
        o2 = d.call_raw("exportjson", "a", 4 - pretty, bp, ip, "", "1" if extras else "")[1]
        if TOKEN.findall(out) != TOKEN.findall(o2): w.viol("pretty-differs", "%r and %r" % (out[:3000], o2[:3000]))
    err, back, _ = load(w, out, cfg=cfg, ext=ext, opts=1)
    if err != "None": w.viol("reload:" + err, "exported text does not load: %r" % out[:6000]); return
    want = expected(dump, paths)
    if "asset" not in want: want["asset"] = back.get("asset")
    for p, a, b in diff(normalize_dump(zero(got(back))), normalize_dump(zero(strip(want))), limit=6):
        w.viol("roundtrip:" + diff_key(p), "%s: reloaded %s exported %s\n%r" % (p, str(a)[:300], str(b)[:300], out[:5000]))
def everything(w, i):
    g = Gen(w.rng, size=3, sources=("data", "glb"), unknown=False); roundtrip(w, i, g, g.document())
def single(w, i):
    e = G.ALL[i % len(G.ALL)]
    ex = {e} | ({"KHR_implicit_shapes"} if e == "KHR_physics_rigid_bodies" else set()) | ({"KHR_texture_transform"} if w.rng.random() < .3 else set())
    g = Gen(w.rng, exts=ex, size=3, unknown=False); g.want = lambda n, q=0.5: n in g.exts and w.rng.random() < max(q, 0.85)
    roundtrip(w, i, g, g.document())
def external(w, i):
    """Sources that stay in files of their own are referred to by the same URI again."""
    g = Gen(w.rng, size=2, sources=w.rng.choice([("file",), ("file", "data")]), unknown=False); roundtrip(w, i, g, g.document())
def altered(w, i):
    g = Gen(w.rng, size=3, sources=("data", "glb"), unknown=False); roundtrip(w, i, g, g.document(), change=True)
def empty(w, i):
    """Assets with nothing, or a single object, in them."""
    r = w.rng; d = w.drv(); d.call("newasset", "a")
    for _ in range(r.choice([0, 0, 1, 2])): d.call("addbuffer", "a", bytes(r.getrandbits(8) for _ in range(r.randrange(0, 9))), r.choice(["", "n"]))
    for _ in range(r.choice([0, 0, 1])): d.call("addimage", "a", b"\x01\x02", r.choice(["", "im"]), r.choice([0, 1, 2]))
    dump = json.loads(d.call("dump", "a")[0]); raw = d.call_raw("exportjson", "a", r.choice([0, 4]), "", "", "", r.choice(["", "1"]))
    if raw[0] != b"None": w.viol("empty:refused", raw[0].decode()); return
    d2 = well_formed(w, raw[1], True, "")
    w.count("exports"); w.seen("empty%s" % raw[1][:200])
    if d2 is None: return
    err, back, _ = load(w, raw[1])
    if err != "None": w.viol("empty:reload", "%s %r" % (err, raw[1][:2000])); return
    want = expected(dump, json.loads(raw[2])); want["asset"] = back.get("asset"); want["categories"] = back["categories"]
    for p, a, b in diff(normalize_dump(got(back)), normalize_dump(strip(want)), limit=4): w.viol("empty:" + diff_key(p), "%s: reloaded %s exported %s\n%r" % (p, a, b, raw[1][:2000]))
def again(w, i):
    """One exporter used for several assets, after failures too, gives what a fresh one gives."""
    r = w.rng; d = w.drv(); slot = "x%d" % (i % 7)
    for k in range(3):
        g = Gen(r, size=2, sources=("data",), unknown=False, hostile_names=False); err, dump, _ = load(w, pack(w, g.document(), g), asset="b", opts=1)
        if err != "None": w.viol("setup", err); return
        broken = None
        if r.random() < .5:
            kind = r.choice([x for x in ("buffers", "images") if dump[x]] or [None])
            if kind:
                d.call("source", "b", kind, r.randrange(len(dump[kind])), r.choice(["custom", "monostate"])); broken = kind
        opts = r.choice([0, 4]); op = r.choice(["exportjson", "exportjson", "exportglb"])
        a = d.call_raw(op, "b", opts, "", "", "", ""); b = d.call_raw(op, "b", opts, "", "", slot, "")
        w.count("reuse"); w.seen("again%s%s%s" % (signature(g.doc), broken, op))
        if a != b: w.viol("reuse:%s" % op, "a used exporter gives %r, a fresh one %r" % ([x[:500] for x in b], [x[:500] for x in a])); return
def sections(ctx):
    s = ctx.scale
    return [("everything", s(500, 12000), everything), ("single", s(8, 120) * len(G.ALL), single), ("altered", s(400, 9000), altered), ("external", s(250, 4000), external), ("empty", s(150, 1500), empty), ("again", s(200, 3000), again)]
def run(ctx):
    ctx.rule = "one evaluation loads one generated document, perhaps edits its strings, exports it and reloads the text; distinct by the members present, the formatting and the extras option"
    ctx.assumptions = ["zero and minus zero are equal", "a buffer's MIME type is not part of glTF and is not expected back", "numbers are finite and within the float range", "strings are valid UTF-8", "attribute names of one primitive are distinct"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
