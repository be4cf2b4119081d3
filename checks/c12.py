"""C12: callback protocol."""
import base64, json, os, re
from vlib import pool
from vlib.common import *
from vlib.model import bytes_repr, latin, fnv
TECHNIQUE = "the driver's callbacks record every call with the bytes found at unmap time; an offline checker matches the event log against the calls the document requires (exactly once, right sizes, handles, payloads, extras)"
CFGS = ("asan",)
PROGRAMS = programs(CFGS)
EXTRA_KINDS = ["buffers", "bufferViews", "accessors", "images", "samplers", "textures", "animations", "cameras", "materials", "meshes", "skins", "nodes", "scenes"]

def minify(o): return json.loads(json.dumps(o))
def add_extras(doc, r):
    """Put extras of all kinds on objects everywhere; those of nested objects are no top-level object's."""
    def val():
        return r.choice([{}, {"a": 1}, {"deep": {"x": [1, 2, {"y": None}]}, "s": "é\n\""}, {"extras": {"inner": True}}, {"n": 0.1, "big": 2**53}])
    if r.random() < .15:
        w = r.choice([5, "x", None, [1], [{"a": 1}], True]); junk = True
    else: junk = False
    tops = [o for k in EXTRA_KINDS for o in doc.get(k, [])]
    x = doc.get("extensions", {})
    tops += x.get("KHR_implicit_shapes", {}).get("shapes", []) + [o for k in ("physicsMaterials", "collisionFilters", "physicsJoints") for o in x.get("KHR_physics_rigid_bodies", {}).get(k, [])]
    for o in tops:
        if r.random() < .5: o["extras"] = val()
        elif junk and r.random() < .3: o["extras"] = w
        else: o.pop("extras", None)
    def nested(o, depth):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in ("extras", "attributes", "targets"): continue
                if isinstance(v, dict) and k not in ("extensions",) and not k.startswith(("KHR", "EXT", "MSFT", "VENDOR")):
                    if r.random() < .1: v["extras"] = {"nested": True}
                if isinstance(v, list) and depth >= 2:
                    for y in v:
                        if isinstance(y, dict) and r.random() < .1: y["extras"] = {"nested": 2}
                nested(v, depth + 1)
        elif isinstance(o, list):
            for v in o: nested(v, depth + 1)
    for o in [o for k in ("animations", "materials", "meshes", "cameras", "accessors") for o in doc.get(k, [])]: nested(o, 2)
    if r.random() < .5: doc["extras"] = {"root": 1}
    if r.random() < .3: doc["asset"]["extras"] = {"asset": 1}
def want_extras(doc, cats=CAT_ALL):
    from vlib.model import close_categories
    cl = close_categories(cats); out = []
    for k in EXTRA_KINDS:
        if cl & CAT[k]: out += [(CAT[k], i, o["extras"]) for i, o in enumerate(doc.get(k, [])) if isinstance(o.get("extras"), dict)]
    x = doc.get("extensions", {})
    out += [(CAT["shapes"], i, o["extras"]) for i, o in enumerate(x.get("KHR_implicit_shapes", {}).get("shapes", [])) if isinstance(o.get("extras"), dict)]
    for k in ("physicsMaterials", "collisionFilters", "physicsJoints"):
        out += [(CAT[k], i, o["extras"]) for i, o in enumerate(x.get("KHR_physics_rigid_bodies", {}).get(k, [])) if isinstance(o.get("extras"), dict)]
    return out
def sources(doc, g, lb, li):
    """[(where, index, bytes alternatives, base64 text or None)] of everything whose bytes are loaded."""
    out = []; files = g.files
    for kind, on in (("buffers", lb), ("images", li)):
        for i, o in enumerate(doc.get(kind, [])):
            u = o.get("uri")
            if u is None:
                if kind == "buffers" and i == 0 and g.glb_bin is not None: b = g.glb_bin; out.append((kind, i, [b + b"\0" * (-len(b) % 4), b], None))
                continue
            if u.startswith("data:"): t = u.split(",", 1)[1]; out.append((kind, i, [base64.b64decode(t)], t))
            elif on:
                import urllib.parse
                out.append((kind, i, [files[urllib.parse.unquote(u)]], None))
    return out

def case(w, i):
    r = w.rng; g = Gen(r, size=3, sources=r.choice([("data",), ("data", "glb"), ("data", "file", "glb")])); doc = g.document()
    add_extras(doc, r)
    if r.random() < .2:
        b = r.randbytes(r.choice([0, 1, 2, 3, 4, 5, 100, 255, 256, 257, 300])); doc.setdefault("images", []).append({"uri": "data:image/png;base64," + base64.b64encode(b).decode()})
    d = w.scratch(); write_files(d, g.files); lb, li = r.random() < .7, r.random() < .7
    mode = r.choice(["none", "alloc", "alloc", "decline", "alt"]); un = r.random() < .75; b64 = r.random() < .5; ex = r.random() < .7
    slot = r.choice(["", "", "p"]) ; cats = CAT_ALL if r.random() < .8 else r.getrandbits(14)
    spec = ",".join((["map=" + mode] if mode != "none" else []) + (["unmap"] if un else []) + (["b64"] if b64 else []) + (["extras"] if ex else []))
    if slot and r.random() < .5:   # callbacks set before and cleared or replaced now
        load(w, pack(w, doc, g), parser=slot, opts=1, cbs=r.choice(["map=alloc,unmap,b64,extras", "map=decline", "b64", "extras", ""]))
    err, dump, log = load(w, pack(w, doc, g), parser=slot, opts=1 | (16 if lb else 0) | (128 if li else 0), dir=d, cbs=spec, cats=cats)
    if slot and r.random() < .3: w.drv().call("dropall")
    w.seen("%s|%s|%x" % (spec, signature(doc), cats)); w.count("events", len(log)); w.count("spec_" + (spec.replace(",", "_") or "none"))
    note = "callbacks %s, options %d%d, categories %x\nlog %s\n%s" % (spec, lb, li, cats, json.dumps(log)[:1500], json.dumps(doc)[:2000])
    if err != "None": w.viol("rejected", err + "\n" + note); return
    from vlib.model import close_categories
    closed = close_categories(cats)
    src = [s for s in sources(doc, g, lb, li) if closed & CAT[s[0]]]
    ev = lambda k: [e for e in log if e["ev"] == k]
    # the container's chunk is read whether or not buffers were selected
    glb_only = g.glb_bin is not None and not any(s[3] is None and s[0] == "buffers" and s[1] == 0 and "uri" not in doc["buffers"][0] for s in src)
    # --- map / unmap
    maps, unmaps = ev("map"), ev("unmap")
    if mode == "none" and maps: w.viol("map-without-callback", note)
    if not un and unmaps: w.viol("unmap-without-callback", note)
    got = {(k, i2): x["data"] for k in ("buffers", "images") for i2, x in enumerate(dump.get(k, []))}
    if mode != "none":
        left = list(maps)
        if glb_only:
            e = [m for m in left if m["size"] in (len(g.glb_bin), len(g.glb_bin) + (-len(g.glb_bin) % 4))]
            if e: left.remove(e[0])
        for k, i2, alts, t in src:
            sizes = [len(a) for a in alts]; dd = got[(k, i2)]
            if sizes == [0]:
                e = [m for m in left if m["size"] == 0]
                if e: left.remove(e[0])
                continue
            if dd["k"] == "custom":
                e = [m for m in left if m["id"] == dd["id"] and m["size"] in sizes]
                if not e: w.viol("map:handle-or-size", "%s[%d] of %s bytes records handle %s\n%s" % (k, i2, sizes, dd["id"], note)); return
                left.remove(e[0])
                if un:
                    u = [z for z in unmaps if z["id"] == dd["id"]]
                    if len(u) != 1: w.viol("unmap:%d-times" % len(u), "%s[%d]\n%s" % (k, i2, note))
                    elif not u[0]["match"] or u[0]["bytes"] not in [bytes_repr(a) for a in alts]: w.viol("unmap:content", "%s[%d]: at unmap %s, want %s\n%s" % (k, i2, u[0], bytes_repr(alts[0]), note))
                    else:
                        pos = [n for n, z in enumerate(log) if z is u[0]][0]; mp = [n for n, z in enumerate(log) if z is e[0]][0]
                        if pos < mp: w.viol("unmap:order", note)
                        w.count("mapped_and_unmapped")
            else:
                e = [m for m in left if m["id"] == 0 and m["size"] in sizes]
                if not e: w.viol("map:missing", "%s[%d] of %s bytes caused no map call\n%s" % (k, i2, sizes, note)); return
                left.remove(e[0]); w.count("declined")
                if mode == "alloc": w.viol("map:unused", "%s[%d] was given memory but has %s\n%s" % (k, i2, dd, note))
        if left: w.viol("map:extra", "%s\n%s" % (left, note))
        if un and len(unmaps) != len([m for m in maps if m["id"]]): w.viol("unmap:count", "%d maps, %d unmaps\n%s" % (len([m for m in maps if m["id"]]), len(unmaps), note))
    # --- base64
    b = ev("b64")
    if not b64 and b: w.viol("b64-without-callback", note)
    if b64:
        want = sorted((t if len(t) <= 400 else "", len(t), fnv(t.encode()), t.count("="), len(a[0])) for k, i2, a, t in src if t)
        have = sorted((x["text"], x["len"], int(x["hash"]), x["padding"], x["out"]) for x in b if x["len"])
        if want != have: w.viol("b64:calls", "got %s\nwant %s\n%s" % (str(have)[:600], str(want)[:600], note))
        w.count("decoded_by_callback", len(have))
    # --- extras
    xs = ev("extras")
    if not ex and xs: w.viol("extras-without-callback", note)
    if ex:
        key = lambda z: (z[0], z[1], json.dumps(z[2], sort_keys=True))
        want = sorted(map(key, want_extras(doc, cats))); have = sorted((x["cat"], x["idx"], json.dumps(x["json"], sort_keys=True)) for x in xs)
        if cats != CAT_ALL: want = [z for z in want if z[0] < 1 << 14]; have = [z for z in have if z[0] < 1 << 14]
        if want != have:
            miss = [z for z in want if z not in have]; extra = [z for z in have if z not in want]
            w.viol("extras:%s" % ("missing:%d" % miss[0][0] if miss else "unexpected:%d" % extra[0][0] if extra else "repeated"), "missing %s\nunexpected %s\n%s" % (miss[:4], extra[:4], note))
        w.count("extras_seen", len(have))
    # --- what the asset says
    want = Model(ALL_EXT, g.files, g.glb_bin, lb, li, cats=cats).expect(doc)
    for k, i2, alts, t in src:
        dd = got[(k, i2)]
        if dd["k"] == "custom": want[k][i2]["data"] = {"k": "custom", "id": dd["id"], "mime": "*" if k == "buffers" else want[k][i2]["data"].get("mime", "*")}
    compare(w, dump, want, prefix="asset", note=note)

def sections(ctx): return [("protocol", ctx.scale(2600, 60000), case)]
def run(ctx):
    ctx.rule = "one evaluation = one load under a set of callbacks with its full event log checked; distinct = different (callback set, document shape, categories)"
    ctx.assumptions = ["an empty payload may or may not be mapped", "the extras callback reports objects that a category names (elements of the top-level arrays and of the extensions' root arrays)", "the binary chunk is mapped with or without its padding, also when buffers are not selected"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
