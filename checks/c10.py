"""C10: results depend only on the inputs; assets own their data."""
import json, os, re
from vlib import pool, faults as F
from vlib.common import *
from checks.c08 import make, pad, chunk, container, JSON_T, BIN_T
TECHNIQUE = "random histories of loads, failures, option and callback changes, parser and asset moves under sanitizers; every load is compared with a fresh parser's result and every asset is dumped again after its parser and inputs are gone"
CFGS = ("asan", "nopool")
PROGRAMS = programs(CFGS)
EXTSETS = [ALL_EXT, 0, EXT["KHR_texture_transform"] | EXT["KHR_lights_punctual"], ALL_EXT & ~EXT["KHR_draco_mesh_compression"]]

def scrub(dump):
    """Handles of callback-provided memory are counters of the driver."""
    def go(o):
        if isinstance(o, dict):
            if o.get("k") == "custom": o["id"] = "*"
            for v in o.values(): go(v)
        elif isinstance(o, list):
            for v in o: go(v)
    if dump is not None: go(dump)
    return dump
def document(w, r):
    """(bytes, directory) of something to load: valid, broken, JSON or binary."""
    k = r.randrange(10)
    g = Gen(r, size=r.choice([1, 2, 3]), sources=r.choice([("data",), ("data", "glb"), ("data", "file", "glb")])); doc = g.document()
    d = w.tmp; write_files(d, g.files)
    if k == 0:
        f = F.fault(doc, r)
        if f: doc = f[2]
    data = pack(w, doc, g)
    if k == 1: data = data[:r.randrange(len(data) + 1)]
    elif k == 2:
        x = bytearray(data)
        for _ in range(r.randint(1, 4)): x[r.randrange(len(x))] = r.getrandbits(8)
        data = bytes(x)
    elif k == 3: data = r.choice([b"", b"{}", b"[]", b"glTF", b"not json", json.dumps({"asset": {"version": "2.0"}}).encode(), json.dumps({"asset": {"version": "2.0"}, "buffers": [{"byteLength": 4}]}).encode(),
                                  glb(json.dumps({"asset": {"version": "2.0"}}).encode(), b"\1\2\3\4"), json.dumps({"asset": {"version": "2.0"}, "extensionsRequired": ["KHR_nope"]}).encode(),
                                  json.dumps({"asset": {"version": "2.0"}, "buffers": [{"byteLength": 4, "uri": "none.bin"}]}).encode()])
    elif k == 4: # a binary container whose document has no use for its chunk, then JSON wanting one
        data = glb(json.dumps({"asset": {"version": "2.0"}, "nodes": [{}]}).encode(), r.randbytes(8))
    return data, d
def history(w, i):
    r = w.rng; w.scratch(); cfg = "nopool" if i % 5 == 4 else "asan"; drv = w.drv(cfg); slots = {}; kept = {}; n = 0
    pars = {"p%d" % k: r.choice(EXTSETS) for k in range(r.choice([1, 1, 2]))}; docs = [document(w, r) for _ in range(r.randint(2, 5))]; trace = []; last = dict.fromkeys(pars, ""); folders = other_folders(w, r)
    def recheck(a, when):
        got = scrub(json.loads(drv.call("dump", a)[0])); w.count("asset_rechecks")
        if got != kept[a]: 
            ds = diff(got, kept[a]); w.viol("asset-changed:%s:%s" % (when, diff_key(ds[0][0]) if ds else "?"), "asset of load %s: %s\nhistory %s" % (a, ds[:3], trace[-12:]))
            kept[a] = got; return False
        return True
    for step in range(r.randint(4, 14)):
        x = r.random()
        if x < .62:
            p = r.choice(list(pars)); data, d = r.choice(docs); opts = 1 | r.choice([0, 0, 2, 16, 128, 144, 32]); cats = CAT_ALL if r.random() < .6 else r.getrandbits(14)
            mode = r.choice(["auto", "auto", "auto", "json", "glb"]); cbs = r.choice(["", "", "", "map=alloc,unmap", "b64", "extras", "map=decline,unmap,b64,extras", "keep", "keep", "keep"])
            if r.random() < .3: d = r.choice(folders)
            want_cbs = last[p] if cbs == "keep" else cbs; last[p] = want_cbs
            a = ("a%d" % n) if r.random() < .6 else ""; n += 1
            if a and kept and r.random() < .15: a = r.choice(list(kept))         # the new asset is moved over an old one
            trace.append("load %s opts=%x cats=%x mode=%s cbs=%s dir=%s doc=%d" % (p, opts, cats, mode, cbs, os.path.basename(d), [z[0] for z in docs].index(data)))
            err, dump, ev = load(w, data, cfg=cfg, parser=p, asset=a, mode=mode, opts=opts, ext=pars[p], cats=cats, dir=d, cbs=cbs); scrub(dump)
            e2, d2, ev2 = load(w, data, cfg=cfg, mode=mode, opts=opts, ext=pars[p], cats=cats, dir=d, cbs=want_cbs); scrub(d2)
            w.count("loads_" + ("ok" if e2 == "None" else "failed"))
            if err != e2: w.viol("error-depends-on-history", "got %s, a fresh parser gives %s\n%s\ndocument %r" % (err, e2, trace, data[:1500])); return
            if dump != d2:
                ds = diff(dump, d2); w.viol("asset-depends-on-history:%s" % diff_key(ds[0][0]), "%s\n%s\ndocument %r" % (ds[:3], trace, data[:1500])); return
            if events(ev) != events(ev2): w.viol("callbacks-depend-on-history", "got %s, a fresh parser %s\n%s\ndocument %r" % (str(events(ev))[:800], str(events(ev2))[:800], trace, data[:1500])); return
            w.count("callback_events", len(ev2))
            if a and err == "None": kept[a] = dump
        elif x < .70:
            p = r.choice(list(pars)); how = r.choice(["ctor", "assign", "onto"]); trace.append("move %s %s" % (p, how)); other = r.choice(EXTSETS)
            # create it first if no load happened yet: moving an unused parser must work as well
            load(w, b'{"asset":{"version":"2.0"}}', cfg=cfg, parser=p, mode="json", ext=pars[p], cbs="keep")
            if how == "onto": # the target has extensions, options and callbacks of its own, which must all go
                q = r.choice(list(pars) + ["p9"])
                if q != p: drv.call("parserto", p, q, str(other)); pars[q] = pars.pop(p); last[q] = last.pop(p); trace[-1] += " " + q
            else: drv.call("moveparser", p, how, str(other))
        elif x < .76: p = r.choice(list(pars)); trace.append("destroy " + p); drv.call("dropparser", p); last[p] = ""
        elif x < .9 and kept:
            a = r.choice(list(kept)); k = r.randrange(4); trace.append("asset op %d on %s" % (k, a))
            if k == 0:
                b = "m%d" % n; n += 1; got = scrub(json.loads(drv.call("moveasset", a, b)[0])); want = kept.pop(a); kept[b] = want
                if got != want: w.viol("move-constructed", "%s\n%s" % (diff(got, want)[:3], trace))
            elif k == 1 and len(kept) > 1:
                b = r.choice([z for z in kept if z != a]); drop = r.random() < .5; got = scrub(json.loads(drv.call(*(["moveassign", a, b] + (["drop"] if drop else [])))[0])); want = kept.pop(a); kept[b] = want
                if not drop: drv.call("drop", a)
                if got != want: w.viol("move-assigned", "%s\n%s" % (diff(got, want)[:3], trace))
            elif k == 2:
                b = "f%d" % n; n += 1; drv.call("newasset", b); got = scrub(json.loads(drv.call("moveassign", a, b, "drop")[0])); want = kept.pop(a); kept[b] = want
                if got != want: w.viol("move-assigned-over-empty", "%s\n%s" % (diff(got, want)[:3], trace))
            else: drv.call("drop", a); del kept[a]
        elif kept: recheck(r.choice(list(kept)), "later")
    for p in pars: drv.call("dropparser", p)
    for a in list(kept): recheck(a, "after-parser")
    w.seen("|".join(trace)); drv.call("dropall")
def events(evs):
    """Handles numbered in the order they appear."""
    ids = {}; out = []
    for e in evs:
        e = dict(e)
        if e.get("id"): e["id"] = ids.setdefault(e["id"], len(ids) + 1)
        out.append(e)
    return out
def other_folders(w, r):
    """Folders in which the files of the documents are missing or different."""
    a = os.path.join(w.tmp, "other"); b = os.path.join(w.tmp, "bare"); os.makedirs(a, exist_ok=True); os.makedirs(b, exist_ok=True)
    for n in os.listdir(w.tmp):
        p = os.path.join(w.tmp, n)
        if os.path.isfile(p) and r.random() < .8: write_files(a, {n: open(p, "rb").read()[::-1] + b"more"})
    return [a, b, "", os.path.join(w.tmp, "none")]
def sections(ctx): return [("history", ctx.scale(900, 20000), history)]
def run(ctx):
    ctx.rule = "one evaluation = one history of 4 to 14 operations, each load compared with a fresh parser; distinct = different histories"
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
