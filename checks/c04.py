"""C04: extensions that are not enabled."""
from vlib import pool
from vlib.common import *
from vlib import gen as G
import copy
TECHNIQUE = "sanitizer-instrumented runs over random sets of enabled, used and required extensions, compared to a reference model that ignores payloads of extensions that are off; disabled payloads are also replaced by junk"
CFGS = ("asan",)
PROGRAMS = programs(CFGS)
UNKNOWN = ["VENDOR_unknown", "KHR_texture_transform2", "khr_texture_transform", "KHR_texture_transfor", "", "KHR_", "EXT_nothing", "KHR_techniques_webgl", "KHR_texture_transform ", "\u00e9", "KHR_xmp_json_ld"]

def junk(r, d=0):
    c = r.randrange(9)
    if c < 6 or d > 2: return [5, "x", None, True, -1, 1.5][c % 6]
    if c == 6: return [junk(r, d + 1) for _ in range(r.randrange(4))]
    return {r.choice(["index", "source", "light", "visible", "variants", "mappings", "offset", "ior", "attributes", "lights", "shapes", "motion", "buffer", "type", "name"]): junk(r, d + 1) for _ in range(r.randrange(4))}
def spoil(o, r, off):
    """Replace payloads of disabled extensions by junk, or remove or add them."""
    if isinstance(o, dict):
        for k, v in o.items():
            if k == "extensions" and isinstance(v, dict):
                for e in list(v):
                    if e in off and r.random() < .6: v[e] = junk(r)
                    elif e not in off: spoil(v[e], r, off)
            elif k != "extras": spoil(v, r, off)
    elif isinstance(o, list):
        for x in o: spoil(x, r, off)

def case(w, i):
    r = w.rng
    p = r.choice([0, .2, .5, .8, 1]); on = {e for e in EXT if r.random() < p}
    g = Gen(r, size=3, required=("-",), sources=("data", "glb")); doc = g.document()
    # without its extension a missing image source is invalid, and so is a double accessor unless the option allows it
    double = r.choice([0, 1]); refused = False
    if not double and "KHR_accessor_float64" not in on and any(a["componentType"] == 5130 for a in doc.get("accessors", [])):
        refused = r.random() < .3
        if not refused: on.add("KHR_accessor_float64")
    for t in doc.get("textures", []):
        if "source" not in t: t["source"] = 0
    used = doc.get("extensionsUsed", []); 
    if r.random() < .3:
        for e in r.sample(list(EXT), 2):
            if e not in used: used.append(e)
    off = set(EXT) - on
    if r.random() < .5: spoil(doc, r, off); w.count("junk_payloads")
    req = [e for e in used if e in on and r.random() < .4]
    bad = r.random()
    if bad < .25 and off: req += r.sample(sorted(off), min(len(off), r.choice([1, 1, 2])))
    if .15 < bad < .4: req += r.sample(UNKNOWN, r.choice([1, 1, 2]))
    r.shuffle(req)
    if req:
        doc["extensionsRequired"] = req; used += [e for e in req if e not in used]
    if used: doc["extensionsUsed"] = used
    want = set()
    for e in req:
        if e not in EXT: want.add("UnknownRequiredExtension")
        elif e not in on: want.add("MissingExtensions")
    m = mask(on); data = pack(w, doc, g)
    opts = double | (OPT["DontRequireValidAssetMember"] if r.random() < .1 else 0)
    err, dump, _ = load(w, data, ext=m, opts=opts)
    w.seen("%d|%s" % (m, signature(doc))); w.count("err_" + err); w.count("disabled_payloads", sum(e in off for e in used))
    if want:
        if err not in want: w.viol("required:want-%s:got-%s" % ("+".join(sorted(want)), err), "enabled %s required %s\n%s" % (sorted(on), req, data[:3000]))
        return
    if refused:
        w.count("double_refused")
        if err == "None": w.viol("double-accepted", "%s" % data[:3000])
        return
    if err != "None": w.viol("rejected", "%s enabled %s required %s\n%s" % (err, sorted(on), req, data[:5000])); return
    compare(w, dump, Model(m, glb_bin=g.glb_bin, asset_info=not opts & 2).expect(doc), note="enabled %s\n%s" % (sorted(on), data[:3000]))
def required(w, i):
    """Every known extension, alone and at every position in the list, enabled and not."""
    r = w.rng; names = sorted(EXT); e = names[i % len(names)]
    others = r.sample([x for x in names if x != e], r.randrange(4)); pos = r.randrange(len(others) + 1)
    lst = others[:pos] + [e] + others[pos:]
    doc = {"asset": {"version": "2.0"}, "extensionsUsed": lst, "extensionsRequired": lst}
    data = serialise(doc, r)
    for m, want in ((ALL_EXT & ~EXT[e], "MissingExtensions"), (mask(lst), "None"), (ALL_EXT, "None"), (0, "MissingExtensions")):
        err, dump, _ = load(w, data, ext=m); w.seen("req|%s|%d|%s" % (e, pos, want)); w.count("required_lists")
        if err != want: w.viol("required-list:%s" % want, "required %s enabled mask %x: got %s" % (lst, m, err))
        elif want == "None" and dump["extensionsRequired"] != lst: w.viol("required-list:content", "%s reported as %s" % (lst, dump["extensionsRequired"]))
    u = r.choice(UNKNOWN); lst2 = lst[:pos] + [u] + lst[pos:]
    doc = {"asset": {"version": "2.0"}, "extensionsUsed": lst2, "extensionsRequired": lst2}
    err, dump, _ = load(w, serialise(doc, r), ext=ALL_EXT)
    if err != "UnknownRequiredExtension": w.viol("required-unknown", "%s: got %s" % (lst2, err))
def sections(ctx):
    s = ctx.scale
    return [("mask", s(1800, 30000), case), ("required", s(33 * 8, 33 * 60), required)]
def run(ctx):
    ctx.rule = "one evaluation = one document loaded with one set of enabled extensions (or one required-list tried with four sets); distinct = different (enabled set, members present)"
    ctx.assumptions = ["when several required extensions are unacceptable for different reasons either error is accepted", "double accessors and textures without source appear only where their extension is enabled"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
