"""Helpers shared by the driver-based checks."""
import json, os
from .consts import ALL_EXT, CAT, CAT_ALL, EXT, OPT, COMP_SIZE, TYPE_N, TYPE_ROWS, elem_size, MIME
from .gen import Gen, serialise, glb
from .model import Model, normalize_dump, diff, diff_key

def programs(cfgs):
    return [(c, ["fgdrv.cpp"], "fgdrv", True, (), ("-lsimdjson",)) for c in cfgs]

def load(w, data, cfg="asan", parser="", asset="", getter="bytes", mode="auto", opts=0, ext=ALL_EXT, cats=CAT_ALL, dir="", cbs=""):
    r = w.drv(cfg).call("load", parser, asset, getter, mode, opts, ext, cats, dir, cbs, data)
    return r[0], (json.loads(r[1]) if r[1] else None), (json.loads(r[2]) if r[2] else [])

def lookups(w, cfg, slot, note):
    bad, n = w.drv(cfg).call("find", slot)[:2]; w.count("lookups", int(n))
    if bad: w.viol("lookup:" + bad.split(" ")[0], "looking %r up by name\n%s" % (bad, note))

def write_files(d, files):
    for n, b in files.items():
        p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f: f.write(b)

def mask(names): return sum(EXT[n] for n in names if n in EXT)

def fix_spot(dump, doc):
    pass

def compare(w, dump, want, prefix="mismatch", note="", limit=6):
    """Report each differing member once per stable key."""
    ds = diff(normalize_dump(dump), want, limit=limit)
    for path, a, b in ds:
        w.viol("%s:%s" % (prefix, diff_key(path)), "%s: got %s want %s\n%s" % (path, str(a)[:400], str(b)[:400], note))
    return not ds

def signature(doc, *more):
    """Shape of a document: which members are present where (what makes two cases different)."""
    s = set()
    def go(o, p):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in ("extras", "unknownMember"): continue
                s.add(p + "." + k); go(v, p + "." + k)
        elif isinstance(o, list):
            for x in o: go(x, p)
    go(doc, "")
    return "|".join(sorted(s)) + "|" + "|".join(map(str, more))

def pack(w, doc, gen, style=None):
    """Serialise a generated document: JSON bytes, or a GLB if it has a binary buffer."""
    js = serialise(doc, w.rng, style)
    if gen.glb_bin is not None: return glb(js, gen.glb_bin)
    return js
