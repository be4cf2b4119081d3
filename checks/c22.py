"""C22: file export writes every byte to its own file in the target folder, and reports failure."""
import json, os, stat, urllib.parse
from vlib import pool
from vlib.common import *
from vlib.model import bytes_repr
from checks import c20, c21
TECHNIQUE = "sanitizer-instrumented file export of assets with duplicate, hostile and clashing names into scratch folders under write faults; a monitor compares the whole folder tree before and after with the written document and the asset's bytes, and reloads it"
CFGS = ("asan", "rel")
PROGRAMS = programs(CFGS)
DEPTH = 6 # folders between the target and the top of the scratch folder: no name climbs that far
EMBEDDED = ("array", "vector", "byteview")

def tree(top):
    out = {}
    for d, subs, files in os.walk(top):
        for n in subs + files:
            p = os.path.join(d, n); st = os.lstat(p); rel = os.fsencode(os.path.relpath(p, top))
            if stat.S_ISLNK(st.st_mode): out[rel] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode): out[rel] = ("dir",)
            else:
                with open(p, "rb") as f: out[rel] = ("file", f.read())
    return out
def changed(a, b): return {k for k in set(a) | set(b) if a.get(k) != b.get(k) and not (k not in a and b[k] == ("dir",))}
def names(r, top):
    """Texts an object may be called: they decide file names."""
    pool_ = ["a", "a", "b", "A", "buffer0", "buffer1", "image0", "image1", "a_1", "a_2", "scene", "out", "x y", " a", "a ", "a.bin", ".", "..", "...", ".hidden", "\u00e9", "\u2764", "%41", "100%", "a#b", "a?b", "a:b", "c:", "a&b", "a\"b", "a'b", "a|b", "a*", "~", "-", "+", "a\nb", "a\tb", "\x7f", "\x00", "a\x00b",
             "../a", "../../b", "a/b", "b/", "/", "//", "a\\b", "\\", "./a", "x/../a", "x/../../a", "../w", "a/../../..", os.path.join(top, "outside", "f"), "file:" + top + "/outside/g", "sub/a", "keep", "n" * r.choice([100, 200, 240]), "\u20ac" * 60]
    small = [r.choice(pool_) for _ in range(r.choice([1, 2, 3, 30]))]
    return lambda: "" if r.random() < .3 else r.choice(small)
def build(w, cfg, top, plain=False):
    """Fill slot a; returns a description."""
    r = w.rng; d = w.drv(cfg); name = (lambda: r.choice(["", "a", "b"])) if plain else names(r, top)
    d.call("newasset", "a"); note = []
    def data():
        n = r.choice([0, 1, 2, 3, 4, 17, 100, 300, 5000, 70000]) if r.random() < .8 else 4096
        return (r.getrandbits(8 * min(n, 64)).to_bytes(min(n, 64), "little") * (n // 64 + 1))[:n] if n else b""
    for k in range(r.choice([0, 1, 1, 2, 3, 6])):
        n, b = name(), data(); d.call("addbuffer", "a", b, n); q = r.random(); note.append(("buffer", n, len(b)))
        if q < .5: d.call("source", "a", "buffers", k, r.choice(["vector", "array", "byteview"]))
        elif q < .62: d.call("source", "a", "buffers", k, "uri", r.choice(["keep.bin", "buffer0.bin", "buffer1.bin", "a.bin", "sub/keep.bin", "./buffer2.bin", "https://example.com/a.bin"])); note[-1] += ("uri",)
    for k in range(r.choice([0, 0, 1, 2, 3, 5])):
        n, b, m = name(), data(), r.choice([0, 1, 2, 3, 4, 5, 6, 7]); d.call("addimage", "a", b, n, m); q = r.random(); note.append(("image", n, len(b), m))
        if q < .5: d.call("source", "a", "images", k, r.choice(["vector", "array", "byteview"]))
        elif q < .6: d.call("source", "a", "images", k, "uri", r.choice(["keep.png", "image0.png", "image1.jpeg", "a.png", "a.bin", "image0.bin"])); note[-1] += ("uri",)
    args = [x for k, o in zip([j for kind in ("buffer", "image") for j in range(sum(n[0] == kind for n in note))], note) if "\0" in o[1] for x in ("%ss/%d/name" % (o[0], k), o[1])]
    if args: d.call("pokestr", "a", *args)
    return note
def from_document(w, cfg, top):
    r = w.rng; g = Gen(r, size=2, sources=("data", "glb"), unknown=False); doc = g.document(); data = pack(w, doc, g); name = names(r, top)
    err, dump, _ = load(w, data, cfg=cfg, asset="a", opts=1)
    if err != "None": w.viol("setup", "%s %s" % (err, data[:4000])); return None
    args = [x for k in ("buffers", "images") for i in range(len(dump[k])) if r.random() < .6 for x in ("%s/%d/name" % (k, i), name())]
    if args: w.drv(cfg).call("pokestr", "a", *args)
    return [("document", data[:3000])]
class Place:
    """One target folder with things around it that must stay as they are."""
    def __init__(self, w, keep=True, free=True):
        r = w.rng; self.top = w.scratch(); self.binary = r.random() < .5; ext = ".glb" if self.binary else ".gltf"
        parts = ["w"] + ["d%d" % k for k in range(DEPTH)]; self.dir = os.path.join(self.top, *parts); how = r.choice(["there", "there", "there", "new", "deep"])
        made = self.dir if how == "there" else os.path.dirname(self.dir) if how == "new" else os.path.join(self.top, *parts[:3]); os.makedirs(made)
        self.name = r.choice(["scene", "scene", "out", "a", "with space", "\u00e9"]) + ext if r.random() < .93 or not free else r.choice(["a.bin", "b.bin", "buffer0.bin", "image0.png"]); self.cwd = ""
        self.target = os.path.join(self.dir, self.name); style = r.choice(["abs", "abs", "rel", "bare", "dots"])
        if style == "rel": self.cwd = made; self.target = os.path.relpath(self.target, made)
        if style == "bare" and how == "there": self.cwd = self.dir; self.target = self.name
        if style == "dots": self.target = os.path.join(self.dir, "..", os.path.basename(self.dir), self.name) if how == "there" else self.target
        if style == "rel" and how == "there" and r.random() < .5: self.target = "./" + self.name
        self.bp, self.ip = r.choice([("", ""), ("", ""), ("bin", "img"), ("x", "x"), ("x/y", "x/y/z"), ("sub", ""), (".", "./"), ("x/../q", "q")])
        write_files(self.top, {"outside/f.bin": b"OUT", "outside/f.png": b"OUT", "a.bin": b"TOP", "w/a.bin": b"UP", "w/keep": b"K"})
        p = made
        while p != self.top: write_files(p, {"a.bin": b"decoy", "b.bin": b"decoy", "w.bin": b"decoy"} if p != self.dir else {}); p = os.path.dirname(p)
        if how == "there":
            write_files(self.dir, {"keep.bin": b"keep" * 9, "keep.png": b"keep", "sub/keep.bin": b"subkeep"})
            if keep and r.random() < .5: write_files(self.dir, {n: b"stale" * 20000 for n in r.sample([self.name, "buffer0.bin", "a.bin", "image0.png", "bin/buffer0.bin", "a.png", "buffer2.bin"], 4)})
        self.opts = r.choice([0, 4]); self.how = "%s %s %s" % (how, style, self.bp)
    def write(self, w, cfg, slot="", limit=""):
        return w.drv(cfg).call("fileglb" if self.binary else "filejson", "a", self.target, self.opts, self.bp, self.ip, slot, limit, self.cwd)[0]
def verify(w, cfg, pl, before, note):
    """After a reported success: everything the asset holds is on disk, and nothing else happened. Returns the files written."""
    after = tree(pl.top); d = w.drv(cfg); dump = json.loads(d.call("dump", "a")[0]); base = os.path.relpath(pl.dir, pl.top); ch = changed(before, after); note = "%s %s\n%s" % (pl.target, pl.how, note)
    for p in sorted(ch):
        if not p.startswith(os.fsencode(base) + b"/"): w.viol("outside", "%r changed\n%s" % (p, note)); return None
    main = os.fsencode(os.path.join(base, pl.name))
    if after.get(main, ("none",))[0] not in ("file", "link"): w.viol("no-main", "%r\n%s" % (after.get(main), note)); return None
    if after[main][0] == "link": w.viol("fault-unreported", "the document went to %s\n%s" % (after[main][1], note)); return None
    raw = after[main][1]; binary = None
    try:
        if pl.binary: raw, binary = c21.container(raw)
        doc = c20.strict(raw)
    except (c20.Bad, c21.Bad) as e: w.viol("main-truncated", "%s: %r\n%s" % (e, raw[-200:], note)); return None
    mine = {main}; w.count("verified")
    for kind in ("buffers", "images"):
        for k, o in enumerate(dump[kind]):
            if o["data"]["k"] not in EMBEDDED: continue
            want = o["data"]["bytes"]; j = doc.get(kind, [])[k]
            if kind == "buffers" and k == 0 and pl.binary:
                n = o["byteLength"]; rep = c21.prefix(want, n)
                if binary is None or rep is not None and bytes_repr(binary[:n]) != rep: w.viol("embedded-bytes", "%r\n%s" % (binary and binary[:100], note))
                continue
            uri = j.get("uri")
            if uri is None: w.viol("no-uri", "%s/%d %s\n%s" % (kind, k, j, note)); continue
            p = os.path.normpath(os.path.join(os.fsencode(base), urllib.parse.unquote_to_bytes(uri))); w.count("files")
            if not p.startswith(os.fsencode(base) + b"/"): w.viol("uri-outside", "%s\n%s" % (uri, note)); continue
            if p in mine: w.viol("shared-file", "%s/%d is written to %r, as another object\n%s" % (kind, k, p, note)); continue
            mine.add(p); got = after.get(p)
            if got is None: w.viol("missing-file", "%s/%d %s\n%s" % (kind, k, uri, note)); continue
            if got[0] == "link": w.viol("fault-unreported", "%s/%d went to %s\n%s" % (kind, k, got[1], note)); continue
            if got[0] != "file" or bytes_repr(got[1]) != want: w.viol("file-bytes", "%s/%d %s: %d bytes, wanted %s\n%s" % (kind, k, uri, len(got[1]) if got[0] == "file" else -1, want[:60], note))
    for p in sorted(ch - mine): w.viol("other-file", "%r changed and belongs to no object\n%s" % (p, note))
    return mine
def reload(w, cfg, pl, note):
    dump = json.loads(w.drv(cfg).call("dump", "a")[0]); r = w.rng
    if any(b["byteLength"] == 0 or b["data"]["k"] not in EMBEDDED for b in dump["buffers"]) or any(x["data"]["k"] == "uri" or x["data"]["k"] in EMBEDDED and x["data"]["bytes"].startswith("0:") for x in dump["images"]): w.count("not_reloaded"); return
    err, back, _ = load(w, os.path.join(pl.dir, pl.name).encode(), cfg=cfg, getter="path", opts=1 | OPT["LoadExternalBuffers"] | OPT["LoadExternalImages"], dir=pl.dir); w.count("reloads")
    if err != "None": w.viol("reload:" + err, "%s\n%s" % (pl.how, note)); return
    for kind in ("buffers", "images"):
        for k, o in enumerate(dump[kind]):
            if o["data"]["k"] not in EMBEDDED: continue
            want, x = o["data"]["bytes"], back[kind][k]["data"]; n = int(want.split(":")[0])
            if x["k"] not in EMBEDDED: w.viol("reload-kind", "%s/%d is %s\n%s" % (kind, k, x["k"], note)); continue
            if kind == "buffers" and k == 0 and pl.binary: continue # padded: C21
            if x["bytes"] != want: w.viol("reload-bytes", "%s/%d %s instead of %s\n%s" % (kind, k, x["bytes"][:60], want[:60], note))
            if back[kind][k]["name"] != o["name"]: w.viol("reload-name", "%s/%d" % (kind, k))
def refusable(dump, pl):
    """Cases in which there is no file the object could go to, or nothing to write."""
    why = []
    if not pl.name.endswith((".gltf", ".glb")): why.append("takes the name of a buffer file")
    for kind in ("buffers", "images"):
        for o in dump[kind]:
            if len(o["name"]) > 230: why.append("long")
    if any(b["byteLength"] > int(b["data"]["bytes"].split(":")[0]) for b in dump["buffers"] if b["data"]["k"] in EMBEDDED): why.append("short")
    return why
def export(w, i):
    r = w.rng; cfg = CFGS[i % 4 == 3]; pl = Place(w); note = from_document(w, cfg, pl.top) if i % 4 == 1 else build(w, cfg, pl.top, plain=i % 8 == 2)
    if note is None: return
    before = tree(pl.top); slot = "f%d" % (i % 5) if r.random() < .3 else ""; err = pl.write(w, cfg, slot); w.count("exports"); w.count("result_" + err); w.seen("%s|%s" % (pl.how, note)); w.sample("%s -> %s %s" % (note[:3], pl.how, err))
    if err != "None":
        for p in changed(before, tree(pl.top)):
            if not p.startswith(os.fsencode(os.path.relpath(pl.dir, pl.top)) + b"/"): w.viol("outside", "%r changed (%s)\n%s" % (p, err, note))
        if not refusable(json.loads(w.drv(cfg).call("dump", "a")[0]), pl): w.viol("refused:" + err, "%s %s\n%s" % (pl.target, pl.how, note))
        return
    if verify(w, cfg, pl, before, note) is not None: reload(w, cfg, pl, note)
def twice(w, i):
    """Writing over an earlier export leaves the later one, whole."""
    r = w.rng; cfg = CFGS[i % 4 == 3]; pl = Place(w, keep=False, free=False); pl.opts = 0
    for k in range(2):
        note = build(w, cfg, pl.top, plain=True); before = tree(pl.top); err = pl.write(w, cfg); w.count("exports"); w.count("result_" + err)
        if err != "None": w.viol("refused:" + err, "%s %s\n%s" % (pl.target, pl.how, note)); return
        if verify(w, cfg, pl, before, note) is None: return
        reload(w, cfg, pl, note)
    w.seen("twice%s%s" % (pl.how, note))
FAULTS = ["limit", "limit", "full-main", "full-file", "dir-main", "dir-file", "parent-file", "descriptors", "parent-main", "empty-target"]
def faults(w, i):
    """A fault at one of the writes: success may only be reported if there was none for these files."""
    r = w.rng; cfg = CFGS[i % 4 == 3]; kind = FAULTS[i % len(FAULTS)]; pl = Place(w, keep=False); d = w.drv(cfg); note = build(w, cfg, pl.top, plain=r.random() < .7); note.append(kind)
    if kind in ("parent-main", "empty-target"): # there is no place for the glTF file itself
        full = os.path.join(pl.dir, "in the way") if kind == "parent-main" else ""
        if full: write_files(pl.dir, {"in the way": b"in the way"}); pl.target = os.path.join(full, *["x"] * r.choice([0, 1, 2]), pl.name); pl.cwd = ""
        else: pl.target = r.choice(["", "", ".", "..", "./", pl.dir, pl.dir + "/"]) if r.random() < .8 else os.path.join(pl.dir, "sub"); pl.cwd = pl.dir; os.makedirs(os.path.join(pl.dir, "sub"), exist_ok=True)
        before = tree(pl.top); err = pl.write(w, cfg); w.count("faults_" + kind); w.seen("fault%s|%s" % (kind, note))
        if err == "None": w.viol("fault-unreported:" + kind, "%r\n%s" % (pl.target, note))
        return
    before = tree(pl.top); err = pl.write(w, cfg)
    if err != "None": w.count("not_exportable"); return
    mine = verify(w, cfg, pl, before, note)
    if mine is None: return
    after = tree(pl.top); main = os.fsencode(os.path.join(os.path.relpath(pl.dir, pl.top), pl.name)); files = sorted(mine - {main}); limit = ""; victim = None
    for p in changed(before, after):
        full = os.path.join(os.fsencode(pl.top), p)
        if p in before: write_files(pl.top, {os.fsdecode(p): before[p][1]})
        else: os.unlink(full)
    sizes = sorted(len(after[p][1]) for p in mine); must = None
    if kind == "limit":
        limit = str(r.choice([0, 1, sizes[-1] - 1, sizes[-1], max(0, sizes[0] - 1), sizes[0], r.randrange(sizes[-1] + 1), r.choice(sizes), max(0, r.choice(sizes) - 1), 8191, 8192])); must = int(limit) < sizes[-1]
    elif kind.startswith("full") or kind.startswith("dir"):
        victim = main if kind.endswith("main") or not files else r.choice(files); full = os.path.join(os.fsencode(pl.top), victim)
        if os.path.lexists(full): os.unlink(full)
        if kind.startswith("full"): os.symlink("/dev/full", full); must = len(after[victim][1]) > 0
        else: os.mkdir(full); must = True
    elif kind == "parent-file":
        subs = {os.path.dirname(p) for p in files} - {os.path.dirname(main)}
        if not subs: w.count("no_folder"); return
        victim = r.choice(sorted(subs)); full = os.path.join(os.fsencode(pl.top), victim)
        try: os.rmdir(full)
        except OSError: w.count("no_folder"); return
        with open(full, "wb") as f: f.write(b"in the way")
        must = True
    if kind == "descriptors":
        d.call("nofile", "keep"); 
        try: err = pl.write(w, cfg)
        finally: d.call("nofile", "off")
        must = True
    else:
        before = tree(pl.top); err = pl.write(w, cfg, limit=limit)
    w.count("faults_" + kind); w.count("fault_reported" if err != "None" else "fault_survived"); w.seen("fault%s|%s|%s" % (kind, limit, note))
    if err == "None":
        if must: w.viol("fault-unreported:" + kind, "%s %s limit %s sizes %s victim %r\n%s" % (pl.target, pl.how, limit, sizes, victim, note)); return
        if victim is None: verify(w, cfg, pl, before, note)
    else:
        if must is False: w.viol("refused-within-limit:" + kind, "%s: limit %s, sizes %s\n%s" % (err, limit, sizes, note))
        for p in changed(before, tree(pl.top)):
            if not p.startswith(os.fsencode(os.path.relpath(pl.dir, pl.top)) + b"/"): w.viol("outside", "%r changed (%s)\n%s" % (p, err, note))
    # the fault gone, the same exporter and asset work
    if victim is not None:
        full = os.path.join(os.fsencode(pl.top), victim); (os.rmdir if kind.startswith("dir") else os.unlink)(full)
    before = tree(pl.top); err = pl.write(w, cfg); w.count("recovered")
    if err != "None": w.viol("not-recovered", "%s\n%s" % (err, note)); return
    for p in changed(before, tree(pl.top)):
        if p not in mine: w.viol("other-file", "%r\n%s" % (p, note))
def sections(ctx):
    s = ctx.scale
    return [("export", s(1600, 30000), export), ("twice", s(160, 3000), twice), ("faults", s(1000, 20000), faults)]
def run(ctx):
    ctx.rule = "one evaluation writes one asset to a scratch folder (with one fault in the faults section) and checks the whole tree; distinct by names, kinds, sizes, folders and fault"
    ctx.assumptions = ["the folders the caller sets for buffers and images, and the target, are the caller's choice and stay inside the target folder", "names too long for the file system may be refused", "buffers hold at least byteLength bytes", "the tree is not changed by others while exporting, and holds no symbolic links but the ones used as faults"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
