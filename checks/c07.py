"""C07: bytes reach the user unmodified, or loading fails."""
import base64, json, os, urllib.parse
from vlib import pool
from vlib.common import *
from vlib.model import bytes_repr, latin
from vlib.gen import str_text
TECHNIQUE = "sanitizer-instrumented runs of documents whose buffers and images come from data URIs, files and the binary chunk, with hostile names, lengths and injected faults (missing, short, undecodable, no descriptors); the exposed bytes are compared with the source bytes"
CFGS = ("asan",)
PROGRAMS = programs(CFGS)
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
NAMES = ["plain", "with space", "ümläut", "名前", "a%41", "%41", "%2541", "100%", "q?m", "h#t", "semi;colon", "p+q", "eq=", "am&p", "co,mma", "at@", "ex!", "par(en)", "quo'te", "dq\"", "sub/file", "sub dir/deep er/file", "back\\slash", "tilde~", "[br]", "{cu}", "star*", "dollar$", "data", "col:on", "\x7fdel", "😀", "..x", ".hidden", "x" * 180]
SIZES = list(range(0, 70)) + [95, 96, 97, 127, 128, 129, 191, 192, 193, 200, 255, 256, 257, 511, 1000, 4093, 4095, 4096, 4097, 20000]
MIMES = ["application/octet-stream", "application/gltf-buffer", "image/png", "image/jpeg", "image/webp", "image/ktx2", "image/vnd-ms.dds", "text/plain", "image/bmp", "", "image/PNG", "image/pngx"]

class Case:
    def __init__(self, w):
        self.w = w; self.r = w.rng; self.dir = os.path.join(w.scratch(), "in"); os.mkdir(self.dir); self.files = {}; self.bad = None; self.glb = None; self.no = 0
    def write(self, name, b):
        p = os.path.join(self.dir, name); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f: f.write(b)
    def name(self):
        self.no += 1; n = self.r.choice(NAMES); return (n + str(self.no)) if self.r.random() < .7 else (str(self.no) + n)
    def quote(self, n):
        r = self.r; safe = r.choice(["/", "/!$&'()*+,;=@", "/~"])
        if ":" in n.split("/")[0] and ":" in safe: safe = "/"
        q = urllib.parse.quote(n, safe=safe)
        if r.random() < .3:      # escaping more than necessary, in either case, changes nothing
            q = "".join((("%%%02x" if r.random() < .5 else "%%%02X") % ord(c)) if c.isalnum() and q[max(0, k - 2):k].find("%") < 0 and r.random() < .3 else c for k, c in enumerate(q))
        return q
    def file(self, b, image):
        """URI of a fresh file holding b."""
        r = self.r; n = self.name(); k = r.randrange(8)
        if k == 0: up = "../up%d" % self.no; self.write(up, b); return self.quote(up), urllib.parse.unquote(self.quote(up))
        if k == 1: self.write("a/" + n, b); u = "./a/" + self.quote(n); return u, "./a/" + n
        if k == 2 and "?" not in n: self.write(n, b); u = self.quote(n); return u + r.choice(["?v=1", "#frag", "?q=%41#f"]), n
        if k == 3: self.write(n, b); u = "file://" + self.quote(os.path.join(self.dir, n)); return u, os.path.join(self.dir, n)
        self.write(n, b)
        d = urllib.parse.unquote(n)
        if d != n and "\0" not in d: self.write(d, r.randbytes(len(b)))     # what decoding twice would find
        return self.quote(n), n
    def source(self, image, first, load, fault):
        """(object members, expected data or None when loading must fail)"""
        r = self.r; n = r.choice(SIZES); b = r.randbytes(n); o = {}; want = None; mime = None
        declared = n if image else r.choice([n, n, n, max(0, n - r.randint(1, 3)), r.randint(0, n)])
        kind = r.choice(["data", "file", "file", "data", "remote"] + (["glb"] * 3 if first and not image and self.glbok else []))
        f = None
        if fault: f = r.choice({"data": ["short", "char", "len", "nocomma", "nobase64", "char"], "file": ["missing", "short", "dir", "dangling", "nofd", "notdir", "sys"], "glb": ["short"], "remote": ["invalid"]}[kind])
        if f == "short" and image: f = "char" if kind == "data" else "missing"
        if f in ("short",) : declared = n + r.choice([1, 2, 3, 4, 100, 2**32, 2**40])
        if kind == "glb":
            b = b or b"\1"; n = len(b); declared = max(declared, 1); self.glb = b; pad = b + b"\0" * (-n % 4)
            if f: declared = len(pad) + r.choice([1, 2, 100, 2**32])
            elif declared > n: declared = n
            want = {"k": "*", "bytes": "glb"}
        elif kind == "data":
            m = r.choice(MIMES); par = r.choice(["", "", ";charset=utf-8", ";a=b;c=d"]) if m else ""
            t = base64.b64encode(b).decode()
            if f == "char":
                if not t.rstrip("="): t = "QUJD"; n = 3
                k = r.randrange(len(t.rstrip("="))); t = t[:k] + r.choice(["!", "-", "_", " ", "%", "=", "\n", "\u00e9", "\x7f", ".", "@", "`", "[", "{", ":", "*", ","]) + t[k + 1:]
                if t.isascii() and self.decodes(t, 0): t = "Q!Q="     # a "=" at the end may well be padding
                if len(t.encode()) % 4 == 0 and not image: declared = min(declared, 1)
            elif f == "len": t = t.rstrip("=") ; t = t + "A" * ((1 - len(t)) % 4 or 4) if r.random() < .5 else (t + "QUI" if len(t) % 4 == 0 else t); 
            o["uri"] = "data:" + m + par + ";base64," + t
            if f == "len" and len(t) % 4 == 0: f = None if self.decodes(t, declared) else f
            if f == "nocomma": o["uri"] = "data:" + m + par + ";base64" + t.replace("/", "+")
            if f == "nobase64": o["uri"] = "data:" + m + par + r.choice([",", ";base63,", ";BASE64x,", ";base64x,"]) + (t or "QUJD")
            want = {"k": "array", "bytes": bytes_repr(b), "mime": MIME.get(m, "None")}
        elif kind == "file":
            u, p = self.file(b, image); real = p if p.startswith("/") else os.path.join(self.dir, p); o["uri"] = u
            if f == "missing": os.unlink(real)
            elif f == "dir": os.unlink(real); os.mkdir(real)
            elif f == "dangling": os.unlink(real); os.symlink("nowhere", real)
            elif f == "notdir": o["uri"] = u.split("?")[0].split("#")[0] + "/x"; p = p + "/x"
            elif f == "sys":
                s = "/sys/devices/system/cpu/online"
                if os.path.exists(s) and os.stat(s).st_size == 4096: os.unlink(real); os.symlink(s, real); declared = r.choice([4096, 4000, 1000])
                else: f = None
            elif f == "nofd": self.nofd = load
            if load: want = {"k": "array", "bytes": bytes_repr(b), "mime": "None"}
            else: want = {"k": "uri", "offset": 0, "path": latin(p), "valid": True, "local": True, "mime": "None"}; f = None
        else:
            u = r.choice(["https://example.org/a%20b.bin", "http://h:80/x", "ftp://u@h/p?q#f", "https://example.org/", "s3:bucket/key", "file://host/p.bin"])
            if f == "invalid": u = r.choice(["http://[::1/x", "http://h:port/x", "http://h:999999/x"]); f = None; want = None; o["uri"] = u; declared = n; self.maybe = True
            else: o["uri"] = u; want = {"k": "uri", "offset": 0, "path": latin(urllib.parse.unquote(urllib.parse.urlsplit(u).path)), "valid": True, "local": False, "mime": "None"}
        if image:
            if r.random() < .4: m = r.choice(MIMES); o["mimeType"] = m; want and want.__setitem__("mime", MIME.get(m, "None"))
        else: o["byteLength"] = declared
        if f: self.bad = "%s-%s-%s" % ("image" if image else "buffer", kind, f)
        self.w.count("source_%s%s" % (kind, "" if not f else "_" + f))
        return o, want
    def decodes(self, t, declared):
        try: return len(base64.b64decode(t, validate=True)) >= declared
        except Exception: return False

def case(w, i):
    r = w.rng; c = Case(w); c.glbok = r.random() < .4; c.nofd = c.maybe = False
    lb, li = r.random() < .7, r.random() < .7; nb, ni = r.choice([0, 1, 1, 2, 3]), r.choice([0, 0, 1, 2, 3])
    if nb + ni == 0: nb = 1
    fault = r.randrange(nb + ni) if r.random() < .4 else -1
    doc = {"asset": {"version": "2.0"}}; wb, wi = [], []
    for k in range(nb): o, x = c.source(False, k == 0, lb, k == fault); doc.setdefault("buffers", []).append(o); wb.append(x)
    for k in range(ni): o, x = c.source(True, False, li, nb + k == fault); doc.setdefault("images", []).append(o); wi.append(x)
    js = serialise(doc, r); data = glb(js, c.glb) if c.glb is not None else js
    getter = "bytes"
    if not c.nofd:
        getter = r.choice(["bytes", "bytes", "path", "stream", "mapped"])
        if getter != "bytes":
            p = os.path.join(w.tmp, "doc"); 
            with open(p, "wb") as f: f.write(data)
            src = p.encode()
    if getter == "bytes": src = data
    d = c.dir; d = r.choice([d, d, d + "/", d[1:], os.path.join(w.tmp, "in", ".", "..", "in")])     # the driver runs in /
    opts = (OPT["LoadExternalBuffers"] if lb else 0) | (OPT["LoadExternalImages"] if li else 0)
    if c.nofd: w.drv().call("nofile", "0")
    try: err, dump, _ = load(w, src, getter=getter, opts=opts, dir=d)
    finally:
        if c.nofd: w.drv().call("nofile", "off")
    w.seen("%s|%d%d|%s|%s" % (c.bad, lb, li, getter, [(len(x.get("uri", ""))) for k in ("buffers", "images") for x in doc.get(k, [])]))
    note = "options %x, directory %s, getter %s, fault %s\n%s\nfiles %s" % (opts, d, getter, c.bad, js[:2500].decode("utf-8", "replace"), sorted(os.listdir(c.dir))[:20])
    if c.bad:
        w.count("faults"); 
        if err == "None": w.viol("accepted:" + c.bad, "loaded although the bytes cannot be supplied\n" + note)
        return
    if c.maybe and err != "None": return
    if err != "None": w.viol("rejected", "%s\n%s" % (err, note)); return
    for what, want in (("buffers", wb), ("images", wi)):
        got = dump.get(what, [])
        if len(got) != len(want): w.viol("count:" + what, note); continue
        for k, (g, x) in enumerate(zip(got, want)):
            g = g["data"]; g.pop("uri", None)
            if x is None: continue
            if x.get("bytes") == "glb":
                if g.get("bytes") not in (bytes_repr(c.glb), bytes_repr(c.glb + b"\0" * (-len(c.glb) % 4))): w.viol("glb-bytes", "got %s want %s\n%s" % (g, bytes_repr(c.glb), note))
                continue
            if g != x: w.viol("%s:%s" % (what, "bytes" if g.get("bytes") != x.get("bytes") else "+".join(z for z in x if g.get(z) != x[z]) or "members"), "%s[%d]: got %s\nwant %s\n%s" % (what, k, str(g)[:600], str(x)[:600], note))
            elif "bytes" in x: w.count("bytes_compared", int(x["bytes"].split(":")[0]))

def generated(w, i):
    """Generated documents with files: everything else stays as stated while the sources are loaded."""
    r = w.rng; g = Gen(r, size=3, sources=("file", "data", "glb")); doc = g.document(); w.scratch(); write_files(w.tmp, g.files)
    lb, li = r.random() < .7, r.random() < .7
    err, dump, _ = load(w, pack(w, doc, g), opts=1 | (16 if lb else 0) | (128 if li else 0), dir=w.tmp)
    w.seen(signature(doc, lb, li))
    if err != "None": w.viol("generated-rejected", err + json.dumps(doc)[:2000]); return
    compare(w, dump, Model(ALL_EXT, g.files, g.glb_bin, lb, li).expect(doc), prefix="generated")
def large(w, i):
    """Sizes beyond a page, a pipe and 2^16, with every byte value."""
    r = w.rng; w.scratch(); n = r.choice([65535, 65536, 65537, 200000]) + r.randrange(3); b = r.randbytes(n)
    with open(os.path.join(w.tmp, "big.bin"), "wb") as f: f.write(b)
    doc = {"asset": {"version": "2.0"}, "buffers": [{"byteLength": n}, {"byteLength": n, "uri": "big.bin"}, {"byteLength": n, "uri": "data:application/octet-stream;base64," + base64.b64encode(b).decode()}], "images": [{"uri": "big.bin"}]}
    err, dump, _ = load(w, glb(json.dumps(doc).encode(), b), opts=16 | 128, dir=w.tmp); w.seen("large%d" % n)
    if err != "None": w.viol("large-rejected", err); return
    want = bytes_repr(b)
    for k in range(3):
        got = dump["buffers"][k]["data"]["bytes"]
        if got != want and not (k == 0 and got == bytes_repr(b + b"\0" * (-n % 4))): w.viol("large-bytes:%d" % k, "%d bytes: got %s" % (n, got))
    if dump["images"][0]["data"]["bytes"] != want: w.viol("large-bytes:image", "")
def nodir(w, i):
    """External buffers cannot be loaded from a directory that does not exist."""
    r = w.rng; w.scratch(); d = r.choice([w.tmp + "/none", "", "\0"[:0], w.tmp + "/f"]); open(os.path.join(w.tmp, "f"), "wb").write(b"abcd")
    doc = {"asset": {"version": "2.0"}, "buffers": [{"byteLength": 4, "uri": r.choice(["b.bin", "zzz/none.bin"])}]}
    err, dump, _ = load(w, json.dumps(doc).encode(), opts=16, dir=d); w.seen("nodir" + d[-5:])
    if err == "None": w.viol("accepted:no-directory", "directory %r: %s" % (d, dump["buffers"]))
    err, dump, _ = load(w, json.dumps(doc).encode(), opts=0, dir=d)
    if err != "None" or dump["buffers"][0]["data"]["k"] != "uri": w.viol("not-left-alone", "%s" % err)
def sections(ctx):
    s = ctx.scale
    return [("sources", s(6000, 120000), case), ("generated", s(600, 5000), generated), ("large", s(8, 200), large), ("nodir", s(40, 200), nodir)]
def run(ctx):
    ctx.rule = "one evaluation = one document with up to six sources; distinct = different (fault, options, data source, URI lengths)"
    ctx.assumptions = ["the bytes of the binary chunk are exposed with or without their padding", "a URI with an unusable authority may be refused or left to the user"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
