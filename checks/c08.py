"""C08: binary containers are read strictly by their lengths."""
import json, os, struct
from vlib import pool
from vlib.common import *
TECHNIQUE = "sanitizer-instrumented runs on generated and corrupted binary containers: accepted ones are compared with the model of the embedded JSON and binary chunk, corrupted ones must be rejected, through every entry point and data source"
CFGS = ("asan",)
PROGRAMS = programs(CFGS)
JSON_T, BIN_T = 0x4E4F534A, 0x004E4942
GETTERS = ["bytes", "bytes", "path", "stream", "mapped"]

def chunk(t, b, n=None): return struct.pack("<II", len(b) if n is None else n, t) + b
def container(body, version=2, magic=b"glTF", length=None): return magic + struct.pack("<II", version, 12 + len(body) if length is None else length) + body
def put(w, data, g):
    if g == "bytes": return data
    p = os.path.join(w.tmp if w.tmp and os.path.isdir(w.tmp) else w.scratch(), "f.glb")
    with open(p, "wb") as f: f.write(data)
    return p.encode()
def unknown_type(r):
    while True:
        t = r.choice([r.getrandbits(32), 0, 0xffffffff, JSON_T ^ 1, BIN_T ^ (1 << 24), 0x4E4942, JSON_T >> 8])
        if t not in (BIN_T, JSON_T): return t
def unknown(r): return chunk(unknown_type(r), r.randbytes(4 * r.choice([0, 1, 2, 7, 100, 1025])))
def pad(b, c=b"\0"): return b + c * (-len(b) % 4)

def make(w, r, binsizes=None):
    """A document whose buffer 0 is the container's, with its JSON, buffer bytes and chunk."""
    while True:
        g = Gen(r, size=2, sources=("data", "glb")); doc = g.document()
        if g.glb_bin is not None: break
    b = g.glb_bin
    # a required EXT_meshopt_compression makes buffers without data legal
    if "EXT_meshopt_compression" in doc.get("extensionsRequired", ()): del doc["extensionsRequired"]
    return g, doc, b, pad(b)   # a chunk is longer than the buffer that uses it by its padding
def wellformed(w, i):
    r = w.rng; w.tmp = None if not w.tmp else w.tmp
    if i % 8 == 0: w.scratch()
    g, doc, b, ch = make(w, r)
    if i % 5 == 4:   # no URI-less buffer / no binary chunk: only data URIs
        g = Gen(r, size=2, sources=("data",)); doc = g.document(); b = None
    elif r.random() < .25:   # sizes around the page size
        n = r.choice([1, 2, 3, 4, 5, 4093, 4095, 4096, 4097, 8192, 65536, 100001]); extra = r.randbytes(n)
        b = b + extra; doc["buffers"][0]["byteLength"] = len(b); ch = pad(b)
    js = serialise(doc, r)
    while True:
        body = chunk(JSON_T, pad(js, b" "))
        before = r.random() < .15; n1 = r.randint(0, 2) if before else 0
        for _ in range(n1): body += unknown(r)
        if b is not None: body += chunk(BIN_T, ch)
        n2 = r.choice([0, 0, 1, 2, 5])
        for _ in range(n2): body += unknown(r)
        if len(body): break
    data = container(body)
    tail = r.choice([0, 0, 0, 1, 4, 8, 40])
    if tail: data += r.randbytes(tail) if r.random() < .5 else chunk(BIN_T, b"\xEE" * 32)[:tail]
    gt = r.choice(GETTERS); mode = r.choice(["glb", "auto"])
    err, dump, _ = load(w, put(w, data, gt), getter=gt, mode=mode, opts=1)
    w.seen("%s|%d|%d|%d|%d|%s" % (gt, -1 if b is None else len(b), n1, n2, tail, mode)); w.count("containers_" + gt)
    if err != "None":
        if tail and err == "InvalidGLB": w.count("trailing-data-refused"); return   # refusing a length that is not the exact size is fine as well
        w.viol("rejected%s" % (":unknown-chunk-first" if n1 else ":unknown-chunk" if n2 else ""), "%s for getter %s mode %s, bin %s, unknown chunks %d/%d, trailing %d\n%s" % (err, gt, mode, None if b is None else len(b), n1, n2, tail, js[:2000])); return
    want = Model(ALL_EXT, glb_bin=b).expect(doc)
    compare(w, dump, want, note="%s %s chunks %d/%d trailing %d\n%s" % (gt, mode, n1, n2, tail, js[:2000].decode("utf-8", "replace")))
    if b is not None and r.random() < .5:   # the JSON on its own, with the same bytes as a data URI
        import base64, copy
        d2 = copy.deepcopy(doc); d2["buffers"][0]["uri"] = "data:application/octet-stream;base64," + base64.b64encode(b).decode()
        err, dump, _ = load(w, serialise(d2, r), opts=1)
        if err != "None": w.viol("plain-json-rejected", err); return
        compare(w, dump, Model(ALL_EXT).expect(d2), prefix="plain-json"); w.count("compared_with_plain_json")

def must_reject(w, key, data, note, wants=None, gt=None):
    r = w.rng; gt = gt or r.choice(GETTERS)
    for mode in ("glb", "auto"):
        err, dump, _ = load(w, put(w, data, gt), getter=gt, mode=mode, opts=1)
        w.count("rejected" if err != "None" else "accepted")
        if err == "None": w.viol("accepted:" + key, "%s: loaded through %s/%s, %d bytes: %r" % (note, gt, mode, len(data), data[:300]))
        elif err.startswith("open:"): w.viol("open:" + key, "%s getter %s" % (err, gt))
        elif wants and mode == "glb" and err not in wants: w.viol("error:%s" % key, "%s gives %s, want one of %s" % (note, err, wants))
    w.seen(key + "|" + gt)
def corrupt(w, i):
    r = w.rng
    if i % 8 < 2: w.scratch()
    g, doc, b, ch = make(w, r); js = pad(serialise(doc, r), b" ")
    jc, bc = chunk(JSON_T, js), chunk(BIN_T, ch); good = container(jc + bc); J, B = len(js), len(ch); L = len(good)
    k = i % 14
    if k == 0:
        m = bytearray(b"glTF"); m[r.randrange(4)] ^= 1 << r.randrange(8); m = r.choice([bytes(m), b"gltf", b"GLTF", b"FTlg", b"\0\0\0\0", b"glT\0"])
        must_reject(w, "magic", container(jc + bc, magic=m), "magic %r" % m, ("InvalidGLB",))
    elif k == 1:
        v = r.choice([0, 1, 3, 4, 0x102, 0x10002, 0x02000000, 0xffffffff, 0x7fffffff, 0xfffffffe]); must_reject(w, "version", container(jc + bc, version=v), "version %d" % v, ("UnsupportedVersion", "InvalidGLB"))
    elif k == 2:
        n = r.choice([L + 1, L + 4, L + 100, 2**31, 2**32 - 1, L + 2**16]); must_reject(w, "length-too-big", container(jc + bc, length=n), "length %d of %d" % (n, L))
    elif k == 3:
        n = r.choice([0, 1, 11, 12, 16, 19, 20, 20 + J - 4, 20 + J - 1, 20 + J, 20 + J + 4, 20 + J + 7, L - 4, L - 1, r.randrange(L)])
        # a length that cuts the binary chunk (or its header) leaves the first buffer without data
        must_reject(w, "length-too-small", container(jc + bc, length=n), "length %d of %d (json chunk %d)" % (n, L, J))
    elif k == 4:
        t = r.choice([unknown_type(r), BIN_T, JSON_T ^ (1 << r.randrange(32))]); must_reject(w, "json-type", container(chunk(t, js) + bc), "first chunk type %x" % t)
    elif k == 5:
        t = r.choice([unknown_type(r), JSON_T, BIN_T ^ (1 << r.randrange(32))]); must_reject(w, "bin-type", container(jc + chunk(t, ch)), "second chunk type %x, buffer without data" % t)
    elif k == 6:
        n = r.choice([J + B + 9, J + B + 12, 2**31, 2**32 - 1, 2**32 - 8, 2**32 - 20, L, L - 12, L - 19]); must_reject(w, "json-length-too-big", container(chunk(JSON_T, js, n) + bc), "JSON chunk length %d (%d)" % (n, J))
    elif k == 7:
        body = js.rstrip(b" \n\t\r"); n = r.choice([0, 1, 4, len(body) - 1, len(body) // 2, r.randrange(len(body))])
        must_reject(w, "json-length-too-small", container(chunk(JSON_T, js, n) + bc), "JSON chunk length %d (%d)" % (n, J))
    elif k == 8:
        n = r.choice([B + 1, B + 4, B + 3, 2**31, 2**32 - 1, 2**32 - 8]); must_reject(w, "bin-length-too-big", container(jc + chunk(BIN_T, ch, n)), "BIN chunk length %d (%d)" % (n, B))
    elif k == 9:
        n = r.choice([0, len(b) - 1, len(b) // 2, r.randrange(len(b))]); c = chunk(BIN_T, b[:n]) if r.random() < .5 else chunk(BIN_T, pad(b[:n])[:max(0, (len(b) - 1) // 4 * 4)])
        must_reject(w, "bin-shorter-than-buffer", container(jc + c), "BIN chunk of %d for a buffer of %d bytes" % (len(c) - 8, len(b)))
    elif k == 10: must_reject(w, "swapped", container(bc + jc), "BIN chunk first")
    elif k == 11: must_reject(w, "no-bin", container(jc), "no BIN chunk for a buffer without URI")
    elif k == 12:    # the file stops early
        n = r.choice([0, 1, 3, 4, 8, 11, 12, 13, 16, 19, 20, 21, 20 + J - 1, 20 + J, 20 + J + 1, 20 + J + 7, 20 + J + 8, L - 1, r.randrange(L)])
        must_reject(w, "truncated", good[:n], "first %d of %d bytes" % (n, L))
    else:            # the binary chunk exists only behind the stated end
        must_reject(w, "bin-behind-end", container(jc, length=20 + J) + bc, "BIN chunk behind the header's length")
    # a later unknown chunk that does not fit
    if k == 8: must_reject(w, "unknown-length-too-big", container(jc + bc + chunk(unknown_type(r), b"abcd", r.choice([5, 8, 100, 2**32 - 1]))), "unknown chunk longer than the file")

def truncate_all(w, i):
    """Every prefix of one container."""
    r = w.rng; g, doc, b, ch = make(w, r)
    while len(b) > 200: g, doc, b, ch = make(w, r)
    js = pad(json.dumps({"asset": {"version": "2.0"}, "buffers": [{"byteLength": len(b)}]}).encode(), b" "); good = container(chunk(JSON_T, js) + chunk(BIN_T, ch))
    err, dump, _ = load(w, good, mode="glb")
    if err != "None": w.viol("rejected", err); return
    gt = GETTERS[i % 5]
    if gt != "bytes": w.scratch()
    for n in range(len(good)):
        err, _, _ = load(w, put(w, good[:n], gt), getter=gt, mode="glb"); w.count("prefixes")
        if err == "None": w.viol("accepted:truncated", "%d of %d bytes via %s" % (n, len(good), gt))
        # with the header's length adjusted to what is there
        if n >= 12 and not (n >= len(good)):
            err, _, _ = load(w, put(w, good[:8] + struct.pack("<I", n) + good[12:n], gt), getter=gt, mode="auto")
            if err == "None": w.viol("accepted:truncated-length-adjusted", "%d of %d bytes via %s" % (n, len(good), gt))
    w.seen("prefix%d|%s" % (len(good), gt))

def filetype(w, i):
    """The reported type of any data."""
    r = w.rng
    if i % 40 < 8: w.scratch()
    k = r.randrange(6)
    if k == 0: d = r.randbytes(r.choice([0, 1, 2, 3, 4, 5, 12, 20, 100]))
    elif k == 1: d = b"glTF" + r.randbytes(r.choice([0, 1, 8, 16, 100]))
    elif k == 2: d = bytes(r.choice(b" \t\r\n") for _ in range(r.choice([0, 1, 3, 4, 5, 20, 4096]))) + r.choice([b"{", b"{}", b'{"asset":{}}'])
    elif k == 3: d = (b"glTF"[:r.randrange(4)]) + r.choice([b"", b"{", b" ", b"f", b"\0"])
    elif k == 4: d = r.choice([b" ", b"\n", b"x", b"\xef\xbb\xbf", b"[", b"{"]) + b"glTF" + r.randbytes(20)
    else: d = bytes(r.choice(b"glTF{ \n") for _ in range(r.randrange(1, 9)))
    gt = r.choice(GETTERS); x = w.drv().call("filetype", gt, put(w, d, gt))
    w.seen("%s|%r" % (gt, d[:12])); w.count("filetypes")
    if x[0].startswith("open:"): w.viol("open", "%s %s %r" % (gt, x, d[:40])); return
    t = int(x[0]); isbin = d[:4] == b"glTF"
    if (t == 1) != isbin: w.viol("filetype-binary", "%r gives %d via %s" % (d[:40], t, gt))
    s = d.lstrip(b" \t\r\n")
    if not isbin and s[:1] == b"{" and t != 0: w.viol("filetype-json", "%r gives %d via %s" % (d[:40], t, gt))
    if x[1] != "0": w.viol("filetype-position", "bytesRead %s after the query" % x[1])
def sections(ctx):
    s = ctx.scale
    return [("wellformed", s(1000, 20000), wellformed), ("corrupt", s(1400, 28000), corrupt), ("prefixes", s(16, 300), truncate_all), ("filetype", s(1600, 20000), filetype)]
def run(ctx):
    ctx.rule = "one evaluation = one container or byte string; distinct = different (source, sizes, chunk arrangement) or (corruption, source) combinations"
    ctx.assumptions = ["a container whose header states less than the data that follows may be accepted or refused; the data behind the stated length is never used", "the bytes of the binary chunk are exposed with or without their padding"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
