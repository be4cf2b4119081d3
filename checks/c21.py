"""C21: exported binary containers are well-formed and carry the buffer bytes."""
import json, struct
from vlib import pool
from vlib.common import *
from vlib import gen as G
from vlib.model import bytes_repr
from checks import c20
TECHNIQUE = "sanitizer-instrumented binary export of generated assets and of every source kind and length of the first buffer; an independent container reader checks header, chunks, padding and bytes, and a reload is compared field by field"
CFGS = ("asan", "rel")
PROGRAMS = programs(CFGS)

class Bad(Exception): pass
def container(b):
    """(JSON text, binary chunk or None) of a well-formed container; independent of the library."""
    if len(b) < 12: raise Bad("short-header")
    magic, version, length = struct.unpack("<4sII", b[:12])
    if magic != b"glTF": raise Bad("magic")
    if version != 2: raise Bad("version")
    if length != len(b): raise Bad("total-length: %d of %d" % (length, len(b)))
    chunks = []; o = 12
    while o < len(b):
        if o + 8 > len(b): raise Bad("short-chunk-header")
        n, t = struct.unpack("<I4s", b[o:o + 8])
        if n % 4: raise Bad("chunk-alignment: %d" % n)
        if o + 8 + n > len(b): raise Bad("chunk-length: %d at %d of %d" % (n, o, len(b)))
        chunks.append((t, b[o + 8:o + 8 + n])); o += 8 + n
    if not chunks or chunks[0][0] != b"JSON": raise Bad("first-chunk")
    if len(chunks) > 2 or len(chunks) == 2 and chunks[1][0] != b"BIN\0": raise Bad("chunks: %s" % [c[0] for c in chunks])
    js = chunks[0][1]; text = js.rstrip(b" ")
    if len(js) - len(text) > 3: raise Bad("json-padding")
    return text, chunks[1][1] if len(chunks) == 2 else None
def prefix(rep, n):
    """What the dump of the first n bytes must read; None if the dump does not tell."""
    total = int(rep.split(":")[0])
    if n == total: return rep
    if n > total or total > 256: return None
    return bytes_repr(bytes.fromhex(rep.split(":")[2])[:n])
def check(w, cfg, slot, note, reload=True, opts=None):
    r = w.rng; d = w.drv(cfg); dump = json.loads(d.call("dump", slot)[0]); extras = r.random() < .3; kinds = [b["data"]["k"] for b in dump["buffers"]]
    raw = d.call_raw("exportglb", slot, r.choice([0, 0, 4]), "", "", "", "1" if extras else "")
    err, out = raw[0].decode(), raw[1]; w.count("exports"); w.count("bytes", len(out))
    first = rep = None
    if kinds and kinds[0] in ("array", "vector", "byteview"): first = dump["buffers"][0]["byteLength"]; rep = prefix(dump["buffers"][0]["data"]["bytes"], first)
    impossible = [k for k in kinds if k in ("custom", "monostate", "bufferview")] or [k["data"]["k"] for k in dump["images"] if k["data"]["k"] in ("custom", "monostate", "fallback")]
    if first is not None and (first > int(dump["buffers"][0]["data"]["bytes"].split(":")[0]) or first >= (1 << 32) - 1): impossible = ["short"]
    if impossible:
        w.count("impossible_" + impossible[0])
        if err == "None": w.viol("accepted:" + impossible[0], "%s %r\n%s" % (dump["buffers"][:1], out[:300], note))
        return None
    if err != "None": w.viol("refused:" + err, "%s" % note); return None
    try: text, binary = container(out)
    except Bad as e: w.viol("container:" + str(e).split(":")[0], "%s\n%r\n%s" % (e, out[:400], note)); return None
    w.count("json_padding_%d" % (-len(text) % 4)); w.count("container")
    if b"\n" in text or b"\t" in text: w.count("json_pretty")
    doc = c20.well_formed(w, text, extras, note)
    if doc is None: return None
    if (binary is None) != (first is None): w.viol("chunk-presence", "binary chunk %s, embedded bytes %s\n%s" % (binary is not None, first, note)); return None
    if first is not None:
        w.count("binary_padding_%d" % (-first % 4))
        if len(binary) != (first + 3) // 4 * 4: w.viol("chunk-size", "%d for %d bytes\n%s" % (len(binary), first, note)); return None
        if rep is not None and bytes_repr(binary[:first]) != rep: w.viol("chunk-bytes", "%r instead of %s\n%s" % (binary[:200], rep, note))
        if binary[first:].strip(b"\0"): w.viol("chunk-padding", "%r\n%s" % (binary[first:], note))
        b = doc["buffers"][0]
        if "uri" in b: w.viol("buffer-uri", "%s" % b)
        if b["byteLength"] != first: w.viol("buffer-length", "%s for %d bytes" % (b, first))
    paths = json.loads(raw[2])
    if first is not None and paths["buffers"] and paths["buffers"][0] is not None: w.viol("buffer-path", "%s" % paths)
    if not reload or any(b["byteLength"] == 0 for b in dump["buffers"]): return out
    for mode in ("auto", "glb"):
        err, back, _ = load(w, out, cfg=cfg, opts=1, mode=mode)
        if err != "None": w.viol("reload:" + err, "%s %r\n%s" % (mode, text[:3000], note)); return None
        want = c20.expected(dump, paths); g = c20.got(back)
        if "asset" not in want: want["asset"] = back.get("asset")
        want["categories"] = back["categories"]
        if first is not None:
            x = g["buffers"][0]["data"]
            if x.get("k") not in ("array", "byteview", "vector") or x["bytes"] not in (bytes_repr(binary[:first]), bytes_repr(binary)): w.viol("reload-bytes", "%s for %s" % (x, rep))
            want["buffers"][0]["data"] = g["buffers"][0]["data"] = {"k": "same"}
        for p, a, b in diff(normalize_dump(c20.zero(g)), normalize_dump(c20.zero(c20.strip(want))), limit=6): w.viol("roundtrip:" + diff_key(p), "%s: reloaded %s exported %s\n%r" % (p, str(a)[:300], str(b)[:300], text[:5000]))
    return out
def generated(w, i):
    r = w.rng; g = Gen(r, size=3, sources=r.choice([("glb",), ("data", "glb"), ("data",), ("file", "data")]), unknown=False); doc = g.document(); cfg = CFGS[i % 4 == 3]; data = pack(w, doc, g)
    err, dump, _ = load(w, data, cfg=cfg, asset="a", opts=1)
    if err != "None": w.viol("setup", "%s %s" % (err, data[:4000])); return
    if r.random() < .3: c20.alter(w, "a", dump, True, cfg)
    d = w.drv(cfg)
    for k, b in enumerate(dump["buffers"]):
        if r.random() < .4 and b["data"]["k"] in ("array", "vector", "byteview"): d.call("source", "a", "buffers", k, r.choice(["array", "vector", "byteview"]))
        if r.random() < .03: d.call("source", "a", "buffers", k, r.choice(["custom", "monostate"]))
    out = check(w, cfg, "a", data[:4000]); w.seen(signature(doc)); w.sample(repr(out[:120]) if out else "refused")
KINDS = ["vector", "array", "byteview", "uri", "fallback", "custom", "monostate"]
LENS = 72
def sources(w, i):
    """Every source kind with every small length, alone or with more behind it."""
    r = w.rng; kind = KINDS[i % len(KINDS)]; n = (i // len(KINDS)) % LENS; cfg = CFGS[i // len(KINDS) // LENS % 2]; d = w.drv(cfg); d.call("newasset", "a")
    content = bytes(r.choice([0, 32, 255, r.getrandbits(8)]) for _ in range(n))
    d.call("addbuffer", "a", content, r.choice(["", "n"]))
    if kind == "uri": d.call("source", "a", "buffers", 0, "uri", r.choice(["x.bin", "d/e.bin", "./y"]))
    else: d.call("source", "a", "buffers", 0, kind, content)
    for _ in range(r.choice([0, 0, 1, 2])): d.call("addbuffer", "a", bytes(r.getrandbits(8) for _ in range(r.randrange(0, 9))), "")
    for _ in range(r.choice([0, 0, 1])): d.call("addimage", "a", b"\x01\x02", r.choice(["", "im"]), r.choice([1, 2]))
    check(w, cfg, "a", "%s of %d bytes" % (kind, n), reload=kind != "fallback"); w.seen("src%s%d" % (kind, n)); w.count("kind_" + kind)
def padding(w, i):
    """Every length of the JSON and of the bytes modulo four."""
    r = w.rng; d = w.drv(CFGS[i % 2]); d.call("newasset", "a"); n = r.randrange(1, 40)
    d.call("addbuffer", "a", bytes(r.getrandbits(8) for _ in range(n)), "n" * (i // 2 % 16))
    check(w, CFGS[i % 2], "a", "name of %d, %d bytes" % (i // 2 % 16, n)); w.seen("pad%d|%d" % (i // 2 % 16, n))
def lengths(w, i):
    """byteLength against the bytes there are."""
    r = w.rng; d = w.drv(); d.call("newasset", "a"); n = r.choice([0, 1, 3, 4, 16, 33, 200]); kind = r.choice(KINDS[:3]); content = bytes(r.getrandbits(8) for _ in range(n))
    d.call("addbuffer", "a", content, ""); d.call("source", "a", "buffers", 0, kind, content)
    b = r.choice([max(0, n - 1), r.randrange(0, n + 1), n, n + 1, n + 3, n + 4, 4096, 1 << 20, (1 << 32) - 4, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 32) + n, (1 << 33), 1 << 63, (1 << 64) - 1])
    d.call("poke", "a", "buffers/0/byteLength", str(b))
    check(w, "asan", "a", "%s of %d bytes, byteLength %d" % (kind, n, b), reload=b < 1 << 20); w.seen("len%s|%d|%d" % (kind, n, b)); w.count("length_" + ("short" if b > n else "all" if b == n else "prefix"))
def big(w, i):
    """Chunks beyond a megabyte, checked byte for byte by digest."""
    r = w.rng; d = w.drv("rel"); d.call("newasset", "a"); n = r.choice([65535, 65536, 65537, 1 << 20, (1 << 20) + 3]); content = r.getrandbits(64).to_bytes(8, "little") * (n // 8 + 1); content = content[:n]
    d.call("addbuffer", "a", content, ""); d.call("source", "a", "buffers", 0, r.choice(KINDS[:3]), content); raw = d.call_raw("exportglb", "a", 0, "", "", "", "")
    if raw[0] != b"None": w.viol("refused:big", raw[0].decode()); return
    try: text, binary = container(raw[1])
    except Bad as e: w.viol("container:" + str(e).split(":")[0], "%d bytes" % n); return
    if binary is None or binary[:n] != content or len(binary) != (n + 3) // 4 * 4: w.viol("chunk-bytes", "%d bytes" % n)
    w.count("exports"); w.count("bytes", len(raw[1])); w.seen("big%d" % n)
def sections(ctx):
    s = ctx.scale; n = len(KINDS) * LENS
    return [("generated", s(900, 20000), generated), ("sources", s(n, 6 * n), sources), ("padding", s(64, 640), padding), ("lengths", s(300, 6000), lengths), ("big", s(8, 60), big)]
def run(ctx):
    ctx.rule = "one evaluation exports one asset as a binary container, checks the container and reloads it twice; distinct by members present, or source kind and length"
    ctx.assumptions = ["a buffer whose bytes are in memory holds at least byteLength of them, otherwise the export must be refused", "a buffer of no bytes, or a fallback buffer without the extension being required, is not valid glTF: its container is checked but not loaded again", "file names of other buffers and of images are C22"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
