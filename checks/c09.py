"""C09: every data source gives the same bytes and results."""
import json, os, random
from vlib import pool
from vlib.common import *
from checks.c08 import make, pad, chunk, container, JSON_T, BIN_T
TECHNIQUE = "sanitizer-instrumented runs of the same content through memory buffers, files, streams and mappings with results compared to each other and to the file's bytes; read/reset/move programs against a byte-string oracle; open failures and descriptor counts observed at run time"
CFGS = ("asan",)
PROGRAMS = programs(CFGS)
KINDS = ["bytes", "path", "stream", "mapped"]
PAGE = 4096

def put(w, data, name="f"):
    p = os.path.join(w.tmp, name)
    with open(p, "wb") as f: f.write(data)
    return p
def content(w, r):
    """(class, bytes): valid and broken files, many of a size next to a page multiple."""
    k = r.randrange(9)
    if k == 0: return "junk", r.randbytes(r.choice([0, 1, 2, 3, 4, 5, 11, 12, 19, 20, 21, 63, 64, 100]))
    if k == 1: return "junk-text", bytes(r.choice(b'{}[]":, glTF12') for _ in range(r.choice([0, 1, 4, 8, 30, 300, PAGE, 2 * PAGE])))
    if k in (2, 3, 4):
        g = Gen(r, size=2, sources=("data",)); doc = g.document(); js = serialise(doc, r); c = "json"
        if r.random() < .6: js = js + r.choice([b" ", b"\n"]) * ((-len(js) + r.choice([0, 0, 0, 1, -1, 2, -32, -63, -64])) % PAGE)
        if k == 4: c = "json-cut"; js = js[:r.choice([len(js) - 1, len(js) // 2, len(js) // PAGE * PAGE, r.randrange(len(js))])]
        return c, js
    g, doc, b, ch = make(w, r); js = pad(serialise(doc, r), b" ")
    if r.random() < .6:
        extra = (-(12 + 8 + len(js) + 8 + len(ch)) + r.choice([0, 0, 4, -4, -64])) % PAGE
        if r.random() < .5: js += b" " * extra
        else: b += bytes(extra) ; doc["buffers"][0]["byteLength"] = len(b); js = pad(serialise(doc, r, "compact"), b" "); ch = pad(b)
    d = container(chunk(JSON_T, js) + chunk(BIN_T, ch)); c = "glb"
    if k == 7: c = "glb-cut"; d = d[:r.choice([len(d) - 1, len(d) - 4, len(d) // PAGE * PAGE, 20 + len(js), 20 + len(js) + 8, r.randrange(len(d))])]
    if k == 8: c = "glb-bits"; x = bytearray(d); x[r.randrange(20)] ^= 1 << r.randrange(8); d = bytes(x)
    return c, d
def same(w, i):
    r = w.rng; w.scratch(); c, d = content(w, r); p = put(w, d); w.seen("%s|%d" % (c, len(d) % PAGE if len(d) % PAGE in (0, 1, 4095) else len(d) // 64))
    mode = r.choice(["auto", "auto", "json", "glb"]); opts = r.choice([1, 1, 0])
    res = {}
    for kind in KINDS:
        src = d if kind == "bytes" else p.encode()
        res[kind] = load(w, src, getter=kind, mode=mode, opts=opts)[:2]; w.count("loads_" + kind)
    ref = res["bytes"]
    for kind in KINDS[1:]:
        if res[kind][0] != ref[0]: w.viol("error-differs:%s" % kind, "%s file of %d bytes, mode %s: %s from memory, %s from %s\n%r" % (c, len(d), mode, ref[0], res[kind][0], kind, d[:200]))
        elif res[kind][1] != ref[1]: w.viol("asset-differs:%s" % kind, "%s of %d bytes, mode %s" % (c, len(d), mode))
    if c in ("json", "glb") and mode == "auto" and opts and ref[0] != "None": w.viol("valid-rejected", "%s of %d bytes: %s" % (c, len(d), ref[0]))
    # the same source object again, after other uses of it
    kind = r.choice(KINDS); drv = w.drv()
    o = drv.call("getteropen", "s", kind, d if kind == "bytes" else p.encode())
    if o != ["ok"]: w.viol("open:" + kind, "%s: %d bytes" % (o, len(d))); return
    for k in range(3):
        got = load(w, b"", getter="slot:s", mode=mode, opts=opts)[:2]; w.count("reused_source_loads")
        if got != ref: w.viol("reuse-differs:%s" % kind, "load %d of the same source gives %s instead of %s (%s, %d bytes, mode %s)" % (k + 1, got[0], ref[0], c, len(d), mode)); break
        if r.random() < .5: load(w, b"", getter="slot:s", mode=r.choice(["json", "glb", "auto"]), opts=opts)   # whatever it gives
    drv.call("dropall")

def programs_(w, i):
    """Random sequences of reads, resets and moves against the file's bytes."""
    r = w.rng; w.scratch()
    n = r.choice([0, 1, 2, 3, 4, 5, 63, 64, 65, 100, 1000, PAGE - 65, PAGE - 64, PAGE - 1, PAGE, PAGE + 1, 2 * PAGE, 3 * PAGE + 7, 16 * PAGE, 100003])
    d = r.randbytes(n); kind = KINDS[i % 4]; p = put(w, d); other = put(w, r.randbytes(r.choice([0, 5, PAGE, 9000])), "g")
    prog = ["t", "b"]; want = [str(n), "0"]; pos = 0
    def hexs(b): return b.hex()
    for _ in range(r.randint(1, 25)):
        x = r.random(); left = n - pos
        if x < .35:
            k = r.choice([0, 1, 2, 3, 4, 12, left, left // 2, r.randint(0, left)]); k = min(k, left)
            prog.append("r%d" % k); want.append(hexs(d[pos:pos + k])); pos += k
        elif x < .65:
            k = min(r.choice([0, 1, 4, 20, left, left // 2, r.randint(0, left)]), left); pd = r.choice([0, 0, 1, 32, 64, 256]) if kind == "stream" else r.choice([0, 32, 64])
            prog.append("p%d,%d" % (k, pd)); want.append(hexs(d[pos:pos + k])); pos += k
        elif x < .75: prog.append("s"); want.append(""); pos = 0
        elif x < .85: prog.append("b"); want.append(str(pos))
        elif x < .88: prog.append("t"); want.append(str(n))
        elif x < .91:
            prog.append("f"); want.append("1" if d[:4] == b"glTF" else None); pos = 0
        elif kind != "stream":
            m = r.choice(["m", "m", "S", "o", "M" if kind == "mapped" else "m"]); prog.append(m); want.append(hexs(d) if m == "o" else "")
    prog += ["t", "b"]; want += [str(n), str(pos)]
    out = w.drv().call("getter", kind, d if kind == "bytes" else p, ";".join(prog), other)
    w.seen("%s|%d|%s" % (kind, n, ";".join(prog))); w.count("operations_" + kind, len(prog))
    if out[0] != "ok": w.viol("open:" + kind, "%s: %d bytes" % (out, n)); return
    for q, a, b in zip(prog, out[1:], want):
        if b is not None and a != b: w.viol("read:%s:%s" % (kind, q[0]), "operation %s of %s on %d bytes: got %s want %s" % (q, ";".join(prog)[:300], n, a[:200], b[:200])); break
    if drv_maps(w) != 0: w.viol("still-mapped:" + kind, "after %s" % ";".join(prog)[:300]); w.drv().kill()
    if len(out) - 1 != len(want): w.viol("read-results:" + kind, "%d results for %d operations" % (len(out) - 1, len(want)))

def drv_maps(w): return int(w.drv().call("maps")[0])
def failures(w, i):
    """What cannot be opened is an error, and nothing stays open."""
    r = w.rng; w.scratch(); drv = w.drv(); kind = ["path", "stream", "mapped"][i % 3]; t = w.tmp
    put(w, b"x", "file"); os.mkdir(os.path.join(t, "dir")); os.symlink("nowhere", os.path.join(t, "dangling")); os.symlink("loop", os.path.join(t, "loop"))
    cand = {"missing": "none", "directory": "dir", "dangling": "dangling", "loop": "loop", "notdir": "file/x", "missingdir": "no/such/dir", "long": "n" * 300, "empty": None, "verylong": "d/" * 3000 + "x"}
    name = list(cand)[(i // 3) % len(cand)]; p = "" if cand[name] is None else os.path.join(t, cand[name])
    before = drv.call("fds")
    for k in range(4):
        o = drv.call("getter", kind, p, "t"); w.count("failed_opens")
        if not o[0].startswith("open:"): w.viol("opened:%s:%s" % (kind, name), "%s" % o[:2]); break
        if o[0] == "open:None": w.viol("no-error:%s:%s" % (kind, name), "%s" % o)
    after = drv.call("fds")
    if after != before: w.viol("descriptor-leak:%s:%s" % (kind, name), "%s descriptors before, %s after" % (before, after))
    # success leaves none open either
    good = put(w, r.randbytes(r.choice([0, 1, 100, PAGE])), "good")
    for k in range(3): drv.call("getter", kind, good, "t;p0,0;s"); drv.call("getter", kind, good, "m;t" if kind != "stream" else "t")
    load(w, good.encode(), getter=kind)
    if drv.call("fds") != before: w.viol("descriptor-leak:%s:success" % kind, "%s before" % before)
    # no descriptor left in the process
    drv.call("nofile", "0")
    try: o = drv.call("getter", kind, good, "t")
    finally: drv.call("nofile", "off")
    if not o[0].startswith("open:") : w.viol("opened:%s:no-descriptor" % kind, "%s" % o[:2])
    o = drv.call("getter", kind, good, "t")
    if o[0] != "ok": w.viol("open:%s:after-failure" % kind, "%s" % o)
    w.seen("%s|%s" % (kind, name))
def short(w, i):
    """A file that yields less than its size is not exposed with made-up bytes."""
    p = "/sys/devices/system/cpu/online"
    if not os.path.exists(p) or os.stat(p).st_size != 4096: w.count("short_file_unavailable"); return
    kind = ["path", "mapped"][i % 2]; o = w.drv().call("getter", kind, p, "t;p4096,32" if kind == "path" else "t")
    w.seen("short|" + kind); w.count("short_files")
    with open(p, "rb") as f: real = f.read()
    if o[0] == "ok" and (o[1] != str(len(real)) or kind == "path" and bytes.fromhex(o[2]) != real): w.viol("short-file-exposed:" + kind, "%s" % [x[:60] for x in o])
def sections(ctx):
    s = ctx.scale
    return [("same", s(750, 20000), same), ("programs", s(2400, 60000), programs_), ("failures", s(135, 1000), failures), ("short", s(2, 2), short)]
def run(ctx):
    ctx.rule = "one evaluation = one file content loaded through all sources, one read program, or one open failure; distinct = different (content class, size) / programs / (source, failure) combinations"
    ctx.assumptions = ["reads are within the size of the source, which is what the parser does", "files are not changed while they are mapped"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
