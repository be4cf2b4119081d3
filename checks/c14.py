"""C14 URIs: RFC 3986 splitting, decode-once, value semantics of URI / URIView."""
import json, string
from vlib import pool
TECHNIQUE = "sanitizer runs of URI operation sequences, checked step by step against an RFC 3986 component model"
CFGS = ("asan",)
PROGRAMS = [(c, ["fgdrv.cpp"], "fgdrv", True, (), ("-lsimdjson",)) for c in CFGS]
UNRES = string.ascii_letters + string.digits + "-._~"
SUB = "!$&'()*+,;="
COMP = ("scheme", "userinfo", "host", "port", "path", "query", "fragment")
HEX = "0123456789abcdefABCDEF"

def pct(r, must=""):
    b = r.choice([0x25, 0x23, 0x3f, 0x2f, 0x3a, 0x40, 0x20, 0x5b, 0x5d, 0x41, 0x7f, 0xc3, 0xff, 0x2e, 0x34, r.randrange(1, 256)])
    return "%%%02X" % b if r.random() < .7 else "%%%02x" % b
def chars(r, n, extra, p=0.12):
    o = []
    for _ in range(n):
        x = r.random()
        if x < p: o.append(pct(r))
        elif x < p + .06: o.append(r.choice(["é", "猫", "ß", "\U0001f600"]))   # IRIs are accepted by glTF
        elif x < .5 + p: o.append(r.choice(UNRES))
        else: o.append(r.choice(UNRES + SUB + extra))
    return "".join(o)
def ln(r): return r.choice([0, 0, 1, 2, 5, 12, 30, 60])

def gen(r):
    """A syntactically valid, non-empty URI reference with its components (raw)."""
    c = dict.fromkeys(COMP, "")
    while True:
        s = ""
        has_scheme = r.random() < .5
        if has_scheme:
            c["scheme"] = r.choice(["http", "https", "file", "ldap", "a", "x+y-z.1", "urn", "mailto", "data"]); s += c["scheme"] + ":"
        else: c["scheme"] = ""
        c["userinfo"] = c["host"] = c["port"] = ""
        auth = r.random() < .45 and c["scheme"] != "data"
        c["brackets"] = False
        if auth:
            s += "//"
            if r.random() < .4: c["userinfo"] = chars(r, ln(r), ":"); s += c["userinfo"] + "@"
            x = r.random()
            if x < .25: c["host"] = r.choice(["2001:db8::7", "::1", "::", "fe80::1%25en0", "v1.a:b"]); s += "[" + c["host"] + "]"
            elif x < .85: c["host"] = chars(r, max(1, ln(r)), ""); s += c["host"]
            else: c["host"] = ""
            if r.random() < .4: c["port"] = r.choice(["", "1", "80", "65535"]); s += ":" + c["port"]
        # path
        nseg = r.choice([0, 0, 1, 1, 2, 4])
        if auth: p = "".join("/" + chars(r, ln(r), ":@") for _ in range(nseg))
        else:
            absolute = r.random() < .4
            segs = [chars(r, ln(r), ":@") for _ in range(nseg)]
            if absolute and nseg:
                if segs[0] == "" and nseg > 1: segs[0] = "x"
                p = "/" + "/".join(segs)
                if p.startswith("//"): p = "/x"
            else:
                if segs:
                    if segs[0] == "": segs[0] = "q"
                    if not has_scheme: segs[0] = segs[0].replace(":", "_")
                p = "/".join(segs)
        c["path"] = p; s += p
        c["query"] = c["fragment"] = ""
        if c["scheme"] != "data":
            if r.random() < .35: c["query"] = chars(r, ln(r), ":@/?"); s += "?" + c["query"]
            if r.random() < .35: c["fragment"] = chars(r, ln(r), ":@/?"); s += "#" + c["fragment"]
        if s: return s, c
def dec(b):
    o = bytearray(); i = 0
    hx = b"0123456789abcdefABCDEF"
    while i < len(b):
        if b[i] == 37 and i + 2 < len(b) and b[i+1] in hx and b[i+2] in hx: o.append(int(b[i+1:i+3], 16)); i += 3
        else: o.append(b[i]); i += 1
    return bytes(o)
def U(s): return s.encode("utf-8")
def expect(s, c, decode):
    f = dec if decode else (lambda b: b)
    e = {k: f(U(c[k])) for k in COMP}; e["string"] = f(U(s)); e["valid"] = True
    e["data"] = c["scheme"] == "data"
    if c["scheme"] or not c["host"]: e["local"] = c["scheme"] == "" or (c["scheme"] == "file" and c["host"] == "")
    return e
def got(j):
    d = json.loads(j)
    return {k: (v.encode("latin-1") if isinstance(v, str) else v) for k, v in d.items()}
def cmp(w, key, j, e):
    g = got(j); ok = True
    for k, v in e.items():
        if g[k] != v: w.viol("%s/%s" % (key, k), "component %s: got %r want %r (of %r)" % (k, g[k], v, e.get("string"))); ok = False
    if e.get("local") and g["fspath"] != e["path"] and b"\0" not in e["path"]: w.viol(key + "/fspath", "%r vs %r" % (g["fspath"], e["path"]))
    return ok

def grammar(w, i):
    r = w.rng; args = []; exps = []
    for k in range(12):
        s, c = gen(r)
        op = r.choice(["newU", "newUsv", "newV", "fromV", "fromV"])
        if op == "fromV":
            args += ["newV", "v%d" % k, U(s)]; exps.append(("view", expect(s, c, False)))
            args += ["fromV", "u%d" % k, "v%d" % k]; exps.append(("fromview", expect(s, c, True)))
        elif op == "newV": args += ["newV", "v%d" % k, U(s)]; exps.append(("view", expect(s, c, False)))
        else: args += [op, "u%d" % k, U(s)]; exps.append(("uri", expect(s, c, True)))
        w.seen(s)
        if i < 1 and k < 2: w.sample("%s -> %s" % (s, {a: b for a, b in c.items() if b}))
    out = w.drv().call_raw("uriseq", *args)
    if out[0] != b"ok": w.viol("exception", out); return
    for (key, e), j in zip(exps, out[1:]): cmp(w, key, j, e)
    w.count("uris_checked", len(exps))

def sequences(w, i):
    r = w.rng; us, vs = {}, {}; args, exps = [], []
    names = ["a", "b", "c", "d"]
    for step in range(r.choice([10, 25, 50])):
        op = r.choice(["newU", "newUsv", "copyU", "copyU", "moveU", "asgU", "asgU", "asgU", "masgU", "masgU", "asgUV", "asgUV", "fromV", "delU", "newV", "copyV", "asgV", "strV", "strV", "emptyU", "viewU", "selfU", "selfM"])
        d, s_ = r.choice(names), r.choice(names)
        if op in ("newU", "newUsv"):
            s, c = gen(r); args += [op, d, U(s)]; us[d] = expect(s, c, True); exps.append((op, us[d]))
        elif op == "emptyU": args += [op, d, ""]; us[d] = {"string": b"", "path": b"", "scheme": b""}; exps.append((op, us[d]))
        elif op == "copyU" and s_ in us and s_ != d: args += [op, d, s_]; us[d] = us[s_]; exps.append((op, us[d]))
        elif op == "moveU" and s_ in us and s_ != d: args += [op, d, s_]; us[d] = us.pop(s_); exps.append((op, us[d]))
        elif op == "asgU" and s_ in us and d in us: args += [op, d, s_]; us[d] = us[s_]; exps.append((op, us[d]))
        elif op == "selfU" and d in us: args += ["asgU", d, d]; exps.append((op, us[d]))
        elif op == "selfM" and d in us: args += ["masgU", d, d]; exps.append((op, us[d]))
        elif op == "masgU" and s_ in us and d in us and s_ != d: args += [op, d, s_]; us[d] = us.pop(s_); exps.append((op, us[d]))
        elif op == "asgUV" and s_ in vs and d in us: args += [op, d, s_]; us[d] = vs[s_][1]; exps.append((op, us[d]))
        elif op == "fromV" and s_ in vs: args += [op, d, s_]; us[d] = vs[s_][1]; exps.append((op, us[d]))
        elif op == "delU" and d in us: args += [op, d, ""]; del us[d]; exps.append((op, {}))
        elif op == "newV" or (op == "strV" and d in vs):
            s, c = gen(r); args += [op, d, U(s)]; vs[d] = (expect(s, c, False), expect(s, c, True)); exps.append((op, vs[d][0]))
        elif op == "copyV" and s_ in vs and s_ != d: args += [op, d, s_]; vs[d] = vs[s_]; exps.append((op, vs[d][0]))
        elif op == "asgV" and s_ in vs and d in vs: args += [op, d, s_]; vs[d] = vs[s_]; exps.append((op, vs[d][0]))
        elif op == "viewU" and s_ in us: args += [op, "x", s_]; exps.append((op, us[s_]))
    for n in us: args += ["viewU", "x", n]; exps.append(("final", us[n]))
    for n in vs: args += ["copyV", "zz", n]; exps.append(("finalV", vs[n][0]))
    if not args: return
    out = w.drv().call_raw("uriseq", *args)
    if out[0] != b"ok": w.viol("exception-seq", out); return
    if len(out) != len(exps) + 1: raise RuntimeError("protocol")
    hist = [args[k:k+3] for k in range(0, len(args), 3)]
    for n, ((key, e), j) in enumerate(zip(exps, out[1:])):
        if e and not cmp(w, "seq-" + key, j, e): w.sample("failing step %d of %r" % (n, hist[:n+1])); break
    w.seen(repr(hist)); w.count("sequence_steps", len(exps))

def valid_flag(w, i):
    """Validity and re-parsing: an invalid text reports invalid, and does so through copies; assigning a valid one resets it."""
    r = w.rng; s, c = gen(r)
    bad = r.choice([":" + s, "a://[::1", "http://[12:3/x", ":x"])
    args = ["newU", "a", bad, "copyU", "b", "a", "newV", "v", bad, "copyV", "w", "v", "fromV", "c", "v", "newU", "d", U(s), "asgU", "a", "d", "asgU", "d", "b", "strV", "v", U(s), "newV", "x", U(s), "strV", "x", bad]
    out = w.drv().call_raw("uriseq", *args)
    want = [False, False, False, False, False, True, True, False, True, True, False]
    for n, (j, e) in enumerate(zip(out[1:], want)):
        g = got(j)
        if g["valid"] != e: w.viol("valid-flag/step%d" % n, "%r: valid()=%s want %s" % (args[3*n:3*n+3], g["valid"], e))
    cmp(w, "valid-reassign", out[7], expect(s, c, True)); cmp(w, "valid-strV", out[9], expect(s, c, False))
    w.seen(bad + s)

def percents(w, i):
    r = w.rng
    t = []
    for _ in range(r.choice([1, 2, 3, 8, 40])):
        t.append(r.choice([lambda: pct(r), lambda: "%", lambda: "%" + r.choice(HEX), lambda: "%" + r.choice("gG %-+x") + r.choice(HEX), lambda: "%25" + r.choice(["41", "", "2"]), lambda: chars(r, 3, "", 0)])())
    s = U("".join(t))
    out = w.drv().call_raw("decodepercents", s)
    w.eq("decodePercents", out[0], dec(s), repr(s)); w.seen(s)

def longesc(w, i):
    s = b"%41" * w.rng.choice([100000, 300000])
    out = w.drv().call_raw("decodepercents", s)
    w.eq("decodePercents-long", len(out[0]), len(s) // 3); w.seen(b"long%d" % len(s))

def junk(w, i):
    r = w.rng; args = []; alpha = b":/?#[]@%aA0.\\\x00\xff\xc3 -"
    names = []
    for k in range(10):
        s = bytes(r.choice(alpha) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 10, 20])))
        args += [r.choice(["newU", "newV", "newUsv"]), "n%d" % k, s]; w.seen(s)
    out = w.drv().call_raw("uriseq", *args)
    if out[0] != b"ok": w.viol("exception-junk", out); return
    for k, j in enumerate(out[1:]):
        g = got(j)
        for c in COMP:
            if g[c] not in g["string"]: w.viol("junk-component", "%s %r not part of %r" % (c, g[c], g["string"]))
    # every copy of a junk URI reports the same
    for k in range(10):
        kind = args[3*k]
        ops = [kind, "a", args[3*k+2]] + (["copyV", "b", "a", "newV", "c", "q://w/e?r#t", "asgV", "c", "a"] if kind == "newV" else ["copyU", "b", "a", "newU", "c", "q://u@w:1/e?r#t", "asgU", "c", "a", "moveU", "e", "c"])
        o = w.drv().call_raw("uriseq", *ops)
        for n in (2, 4, 5):
            if n < len(o) and o[n] != o[1]: w.viol("junk-copy", "%r: %r vs %r" % (ops, o[n], o[1]))

def sections(ctx):
    s = ctx.scale
    return [("grammar", s(3000, 40000), grammar), ("sequences", s(2500, 30000), sequences), ("valid", s(200, 2000), valid_flag), ("percents", s(1500, 20000), percents), ("longesc", 8, longesc), ("junk", s(1500, 20000), junk)]
def run(ctx):
    ctx.rule = "distinct URI texts / operation histories whose every component was compared with the grammar-derived expectation"
    ctx.assumptions = ["components of syntactically invalid references are only checked for safety and copy consistency", "a host literal is reported without brackets, as the repository's own tests state", "data URIs are not split into query and fragment (documented in the code)"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
