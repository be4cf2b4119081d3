"""C23: string escaping and pretty-printing preserve JSON content."""
import json, re
from vlib import pool
from vlib.common import *
TECHNIQUE = "sanitizer-instrumented runs on generated texts and JSON documents; an independent JSON tokenizer and decoder checks that the escaped text decodes to the input and that pretty-printing only inserts white space between tokens"
CFGS = ("asan", "rel")
PROGRAMS = programs(CFGS)
PIECES = ['"', "\\", "\\\\", '\\"', "/", "\b", "\f", "\n", "\r", "\t", "\x00", "\x01", "\x1b", "\x1f", "\x7f", "\u0080", "\u00e9", "\u20ac", "\u2028", "\ufeff", "\uffff", "\U0001F600", "\U0010FFFF", "{", "}", "[", "]", ":", ",", " ", "a", "u0041", "\\u0041", "n", "null"]
TOKEN = re.compile(rb'"(?:[^"\\]|\\.)*"|[{}\[\]:,]|[^\s{}\[\]:,"]+', re.S)
WS = b" \t\r\n"

def text(r):
    k = r.random()
    if k < .03: return ""
    n = r.choice([1, 1, 2, 3, 4, 8, 15, 16, 17, 31, 40, 200]) if k < .95 else r.randrange(1000, 4000)
    if k < .5: return "".join(r.choice(PIECES) for _ in range(n))
    if k < .7: return "".join(r.choice(PIECES[:6]) for _ in range(n))
    if k < .85: return "".join(chr(r.randrange(0, 160)) for _ in range(n))
    return "".join(chr(c if not 0xD800 <= c < 0xE000 else c ^ 0x2000) for c in (r.choice([r.randrange(0x20), r.randrange(0x800), r.randrange(0x10000), r.randrange(0x110000)]) for _ in range(n)))
def pairs(i): # every pair and some triples of the interesting characters
    P = PIECES[:14]; n = len(P)
    if i < n * n: return P[i // n] + P[i % n]
    i -= n * n
    return P[i % n] + P[i // n % n] + P[i // n // n % n]
def escape(w, i):
    r = w.rng; texts = [pairs(i * 4 + j) for j in range(4)] + [text(r) for _ in range(6)]
    d = w.drv("rel" if i % 4 == 3 else "asan")
    for t in texts:
        out = d.call_raw("escape", t.encode())[0]; w.count("texts"); w.seen("e" + t[:80])
        try: back = json.loads(b'"' + out + b'"')
        except (ValueError, UnicodeDecodeError) as e: w.viol("escape:not-json", "%r escaped to %r: %s" % (t[:300], out[:300], e)); continue
        if back != t: w.viol("escape:content", "%r escaped to %r, which reads %r" % (t[:300], out[:300], back[:300]))

def value(r, depth):
    k = r.random()
    if depth > 0 and k < .3: return [value(r, depth - 1) for _ in range(r.choice([0, 1, 2, 3, 6]))]
    if depth > 0 and k < .65: return {text(r)[:12] or "k": value(r, depth - 1) for _ in range(r.choice([0, 1, 2, 3, 6]))}
    return r.choice([None, True, False, 0, -1, 1.5, 1e300, -2.5e-10, 123456789012, "", text(r)[:60], text(r)[:6], "\\", '"', "\\\"", 'a\\', "{", "]}", ",\n"])
def nest(r, n):
    v = 0
    for _ in range(n): v = [v] if r.random() < .5 else {"k": v}
    return v
def dumps(v, r):
    ascii_ = r.random() < .5
    sep = r.choice([(",", ":"), (",", ":"), (", ", ": "), (" ,\n", " :\t")]); s = json.dumps(v, ensure_ascii=ascii_, separators=sep, indent=r.choice([None] * 6 + [1]))
    if r.random() < .3: s = s.replace("/", "\\/")
    return r.choice(["", "", " ", "\n"]) * (r.random() < .2) + s
def pretty(w, i):
    r = w.rng; v = nest(r, r.randrange(1, 200)) if i % 25 == 0 else value(r, r.choice([0, 1, 2, 3, 4, 6]))
    src = dumps(v, r).encode("utf-8", "surrogatepass"); d = w.drv("rel" if i % 4 == 3 else "asan")
    out = d.call_raw("pretty", src)[0]
    w.count("documents"); w.count("tokens", len(TOKEN.findall(src))); w.seen("p" + src[:120].decode("latin-1")); w.sample("%r -> %r" % (src[:60], out[:80]))
    if TOKEN.findall(src) != TOKEN.findall(out): w.viol("pretty:tokens", "%r became %r" % (src[:2000], out[:2000])); return
    k = 0                                    # white space is only added
    for c in src:
        while k < len(out) and out[k] != c and out[k] in WS: k += 1
        if k >= len(out) or out[k] != c: w.viol("pretty:removed", "at %d: %r became %r" % (k, src[:2000], out[:2000])); return
        k += 1
    if out[k:].strip(WS): w.viol("pretty:tail", "%r became %r" % (src[:2000], out[:2000])); return
    if json.loads(out) != json.loads(src): w.viol("pretty:value", "%r became %r" % (src[:2000], out[:2000]))
def sections(ctx):
    s = ctx.scale
    return [("escape", s(900, 30000), escape), ("pretty", s(3000, 60000), pretty)]
def run(ctx):
    ctx.rule = "escape: one evaluation escapes ten texts (all pairs and triples of the characters with a meaning in JSON, then random ones); pretty: one generated document; distinct by text"
    ctx.assumptions = ["texts are valid UTF-8 and documents are valid JSON"]
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r): pool.replay(ctx, sections(ctx), r, CFGS)
