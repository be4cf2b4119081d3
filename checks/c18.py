"""C18: node transforms, decomposition and scene traversal."""
from vlib import build, prog, pool
from vlib.common import *
import math
LEVEL = "exploration"
TECHNIQUE = "sanitizer runs of decomposition, local transforms and traversal with a long-double matrix oracle and a path-enumerating visit monitor; documents loaded with and without decomposition and compared"
SRC = ["c18_scene.cpp"]
CFGS = ("asan",)
MAIN = [(c, SRC, "c18", True, (), ("-lsimdjson",)) for c in ("asan", "rel")]
PROGRAMS = MAIN + programs(CFGS)

def rotation(r):
    H = math.sqrt(.5); k = r.randrange(6)
    q = {0: [0, 0, 0, 1], 1: r.choice([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]]), 2: r.choice([[H, -H, 0, 0], [0, H, -H, 0], [H, 0, H, 0], [-H, 0, 0, H]])}.get(k) or [r.uniform(-1, 1) for _ in range(4)]
    if k == 3: q[3] = 0
    n = math.sqrt(sum(x * x for x in q)); return [x / n for x in q]
def compose(t, q, s):
    x, y, z, w = q
    R = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
    m = []
    for c in range(3): m += [R[i][c] * s[c] for i in range(3)] + [0.0]
    return m + list(t) + [1.0]
def same(a, b):
    for c in range(4):
        mx = max(abs(x) for x in a[4 * c:4 * c + 4] + b[4 * c:4 * c + 4])
        for i in range(4):
            if not abs(a[4 * c + i] - b[4 * c + i]) <= 1e-3 * mx + 1e-30: return False
    return True
def case(w, i):
    r = w.rng; g = Gen(r, size=3); doc = g.document()
    nodes = doc.setdefault("nodes", [{}])
    for n in nodes:
        if r.random() < .6:
            for k in ("translation", "rotation", "scale", "matrix"): n.pop(k, None)
            s = [r.choice([-1, 1, 1, 1]) * r.choice([1, r.uniform(.01, 50)]) for _ in range(3)]
            if r.random() < .1: s[r.randrange(3)] = 0
            n["matrix"] = compose([r.uniform(-50, 50) for _ in range(3)], rotation(r), s)
    data = pack(w, doc, g)
    e1, d1, _ = load(w, data, opts=1); e2, d2, _ = load(w, data, opts=1 | OPT["DecomposeNodeMatrices"], asset="A")
    if e1 != e2 or e1 != "None": w.viol("outcome", "plain load %s, decomposed load %s\n%s" % (e1, e2, data[:4000])); return
    w.seen(signature(doc)); a, b = d1.pop("nodes"), d2.pop("nodes")
    if d1 != d2: w.viol("other-objects-changed", "%s" % data[:4000]); return
    if len(a) != len(b): w.viol("node-count", "%d %d" % (len(a), len(b))); return
    for k, (x, y) in enumerate(zip(a, b)):
        rx = {q: v for q, v in x.items() if q not in ("t", "r", "s", "matrix")}; ry = {q: v for q, v in y.items() if q not in ("t", "r", "s", "matrix")}
        if rx != ry: w.viol("node-changed", "node %d: %s vs %s" % (k, rx, ry)); return
        if "matrix" in y: w.viol("not-decomposed", "node %d" % k); return
        if "matrix" in x:
            w.count("matrices")
            f = lambda v: [float(z) if not isinstance(z, str) else float("nan") for z in v]
            m2 = compose(f(y["t"]), f(y["r"]), f(y["s"]))
            if not same(f(x["matrix"]), m2): w.viol("recompose", "node %d: matrix %s became t=%s r=%s s=%s" % (k, x["matrix"], y["t"], y["r"], y["s"])); return
        elif any(x[q] != y[q] for q in "trs"): w.viol("trs-changed", "node %d" % k); return
def sections(ctx): return [("option", ctx.scale(800, 20000), case)]
def run(ctx):
    ctx.rule = "one case is one decomposition, one local transform, one walked scene graph, or one document loaded with and without decomposition; non-trivial when its data are new"
    ctx.assumptions = ["matrices are products of translation, rotation and scale, as the specification requires of nodes", "scene graphs have no cycles; a node reachable by several paths is visited once per path", "recomposition is compared with a relative tolerance of 1e-3 per column because the documentation grants the decomposition some loss of precision"]
    for p, e in zip(MAIN, build.programs(MAIN)): prog.run(ctx, e, p[0])
    pool.run(ctx, sections(ctx), CFGS)
def replay(ctx, r):
    if r.get("kind") == "prog": prog.replay(ctx, build.programs([p for p in MAIN if p[0] == r["label"]])[0], r)
    else: pool.replay(ctx, sections(ctx), r, CFGS)
