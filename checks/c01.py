"""C01: coverage-guided fuzzing of everything that handles untrusted bytes."""
import json, os, re, shutil, subprocess, tempfile, time
from vlib import build, gen as G, faults as F
from vlib.common import *
from vlib.drv import ENV_SAN, summarize
TECHNIQUE = "libFuzzer with a JSON- and GLB-aware mutator, seeded with generated and faulted documents, over load, validate, export and destruction under ASan, UBSan and LeakSanitizer; a malloc hook checks the peak allocation against the input's size, the loop a time limit"
LEVEL = "exploration"
FLAGS = ()
PROGRAMS = [("fuzz", ["c01_fuzz.cpp"], "c01", True, (), ("-lsimdjson", "-fsanitize=fuzzer"))]
ASAN = ENV_SAN["ASAN_OPTIONS"].replace("malloc_fill_byte", "quarantine_size_mb=32:malloc_fill_byte").replace("max_allocation_size_mb=600", "max_allocation_size_mb=1000")

def ctrl(r, **kw):
    c = bytearray(r.getrandbits(8) for _ in range(12))
    if r.random() < .7: c[0] |= 0x60
    if r.random() < .7: c[0] &= ~3
    if r.random() < .8: c[0] &= ~0x18
    c[11] |= 0x10 if r.random() < .8 else 0
    return bytes(c)
def corpus(ctx, d, n):
    """Seed inputs: valid documents, documents with one fault, containers, and plain damage."""
    r = ctx.rng("corpus"); k = 0
    class W: pass
    def put(data):
        nonlocal k
        open(os.path.join(d, "%06d" % k), "wb").write(data + ctrl(r)); k += 1
    for i in range(n):
        g = Gen(r, size=r.choice([1, 2, 2, 3]), sources=r.choice([("data",), ("data", "glb"), ("data", "file", "glb")])); doc = g.document()
        try: data = json.dumps(doc, separators=(",", ":")).encode("utf-8", "surrogatepass")
        except ValueError: continue
        binary = getattr(g, "glb_bin", None)
        if r.random() < .35: data = glb(data, binary if isinstance(binary, (bytes, bytearray)) else bytes(r.getrandbits(8) for _ in range(r.choice([0, 4, 64]))))
        put(data)
        for _ in range(2):
            f = F.fault(doc, r)
            if f is not None:
                b = json.dumps(f[2], separators=(",", ":")).encode()
                if r.random() < .2: b = glb(b, bytes(16))
                put(b)
        if r.random() < .3:
            b = bytearray(data)
            for _ in range(r.choice([1, 1, 3])):
                p = r.randrange(len(b)); q = r.random()
                if q < .4: b[p] = r.getrandbits(8)
                elif q < .7: del b[p:p + r.choice([1, 4, 50])]
                else: b[p:p] = bytes(r.getrandbits(8) for _ in range(r.choice([1, 2, 4])))
                if not b: b = bytearray(b"{")
            put(bytes(b))
    for b in (b"", b"{", b"{}", b"[]", b"glTF", b"glTF\x02\0\0\0\x0c\0\0\0", b"\xef\xbb\xbf{}", b"null", b'{"asset":{"version":"2.0"}}', b"[" * 3000, b'{"a":' * 1500): put(b + b" ")
    return k
def dictionary(path):
    """Every string literal of the library and the generator's member names."""
    ws = set()
    for f in ("src/fastgltf.cpp", "include/fastgltf/core.hpp", "include/fastgltf/types.hpp"):
        try: ws |= set(re.findall(r'"([A-Za-z0-9_/:;.+-]{2,50})"', open(os.path.join(build.REPO, f)).read()))
        except OSError: pass
    with open(path, "w") as o:
        for w in sorted(ws): o.write('"\\"%s\\""\n' % w)
        for w in ("18446744073709551615", "9223372036854775808", "-1", "1e300", "\\\\u0000", "null", "[]", "{}", "glTF", "JSON", "BIN\\x00"): o.write('"%s"\n' % w)
def key_of(err):
    m = re.search(r"C01-ORACLE (\S+)", err)
    if m: return m.group(1)
    if "libFuzzer: timeout" in err: return "timeout"
    if "libFuzzer: out-of-memory" in err: return "out-of-memory"
    if "DEADLYSIGNAL" in err or "ERROR:" in err or "runtime error" in err or "terminate called" in err:
        return summarize(err)
    return "crash"
def env(scratch, extra=None):
    e = dict(os.environ); e.update(ENV_SAN); e["ASAN_OPTIONS"] = ASAN; e["FG_SCRATCH"] = scratch; e.update(extra or {}); return e
def single(exe, scratch, data, extra=None, timeout=60):
    """Run one input; returns (rc, stderr)."""
    p = os.path.join(scratch, "one"); open(p, "wb").write(data)
    try: q = subprocess.run([exe, "-timeout=%d" % timeout, "-rss_limit_mb=6000", "-malloc_limit_mb=3000", p], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env(scratch, extra), timeout=timeout * 3, cwd=scratch)
    except subprocess.TimeoutExpired: return 70, "libFuzzer: timeout"
    return q.returncode, q.stderr.decode("utf-8", "replace")
def report(ctx, exe, scratch, data, err, prefix=""):
    rc, e2 = single(exe, scratch, data)
    if rc == 0:
        if "libFuzzer: timeout" in err or "out-of-memory" in err: ctx.inconclusive += 1; return
        e2 = err
    ctx.violation(prefix + key_of(e2), e2[-5000:], dict(kind="fuzz", data=data))
def probes(ctx, exe, scratch):
    doc = {"asset": {"version": "2.0"}, "accessors": [{"componentType": 5126, "type": "VEC3", "count": 40000000, "min": [0, 0, 0], "max": [0, 0, 0]}], "meshes": [{"primitives": [{"attributes": {"POSITION": 0}}]}]}
    data = json.dumps(doc).encode() + bytes([0x60, 0, 1] + [0] * 9)
    rc, err = single(exe, scratch, data, {"FG_NOEXEMPT": "1"}); ctx.evals += 1
    if rc: ctx.violation("GenerateMeshIndices:" + key_of(err), err[-1500:], dict(kind="fuzz", data=data, noexempt=1))
def run(ctx):
    ctx.rule = "one evaluation loads one input (some twice with the same parser), reads everything the asset owns, and validates, exports and destroys it; distinct by error code, sizes of the asset's arrays, validation verdict and export outcome"
    ctx.assumptions = ["the budget is 32 MiB plus 2000 times the input's size; generating mesh indices is left out of it for inputs with numbers of five or more digits (known finding, probed separately)", "the C++ standard library and simdjson's compiled part are not instrumented for coverage; out-of-memory is not injected here"]
    exe = build.programs(PROGRAMS)[0]; secs = ctx.scale(42, 900); jobs = []
    top = tempfile.mkdtemp(prefix="c01-")
    try:
        seeds = os.path.join(top, "seeds"); os.mkdir(seeds); ctx.count("seed_inputs", corpus(ctx, seeds, ctx.scale(500, 3000))); dic = os.path.join(top, "dict"); dictionary(dic)
        for j in range(8):
            sc = os.path.join(top, "s%d" % j); os.mkdir(sc); co = os.path.join(sc, "corpus"); os.mkdir(co); open(os.path.join(sc, "a.bin"), "wb").write(bytes(range(256)))
            args = [exe, "-seed=%d" % (ctx.seed * 100 + j + 1), "-max_total_time=%d" % secs, "-timeout=25", "-rss_limit_mb=3000", "-malloc_limit_mb=1000", "-max_len=%d" % (12000 if j % 2 else 40000), "-dict=" + dic, "-artifact_prefix=" + sc + "/artifact-", "-print_final_stats=1", "-reload=0", "-len_control=0", co, seeds]
            ef = open(os.path.join(sc, "err"), "wb"); jobs.append((subprocess.Popen(args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, env=env(sc, {"FG_STATS": os.path.join(sc, "stats")}), cwd=sc), sc))
        probes(ctx, exe, top)
        deadline = time.time() + secs * 3 + 200
        for p, sc in jobs:
            try: p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired: p.kill(); p.wait(); ctx.inconclusive += 1
            err = open(os.path.join(sc, "err"), "rb").read().decode("utf-8", "replace")
            m = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", err)
            if m: ctx.cov["edges_covered"] = max(ctx.cov.get("edges_covered", 0), int(m[-1][0])); ctx.cov["features"] = max(ctx.cov.get("features", 0), int(m[-1][1])); ctx.count("corpus_units", int(m[-1][2]))
            st = os.path.join(sc, "stats")
            n = re.findall(r"stat::number_of_executed_units: (\d+)", err); ctx.evals += int(n[-1]) if n else 0
            if os.path.exists(st):
                for l in open(st):
                    f = l.split()
                    if f[0] == "C" and f[1] != "owned_byte_sum": ctx.count(f[1], int(f[2]))
                    if f[0] == "D": ctx.seen(f[1])
            arts = [f for f in os.listdir(sc) if f.startswith("artifact-") and not f.startswith("artifact-slow-unit")]
            for f in arts[:2]: report(ctx, exe, sc, open(os.path.join(sc, f), "rb").read(), err[-20000:])
            if p.returncode and not arts and p.returncode != -9: ctx.violation("exit%d:%s" % (p.returncode, key_of(err)), err[-5000:], dict(kind="none"))
        ctx.sample("seed inputs and counters of every error code, see load_*")
    finally: shutil.rmtree(top, ignore_errors=True)
def replay(ctx, r):
    exe = build.programs(PROGRAMS)[0]; top = tempfile.mkdtemp(prefix="c01-")
    try:
        rc, err = single(exe, top, r["data"], {"FG_NOEXEMPT": "1"} if r.get("noexempt") else None); ctx.evals += 1
        if rc: ctx.violation(("GenerateMeshIndices:" if r.get("noexempt") else "") + key_of(err), err[-5000:], r)
    finally: shutil.rmtree(top, ignore_errors=True)
