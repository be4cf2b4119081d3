"""C31: results depend on the input and the options, on nothing else in the process."""
import json, os, shutil, struct, subprocess, tempfile
from vlib import pool, gen as G, faults as F
from vlib.common import *
from checks import c14, c22, c23
from checks.c27 import battery, where, plan_of
TECHNIQUE = "the same calls made in processes with different surroundings (C and C++ locales with decimal commas and digit grouping, memory and stack filled with different patterns, other working directories with decoy files, errno, umask, selected SIMD code path), sanitizer-instrumented and as shipped; every result is compared with that of an undisturbed process"
CFGS = ("asan", "rel")
PROGRAMS = programs(CFGS)
FILL = "malloc_fill_byte=%d:max_malloc_fill_size=268435456:free_fill_byte=%d:max_free_fill_size=1048576"
ENVS = {"german": "asan", "grouped": "asan", "turkish": "rel", "scribbled": "rel"}
def environments(ctx, top):
    from vlib.drv import ENV_SAN
    made = set()
    for n in ("de_DE", "tr_TR"):
        try: subprocess.run(["localedef", "-i", n, "-f", "UTF-8", os.path.join(top, n + ".UTF-8")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        except (OSError, subprocess.TimeoutExpired): pass
        if os.path.exists(os.path.join(top, n + ".UTF-8", "LC_NUMERIC")): made.add(n); ctx.count("locales_made")
    asan = lambda a, b: {"ASAN_OPTIONS": ENV_SAN["ASAN_OPTIONS"] + ":" + FILL % (a, b)}
    def loc(n): return {"LOCPATH": top, "LANG": n + ".UTF-8", "LC_ALL": n + ".UTF-8", "LANGUAGE": n[:2]}
    def setl(n): return [("env", "clocale", n + ".UTF-8"), ("env", "cpplocale", n + ".UTF-8")] if n in made else [("env", "cpplocale", "grouped")]
    ctx.envs = {
        "german": dict(env={**asan(0, 0), **loc("de_DE"), "TZ": "Asia/Kolkata"}, init=setl("de_DE") + [("env", "umask", 0o077)]),
        "grouped": dict(env={**asan(255, 127), "SIMDJSON_FORCE_IMPLEMENTATION": "westmere"}, init=[("env", "cpplocale", "grouped"), ("env", "errno", 34)]),
        "turkish": dict(env={**loc("tr_TR"), "SIMDJSON_FORCE_IMPLEMENTATION": "fallback", "MALLOC_PERTURB_": "90", "HOME": "/nowhere", "TMPDIR": "/nowhere"}, init=setl("tr_TR") + [("env", "scribble", 255)]),
        "scribbled": dict(env={"MALLOC_PERTURB_": "254", "MALLOC_MMAP_THRESHOLD_": "4096"}, init=[("env", "cpplocale", "grouped"), ("env", "scribble", 1), ("env", "errno", 2), ("env", "umask", 0)]),
    }
def surround(w, env, decoy):
    d = w.drv(ENVS[env] + "@" + env)
    if w.rng.random() < .3: d.call("env", "churn", w.rng.getrandbits(30))
    shown = "surroundings_%s_%s" % (env, d.call("env", "show")[0])
    if shown not in w.ctx.cov: w.count(shown)
    if d.call("env", "cwd", decoy)[0] != "ok": raise RuntimeError("no decoy folder")
    return d
def differs(w, env, what, a, b, note):
    w.count("comparisons")
    if a == b: return False
    p = where(a, b) if not isinstance(a, (bytes, str)) else ""
    w.viol("%s/%s%s" % (env, what, p), "undisturbed %s\n%s %s\n%s" % (str(a)[:1500], env, str(b)[:1500], note)); return True
def everywhere(w, data, opts, ext, cats, mode, plan, note, files=None, **how):
    ref = {c: battery(w, c, data, opts, ext, cats, mode, plan, (), **how) for c in CFGS}; w.count("outcome_" + ("loaded" if ref["asan"]["error"] == "None" else "refused"))
    decoy = "/"
    if files is not None:
        decoy = os.path.join(w.tmp, "decoy"); os.makedirs(decoy, exist_ok=True)
        for n, b in files.items(): # files of the same names and sizes, where a relative name must not lead
            n = os.path.normpath(n); write_files(decoy, {x: bytes(c ^ 0x55 for c in b) for x in (n, os.path.basename(n)) if not x.startswith("..")})
        write_files(decoy, {"main": b"{}"})
    def out(cfg, env):
        """What a file export leaves on disk."""
        if files is None or ref[cfg]["error"] != "None": return None
        o = os.path.join(w.tmp, "out-" + env); e = w.drv(cfg + ("@" + env if env != cfg else "")).call(plan["file"], "a", os.path.join(o, "x.gltf"), 0, "b", "i", "", "", "")[0]
        return e, {k.decode("utf-8", "replace"): v for k, v in c22.tree(o).items()} if os.path.isdir(o) else {}
    trees = {c: out(c, c) for c in CFGS}
    for env, cfg in ENVS.items():
        surround(w, env, decoy); got = battery(w, cfg + "@" + env, data, opts, ext, cats, mode, plan, (), **how); w.count("inputs_" + env)
        for k in sorted(ref[cfg].keys() | got.keys()):
            if k not in got or k not in ref[cfg]: w.viol("%s/%s" % (env, k.rstrip("0123456789")), "only one of the processes has it: errors %s and %s\n%s" % (ref[cfg]["error"], got["error"], note)); break
            if differs(w, env, k.rstrip("0123456789"), ref[cfg][k], got[k], note): break
        else:
            if files is not None and got["error"] == "None": differs(w, env, "files", trees[cfg], out(cfg, env), note); w.count("file_exports")
    return ref["asan"]
NUM = ["0.1", "1e-3", "1234567.5", "12345678", "1e21", "1e22", "123456789012345680000", "3.4e38", "1.17549435e-38", "1e-45", "4e-40", "-0.0", "0.30000000000000004", "16777217", "9007199254740993", "1.5e300", "1e308", "5e-324", "-1e-7", "1000", "1E+2", "100000000000000000000000.5", "2.2250738585072011e-308", "1.00000000000000011102230246251565404236316680908203124", "0.000001", "33554433.0"]
def numbers(r, doc):
    """Numbers whose spelling the surroundings could change."""
    def go(o, key=""):
        if isinstance(o, dict): return {k: v if k in ("extras", "uri") else go(v, k) for k, v in o.items()}
        if isinstance(o, list): return [go(x, key) for x in o]
        if isinstance(o, float) and r.random() < .4 and key not in ("matrix", "rotation", "min", "max"):
            return float(r.choice(NUM)) if r.random() < .5 else struct.unpack("<f", struct.pack("<I", r.getrandbits(31) % 0x7f000000))[0]
        return o
    return go(doc)
def valid(w, i):
    r = w.rng; g = Gen(r, size=r.choice([2, 3, 3]), sources=("data", "glb")); doc = g.document()
    if i % 2: doc = numbers(r, doc)
    data = pack(w, doc, g); opts = 1 | r.choice([0, 0, OPT["DecomposeNodeMatrices"], OPT["GenerateMeshIndices"]]); cats = CAT_ALL if r.random() < .7 else r.getrandbits(18); ext = ALL_EXT if r.random() < .7 else r.getrandbits(40) & ALL_EXT
    plan = plan_of(r, dump_ok=cats == CAT_ALL, acyclic=cats == CAT_ALL)
    everywhere(w, data, opts, ext, cats, "auto", plan, data[:3000]); w.seen(signature(doc, opts, cats, ext)); w.sample(data[:200].decode("utf-8", "replace"))
def files(w, i):
    r = w.rng; g = Gen(r, size=3, sources=r.choice([("file",), ("file", "data", "glb")]), unknown=False); doc = g.document(); w.scratch(); src = os.path.join(w.tmp, "in"); write_files(src, g.files)
    if r.random() < .25 and g.files: os.unlink(os.path.join(src, r.choice(sorted(g.files)))) # what is missing is missing, even if the working directory has it
    data = pack(w, doc, g); how = {"dir": src}
    if r.random() < .6: write_files(src, {"main": data}); how["getter"] = r.choice(["path", "mapped", "stream"]); payload = os.path.join(src, "main").encode()
    else: payload = data
    plan = plan_of(r); plan["file"] = r.choice(["filejson", "fileglb"])
    everywhere(w, payload, 1 | OPT["LoadExternalBuffers"] | r.choice([0, OPT["LoadExternalImages"]]), ALL_EXT, CAT_ALL, "auto", plan, data[:3000], files=g.files, **how); w.seen(signature(doc, "files", how.get("getter")))
def broken(w, i):
    r = w.rng; g = Gen(r, size=2, sources=("data",), unknown=False, extras=False, hostile_names=False); doc = g.document()
    for _ in range(3):
        f = F.fault(doc, r)
        if f is None: continue
        key, exp, bad, absent = f; data = json.dumps(bad, separators=(",", ":")).encode()
        if r.random() < .3: p = r.randrange(len(data)); data = data[:p] + (b"" if r.random() < .5 else bytes([r.getrandbits(8)])) + data[p + 1:]
        everywhere(w, data, 1, ALL_EXT, CAT_ALL, "auto", plan_of(r, dump_ok=False, acyclic=False), data[:3000]); w.seen(key)
def texts(w, i):
    """URIs, escaping and pretty-printing."""
    r = w.rng; calls = [("escape", c23.text(r).encode()) for _ in range(4)] + [("pretty", c23.dumps(c23.value(r, 3), r).encode("utf-8", "surrogatepass"))] + [("decodepercents", c14.U(c14.gen(r)[0]) + r.choice([b"", b"%", b"%4", b"%zz"]))]
    seq = []
    for k in range(8):
        s, _ = c14.gen(r)
        if r.random() < .3: s = "".join(x.upper() if r.random() < .5 else x for x in s)
        seq += [r.choice(["newU", "newUsv", "newV"]), "n%d" % k, c14.U(s)]; w.seen(s)
    calls.append(("uriseq", *seq)); ref = {c: [w.drv(c).call_raw(*a) for a in calls] for c in CFGS}
    for env, cfg in ENVS.items():
        d = surround(w, env, "/"); w.count("texts_" + env, len(calls))
        for a, want in zip(calls, ref[cfg]):
            if differs(w, env, a[0], b"\0".join(want), b"\0".join(d.call_raw(*a)), a[1][:500]): break
def sections(ctx):
    s = ctx.scale
    return [("valid", s(700, 12000), valid), ("files", s(250, 4000), files), ("broken", s(200, 3000), broken), ("texts", s(300, 6000), texts)]
def run(ctx):
    ctx.rule = "one evaluation makes the same calls in two undisturbed and four disturbed processes and compares everything observable; distinct by members present, options, fault or text"
    ctx.assumptions = ["the floating-point environment (rounding mode, flushing of small numbers) is the default one", "relative paths handed over by the caller are out of scope: they depend on the working directory by design"]
    top = tempfile.mkdtemp(prefix="fgverif-")
    try: environments(ctx, top); pool.run(ctx, sections(ctx), CFGS)
    finally: shutil.rmtree(top, ignore_errors=True)
def replay(ctx, r):
    top = tempfile.mkdtemp(prefix="fgverif-")
    try: environments(ctx, top); pool.replay(ctx, sections(ctx), r, CFGS)
    finally: shutil.rmtree(top, ignore_errors=True)
