"""Builds harness binaries from /repo's working tree (cached by content hash)."""
import hashlib, os, subprocess, sys, glob, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FG_REPO", "/repo")
BUILD = os.environ.get("FG_BUILD", os.path.join(VERIF, "build"))
HARN = os.path.join(VERIF, "harness")

class BuildError(Exception):
    pass

DEFS = ["-DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=1", "-DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=1"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
STD_DEFS = ["-DFASTGLTF_USE_CUSTOM_SMALLVECTOR=0", "-DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=0", "-DFASTGLTF_USE_64BIT_FLOAT=0"]

CONFIGS = {
    # deciding configuration: sanitizers, assertions of the standard library, pattern-filled stack
    "asan": dict(cxx="clang++", flags=["-O0", "-gline-tables-only", "-std=c++17", "-w", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"] + SAN, defs=STD_DEFS),
    # as shipped: optimised gcc, no sanitizer
    "rel": dict(cxx="g++", flags=["-O2", "-std=c++17", "-w", "-DNDEBUG"], defs=STD_DEFS),
    "gccsan": dict(cxx="g++", flags=["-O1", "-g1", "-std=c++17", "-w", "-D_GLIBCXX_ASSERTIONS"] + SAN, defs=STD_DEFS),
    "tsan": dict(cxx="clang++", flags=["-O1", "-gline-tables-only", "-std=c++17", "-w", "-fsanitize=thread"], defs=STD_DEFS),
    "fuzz": dict(cxx="clang++", flags=["-O1", "-gline-tables-only", "-std=c++17", "-w", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=fuzzer-no-link"] + SAN, defs=STD_DEFS),
    "smallvec": dict(cxx="clang++", flags=["-O0", "-gline-tables-only", "-std=c++17", "-w", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"] + SAN, defs=["-DFASTGLTF_USE_CUSTOM_SMALLVECTOR=1", "-DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=0", "-DFASTGLTF_USE_64BIT_FLOAT=0"]),
    "nopool": dict(cxx="clang++", flags=["-O0", "-gline-tables-only", "-std=c++17", "-w", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"] + SAN, defs=["-DFASTGLTF_USE_CUSTOM_SMALLVECTOR=0", "-DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=1", "-DFASTGLTF_USE_64BIT_FLOAT=0"]),
    "f64": dict(cxx="clang++", flags=["-O0", "-gline-tables-only", "-std=c++17", "-w", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"] + SAN, defs=["-DFASTGLTF_USE_CUSTOM_SMALLVECTOR=0", "-DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=0", "-DFASTGLTF_USE_64BIT_FLOAT=1"]),
    "cpp20": dict(cxx="clang++", flags=["-O0", "-gline-tables-only", "-std=c++20", "-w", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"] + SAN, defs=STD_DEFS),
    # allocation failures on demand (harness/oom.hpp replaces the allocation functions)
    "oom": dict(cxx="clang++", flags=["-O0", "-gline-tables-only", "-std=c++17", "-w", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-DFGDRV_OOM"] + SAN, defs=STD_DEFS),
    "oomsv": dict(cxx="clang++", flags=["-O0", "-gline-tables-only", "-std=c++17", "-w", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-DFGDRV_OOM"] + SAN, defs=["-DFASTGLTF_USE_CUSTOM_SMALLVECTOR=1", "-DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=1", "-DFASTGLTF_USE_64BIT_FLOAT=0"]),
    # counts edges of the control flow (harness/work.hpp)
    "work": dict(cxx="clang++", flags=["-O1", "-std=c++17", "-w", "-fno-builtin", "-fsanitize-coverage=edge,trace-pc", "-DFGDRV_WORK"], defs=STD_DEFS),
    "worksv": dict(cxx="clang++", flags=["-O1", "-std=c++17", "-w", "-fno-builtin", "-fsanitize-coverage=edge,trace-pc", "-DFGDRV_WORK"], defs=["-DFASTGLTF_USE_CUSTOM_SMALLVECTOR=1", "-DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=1", "-DFASTGLTF_USE_64BIT_FLOAT=0"]),
    "smallnopool": dict(cxx="g++", flags=["-O1", "-std=c++17", "-w"], defs=["-DFASTGLTF_USE_CUSTOM_SMALLVECTOR=1", "-DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=1", "-DFASTGLTF_USE_64BIT_FLOAT=0"]),
}
LIB = ["src/fastgltf.cpp", "src/base64.cpp", "src/io.cpp"]

_tree = None
def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        files = []
        for d in ("src", "include"):
            for r, _, fs in os.walk(os.path.join(REPO, d)):
                files += [os.path.join(r, f) for f in fs]
        for r, _, fs in os.walk(HARN):
            files += [os.path.join(r, f) for f in fs]
        for f in sorted(files):
            h.update(f.encode()); h.update(open(f, "rb").read())
        _tree = h.hexdigest()[:16]
    return _tree

def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))

def compile_objs(jobs):
    """jobs: list of (config, source path, extra flags) -> list of object files."""
    outs = []
    todo = []
    base = os.path.join(BUILD, tree_hash())
    os.makedirs(base, exist_ok=True)
    for cfg, src, extra in jobs:
        c = CONFIGS[cfg]
        p = src if os.path.isabs(src) else (os.path.join(REPO, src) if src.startswith("src/") else os.path.join(HARN, src))
        args = [c["cxx"]] + c["flags"] + DEFS + c["defs"] + list(extra) + ["-I", os.path.join(REPO, "include"), "-I", HARN]
        key = hashlib.sha256((" ".join(args) + p).encode()).hexdigest()[:12]
        o = os.path.join(base, "%s-%s-%s.o" % (os.path.basename(p).replace(".", "_"), cfg, key))
        outs.append(o)
        if not os.path.exists(o) and o not in [t[1] for t in todo]:
            todo.append((args + ["-c", p], o))
    def one(t):
        tmp = "%s.%d.tmp" % (t[1], os.getpid())
        _run(t[0] + ["-o", tmp]); os.replace(tmp, t[1])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, todo))
    return outs

def link(cfg, objs, name, libs=("-lsimdjson",), extra=()):
    c = CONFIGS[cfg]
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:12]
    out = os.path.join(BUILD, tree_hash(), "%s-%s-%s" % (name, cfg, key))
    if not os.path.exists(out):
        san = [f for f in c["flags"] if f.startswith("-fsanitize") or f.startswith("-O") or f.startswith("-g")]
        tmp = "%s.%d.tmp" % (out, os.getpid())
        _run([c["cxx"]] + san + list(objs) + list(extra) + list(libs) + ["-lpthread", "-o", tmp]); os.replace(tmp, out)
    return out

def program(cfg, sources, name, lib=True, extra=(), libs=("-lsimdjson",)):
    return programs([(cfg, sources, name, lib, extra, libs)])[0]

def programs(specs):
    """Build several programs with one parallel compile phase."""
    jobs, spans = [], []
    for cfg, sources, name, lib, extra, libs in specs:
        js = [(cfg, s, extra) for s in sources] + ([(cfg, s, ()) for s in LIB] if lib else [])
        spans.append((len(jobs), len(jobs) + len(js)))
        jobs += js
    objs = compile_objs(jobs)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda z: link(z[0][0], objs[z[1][0]:z[1][1]], z[0][2], z[0][5] if z[0][3] else (), ()), list(zip(specs, spans))))

def driver(cfg="asan"):
    return program(cfg, ["fgdrv.cpp"], "fgdrv")

def drivers(cfgs):
    return programs([(c, ["fgdrv.cpp"], "fgdrv", True, (), ("-lsimdjson",)) for c in cfgs])

def prune():
    """Drop build trees of other source states (keep disk small)."""
    if not os.path.isdir(BUILD): return
    keep = tree_hash()
    ds = [d for d in os.listdir(BUILD) if d != keep and os.path.isdir(os.path.join(BUILD, d))]
    ds.sort(key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in ds[:-4]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
