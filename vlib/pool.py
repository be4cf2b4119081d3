"""Sharded execution of Python-driven cases against persistent drivers."""
import multiprocessing as mp, os, sys, random, hashlib, traceback, tempfile, shutil, time
from . import build
from .ctx import Ctx
from .drv import Driver, Crash, Timeout, summarize

class W:
    """One worker: owns drivers, a scratch dir, and a partial Ctx."""
    def __init__(self, ctx, exes, timeout):
        self.ctx = ctx; self.exes = exes; self.drivers = {}; self.timeout = timeout
        self.section = ""; self.case = 0; self.rng = None
        self.tmp = None; self.hangs = 0
    @property
    def thorough(self): return self.ctx.thorough
    def drv(self, cfg="asan"):
        if cfg not in self.drivers:
            base, _, env = cfg.partition("@") # "build@environment"
            self.drivers[cfg] = Driver(self.exes[base], self.timeout, **(self.ctx.envs[env] if env else {}))
        return self.drivers[cfg]
    def scratch(self):
        """Fresh empty scratch directory for this case."""
        if self.tmp: shutil.rmtree(self.tmp, ignore_errors=True)
        self.tmp = tempfile.mkdtemp(prefix="fgverif-")
        return self.tmp
    def viol(self, key, detail, **kw):
        r = dict(kind="case", section=self.section, case=self.case, seed=self.ctx.seed, tier=self.ctx.tier); r.update(kw)
        self.ctx.violation(key, detail, r)
    def count(self, *a): self.ctx.count(*a)
    def seen(self, s): self.ctx.seen(s)
    def sample(self, s): self.ctx.sample(s)
    def eq(self, key, got, want, what=""):
        if got != want:
            self.viol(key, "%s\n got  %s\n want %s" % (what, str(got)[:1500], str(want)[:1500]))
            return False
        return True
    def crash(self, c):
        self.viol(c.kind, c.detail)
    def close(self):
        for d in self.drivers.values():
            c = d.quit()
            if c is not None: self.viol(c.kind, c.detail)
        self.drivers = {}
        if self.tmp: shutil.rmtree(self.tmp, ignore_errors=True)

def case_rng(ctx, section, i):
    h = hashlib.sha256(("%s|%d|%s|%d" % (ctx.prop, ctx.seed, section, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "little"))

def run_case(w, section, fn, i):
    w.section, w.case = section, i
    for attempt in (0, 1):
        w.rng = case_rng(w.ctx, section, i)
        try:
            fn(w, i)
            break
        except Crash as c:
            w.crash(c); break
        except (ValueError, KeyError, IndexError, TypeError, AttributeError):
            # what the library produced could not be interpreted by the oracle (malformed text, wrong shape)
            w.viol("unexpected-output/" + section, traceback.format_exc()); break
        except Timeout as t:
            sys.stderr.write("timeout (%s) in %s case %d\n" % (t.hang, section, i))
            if attempt == 1:
                if t.hang: w.viol("hang/" + section, "the library never came back from a call (%s), twice" % t.hang); w.hangs += 1
                else: w.ctx.inconclusive += 1
    w.ctx.evals += 1
    w.ctx.count("cases_" + section)

def _shard(ctx, exes, sections, shard, n, timeout, leak_every, q):
    try:
        w = W(ctx, exes, timeout); k = 0
        for name, count, fn in sections:
            for i in range(shard, count, n):
                if w.hangs >= 2 or time.time() > ctx.deadline: ctx.count("skipped_" + ("after_hangs" if w.hangs >= 2 else "for_time")); continue
                run_case(w, name, fn, i); k += 1
                if leak_every and k % leak_every == 0 and "asan" in w.drivers and w.drivers["asan"].p is not None:
                    try:
                        if w.drv().call("leak") != ["clean"]:
                            e = w.drv().stderr(); w.viol(summarize(e), "(in one of the last %d cases of this shard)\n%s" % (leak_every, e)); w.drv().kill()
                    except Crash as c: w.crash(c)
                    except Timeout: pass
        w.close()
        q.put((shard, ctx.export(), None))
    except BaseException:
        q.put((shard, None, traceback.format_exc()))

def run(ctx, sections, cfgs=("asan",), workers=8, timeout=30.0, leak_every=200):
    """sections: list of (name, count, fn(w, i))."""
    exes = dict(zip(cfgs, build.drivers(cfgs))) if cfgs else {}
    mpc = mp.get_context("fork"); q = mpc.Queue(); ps = []
    for s in range(workers):
        c = Ctx(ctx.prop, ctx.tier, ctx.seed); c.deadline = ctx.deadline; c.envs = getattr(ctx, "envs", {})
        p = mpc.Process(target=_shard, args=(c, exes, sections, s, workers, timeout, leak_every, q), daemon=False); p.start(); ps.append(p)
    left = set(range(workers)); errs = []
    while left:
        try:
            s, e, err = q.get(timeout=5)
        except Exception:
            if any((not ps[s].is_alive()) and ps[s].exitcode not in (0, None) for s in left): errs.append("worker died"); break
            continue
        left.discard(s)
        if err: errs.append(err)
        else: ctx.merge(e)
    for p in ps:
        p.join(timeout=10)
        if p.is_alive(): p.kill()
    if errs: raise RuntimeError("worker failure:\n" + "\n".join(errs[:2]))

def replay(ctx, sections, r, cfgs=("asan",), timeout=60.0):
    exes = dict(zip(cfgs, build.drivers(cfgs)))
    ctx.seed = r["seed"]; ctx.tier = r["tier"]; ctx.thorough = r["tier"] == "thorough"
    w = W(ctx, exes, timeout)
    for name, n, fn in sections:
        if name == r["section"]: run_case(w, name, fn, r["case"])
    w.close()
