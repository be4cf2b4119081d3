"""Run a self-contained monitor program (mon.hpp) in shards and fold its report into a Ctx."""
import os, re, subprocess, tempfile, time
from . import build
from .drv import ENV_SAN, summarize

def _launch(exe, args, env, timeout):
    e = dict(os.environ); e.update(ENV_SAN); e.update(env or {})
    return dict(exe=exe, args=args, env=e, out=tempfile.TemporaryFile(), err=tempfile.TemporaryFile(), timeout=timeout)

def run(ctx, exe, label, shards=8, timeout=None, env=None, parallel=8, extra=()):
    timeout = timeout or (7 * 3600 if ctx.thorough else 700)
    jobs = []
    for s in range(shards):
        a = ["--seed", str(ctx.seed), "--shard", str(s), str(shards)] + (["--thorough"] if ctx.thorough else []) + ["--factor", str(ctx.factor), "--deadline", str(int(ctx.deadline))] + list(extra)
        jobs.append(_launch(exe, a, env, timeout))
    pend = list(jobs); live = []
    while pend or live:
        while pend and len(live) < parallel:
            j = pend.pop(0); j["t"] = time.time()
            j["p"] = subprocess.Popen([j["exe"]] + j["args"], stdin=subprocess.DEVNULL, stdout=j["out"], stderr=j["err"], env=j["env"], cwd="/"); live.append(j)
        for j in list(live):
            rc = j["p"].poll()
            if rc is None and time.time() - j["t"] > j["timeout"]:
                j["p"].kill(); j["p"].wait(); j["timedout"] = True; rc = -9
            if rc is not None:
                j["rc"] = rc; live.remove(j)
        time.sleep(0.01)
    for j in jobs:
        fold(ctx, j, label)

def fold(ctx, j, label):
    j["out"].seek(0); out = j["out"].read().decode("utf-8", "replace"); j["err"].seek(0); err = j["err"].read().decode("utf-8", "replace")[-30000:]
    done = False
    for l in out.rpartition("\n")[0].split("\n"): # a program that crashed may have left half a line
        f = l.split("\t")
        if f[0] == "V" and len(f) >= 5:
            ctx.violation(label + "/" + f[1], f[2], dict(kind="prog", label=label, exe=os.path.basename(j["exe"]).rsplit("-", 2)[0], section=f[3], case=int(f[4]), seed=ctx.seed, thorough=ctx.thorough))
        elif f[0] == "E": ctx.evals += int(f[1])
        elif f[0] == "C": ctx.count(label + "." + f[1], int(f[2]))
        elif f[0] == "S": ctx.sample(label + ": " + f[1], 8)
        elif f[0] == "D": ctx.seen(label + f[1])
        elif f[0] == "DONE": done = True
    if j.get("timedout"):
        ctx.inconclusive += 1; return
    if j["rc"] == 8: raise RuntimeError("harness usage error: " + err)
    if j["rc"] != 0 or not done:
        m = re.search(r"RUNNING-CASE (\S+) (\d+)", err)
        sec, case = (m.group(1), int(m.group(2))) if m else ("", -1)
        key = label + "/" + (summarize(err) if err.strip() else "exit%d" % j["rc"]) + ("#" + sec if sec else "")
        ctx.violation(key, "rc=%s\n%s" % (j["rc"], err[:6000]), dict(kind="prog", label=label, section=sec, case=case, seed=ctx.seed, thorough=ctx.thorough))

def replay(ctx, exe, r):
    a = ["--seed", str(r["seed"])] + (["--thorough"] if r["thorough"] else []) + ["--factor", str(ctx.factor)]
    if r["section"]: a += ["--only", r["section"], str(r["case"])]
    j = _launch(exe, a, None, 600)
    j["rc"] = subprocess.call([exe] + a, stdout=j["out"], stderr=j["err"], env=j["env"])
    fold(ctx, j, r["label"])
