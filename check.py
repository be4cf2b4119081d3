#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]: decide one property on /repo's working tree."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1"); sys.dont_write_bytecode = True
from vlib import build
from vlib.ctx import Ctx, dec

def main():
    a = sys.argv[1:]; prop = a[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick"); rep = None
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--replay" in a: rep = a[a.index("--replay") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod = importlib.import_module("checks." + prop.lower())
    if rep:
        r = dec(json.load(open(rep)))
        ctx = Ctx(prop, tier, r.get("seed", seed)); ctx.replaying = r["key"]
        mod.replay(ctx, r["replay"])
        for k, (d, _) in ctx.viol.items(): print("VIOLATION property=%s replay=%s" % (prop, rep)); print("  key=%s\n  %s" % (k, str(d)[:4000]))
        return 1 if ctx.viol else 0
    ctx = Ctx(prop, tier, seed)
    mod.run(ctx)
    build.prune()
    if not ctx.viol and (ctx.evals == 0 or len(ctx.distinct) < 2):
        sys.stderr.write("harness error: nothing was evaluated\n"); return 3
    if ctx.inconclusive and not ctx.viol and ctx.inconclusive > max(3, ctx.evals // 20):
        sys.stderr.write("harness error: %d inconclusive cases\n" % ctx.inconclusive); return 4
    return ctx.finish(getattr(mod, "LEVEL", "exploration"))

if __name__ == "__main__":
    try:
        rc = main()
    except build.BuildError as e:
        sys.stderr.write("BUILD ERROR: %s\n" % e); rc = 2
    except Exception:
        traceback.print_exc(); rc = 3
    sys.exit(rc)
