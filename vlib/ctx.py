"""Check context: seeds, violations, known findings, evidence, replays."""
import json, os, sys, time, random, hashlib, base64

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def load_known():
    fs = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("finding: "):
                # finding: property=C01 key=<key> | <what fails>
                head, what = l[9:].split(" | ", 1)
                prop = head.split("property=")[1].split()[0]; key = head.split("key=")[1].strip()
                fs.setdefault(prop, []).append((key, what))
    return fs

def enc(o):
    if isinstance(o, bytes): return {"__b64": base64.b64encode(o).decode()}
    if isinstance(o, (list, tuple)): return [enc(x) for x in o]
    if isinstance(o, dict): return {k: enc(v) for k, v in o.items()}
    return o
def dec(o):
    if isinstance(o, dict):
        if "__b64" in o: return base64.b64decode(o["__b64"])
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list): return [dec(x) for x in o]
    return o

# how often the quick tier runs the base number of cases: what fits in about half a minute on 8 cores
FACTOR = dict(C31=2, C02=6, C03=8, C04=8, C05=2, C06=5, C07=8, C08=5, C09=6, C10=3, C12=4, C13=4, C14=8, C17=4, C18=5, C19=2, C20=5, C21=6, C22=3, C23=8, C24=2, C25=6, C26=10, C28=10)

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop; self.tier = tier; self.seed = seed; self.t0 = time.time()
        self.thorough = tier == "thorough"; self.deadline = self.t0 + (6 * 3600 if self.thorough else 420) # cases left by then are counted as skipped
        self.viol = {}      # key -> (detail, replay obj)
        self.known_hit = {}
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.rule = ""
        self.inconclusive = 0
        self.known = dict(load_known().get(prop, []))
    @property
    def factor(self): return FACTOR.get(self.prop, 1)
    def scale(self, quick, thorough):
        return thorough if self.thorough else max(quick, min(quick * self.factor, thorough))
    def rng(self, *tag):
        h = hashlib.sha256(("%s|%d|%s" % (self.prop, self.seed, "|".join(map(str, tag)))).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "little"))
    def seen(self, sig):
        """Record one evaluated non-trivial case; sig identifies it."""
        self.distinct.add(hashlib.blake2b(sig if isinstance(sig, bytes) else str(sig).encode("utf-8", "surrogateescape"), digest_size=8).digest())
    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n
    def sample(self, s, limit=4):
        if len(self.samples) < limit: self.samples.append(s)
    def violation(self, key, detail, replay):
        if key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        if key not in self.viol:
            self.viol[key] = (detail, replay)
            sys.stderr.write("[%s] violation %s: %s\n" % (self.prop, key, str(detail)[:600])); sys.stderr.flush()
    def merge(self, other):
        self.evals += other["evals"]; self.distinct |= other["distinct"]
        for k, v in other["cov"].items():
            if isinstance(v, set): self.cov.setdefault(k, set()); self.cov[k] |= v
            else: self.cov[k] = self.cov.get(k, 0) + v
        for s in other["samples"]: self.sample(s)
        for k, (d, r) in other["viol"].items(): self.violation(k, d, r)
        for k, n in other["known_hit"].items(): self.known_hit[k] = self.known_hit.get(k, 0) + n
        self.inconclusive += other["inconclusive"]
    def export(self):
        return dict(evals=self.evals, distinct=self.distinct, cov=self.cov, samples=self.samples, viol=self.viol, known_hit=self.known_hit, inconclusive=self.inconclusive)
    def finish(self, level="exploration"):
        rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
        for k, what in self.known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule, "samples": self.samples or ["(none)"]}
        for k, v in self.cov.items(): cov[k] = len(v) if isinstance(v, set) else v
        cov["inconclusive_timeouts"] = self.inconclusive
        cov["known_finding_hits"] = sum(self.known_hit.values())
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        edir = os.path.join(VERIF, "evidence"); os.makedirs(edir, exist_ok=True)
        tmp = os.path.join(edir, self.prop + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1, default=str); os.replace(tmp, os.path.join(edir, self.prop + ".json"))
        n = 0
        for key, (detail, replay) in self.viol.items():
            h = hashlib.sha256(key.encode()).hexdigest()[:10]
            path = os.path.join(rdir, "%s-%s.json" % (self.prop, h))
            json.dump(enc({"property": self.prop, "key": key, "detail": str(detail)[:8000], "seed": self.seed, "replay": replay}), open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  key=%s" % key)
            print("  " + str(detail)[:1500].replace("\n", "\n  "))
            n += 1
            if n >= 15: break
        sys.stdout.flush()
        return 1 if self.viol else 0
