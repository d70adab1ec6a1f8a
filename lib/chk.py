"""Common part of all checks: options, violations, known findings, evidence."""
import json, os, sys, time, random, hashlib, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import hbuild, tlc, drv

def sh(x):
    """readable form of driver/spec data: byte lists become strings"""
    if isinstance(x, dict):
        return {k: sh(v) for k, v in x.items()}
    if isinstance(x, list):
        if x and all(isinstance(e, int) and not isinstance(e, bool) and 0 <= e < 256 for e in x):
            return bytes(x).decode("latin1")
        return [sh(e) for e in x]
    return x

def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))

class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.quick = self.tier == "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s:%s" % (pid, self.seed))
        self.t0 = time.time()
        self.viol = []
        self.nviol = 0
        self.known_hit = {}
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.dist = set()
        self.replays = os.path.join(VERIF, "build", "replay", pid)
        p = os.path.join(VERIF, "known-findings.json")
        self.known = [k for k in json.load(open(p))["known"] if k["property"] == pid] if os.path.exists(p) else []

    def add(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def seen(self, case):
        """counts the distinct cases"""
        h = hashlib.sha256((case if isinstance(case, str) else canon(case)).encode()).digest()[:8]
        if h in self.dist:
            return False
        self.dist.add(h)
        return True

    def sample(self, s, n=6):
        if len(self.samples) < n:
            self.samples.append(sh(s) if not isinstance(s, str) else s)

    def fail(self, case, expected, got, what=""):
        """case has to be enough to run it again"""
        key = canon(case)
        for k in self.known:
            if any(m in key for m in k["match"]):
                self.known_hit.setdefault(k["id"], k)
                return
        self.nviol += 1
        if len(self.viol) < 20:
            self.viol.append({"what": what, "case": case, "expected": expected, "got": got})

    def finish(self):
        cov = dict(self.cov)
        cov["samples"] = self.samples
        if self.dist:
            cov.setdefault("distinct_nontrivial", len(self.dist))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
                       "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": self.nviol}, f, indent=1)
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.nviol:
            os.makedirs(self.replays, exist_ok=True)
            for i, v in enumerate(self.viol):
                p = os.path.join(self.replays, "%d.json" % i)
                with open(p, "w") as f:
                    json.dump(v, f)
                    f.write("\n")
                if i < 3:
                    print("  %s\n  case     %s\n  expected %s\n  got      %s" % (v["what"], *(json.dumps(sh(v[k]))[:1200] for k in ("case", "expected", "got"))))
            print("%d violations" % self.nviol)
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.join(self.replays, "0.json")))
            sys.exit(1)
        print("OK %s %s %.1fs %s" % (self.pid, self.tier, time.time() - self.t0, {k: v for k, v in cov.items() if isinstance(v, int)}))
        sys.exit(0)

def main(pid, level, fn):
    c = Check(pid, level)
    fn(c)
    c.finish()
