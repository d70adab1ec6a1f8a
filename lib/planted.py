"""Confirms planted bugs: planted.py ID[:CHECK,CHECK] ...  (applies the patch in /repo, builds, runs the stable tests, the
demonstration and the check(s), and undoes it).  `planted.py --new ID` first takes the working tree diff of /repo as the patch."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
def one(bid, checks, new):
    d = os.path.join(V, "seeded", bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    pf = os.path.join(d, "patch.diff")
    if new:
        open(pf, "w").write(sh("git -C %s diff" % R).stdout)
        sh("git -C %s checkout -- ." % R)
    if sh("git -C %s status --porcelain" % R).stdout.strip(): sys.exit("/repo is not clean")
    checks = checks or [meta["property"]]
    res = {}
    try:
        sh("bash /opt/vp/build.sh")
        r = sh("bash %s/demo.sh" % d, cwd=R); res["demo clean"] = r.returncode
        if r.returncode: print(r.stdout[-500:], r.stderr[-500:])
        r = sh("git -C %s apply %s" % (R, pf))
        if r.returncode: print(r.stderr); return
        r = sh("bash /opt/vp/test.sh /tmp/planted.json")
        if r.returncode: res["tests rc"] = r.returncode
        try:
            o = json.load(open("/tmp/planted.json")); miss = BASE - set(o["passed"])
            res["tests"] = "ok %d" % len(o["passed"]) if not miss else "FAIL %s" % sorted(miss)[:4]
        except Exception as e: res["tests"] = repr(e)
        r = sh("bash %s/demo.sh" % d, cwd=R); res["demo bug"] = r.returncode
        for c in checks:
            t = time.time()
            r = sh("python3 checks/%s.py quick" % c, cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res[c] = "%s %ds" % ("CAUGHT" if r.returncode == 1 and v else "quiet" if r.returncode == 0 else "BROKEN rc=%d %s" % (r.returncode, r.stderr[-300:]), time.time() - t)
    finally:
        sh("git -C %s checkout -- ." % R)
    print(bid, res, flush=True)
new = "--new" in sys.argv
for a in sys.argv[1:]:
    if a == "--new": continue
    bid, _, cs = a.partition(":")
    one(bid, cs.split(",") if cs else None, new)
sh("bash /opt/vp/build.sh")
