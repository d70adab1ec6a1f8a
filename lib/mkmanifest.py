"""Writes MANIFEST.json and the fixed list of known-findings.json from what is here."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(V, "lib", "claims.py")).read(), T)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in T["CLAIMS"]:
        tech, level, note = T["CLAIMS"][p]
        checks.append({"property": p, "quick_cmd": "python3 checks/%s.py quick" % p, "thorough_cmd": "python3 checks/%s.py thorough" % p,
                       "technique": tech, "level": level, "level_note": note})
na = [{"property": p, "reason": T["NA"].get(p, "specification not finished yet")} for p in props if p not in T["CLAIMS"]]
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "hooks": T["HOOKS"], "checks": checks, "not_applicable": na}
if not m["hooks"]: del m["hooks"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        pid = next((p for k, p in T["FIXED"] if k in s), None)
        if not pid: print("no property for fix:", s)
        fixed.append("fixed: property=%s %s %s" % (pid, h, s))
json.dump({"known": T["KNOWN"], "fixed": fixed}, open(os.path.join(V, "known-findings.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not", len(fixed), "fixed")
