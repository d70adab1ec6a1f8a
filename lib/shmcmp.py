"""Schedules of users of one shared-memory cache: explored by the driver 'shm', their histories judged by TLC against HbsShm."""
import json, os
import tlc, drv

class Shm:
    def __init__(self, exe, keys, tmpls, size=12288, entries=1):
        self.exe, self.keys, self.tmpls, self.size, self.entries = exe, keys, tmpls, size, entries
        base = {"op": "facts", "keys": keys, "tmpls": tmpls}
        f = drv.ask_all(exe, [base])[0]
        if "need" not in f: raise RuntimeError("facts: %s" % f)
        al = lambda x: (x + 4095) // 4096 * 4096
        part = [[sorted({p for p in (kz + d for d in range(0, 25)) } | {kz + pz + d for d in range(0, 49)}) for pz in f["sz"]] for kz in f["ksz"]]
        # what a failed attempt leaves: nothing, the key, or the key and the program (with their alignment)
        r8 = lambda x: (x + 1 + 7) // 8 * 8
        part = [[[r8(kz), r8(kz) + r8(pz)] for pz in f["sz"]] for kz in f["ksz"]]
        self.par = {"bug": "", "nslot": entries, "slot": [h % entries for h in f["hash"]], "need": f["need"], "part": part, "dsize": al(size) - al(entries * 8) - 4096}
    def req(self, init, progs, age=-1, preempt=2, max=20000, keep=400):
        return {"op": "shm", "keys": self.keys, "tmpls": self.tmpls, "size": self.size, "entries": self.entries, "age": age, "init": init, "progs": progs,
                "preempt": preempt, "max": max, "keep": keep, "alarm": 200, "par": dict(self.par, age=age)}

def judge(c, reqs, what, exe):
    good = []
    for r, g in zip(reqs, drv.ask_all(exe, reqs)):
        brief = {k: v for k, v in r.items() if k != "par"}
        if "h" not in g:
            c.fail(brief, "histories", g, what + ": crash"); continue
        if g["diverged"]: c.fail(brief, "the same answers to the same schedule", g["diverged"], what + ": not deterministic")
        c.add("schedules", g["schedules"]); c.add("accesses", g["points"]); c.add("histories", g["histories"])
        if not g["complete"]: c.add("cut_explorations")
        else: c.add("complete_explorations")
        c.seen(json.dumps([r["init"], r["progs"], r["age"], r["entries"], r["size"], r["preempt"]]))
        for h, sch in g["h"]: good.append((brief, r, h, sch))
    for i in range(0, len(good), 30000):
        part = good[i:i + 30000]
        d = tlc.scratch(); p = os.path.join(d, "cases.ndjson")
        with open(p, "w") as f:
            for k, (b, r, h, s) in enumerate(part): f.write(json.dumps({"id": k, "par": r["par"], "users": len(r["progs"]), "h": h}) + "\n")
        try:
            res = tlc.run("CaseShm", env={"CASES": p, "REACH": "0"}, cfg_text="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
            ok = {x["id"] for x in res.res}
            bad = [k for k in range(len(part)) if k not in ok]
            if bad:
                with open(p, "w") as f:
                    for k in bad[:20]: f.write(json.dumps({"id": k, "par": part[k][1]["par"], "users": len(part[k][1]["progs"]), "h": part[k][2]}) + "\n")
                far = {}
                for x in tlc.run("CaseShm", env={"CASES": p, "REACH": "1"}, cfg_text="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n").res:
                    far[x["id"]] = max(far.get(x["id"], 0), x.get("at", 0))
                for k in bad[:20]:
                    b, r, h, s = part[k]; n = far.get(k, 0)
                    c.fail(dict(b, schedule=s, max=1), "a history of the specification", h[:n + 1], "%s: event %d %s is not possible here" % (what, n + 1, json.dumps(h[n]) if n < len(h) else "?"))
        finally:
            os.unlink(p); os.rmdir(d)
        c.add("states", res.distinct); c.add("transitions", res.states); c.add("traces_validated_against_impl", len(part))
        if os.environ.get("VERBOSE"): print("CaseShm: %.1fs %d histories %d states (%s)" % (res.seconds, len(part), res.distinct, what))

def mc(par, ops, n, mx, init, live=False):
    d = tlc.scratch(); p = os.path.join(d, "params.ndjson")
    open(p, "w").write(json.dumps({"par": par, "ops": ops, "n": n, "max": mx, "init": init}) + "\n")
    try:
        return tlc.run("MCShm", env={"PARAMS": p}, expect_ok=False, timeout=850, heap="12g",
                       cfg_text="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Law\n" + ("PROPERTY Everybody\n" if live else "VIEW View\n"))
    finally:
        os.unlink(p); os.rmdir(d)
