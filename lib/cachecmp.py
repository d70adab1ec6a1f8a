"""Histories on the caches: run by the driver 'cache', judged by TLC against HbsCache."""
import json, os
import tlc, drv, hbuild

def T(s): return list(s.encode())
# programs of various sizes
TMPLS = [T("a"), T("{{a}}"), T("{{#if a}}b{{else}}c{{/if}} {{> p}}"), T("{{#each x}}{{y.z}}{{@index}}{{/each}}{{foo 1 \"two\" k=3}}" * 3)]

class Kind:
    """a cache of some kind with the keys and programs of its histories"""
    def __init__(self, exe, kind, keys, tmpls=TMPLS, size=65536, entries=16, cap=10485760, **kw):
        self.exe, self.kind, self.keys, self.tmpls, self.size, self.entries = exe, kind, keys, tmpls, size, entries
        f = drv.ask_all(exe, [{"op": "facts", "keys": keys, "tmpls": tmpls}])[0]
        if "sz" not in f: raise RuntimeError("facts: %s" % f)
        page = 4096
        al = lambda x: (x + page - 1) // page * page
        self.par = {"kind": kind, "sz": f["sz"], "ksz": f["ksz"], "slot": [h % max(entries, 1) for h in f["hash"]] if kind != "lmdb" else
                    [-1 - h % 2147483647 if len(k) >= f["maxkey"] else i for i, (k, h) in enumerate(zip(keys, f["hash"]))],
                    "dsize": al(size) - al(entries * 8) - page, "cap": cap}
    def req(self, ops, age=-1, max_size=0, max_n=0, step=0):
        return {"op": "cache", "kind": self.kind, "keys": self.keys, "tmpls": self.tmpls, "size": self.size, "entries": self.entries,
                "age": age, "max_size": max_size, "max_n": max_n, "step": step, "ops": ops,
                "par": dict(self.par, age=age, max_size=max_size, max_n=max_n, step=step)}

def judge(c, exe, reqs, what):
    for i in range(0, len(reqs), 20000):
        part = reqs[i:i + 20000]
        ans = drv.ask_all(exe, part)
        good = []
        for r, g in zip(part, ans):
            c.add("operations_replayed", len(r["ops"]))
            if "r" not in g: c.fail(r, "a history of the specification", g, what + ": crash or error")
            elif "stdout" in g: c.fail(r, "nothing printed", g, what)
            else: good.append((r, g["r"]))
            c.seen(json.dumps([r["kind"], r["entries"], r["size"], r["step"], r["age"], r["max_size"], r["max_n"], r["ops"]]))
        for r in part[:1]: c.sample({"kind": r["kind"], "ops": r["ops"][:25]}, 30)
        out, res = tlc.cases("CaseCache", [{"id": k, "par": r["par"], "ops": r["ops"], "obs": o} for k, (r, o) in enumerate(good)])
        c.add("states", res.distinct); c.add("transitions", res.states)
        c.add("traces_validated_against_impl", len(good))
        if os.environ.get("VERBOSE"): print("CaseCache: %.1fs %d histories (%s)" % (res.seconds, len(good), what))
        for k, (r, o) in enumerate(good):
            x = out[k]
            if not x["ok"]:
                n = x["n"]
                c.fail(dict(r, ops=r["ops"][:n + 1]), x["want"], o[n], "%s: step %d %s" % (what, n + 1, json.dumps(r["ops"][n])))

def explore(c, kind, ops, mx, what, limit=None, **lim):
    """all transitions of the specification's state graph up to mx steps, replayed"""
    base = kind.req([], **lim)
    d = tlc.scratch(); p = os.path.join(d, "params.ndjson")
    open(p, "w").write(json.dumps({"par": base["par"], "ops": ops, "max": mx}) + "\n")
    try:
        r = tlc.run("EnumCache", env={"PARAMS": p}, cfg_text="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Law\nINVARIANT PrintCase\nVIEW View\n", workers=1)
    finally:
        os.unlink(p); os.rmdir(d)
    c.add("states", r.distinct); c.add("transitions", r.states)
    hs = sorted(r.res, key=lambda h: (len(h), h))
    if os.environ.get("VERBOSE"): print("EnumCache: %.1fs %d states (%s)" % (r.seconds, r.distinct, what))
    # a history is enough for its prefixes
    full = []
    for h in hs:
        for k in range(1, len(ops) + 1): full.append(h + [k])
    pre = {tuple(h[:n]) for h in full for n in range(1, len(h))}
    full = [h for h in full if tuple(h) not in pre]
    if limit and len(full) > limit:
        full = c.rng.sample(full, limit)
    judge(c, kind.exe, [dict(base, ops=[ops[k - 1] for k in h]) for h in full], what)
