"""Histories of renders that share one library context (and a cache, and machines): every render gives what it gives alone."""
import json
import tlc, drv, rgen, hbuild

SPECH = {"cgc": "nul", "creset": "nul", "ctick": "nul"}     # helpers that disturb the cache and render nothing

def judge(c, exe, hs, what, fresh=False):
    """hs: requests {"op": "renders", "cache":…, "seq": [render | {"do":…}]}"""
    for i in range(0, len(hs), 1500):
        part = hs[i:i + 1500]
        uniq, order = {}, []
        for h in part:
            for x in h["seq"]:
                if "do" in x: continue
                y = {k: v for k, v in x.items() if k not in ("vm", "times", "may", "bare", "noflags", "vmf")}
                y["helpers"] = [[n, SPECH.get(m, m)] for n, m in x["helpers"]]
                k = json.dumps(y, sort_keys=True)
                x["may"] = k
                if k not in uniq: uniq[k] = len(order); order.append(dict(y, id=len(order)))
        exp, r = tlc.cases("CaseRender", order)
        c.add("states", r.distinct); c.add("transitions", r.states)
        keys = [[x.pop("may", None) for x in h["seq"]] for h in part]
        alone = [g["r"][0] if g.get("r") else g for g in drv.ask_all(exe, [{"op": "renders", "seq": [{a: b for a, b in x.items() if a != "id"}]} for x in order])] if fresh else None
        for h, ks, g in zip(part, keys, drv.ask_all(exe, part)):
            c.seen(h); c.add("histories")
            if "r" not in g:
                c.fail(h, "answers", g, what); continue
            for n, (x, k) in enumerate(zip(h["seq"], ks)):
                if k is None: c.add("events_" + x["do"]); continue
                e = exp[uniq[k]]; a = g["r"][n] if n < len(g["r"]) else {}
                c.add("traces_validated_against_impl"); c.add("rendered" if e["e"] == 0 else "failed_" + e["ph"])
                if e["e"] == 0: want = {"out": [e["v"]] * x.get("times", 1)}; got = a
                else:
                    want = {"err": e["e"], "out": []}; got = {"err": a.get("err"), "out": [o for o in a.get("out", []) if o is not None]}
                    if fresh:
                        for f in ("msg", "loc"): want[f] = alone[uniq[k]].get(f); got[f] = a.get(f)
                    if not a.get("msg"): want["msg"] = "a message"
                if "jmp" in a: got = a
                if got != want:
                    c.fail(h, want, a, "%s: render %d of the history" % (what, n)); break
            else:
                if h.get("cache"):
                    c.add("hits", g.get("hits", 0))
                    if g.get("inuse"): c.fail(h, 0, g["inuse"], what + ": programs stay held")

def options(rng, h):
    """leave it to the programs to bring the options: the machines are never told of any, or of some each time"""
    y = rng.random()
    for x in h:
        if "do" in x: continue
        if y < .5: x["noflags"] = 1
        else: x["vmf"] = rng.choice([0, -1, rng.randrange(8192)])
    return h

def pool(rng, n, o):
    """cases whose partials come from a small pool, so that the same text meets different options, contexts and machines"""
    cs = [rgen.case(rng, dict({"rec": 1}, **o)) for _ in range(n)]
    by = {}
    for x in cs:
        for k, v in x["partials"]:
            by.setdefault(bytes(k), []).append(v)
    for k in by: by[k] = rng.sample(by[k], min(len(by[k]), rng.choice([1, 1, 2])))
    for x in cs:
        x["partials"] = [[k, rng.choice(by[bytes(k)])] for k, v in x["partials"]]
    return cs
