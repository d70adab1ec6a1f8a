"""Histories of operations on the data structures: enumerated or evaluated by TLC, replayed by the driver 'data'."""
import json, os
import tlc, drv

def noid(v):
    """the answer without the identities of containers, which the driver does not report"""
    if not isinstance(v, list): return v
    if len(v) == 3 and v[0] == "a" and isinstance(v[1], int): return ["a", noid(v[2])]
    if len(v) == 3 and v[0] == "m" and isinstance(v[1], int): return ["m", noid(v[2])]
    return [noid(x) for x in v]

def compare(c, exe, op, reqs, exps, what, norm=lambda o, x: x):
    ans = drv.ask_all(exe, [dict(r, op=op) for r in reqs])
    for r, e, g in zip(reqs, exps, ans):
        c.add("traces_validated_against_impl")
        c.add("operations_replayed", len(r["ops"]))
        if "r" not in g:
            c.fail(dict(r, op=op), e, g, "crash")
            continue
        e = [norm(o, x) for o, x in zip(r["ops"], noid(e))]
        g["r"] = [norm(o, x) for o, x in zip(r["ops"], g["r"])]
        if g["r"] != e or "stdout" in g:
            n = next((i for i in range(min(len(e), len(g["r"]))) if e[i] != g["r"][i]), -1)
            c.fail(dict(r, op=op, ops=r["ops"][:n + 1] if n >= 0 else r["ops"]), e[n] if n >= 0 else e, g["r"][n] if n >= 0 else g, "%s: step %d %s" % (what, n + 1, r["ops"][n] if n >= 0 else ""))

def enum(c, exe, op, module, base, ops, mx, obs, what, timeout=800, **kw):
    """all histories of mx of the operations; base: further fields of request and parameters"""
    d = tlc.scratch(); p = os.path.join(d, "params.ndjson")
    open(p, "w").write(json.dumps(dict(base, ops=ops, max=mx, obs=obs)) + "\n")
    try:
        r = tlc.run(module, env={"PARAMS": p}, cfg_text="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Law\nCONSTRAINT PrintCase2\nVIEW View\n".replace("CONSTRAINT PrintCase2\n", "INVARIANT PrintCase\n"), timeout=timeout)
    finally:
        os.unlink(p); os.rmdir(d)
    c.add("states", r.distinct); c.add("transitions", r.states)
    reqs, exps = [], []
    for x in r.res:
        reqs.append(dict(base, ops=[ops[k - 1] for k in x["h"]] + obs)); exps.append(x["r"])
        c.seen("%s%s%s" % (op, json.dumps(base), x["h"]))
    if os.environ.get("VERBOSE"): print("%s: %.1fs %d histories" % (module, r.seconds, len(reqs)))
    if reqs: c.sample(reqs[len(reqs) // 2]["ops"], 40)
    compare(c, exe, op, reqs, exps, what, **kw)

def cases(c, exe, op, module, reqs, what, timeout=800, **kw):
    for i in range(0, len(reqs), 20000):
        part = reqs[i:i + 20000]
        exp, r = tlc.cases(module, [dict(x, id=k) for k, x in enumerate(part)], timeout=timeout)
        c.add("states", r.distinct); c.add("transitions", r.states)
        for x in part: c.seen(op + json.dumps(x))
        for x in part[:2]: c.sample(x["ops"][:30], 40)
        if os.environ.get("VERBOSE"): print("%s: %.1fs %d histories" % (module, r.seconds, len(part)))
        compare(c, exe, op, part, [exp[k]["r"] for k in range(len(part))], what, **kw)

def table(c):
    """the hash table refines the ordered sequence, for all hash values"""
    n = (4, "{0, 4, 5}", 5) if c.quick else (4, "{0, 1, 4, 5, 54}", 6)
    for cap in (0, 2):
        r = tlc.run("HbsTable", cfg_text="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Refines\nCONSTANTS\n Keys = {%s}\n Hashes = %s\n MaxOps = %d\n Cap0 = %d\n"
                    % (", ".join("k%d" % i for i in range(n[0])), n[1], n[2], cap) + "".join(" k%d = k%d\n" % (i, i) for i in range(n[0])))
        c.add("states", r.distinct); c.add("transitions", r.states)
        if os.environ.get("VERBOSE"): print("HbsTable: %.1fs %d states" % (r.seconds, r.distinct))

def faults(c, exe, op, module, reqs, what, instead=lambda o: None):
    """every allocation of every history refused once: that operation answers out of memory and the rest is as if it had not been asked for
    (instead: the operation that takes its place, if one does)"""
    live = list(range(len(reqs))); k = 0; got = []
    for x in reqs: c.seen(op + json.dumps(x))
    for x in reqs[:2]: c.sample(x["ops"][:30], 40)
    while live:
        k += 1
        ans = drv.ask_all(exe, [dict(reqs[i], op=op, fail=k) for i in live])
        nxt = []
        for i, g in zip(live, ans):
            c.add("fault_points")
            got.append((i, k, g))
            if "r" in g and g["hit"]: nxt.append(i)
        live = nxt
    want = {}
    def at(g): return next((j for j, x in enumerate(g["r"]) if x == ["err", 2]), None) if "r" in g else None
    def var(i, j):
        o = reqs[i]["ops"]
        if j is None: return reqs[i]
        x = instead(o[j])
        return dict(reqs[i], ops=o[:j] + ([x] if x else []) + o[j + 1:])
    keys = sorted({(i, -1 if at(g) is None else at(g)) for i, k, g in got})
    exp, r = tlc.cases(module, [dict(var(i, None if j < 0 else j), id=n) for n, (i, j) in enumerate(keys)])
    c.add("states", r.distinct); c.add("transitions", r.states)
    for n, (i, j) in enumerate(keys):
        e = noid(exp[n]["r"])
        if j >= 0: e = e[:j] + [["err", 2]] + e[j + (1 if instead(reqs[i]["ops"][j]) else 0):]
        want[i, j] = e
    for i, k, g in got:
        c.add("traces_validated_against_impl"); j = at(g)
        q = dict(reqs[i], op=op, fail=k)
        if "r" not in g: c.fail(q, "out of memory", g, what + ": crash"); continue
        e = want[i, -1 if j is None else j]
        if g["r"] != e or j is not None and not g["hit"]:
            n = next((m for m in range(min(len(e), len(g["r"]))) if e[m] != g["r"][m]), -1)
            c.fail(q, e[n], g["r"][n], "%s: allocation %d refused in step %s, step %d %s" % (what, k, j, n + 1, reqs[i]["ops"][n]))
    if __import__("os").environ.get("VERBOSE"): print("%s: %d runs, %d variants, %.1fs" % (what, len(got), len(keys), r.seconds))
