import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, hbuild, cachecmp
from cachecmp import T

def history(rng, nk, n, par):
    """adds only of what is not there half of the time, like the virtual machine does: find, add, find"""
    ops = []
    for _ in range(n):
        k = rng.randrange(nk); x = rng.random()
        if x < .35: ops += [["find", k], ["add", k, rng.randrange(4)], ["find", k]]
        elif x < .45: ops.append(["add", k, rng.randrange(4)])
        elif x < .6: ops.append(["find", k])
        elif x < .75: ops.append(["rel", rng.randrange(5)])
        elif x < .8: ops.append(["gc"])
        elif x < .82: ops.append(["reset"])
        elif x < .92: ops.append(["tick", rng.choice([1, 1, 2, 5, 10, 50])])
        elif x < .94: ops.append(["age", rng.choice([-1, 0, 1, 5, 10])])
        elif x < .96: ops.append(["n", rng.choice([0, 1, 2, 4])])
        elif x < .98: ops.append(["size", rng.choice([0, par["sz"][0], par["sz"][1] + par["sz"][2], 3 * par["sz"][3], 1])])
        elif rng.random() < .3: ops += [["rel", 0]] * 10
    return ops

def check(c):
    exe = hbuild.build("asan", driver="cache")
    k = cachecmp.Kind(exe, "simple", [T("a"), T("{{a}}"), T("")] + [T("k%d" % i) for i in range(37)])
    s = k.par["sz"]
    ops = [["add", 0, 0], ["add", 1, 2], ["add", 2, 1], ["find", 0], ["find", 1], ["rel", 0], ["gc"], ["reset"], ["tick", 3]]
    mx = 5 if c.quick else 7
    lims = [dict(max_n=1), dict(age=3), dict(age=0, step=1), dict(max_size=s[0] + s[2] - 1, step=1), dict(max_n=2, max_size=s[2] + s[1], age=5, step=1)]
    for l in lims + ([] if c.quick else [dict(max_n=1, age=3), dict(max_size=1), dict(max_n=3, step=1)]):
        cachecmp.explore(c, k, ops, mx, "in-memory cache", limit=4000 if c.quick else 60000, **l)
    ops2 = ops[:7] + [["n", 1], ["age", 2], ["n", 0], ["size", s[2]], ["tick", 2]]
    cachecmp.explore(c, k, ops2, mx - 1, "in-memory cache, limits changing", limit=4000 if c.quick else 60000)
    reqs = []
    for i in range(1500 if c.quick else 30000):
        reqs.append(k.req(history(c.rng, c.rng.choice([3, 8, 40]), c.rng.choice([6, 20, 60]), k.par), step=c.rng.choice([1, 1, 0]) if i % 3 else 1,
                          age=c.rng.choice([-1, -1, 0, 2, 10, 40]), max_n=c.rng.choice([0, 0, 1, 2, 5]), max_size=c.rng.choice([0, 0, 1, s[3], s[3] + s[2] + s[0], 6 * s[3]])))
    # ties of many programs would be evicted in too many orders
    for r in reqs:
        if r["step"] == 0 and len(r["ops"]) > 40: r["ops"] = r["ops"][:40]
    cachecmp.judge(c, exe, reqs, "in-memory cache history")
    c.assumptions += ["the clock is the driver's (time() is taken over by the linker)", "an entry is added under a key it is not present under or the call is an error"]
chk.main("C02", "model_checking", check)
