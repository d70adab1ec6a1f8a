import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, hbuild, drv, cachecmp
from cachecmp import T

def damage(rng, k, par):
    x = rng.random()
    if x < .5: return ["damage", k, "xor", rng.randrange(2000), rng.randrange(1, 256)]
    if x < .65: return ["damage", k, "cut", rng.choice([0, 1, 7, 40, 63, 64, 71, 72])]
    if x < .75: return ["damage", k, "grow", rng.choice([1, 8, 100, 4000])]
    if x < .9: return ["damage", k, "size", rng.choice([0, 1, 64, 100, 4096, 100000, 2000000000])]
    if x < .95: return ["damage", k, "ver"]
    return ["damage", k, "ts", rng.choice([0, 990, 1000, 1003, 5000])]

def history(rng, keys, n, par, die=True):
    ops = []
    for _ in range(n):
        k = rng.choice(keys); x = rng.random()
        if x < .25: ops += [["find", k], ["add", k, rng.randrange(4)], ["find", k], ["rel", rng.randrange(3)]]
        elif x < .4: ops.append(["add", k, rng.randrange(4)])
        elif x < .55: ops.append(["find", k])
        elif x < .62: ops.append(["rel", rng.randrange(5)])
        elif x < .68: ops.append(["gc"])
        elif x < .7: ops.append(["reset"])
        elif x < .78: ops.append(["tick", rng.choice([1, 2, 5, 20])])
        elif x < .8: ops.append(["age", rng.choice([-1, 0, 1, 5, 10])])
        elif x < .85: ops.append(["reopen"])
        elif x < .91: ops += [damage(rng, k, par), ["find", k]]
        elif x < .95 or not die: ops.append(["other", rng.choice([["add", k, rng.randrange(4)], ["find", k], ["gc"], ["reset"], ["add", k, 3]])])
        else: ops += [["die", rng.randrange(12), rng.choice([["add", k, rng.randrange(4)], ["find", k], ["gc"], ["reset"]])], ["find", k]]
    return ops

def check(c):
    exe = hbuild.build("asan", driver="cache")
    pre = T("long " * 120)
    a, b = drv.ask_all(exe, [{"op": "collide", "prefix": pre}])[0]["r"] or [1, 2]
    pre2 = T("short ")
    a2, b2 = drv.ask_all(exe, [{"op": "collide", "prefix": pre2}])[0]["r"] or [1, 2]
    L = lambda n, ch="k": T(ch * n)
    keys = [T("a"), T("{{a}}"), T(""), pre + T("%d" % a), pre + T("%d" % b), pre2 + T("%d" % a2), pre2 + T("%d" % b2),
            L(509), L(510), L(511), L(512), L(513), L(510) + T("z"), L(511) + T("z"), [97, 0, 98], [97, 0, 99], L(5000), L(5000) + T("1")]
    # keys that look like the stand-ins of long ones
    f = drv.ask_all(exe, [{"op": "facts", "keys": keys, "tmpls": []}])[0]
    keys += [T("hash:%d" % f["hash"][3]), T("hash:%d" % f["hash"][16])]
    k = cachecmp.Kind(exe, "lmdb", keys)
    ops = [["add", 0, 0], ["add", 3, 2], ["add", 4, 1], ["find", 0], ["find", 3], ["find", 4], ["gc"], ["reset"], ["tick", 3], ["reopen"], ["rel", 0]]
    mx = 4 if c.quick else 6
    lim = 2500 if c.quick else 40000
    cachecmp.explore(c, k, ops, mx, "on-disk cache", limit=lim, age=3)
    ops2 = [["add", 0, 3], ["add", 0, 1], ["add", 18, 1], ["add", 3, 2], ["find", 0], ["find", 18], ["find", 3], ["gc"], ["other", ["add", 0, 2]], ["other", ["gc"]], ["other", ["reset"]],
            ["damage", 0, "xor", 77, 5], ["damage", 3, "cut", 30], ["damage", 3, "ver"], ["tick", 2]]
    cachecmp.explore(c, k, ops2, mx - 1, "on-disk cache, other processes and damage", limit=lim, age=2, step=1)
    reqs = []
    # death of a process at every call of the database, during every kind of change
    for op in (["add", 0, 1], ["add", 1, 3], ["add", 3, 2], ["add", 4, 2], ["gc"], ["reset"], ["find", 0]):
        for n in range(14):
            reqs.append(k.req([["add", 0, 0], ["add", 3, 3], ["tick", 5], ["add", 2, 1], ["die", n, op], ["find", 0], ["find", 1], ["find", 2], ["find", 3], ["find", 4], ["other", ["find", 2]], ["gc"]], age=7 if n % 2 else 4))
    # every byte of a record
    for j in range(2 if c.quick else 4):
        for off in range(0, k.par["sz"][j], 1 if not c.quick or j == 0 else 3):
            for key in (0, 3):
                reqs.append(k.req([["add", key, j], ["add", 1, 1], ["damage", key, "xor", off, 1 << c.rng.randrange(8)], ["find", key], ["find", 1], ["add", key, j], ["find", key]]))
    for x in range(0, k.par["sz"][0] + 20, 5 if c.quick else 1):
        for key in (0, 3):
            reqs.append(k.req([["add", key, 0], ["damage", key, "cut", x], ["find", key], ["reopen"], ["find", key], ["gc"]]))
            reqs.append(k.req([["add", key, 0], ["damage", key, "size", x], ["find", key], ["gc"], ["find", key]]))
    for i in range(700 if c.quick else 15000):
        ks = c.rng.sample(range(len(keys)), c.rng.choice([2, 4, 8])) + c.rng.choice([[3, 4], [9, 10], [5, 6], [3, 18], []])
        reqs.append(k.req(history(c.rng, ks, c.rng.choice([5, 12, 30]), k.par), age=c.rng.choice([-1, -1, 0, 3, 10]), step=c.rng.choice([0, 0, 1])))
    # a database that fills up
    big = cachecmp.Kind(exe, "lmdb", keys[:5], [T("x"), T("{{a}}" * 4000), T("{{a}}" * 2000), T("y" * 1000000), T("{{b}}" * 11600)])
    for ops in ([["add", 0, 1], ["find", 0], ["add", 1, 1], ["find", 1], ["add", 2, 1], ["add", 3, 0], ["find", 3], ["reset"], ["add", 4, 0], ["find", 4]],
                [["add", 0, 4], ["find", 0], ["add", 1, 0], ["find", 1], ["reopen"], ["find", 1]],
                [["add", 0, 1], ["add", 1, 1], ["add", 3, 1], ["add", 4, 1], ["find", 0], ["add", 2, 0], ["find", 2], ["gc"], ["find", 1]]):
        reqs.append(big.req(ops))
    cachecmp.judge(c, exe, reqs, "on-disk cache history")
    c.assumptions += ["LMDB keeps its own promises (its commits are atomic and durable when a process dies); a process dies at a call of LMDB, not inside it",
                      "the clock is the driver's", "records are damaged while no process has the database open, by single bytes, truncation, growth, another size or version"]
chk.main("C05", "model_checking", check)
