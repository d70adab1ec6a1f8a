import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, hbuild, drv, cachecmp
from cachecmp import T

def history(rng, nk, np, n):
    ops = []
    for _ in range(n):
        k = rng.randrange(nk); x = rng.random()
        if x < .45: ops += [["find", k], ["add", k, rng.randrange(np)], ["find", k], ["rel", rng.randrange(3)]]
        elif x < .6: ops.append(["add", k, rng.randrange(np)])
        elif x < .75: ops.append(["find", k])
        elif x < .87: ops.append(["rel", rng.randrange(5)])
        elif x < .89: ops.append(["reset"])
        elif x < .9: ops.append(["gc"])
        elif x < .96: ops.append(["tick", rng.choice([1, 2, 5, 20])])
        elif x < .97: ops.append(["age", rng.choice([-1, 0, 1, 5, 10])])
        else: ops += [["rel", 0]] * 8
    return ops

def check(c):
    exe = hbuild.build("asan", driver="cache")
    keys = [T("a"), T("{{a}}"), T("")] + [T("k%d" % i) for i in range(60)]
    big = [T("x" * n) for n in (900, 1500, 3000, 3050, 2000, 500)] + [T("{{a}}" * 12), T("{{#a}}{{b.c.d}}{{/a}}" * 3)]
    # a small table: collisions; a small data area: resets
    k1 = cachecmp.Kind(exe, "mmap", keys[:3], cachecmp.TMPLS, size=12288, entries=1)
    k2 = cachecmp.Kind(exe, "mmap", keys, cachecmp.TMPLS, size=12288, entries=3)
    ops = [["add", 0, 0], ["add", 1, 2], ["add", 2, 1], ["find", 0], ["find", 1], ["rel", 0], ["reset"], ["tick", 3]]
    fill = cachecmp.Kind(exe, "mmap", keys, big, size=12288, entries=8)
    a, b = 0, next(i for i in range(1, 60) if fill.par["slot"][i] != fill.par["slot"][0])
    b2 = next(i for i in range(1, 60) if i != b and fill.par["slot"][i] == fill.par["slot"][0])
    ops2 = [["add", a, 1], ["add", b, 1], ["add", b2, 0], ["add", b, 2], ["find", a], ["find", b], ["rel", 0], ["reset"], ["tick", 3]]
    mx = 5 if c.quick else 7
    lim = 4000 if c.quick else 60000
    cachecmp.explore(c, k1, ops, mx, "shared memory cache, one slot", limit=lim, age=3)
    cachecmp.explore(c, k2, ops, mx, "shared memory cache", limit=lim, age=3, step=1)
    cachecmp.explore(c, fill, ops2, mx, "shared memory cache, filling up", limit=lim, age=3)
    cachecmp.explore(c, fill, ops2, mx - 1, "shared memory cache, no expiry", limit=lim)
    # a program of every size around what is left
    one = cachecmp.Kind(exe, "mmap", [T("a"), T("k1"), T("k2"), T("k3")], [T("x"), T("x" * 9)], size=12288, entries=64)
    rs = []
    sized = [one.par["dsize"] - one.par["sz"][0] - one.par["ksz"][0] - 24 - d for d in range(-16, 200 if c.quick else 1200)]
    for i in range(0, len(sized), 60):
        kk = cachecmp.Kind(exe, "mmap", one.keys, [T("x" * n) for n in sized[i:i + 60]] + [T("x")], size=12288, entries=64)
        np = len(kk.tmpls)
        for j in range(np - 1):
            rs.append(kk.req([["add", 0, j], ["find", 0], ["rel", 0], ["add", 1, np - 1], ["find", 0], ["find", 1], ["add", 2, np - 1], ["find", 2]]))
    # several that together end around the end
    for i in range(60 if c.quick else 1500):
        ns = [c.rng.randrange(10, 1800) for _ in range(8)]
        kk = cachecmp.Kind(exe, "mmap", keys[:10], [T("y" * n) for n in ns], size=12288, entries=c.rng.choice([16, 64]))
        for _ in range(6): rs.append(kk.req(history(c.rng, 10, 8, 25)))
    for i in range(40 if c.quick else 400):
        size = c.rng.choice([12288, 16384, 20480, 65536, 262144])
        kk = cachecmp.Kind(exe, "mmap", keys[:c.rng.choice([3, 10, 60])], big + cachecmp.TMPLS, size=size, entries=c.rng.choice([1, 2, 3, 7, 16, 64, 512, 513] if size > 12288 else [1, 3, 7, 64]))
        for _ in range(25): rs.append(kk.req(history(c.rng, len(kk.keys), len(kk.tmpls), c.rng.choice([6, 20, 40])), age=c.rng.choice([-1, -1, 0, 3, 10]), step=c.rng.choice([0, 0, 1])))
    cachecmp.judge(c, exe, rs, "shared memory cache history")
    # sizes that leave no room are refused, everything else works
    reqs = []
    for size in (0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 1 << 20):
        for n in (0, 1, 8, 512, 513, 1024, 1025, 100000): reqs.append((size, n))
    ans = drv.ask_all(exe, [dict(one.req([["add", 0, 0], ["find", 0]]), size=s, entries=n) for s, n in reqs])
    al = lambda x: (x + 4095) // 4096 * 4096
    for (s, n), g in zip(reqs, ans):
        fits = n > 0 and al(n * 8) + 4096 < al(s)
        ok = ("r" in g) == fits and (fits or g.get("err") == 1)
        c.add("constructions")
        if not ok: c.fail({"op": "cache", "size": s, "entries": n}, "works" if fits else ["err", 1], g, "construction")
    c.assumptions += ["the clock is the driver's (time() and usleep() are taken over by the linker)", "pages are of 4096 bytes", "one user; concurrent users are C03"]
chk.main("C04", "model_checking", check)
