import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, hbuild, hist, datagen

b = lambda s: list(s.encode("latin1"))
OBS = lambda ks: [["count", 0], ["each", 0], ["veach", 0]] + [["get", 0, k] for k in ks] + [["each", 1], ["count", 1]] + [["sget", 1, k] for k in ks] + [["at", 0, 0], ["at", 0, 1], ["at", 0, 2], ["at", 0, 7]]

collide, history = datagen.collide, datagen.map_history
def check(c):
    exe = hbuild.build("asan", driver="data")
    cs = collide(exe, 8)
    a, k2, k3 = cs[0][:3]
    for cap in ((0, 2) if c.quick else (0, 1, 2, 3, 5)):
        ops = [["add", 0, a, 1], ["add", 0, k2, 2], ["add", 0, k3, 3], ["upd", 0, a, 4], ["upd", 0, k2, 5], ["del", 0, a], ["del", 0, k2], ["sortd", 0], ["compact", 0], ["upd_own", 0, k3, 0, a]]
        hist.enum(c, exe, "maphist", "EnumMap", {"cap": cap}, ops, 4 if c.quick else 5, OBS([a, k2, k3]), "map")
    ops = [["add", 0, a, 1], ["upd", 1, a, 2], ["del", 0, a], ["add", 1, k2, 3], ["del", 1, k2], ["share", 0], ["share", 1], ["sort", 0], ["rehash", 1, 1], ["upd", 0, k3, 4]]
    hist.enum(c, exe, "maphist", "EnumMap", {"cap": 1}, ops, 4 if c.quick else 5, OBS([a, k2, k3]), "two handles")
    rng = c.rng
    reqs = []
    pool = [b("key%d" % i) for i in range(300)] + [b(""), b("\0"), b("a\0b"), b("\xff\xfe"), b("a")]
    for i in range(1500 if c.quick else 25000):
        ks = rng.choice(cs) if rng.random() < .5 else rng.sample(pool, rng.choice([2, 4, 7, 12, 20]))
        reqs.append({"cap": rng.choice([0, 0, 1, 2, 3, 4, 8, 31]), "ops": history(rng, ks, rng.choice([10, 30, 60, 120]), rng.random() < .4)})
    for i in range(40 if c.quick else 600):
        ks = rng.sample(pool, rng.choice([60, 150, 300]))
        reqs.append({"cap": rng.choice([0, 3, 16]), "ops": history(rng, ks, rng.choice([300, 700]), rng.random() < .3)})
    hist.cases(c, exe, "maphist", "CaseMap", reqs, "map history")
    hist.table(c)
    c.assumptions += ["values in these histories are integers (sharing of nested values is D02)", "raw iteration that changes the map while it runs is not covered"]
chk.main("D01", "model_checking", check)
