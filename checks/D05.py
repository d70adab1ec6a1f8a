import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, hbuild, hist, rgen, tlc, valcmp, drv

b = lambda s: list(s.encode("latin1"))
KEYS, IDX = [b("a"), b("foo"), b(""), b("0"), b("nope"), [97, 0]], [0, 1, 2, 5, 130, -1]
NUM, STR = rgen.NUMS, rgen.STRS

def norm(o, x): return valcmp.norm(x) if o[0] == "facts" and len(x) == 23 else x

class Gen:
    def __init__(self, rng): self.r, self.d = rng, rgen.Data(rng, .06)
    def value(self): return rgen.rich(self.r, self.d)
    def history(self, n):
        """assignments to four variables, questions in between"""
        r = self.r; ops = []
        for _ in range(n):
            i, j = r.randrange(4), r.randrange(4)
            o = r.choices(["lit", "copy", "mark", "facts", "nth", "get", "push", "upd", "app", "conv", "eq"], [5, 4, 3, 4, 1, 1, 1, 1, 1, .5, 1])[0]
            if o == "lit": ops.append([o, i, self.value()])
            elif o in ("copy", "eq"): ops.append([o, i, j])
            elif o == "push":
                if i != j: ops.append([o, i, j])
            elif o == "upd":
                if i != j: ops.append([o, i, r.choice(KEYS), j])
            elif o == "mark": ops.append([o, i])
            elif o == "facts": ops.append([o, i, KEYS, IDX])
            elif o == "nth": ops.append([r.choice(["nth", "nthinto"]), i, j, r.randrange(3)])
            elif o == "get": ops.append([r.choice(["get", "getinto"]), i, j, r.choice(KEYS)])
            elif o == "app": ops.append([o, i, b(r.choice(["", "<", "0"]))])
            else: ops.append([o, i, r.randrange(2)])
        return {"init": [self.value() for _ in range(4)], "ops": ops + [["facts", i, KEYS, IDX] for i in range(4)]}

def check(c):
    exe = hbuild.build("asan", driver="data")
    rng = c.rng; g = Gen(rng)
    # facts of values
    vs = [["n"], ["b", True], ["b", False], ["f", "echo"]] + list(NUM) + [[t, b(s)] for t in ("s", "ss") for s in STR] + [["s", [x]] for x in range(256)] + [["a", 1, []], ["m", 1, []]]
    vs += [["a", 1, [x, y]] for x in vs[:24] for y in vs[:24]]
    vs += [g.value() for _ in range(4000 if c.quick else 60000)]
    keys = lambda v: KEYS + ([k for k, _ in v[2][-3:]] if v[0] == "m" else [])
    valcmp.compare(c, exe, [({"src": "native", "conv": rng.choice([0, 0, 1, 2]), "v": x["v"], "keys": x["keys"], "idx": x["idx"]}, e) for x, e in valcmp.facts(c, vs, keys, IDX)])
    # equality of all pairs
    sc = [v for v in vs[:4 + len(NUM) + 2 * len(STR)]] + [["f", "list"]]
    exp, r = tlc.cases("CaseValfn", [{"id": 0, "vs": sc}])
    a, = drv.ask_all(exe, [{"op": "valeq", "vs": sc}])
    c.add("pairs_compared", len(sc) ** 2)
    if a.get("r") != exp[0]["r"]:
        for k, (x, y) in enumerate(zip(exp[0]["r"], a.get("r", [None] * len(sc) ** 2))):
            if x != y: c.fail({"op": "valeq", "vs": [sc[k // len(sc)], sc[k % len(sc)]]}, x, y, "equality")
    # assignments: all short histories over one of each kind, then long ones
    obs = [["facts", 0, KEYS[:2], [0]], ["facts", 1, KEYS[:2], [0]], ["eq", 0, 1]]
    L = [["n"], ["b", True], ["i", 7], ["d", "1.5"], ["s", b("<")], ["ss", b("<&")], ["a", 1, [["s", b("<")], ["ss", b(">")]]], ["m", 2, [[b("a"), ["ss", b("'")]]]], ["f", "echo"]]
    hist.enum(c, exe, "heap", "EnumHeap", {"init": [["ss", b("&")], ["s", b("&")], ["n"], ["n"]]}, [["lit", 0, v] for v in L] + [["mark", 0], ["copy", 0, 1], ["copy", 1, 0]], 3 if c.quick else 4, obs[:2] + [["eq", 1, 1]], "assignment", norm=norm)
    hist.enum(c, exe, "heap", "EnumHeap", {"init": [["ss", b("&")], ["a", 1, [["ss", b("<")], ["s", b("<")]]], ["m", 2, [[b("a"), ["ss", b("<")]]]], ["s", b("<")]]},
              [["nthinto", 1, 0, 0], ["nthinto", 1, 0, 1], ["getinto", 2, 0, b("a")], ["push", 1, 0], ["upd", 2, b("a"), 3], ["mark", 0], ["mark", 3], ["app", 0, b("<")], ["copy", 0, 3], ["lit", 0, ["i", 3]], ["lit", 3, ["s", b("'")]]],
              4 if c.quick else 5, obs, "assignment", norm=norm)
    reqs = [g.history(rng.choice([6, 12, 25])) for _ in range(1500 if c.quick else 25000)]
    hist.cases(c, exe, "heap", "CaseHeap", reqs, "history of assignments", norm=norm)
    c.assumptions += ["floats are compared as numbers, with those whose printed form has at most 15 digits", "-0.0, NaN and infinities are not covered", "nesting is below 30 where the printed form is asked for (its indentation is that of a debug aid)"]
chk.main("D05", "model_checking", check)
