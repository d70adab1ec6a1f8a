"""Generators of histories on the data structures (D01-D04, E03)."""
import drv, rgen

b = lambda s: list(s.encode("latin1"))

def collide(exe, n):
    """keys whose places in small tables are the same (whatever the hash function is)"""
    ks = [b("k%d" % i) for i in range(6000)]
    h = drv.ask_all(exe, [{"op": "hash", "keys": ks}])[0]["h"]
    out = []
    for m in (5 * 11, 11 * 23, 5, 53):
        g = {}
        for k, x in zip(ks, h): g.setdefault(x % m, []).append(k)
        best = max(g.values(), key=len)
        out.append(best[:n])
    return out

def map_history(rng, keys, n, two):
    """a history; every value is used once"""
    ops, v = [], 1
    w = rng.choice([(5, 3, 1), (4, 2, 4), (8, 1, 1), (2, 6, 3)])
    own = rng.random() < .5     # values may be equal, or the map may be sorted by them
    while len(ops) < n:
        h = rng.randrange(2) if two else 0
        k = rng.choice(keys)
        x = rng.choices(["add", "upd", "del", "get", "q", "r"], [w[0], w[1], w[2], 2, .5, .5])[0]
        s = rng.choice(["", "s"])
        if x in ("add", "upd"): ops.append([s + x, h, k, v]); v += 1
        elif x == "del": ops.append([rng.choice(["del", "sdel", "del_own"]), h, k])
        elif x == "get": ops.append([s + "get", h, k])
        elif x == "q": ops.append(rng.choice([["count", h], ["each", h], ["veach", h], ["at", h, rng.randrange(len(keys) + 2)]]))
        else:
            ops.append(rng.choice([["sort", h], ["sortd", h], ["sortd" if own else "sortv", h], ["compact", h], ["rehash", h, rng.randrange(2)], ["copy", h, rng.choice([0, 1, 3, 50])], ["upd_own", h, k, 0, rng.choice(keys)] if own else ["rehash", h, 0]] + ([["share", h]] * 3 if two else [])))
    return ops + [["count", 0], ["each", 0], ["veach", 0]] + [["get", 0, k] for k in keys[:30]] + ([["each", 1], ["veach", 1]] + [["get", 1, k] for k in keys[:10]] if two else [])


V = lambda n: ["i", n]

STACK_OBS = [["all", 0], ["count", 0], ["top", 0], ["all", 1], ["count", 1], ["top", 1], ["get", 0, 1], ["get", 1, 9], ["prot", 0, 0], ["prot", 1, 0], ["pop", 0], ["pop", 0], ["pop", 1], ["all", 0], ["all", 1]]


def val(rng):
    x = rng.random()
    if x < .5: return V(rng.randrange(1000))
    if x < .75: return ["s", list(b"s%d" % rng.randrange(100))]
    if x < .85: return ["a", 1, [V(1), ["s", [97]]]]
    return ["m", 1, [[[107], V(2)]]]

def stack_history(rng, n, two):
    ops = []
    g = rng.choice([2, 4, 8])
    for _ in range(n):
        h = rng.randrange(2) if two else 0
        x = rng.choices(["push", "pop", "set", "own", "prot", "sr", "look", "trunc", "mix"], [g, 2, 2, 1, .5, 1.5, 1, .5, 1])[0]
        if x == "push": ops.append(["push", h, val(rng)])
        elif x == "pop": ops.append(["pop", h])
        elif x == "set": ops.append(["set", h, rng.randrange(8) if rng.random() < .7 else rng.randrange(60), val(rng)])
        elif x == "own": ops.append(rng.choice([["push_own", h, rng.randrange(9)], ["set_own", h, rng.randrange(9), rng.randrange(9)]]))
        elif x == "prot": ops.append(["prot", h, rng.choice([0, 0, 1, 2, 3, 5])])
        elif x == "sr": ops.append(rng.choice([["save", h], ["restore", h]]))
        elif x == "look": ops.append(rng.choice([["all", h], ["top", h], ["count", h], ["get", h, rng.randrange(12)]]))
        elif x == "trunc": ops.append(["trunc", h, rng.choice([0, 1, 2, 4, 9, 20])])
        else: ops.append(rng.choice([["copy", h, rng.choice([0, 2, 40])]] + ([["share", h]] * 4 if two else [])))
    return ops + STACK_OBS


A, M, I, S = (lambda i, *x: ["a", i, list(x)]), (lambda i, **k: ["m", i, [[b(n), v] for n, v in k.items()]]), (lambda n: ["i", n]), (lambda s: ["s", b(s)])
K = [b("k"), b("l"), b("a"), b("")]

class H:
    def __init__(self, rng): self.r, self.d = rng, rgen.Data(rng, .03)
    def history(self, n):
        r = self.r
        init = [self.d.value(r.choice([1, 2, 3])) for _ in range(4)]
        if r.random() < .7: init[0] = ["a", self.d.nid(), [self.d.value(2) for _ in range(r.choice([0, 1, 3, 6]))]]
        if r.random() < .7: init[1] = ["m", self.d.nid(), [[list(k), self.d.value(2)] for k in r.sample(K + [b("x%d" % i) for i in range(8)], r.choice([0, 1, 3, 6]))]]
        ops, grow = [], 0
        for _ in range(n):
            i, j, k = r.randrange(4), r.randrange(4), r.choice(K + [b("x%d" % r.randrange(8))])
            o = r.choices(["lit", "copy", "push", "set", "upd", "rawupd", "rawadd", "del", "sort", "nth", "get", "inner", "app", "flag", "each", "eq", "count", "all", "fill"],
                          [1, 4, 4, 3, 4, 2, 2, 3, 1, 3, 3, 2, 2, 1, 2, 2, 1, .7, .4])[0]
            if o in ("push", "set", "upd", "rawupd", "rawadd", "inner", "each", "fill"):
                if grow > 7 and i == j: continue
                if o == "fill" and grow > 4: continue
                grow += (i == j) + 4 * (o == "fill")
            if o == "lit": ops.append([o, i, self.d.value(2)])
            elif o in ("copy", "push", "eq"): ops.append([o, i, j])
            elif o == "fill":
                if i != j: ops += [["lit", j, self.d.value(1)], [o, i, j, r.choice([5, 40, 260])]]
            elif o == "set": ops.append([o, i, r.randrange(5), j])
            elif o in ("upd", "rawupd", "rawadd", "inner"): ops.append([o, i, k, j])
            elif o == "del": ops.append([o, i, k])
            elif o in ("sort", "flag", "count"): ops.append([o, i])
            elif o == "nth": ops.append([r.choice(["nth", "nthinto"]), i, j, r.randrange(6)])
            elif o == "get": ops.append([r.choice(["get", "getinto"]), i, j, k])
            elif o == "app": ops.append([o, i, b(r.choice(["", "x", "long text " * 9, "\0"]))])
            elif o == "each": ops.append(r.choice([["each_upd", i, k, j], ["each_del", i, k], ["each_set", i, j]]) if i != j else ["each_del", i, k])
            else: ops.append(["all", 0])
        return {"init": init, "ops": ops + [["all", 0]]}


ALPHA = ["", "a", "b", "ab", "aa", "aab", " ", "\n", "\t", "\0", "<", "&", "\"", "'", "`", ">", "\\", "\\n", "\\x4", "\\101", "\\7", "\xff", "\x80", "x", "7", "\r\n", "\x1b", "A"]
def text(r, n=None):
    x = r.random()
    if x < .08: return b("".join(r.choice(ALPHA) for _ in range(r.choice([30, 120, 300]))))
    if x < .12: return b(r.choice("ab<\\\n") * r.choice([31, 32, 33, 64, 100, 255, 256, 300]))
    return b("".join(r.choice(ALPHA) for _ in range(r.choice([0, 1, 2, 3, 5, 8]))))
def short(r): return b("".join(r.choice(ALPHA) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))))
def piece(r, st):
    """mostly something that occurs in one of the strings"""
    s = r.choice(st)
    if s and r.random() < .7:
        i = r.randrange(len(s)); return s[i:i + r.choice([1, 1, 2, 3, 4])]
    return short(r)
def nonul(x): return [c for c in x if c] 
def op(r, st, n):
    i, j = r.randrange(4), r.randrange(4)
    o = r.choice(["lit", "share", "share", "val", "eq", "eqs", "hash", "find", "htmlcat", "html", "cat", "cat", "cats", "cats", "fmt", "fmtcat", "trunc", "trunc", "ltrim", "rtrim", "addc", "stripc", "replace", "replace", "reduce", "reduce", "indent", "indcat", "copy", "extend", "compact", "join"])
    if n > 18 and o in ("cats", "replace", "join", "fmt"): o = "trunc"
    if o == "lit": return [o, i, text(r)]
    if o == "share": return [o, i, j]
    if o in ("val", "hash", "stripc", "copy", "compact"): return [o, i]
    if o in ("eq", "cats"): return [o, i, j]
    if o in ("eqs", "html", "htmlcat", "cat"): return [o, i, text(r)]
    if o == "find": return [o, i, piece(r, st)]
    if o == "fmt": return [o, i, r.choice([0, 1, 3, 50]), r.choice([0, -1, 123456])]
    if o == "fmtcat": return [o, i, text(r), r.choice([0, -7, 99999])]
    if o == "trunc": return [o, i, r.choice([0, 0, 1, 2, 5, 400]), r.choice([0, 1, 3, 6, 40, 100000])]
    if o in ("ltrim", "rtrim"): return [o, i, nonul(piece(r, st)) if o == "ltrim" or r.random() < .8 else piece(r, st)]
    if o == "addc": return [o, i, piece(r, st)]
    if o in ("replace", "reduce"):
        p = piece(r, st); return [o, i, p, r.choice([[], p, p[:-1], short(r), p + p])]
    if o == "indent": return [o, i, b(r.choice(["", " ", "  ", "\t", "ab", "\n"]))]
    if o == "indcat": return [o, i, text(r), b(r.choice(["", " ", "--"]))]
    if o == "extend": return [o, i, r.choice([0, 1, 10, 1000])]
    return [o, i, short(r), j, r.randrange(4)]

