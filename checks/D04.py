import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, hbuild, hist, datagen

b = lambda s: list(s.encode("latin1"))
text, short, piece, nonul, op = datagen.text, datagen.short, datagen.piece, datagen.nonul, datagen.op
def check(c):
    exe = hbuild.build("asan", driver="data")
    OBS = [["val", i] for i in range(3)] + [["hash", 0], ["hash", 1], ["cstr", 0], ["cstr", 1], ["eq", 0, 1], ["eq", 1, 2]]
    n = 4 if c.quick else 5
    # sharing: every operation that writes into its string
    hist.enum(c, exe, "strhist", "EnumStr", {"init": [b("ab\\nab"), b("ab")], "rc": 1},
              [["share", 0, 1], ["share", 1, 0], ["cats", 0, 1], ["cats", 1, 1], ["trunc", 0, 1, 4], ["reduce", 1, b("ab"), b("c")], ["stripc", 0], ["ltrim", 1, b("a")], ["rtrim", 0, b("b")], ["indent", 0, b(" ")], ["hash", 1]], n, OBS, "shared strings")
    hist.enum(c, exe, "strhist", "EnumStr", {"init": [b("<a>\n\n"), b("&")], "rc": 1},
              [["share", 0, 1], ["htmlcat", 0, b("<b")], ["htmlcat", 1, b("c")], ["fmtcat", 1, b("q"), 5], ["fmt", 0, 2, 1], ["replace", 0, b("\n"), b("<>")], ["addc", 0, b("\n<")], ["extend", 1, 100], ["compact", 1], ["join", 1, b(", "), 0, 3], ["eq", 0, 1]], n, OBS, "shared strings")
    # every function on every short string over an alphabet, alone
    import itertools
    al = ["a", "b", "\\", "n", "x", "7", "\0", "\n"]
    L = 4 if c.quick else 5
    reqs = []
    fns = lambda: [["stripc", 0], ["ltrim", 1, b("ab")], ["rtrim", 2, b("b\n\0")], ["addc", 3, b("\n\0\\a")]]
    for k in range(L + 1):
        for t in itertools.product(al, repeat=k):
            s = b("".join(t))
            reqs.append({"init": [s, s, s, s], "rc": int(len(reqs) % 2), "ops": fns() + [["val", i] for i in range(4)] + [["hash", i] for i in range(4)]})
    al2 = ["a", "b", "\n", "<"]
    for k in range(L + 1):
        for t in itertools.product(al2, repeat=k):
            s = b("".join(t))
            for p in ("a", "ab", "aa", "\n", "aab"):
                reqs.append({"init": [s, s, s, s], "rc": int(len(reqs) % 2), "ops": [["replace", 0, b(p), b("XY")], ["reduce", 1, b(p), []], ["find", 2, b(p)], ["indent", 2, b(". ")], ["htmlcat", 3, s]] + [["val", i] for i in range(4)]})
    # every byte, through every function, as text and as the set of bytes or the text looked for
    for x in range(256):
        for s in ([x], [97, x, 98], [x, x], [92, x], [92, x, 49, 48], [x, 10, x]):
            one = [["addc", 0, [x]], ["addc", 0, [98]], ["addc", 1, [10, x, 98]], ["stripc", 2], ["rtrim", 3, [x]], ["val", 0], ["val", 1], ["val", 2], ["val", 3], ["hash", 3], ["stripc", 1], ["val", 1]]
            two = [["htmlcat", 0, s], ["html", 1, s] if x % 2 else ["htmlcat", 1, [x]], ["indent", 2, [x]] if x else ["indent", 2, [32]], ["replace", 3, [x], [60, x]], ["val", 0], ["val", 1], ["val", 2], ["val", 3], ["reduce", 3, [60, x], [x]], ["val", 3]]
            if x: one.insert(5, ["ltrim", 3, [x]])
            reqs += [{"init": [s, s, s, s + [x]], "rc": x % 2, "ops": o} for o in (one, two)]
    hist.cases(c, exe, "strhist", "CaseStr", reqs, "string function")
    reqs = []
    for i in range(6000 if c.quick else 80000):
        r = c.rng
        st = [text(r) for _ in range(4)]
        reqs.append({"init": st, "rc": int(r.random() < .75), "ops": [op(r, st, k) for k in range(r.choice([3, 8, 20, 30]))] + OBS + [["val", 3]]})
    hist.cases(c, exe, "strhist", "CaseStr", reqs, "string history")
    c.assumptions += ["ltrim is not given NUL among the bytes to trim (it stops at a NUL)", "bytes appended are not part of the string appended to, except by append_str"]
chk.main("D04", "model_checking", check)
