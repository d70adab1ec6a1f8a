import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, hbuild, hist, datagen, rgen

b = lambda s: list(s.encode("latin1"))
A, M, I, S, K, H = datagen.A, datagen.M, datagen.I, datagen.S, datagen.K, datagen.H
def check(c):
    exe = hbuild.build("asan", driver="data")
    obs = [["all", 0], ["eq", 0, 1], ["eq", 1, 2], ["push", 0, 3], ["upd", 1, K[1], 3], ["app", 3, b("!")], ["all", 0]]
    n = 4 if c.quick else 5
    hist.enum(c, exe, "heap", "EnumHeap", {"init": [A(1, I(1), S("x")), M(2, k=I(5)), S("s"), I(9)]},
              [["copy", 1, 0], ["copy", 0, 1], ["push", 0, 0], ["push", 0, 1], ["upd", 1, K[0], 0], ["upd", 1, K[0], 1], ["nthinto", 0, 0, 0], ["getinto", 1, 1, K[0]], ["set", 0, 0, 0], ["del", 1, K[0]]], n, obs, "values")
    hist.enum(c, exe, "heap", "EnumHeap", {"init": [A(1, A(2, S("deep"))), M(3, k=A(4, I(1)), l=S("z")), S("s"), S("t")]},
              [["copy", 2, 1], ["inner", 1, K[0], 3], ["inner", 2, K[0], 0], ["each_upd", 1, K[1], 3], ["each_del", 2, K[0]], ["each_set", 0, 3], ["copy", 3, 2], ["app", 3, b("+")], ["app", 2, b("-")], ["flag", 3], ["rawadd", 1, K[2], 2]], n, obs, "values")
    reqs = []
    for i in range(3000 if c.quick else 50000):
        reqs.append(H(c.rng).history(c.rng.choice([5, 12, 25, 45])))
    hist.cases(c, exe, "heap", "CaseHeap", reqs, "history of values")
    c.assumptions += ["an array that is changed through the very variable being iterated is not covered (the walk is over the variable)"]
chk.main("D02", "model_checking", check)
