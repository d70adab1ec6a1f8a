import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, hbuild, hist, datagen

V, OBS, history = datagen.V, datagen.STACK_OBS, datagen.stack_history
def check(c):
    exe = hbuild.build("asan", driver="data")
    one = [["push", 0, V(1)], ["push_own", 0, 0], ["pop", 0], ["set", 0, 0, V(2)], ["set", 0, 2, V(3)], ["set_own", 0, 1, 0], ["prot", 0, 1], ["save", 0], ["restore", 0], ["trunc", 0, 0], ["copy", 0, 0]]
    two = [["push", 0, V(1)], ["push", 1, V(2)], ["pop", 0], ["pop", 1], ["set", 0, 0, V(3)], ["share", 0], ["share", 1], ["prot", 1, 1], ["trunc", 0, 0], ["save", 0], ["restore", 1]]
    for fixed, cap in [(0, 0), (0, 2), (1, 2)] + ([] if c.quick else [(0, 1), (1, 0), (1, 1), (1, 3)]):
        hist.enum(c, exe, "stackhist", "EnumStack", {"fixed": fixed, "cap": cap}, one, 4 if c.quick else 5, OBS, "stack")
        hist.enum(c, exe, "stackhist", "EnumStack", {"fixed": fixed, "cap": cap}, two, 4 if c.quick else 5, OBS, "two handles")
    reqs = []
    for i in range(3000 if c.quick else 60000):
        f = c.rng.random() < .35
        reqs.append({"fixed": int(f), "cap": c.rng.choice([0, 1, 3, 4, 8, 16]), "ops": history(c.rng, c.rng.choice([8, 25, 60, 150]), c.rng.random() < .5)})
    hist.cases(c, exe, "stackhist", "CaseStack", reqs, "stack history")
    c.assumptions += ["memory for a stack in fixed memory is exactly handlebars_stack_size(capacity) (ASan sees writes beyond it)"]
chk.main("D03", "model_checking", check)
