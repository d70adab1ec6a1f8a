"""R07: static text and partial indents after whitespace control are those of HbsWhitespace."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, frontcmp as f, gen, hbuild
W1 = [(" ", 0), ("\n", 0), ("x", 0), ("{{#a}}", 1), ("{{/a}}", -1), ("{{^}}", 0), ("{{>p}}", 0)]
W2 = [("\t", 0), ("\r\n", 0), ("x", 0), ("{{#a}}", 1), ("{{/a}}", -1), ("{{else b}}", 0), ("{{!c}}", 0), ("{{a}}", 0)]
W3 = [(" \n ", 0), ("x", 0), ("{{~#a}}", 1), ("{{#a~}}", 1), ("{{~/a}}", -1), ("{{/a~}}", -1), ("{{~^}}", 0), ("{{^~}}", 0), ("{{~a~}}", 0)]
W4 = [(" ", 0), ("\n", 0), ("{{#>a}}", 1), ("{{/a}}", -1), ("{{>p}}", 0), ("{{{{a}}}}{{{{/a}}}}", 0), ("{{!c}}", 0), ("{{#*a}}", 1)]
W5 = [(" ", 0), ("\n", 0), ("x", 0), ("{{~else b~}}", 0), ("{{else b}}", 0), ("{{else}}", 0), ("{{#a}}", 1), ("{{^a}}", 1), ("{{/a}}", -1), ("{{~/a~}}", -1)]
def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    for w, n, m in ((W1, 5, 8), (W2, 4, 7), (W3, 4, 6), (W4, 4, 7), (W5, 4, 7)):
        f.enum_cases(c, exe, "strip", w, n if q else m, bal=True)
    f.enum_cases(c, exe, "strip", W3, 4 if q else 5, bal=True, ign=True)
    f.enum_cases(c, exe, "strip", W1, 4 if q else 6, bal=True, ign=True)
    g = gen.G(c.rng, literals=False, names=["a", "b"])
    g.text = lambda: c.rng.choice(["x", " ", "\n", "\r\n", "  \n", "\n  ", "a\nb", "\t", " y ", "\n\n", "", " \t\n\t ", "\n \n", "\v", "é", "\r"])
    def mk():
        x = c.rng.random()
        t = g.body(3, c.rng.choice([1, 2, 3, 4, 5])).encode("utf8")
        if x < .1: t = gen.mutate(c.rng, t)
        return t, c.rng.random() < .15
    f.random_cases(c, exe, "strip", 4000 if q else 60000, mk)
chk.main("R07", "model_checking", run)
