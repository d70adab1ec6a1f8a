"""L02: acceptance, error codes and trees are those of HbsParser."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, frontcmp as f, gen, hbuild
A1 = ["{{#a}}", "{{/a}}", "{{/b}}", "{{^}}", "{{else}}", "{{else if b}}", "{{^a}}", "x", "{{>p}}", "{{#>a}}", "{{#*a}}"]
A2 = ["{{", "}}", "a", " ", "(", ")", "=", "1", ".", "/", "..", "this", "\"s\"", "@"]
A3 = ["{{#", "{{/", "{{else ", "}}", "a", " b", " c=1", " as |x|", "y", "{{^}}"]
A4 = ["{{>", "{{#>", "{{/", "{{{", "}}}", "}}", "p", "\"p\"", "1", "(f a)", " a", " k=a", "{{&", "{{*"]
def run(c):
    exe = hbuild.build("asan")
    z = lambda l: [(x, 0) for x in l]
    q = c.quick
    f.enum_cases(c, exe, "grammar", z(A1), 3 if q else 5)
    f.enum_cases(c, exe, "grammar", z(A2), 3 if q else 4)
    f.enum_cases(c, exe, "grammar", z(A3), 3 if q else 5)
    f.enum_cases(c, exe, "grammar", z(A4), 3 if q else 4)
    # the inside of one mustache / of a pair of tags, complete
    f.enum_cases(c, exe, "grammar", [("{{#a" + x + "}}" + y + "{{/" + n + "}}", 0) for x in ("", " b", " b=c", " (b c=1)", " as |x|", " as |x y|", " b as |z|")
                                     for y in ("", "x", "{{else}}y", "{{^}}", "{{else b}}z{{else}}w", "{{else}}u{{else}}v") for n in ("a", "b", "[a]")], 1)
    # what opens and what closes a block: every pair of names that are nearly the same
    N = ["ab", "ac", "cb", "a", "abc", "AB", '"ab"', "'ab'", "[ab]", "12", "13", "a.b", "a/b", "a.c", "./ab", "this.ab", "this", ".", "..", "../ab", "@ab", "true", "false", "null", "undefined", "a.[b]"]
    ps = [(x, y) for x in N for y in N]
    if q: ps = [p for p in ps if c.rng.random() < .5 or p[0] == p[1]] + [("ab", "ac"), ("ab", "cb")]
    # (how the close tag of {{^"ab"}} is printed back, quoted or not, is immaterial)
    TAGS = (("{{#%s}}", "{{/%s}}"), ("{{^%s}}", "{{/%s}}"), ("{{#>%s}}", "{{/%s}}"), ("{{{{%s}}}}", "{{{{/%s}}}}"), ("{{#*%s}}", "{{/%s}}"), ("{{#%s 1 as |k|}}y{{else}}", "{{/%s}}"))
    LST = [((o % x + "x" + cl % y).encode(), False) for o, cl in TAGS for x, y in ps if o[2] != "^" or x[0] not in "'\""]
    for at in range(0, len(LST), 2000):
        it = iter(LST[at:at + 2000])
        f.random_cases(c, exe, "grammar", len(LST[at:at + 2000]), lambda: next(it))
    g = gen.G(c.rng)
    def mk():
        x = c.rng.random()
        if x < .25: return gen.soup(c.rng), False
        if x < .6: return g.template(), False
        return gen.mutate(c.rng, g.template()), False
    f.random_cases(c, exe, "grammar", 4000 if q else 60000, mk)
    c.assumptions += ["the tree is compared up to whitespace control (R07)"]
chk.main("L02", "model_checking", run)
