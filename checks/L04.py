"""L04: printed tokens, trees and instruction listings are those of HbsPrint."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, gen, hbuild, printcmp as p, rgen
def b(x): return list(x.encode("latin1"))
HEADS = ["a", "a.b", "a/b.c", "../a", "../../a.b", "./a", "this", "this.a", ".", "..", "@a", "@../a.b", "[a b]", "a.[b]]c].d", "1", "-1.5", "true", "false", "null", "undefined", '"s"', "'s'", '"a\\"b"', "'\n'", '"\t\r"', "2147483647", "0", "-2147483647", "0.0", "007", "1.00"]
PARAMS = ["", " b", ' "s" \'t\'', " 1 2.5 -3", " true null undefined", " (f)", " (f a (g 1 k=2) k=(h))", " k=v", ' k="s" l=1 m=(f x y=2)', " ../a/b @index", " a b c k=1 [l m]=2"]
def enum(rng):
    o = []
    for h in HEADS:
        for a in PARAMS:
            o += ["{{%s%s}}" % (h, a), "{{&%s%s}}{{{%s%s}}}" % (h, a, h, a), "{{* %s%s}}" % (h, a), "{{#%s%s}}x{{/%s}}" % (h, a, h), "{{#* %s%s}}x{{/%s}}" % (h, a, h), "{{^%s%s as |u|}}x{{else}}y{{/%s}}" % (h, a, h),
                  "{{#%s%s as |u v|}}\n{{u}}\n{{^}}z{{/%s}}" % (h, a, h), "{{> %s%s}}" % (h, a), "{{#> %s%s}}x{{a 1}}{{> q 2}}{{a 1}}{{/%s}}" % (h, a, h), "{{{{%s%s}}}} {{x}} {{{{/%s}}}}" % (h, a, h)]
    bodies = ["", "x", "{{a}}", "{{#b}}y{{/b}}", "{{#b}}{{else}}y{{/b}}", "{{^b}}y{{/b}}", "{{#b}}1{{else if c}}2{{else}}3{{/b}}", "{{> p}}", "{{#> p k=1}}{{f \"1\" 1}}{{/p}}", "{{! c}}", "\n"]
    for x in bodies:
        for y in bodies:
            o += [x + y, "{{#a}}" + x + y + "{{/a}}", "{{#a}}" + x + "{{else}}" + y + "{{/a}}" + x, "{{#> p}}" + x + y + "{{/p}}" + y, "{{#a}}" + x + "{{else if z}}" + y + "{{^}}" + x + "{{/a}}", "{{#* a}}" + x + "{{/a}}" + y]
    for n in list(range(1, 22)) + [30, 31, 32, 33]:
        o += ["{{#a}}" * n + "x" + "{{/a}}" * n + "{{a}}", "{{^a}}" * n + "x{{else}}y" + "{{/a}}" * n, "{{#> a}}" * n + "x" + "{{/a}}" * n, "{{#* a}}" * n + "x" + "{{/a}}" * n]
    for s in ["\0", "a\0b", "\r\n\t\v\f\b\a", "\\n", "\\\\{{a}}", "\\{{a}}b", "\x7f\x80\xff\xfe", "]", "' ]", "'", "{", "}}", " ", "%s%n", "x" * 300]:
        o += [s, s + "{{a}}" + s, "{{a '%s'}}" % s.replace("'", '"'), "{{#a \"%s\"}}{{/a}}" % s, "{{! %s }}" % s.replace("}}", ""), "{{!-- %s --}}" % s, "{{[%s]}}" % s.replace("]", ""), "{{> p '%s'}}" % s.replace("'", "")]
    return [b(x) for x in o]
FL = [0, 1, 2, 3, 8, 16, 1 << 4 | 4, 1 << 8, 1 << 9, 1 << 10, 1 << 12, 1 << 12 | 1, 1 << 7, 1 << 11 | 1 << 10, 1 << 5]
def run(c):
    exe = hbuild.build("asan"); rng = c.rng; q = c.quick
    ts = enum(rng)
    cs = [{"t": t, "flags": f} for t in ts for f in ([0] + rng.sample(FL[1:], 1) if q else FL)]
    p.cases(c, exe, cs)
    # seeded templates, valid and broken, and what rendering uses, with any options
    g = gen.G(rng); cs = []
    for i in range(4000 if q else 60000):
        x = rng.random()
        t = list(gen.soup(rng)) if x < .2 else list(g.template()) if x < .5 else list(gen.mutate(rng, g.template())) if x < .7 else rgen.case(rng, {"flags": 0})["t"]
        cs.append({"t": t, "flags": rgen.flags(rng, rng.choice([0, 0, .1, .3]))})
    p.cases(c, exe, cs)
    c.assumptions += ["a run of text is printed as one CONTENT token: where the scanner splits it is not judged", "indentation of the tree follows the original printer's bookkeeping (each program takes one step back)"]
chk.main("L04", "model_checking", run)
