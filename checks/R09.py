"""R09: every compile option changes what HbsSem says it changes."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, semcmp as s, hbuild, rgen
E = ["a", "b", "b.c", "b.c.d", "nope", "nope.x", "b.nope", "b.nope.x", "@root.a", "@nope", "@nope.x", "@index", "this", ".", "../a", "../nope", "this.nope", "./nope", "a.x", "l.0", "l.9", "l.0.x", "f", "b.f", "echo", "ident", "if", "lookup b 'c'", "lookup b 'nope'",
     "echo a", "echo nope", "echo nope.x", "nope a", "b.nope a", "b.f a", "echo k=nope", "ident (nope)", "ident (echo nope)", "if nope", "with nope", "each nope", "n", "n.x", "e", "@partial-block", "@../index", "@root.nope", "@root.b.nope.x", "f 1", "mlam"]
W = ["{{%s}}", "{{{%s}}}", "{{#%s}}+{{this}}{{else}}-{{/%s}}", "{{^%s}}+{{a}}{{/%s}}", "{{#if (ident (%s))}}y{{/if}}", "{{#with b}}{{%s}}{{/with}}", "{{#each l}}{{#%s}}x{{/%s}}{{/each}}", "{{> p %s}}", "{{#with b as |b|}}{{%s}}{{/with}}"]
DATA = {"a": "<A>", "b": {"c": {"d": "D"}, "f": ("lam",)}, "l": [{"a": 1}, "s"], "f": ("lam",), "n": None, "e": "", "mlam": ("mlam",), "v": "VV"}
def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    names = list(rgen.FLAGS)
    fs = [()] + [(n,) for n in names] + [x for x in itertools.combinations(["strict", "assume_objects", "known_helpers_only", "compat", "mustache_style_lambdas", "explicit_partial_context", "no_escape"], 2)]
    ps = {"p": "[{{a}}{{.}}{{nope}}]"}
    cs = []
    for f in fs:
        e = s.env(DATA, f, ["echo", "ident"], ps)
        for x in E:
            for w in W if not q or len(f) < 2 or f[0] in ("strict", "assume_objects") else W[:4]:
                n = w.count("%s")
                cs.append(dict(e, t=list((w % ((x,) if n == 1 else (x, x.split()[0]))).encode())))
    s.cases(c, exe, cs)
    # sections handled by functions that return templates
    A = [("{{#mlam}}", 1), ("{{/mlam}}", -1), ("{{v}}", 0), ("{{mlam}}", 0), ("{{{mlam}}}", 0), ("{{#b}}", 1), ("{{/b}}", -1), ("{{^mlam}}", 1), ("{{f}}", 0), ("{{#f}}", 1), ("{{/f}}", -1), ("{{> p}}", 0), (" \n", 0)]
    for f in (("mustache_style_lambdas",), ("mustache_style_lambdas", "compat")):
        s.enum(c, exe, A, 3 if q else 4, [s.env(DATA, f, [], ps), s.env({"b": [DATA, {"v": "<2>"}], "mlam": ("lfalse",), "f": ("nul",), "v": "&"}, f, ["echo"], ps)], bal=True)
    s.random(c, exe, 4000 if q else 100000, lambda: {"flags": .16, "lams": .1})
chk.main("R09", "model_checking", run)
