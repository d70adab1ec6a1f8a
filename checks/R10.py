"""R10: helpers are called as HbsSem calls them."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, semcmp as s, hbuild
H = ["echo", "opts", "wrap", "frame", "safe", "ident", "nul", "list", "obj", "fail", "f", "b.f", "nope", "a", "lfalse", "larr", "b.g", "if", "lookup", "../f", "this.f", "./echo", "helperMissing", "blockHelperMissing", "log"]
ARGS = ["", " a", " a b", " 1 's' true null undefined", " k=1", " a k=b.c j=(echo 1)", " (echo a k=2) (list 1 (list))", " nope.x", " this ..", " @index @root.a", " k=1 k=2 z=3 a=4", " (f) (nope)", " (b.f 1)", " \"a\\\"b\" 'c'", " -5 0 1.5", " 4294967296 -2147483648 2147483648 k=9007199254740993", " 9223372036854775807 -9223372036854775808 9223372036854775808 -9223372036854775809 99999999999999999999.0", " 007 -007 -0 00 1.00 12345678901.00 12345678901.5", " (ident (ident (ident b)))", " (fail)", " k=(fail)"]
W = ["{{%s}}", "{{{%s}}}", "{{#%s}}P{{this}}{{else}}I{{a}}{{/%s}}", "{{#%s}}P{{/%s}}", "{{^%s}}I{{/%s}}", "{{#%s as |x y|}}{{x}},{{y}}{{/%s}}", "{{echo (%s)}}", "{{#each l}}{{%s}}{{/each}}", "{{#with b}}{{opts (%s) k=(%s)}}{{/with}}", "{{{{%s}}}}r{{x}}{{{{/%s}}}}", "{{#if (%s)}}T{{/if}}", "{{> (%s)}}", "{{> p (%s)}}", "{{#if nope}}{{else %s}}E{{else}}F{{/if}}"]
DATA = {"a": "A", "b": {"c": "C", "f": ("lam",), "g": ("larr",), "a": "BA"}, "f": ("lam",), "l": [1, {"a": "x"}], "z0": 0}
def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    hs = ["echo", "opts", "wrap", "frame", "safe", "ident", "nul", "list", "obj", "fail", "lfalse", "larr"]
    e = s.env(DATA, (), hs, {"p": "[{{.}}]", "A": "partial A"})
    e2 = s.env(DATA, (), [["helperMissing", "echo"], ["blockHelperMissing", "opts"], ["if", "wrap"], ["each", "list"], ["a", "opts"], ["echo", "nul"]], {"p": "[{{.}}]"})
    # functions of the data in the place of fields and sections: called when the value is used
    pl = {"a": "A", "b": {"c": "C", "f": ("opts",), "g": ("wrap",), "a": "BA"}, "f": ("opts",), "l": [1, {"a": "x"}], "g": ("wrap",), "e": ("echo",), "fr": ("frame",), "x": ("ident",), "nu": ("nul",), "er": ("fail",), "lm": ("lam",)}
    e3 = [s.env(pl, fl, (), {"p": "[{{.}}]", "A": "partial A"}) for fl in ((), ("known_helpers_only",), ("compat",), ("mustache_style_lambdas", "compat"), ("strict",), ("known_helpers_only", "no_escape"))]
    cs = []
    for n in ("f", "g", "e", "fr", "x", "nu", "er", "lm", "b.f", "b.g", "this.f", "../f", "./e", "@root.f", "@root.b.g", "l.[1].f", "l"):
        for w in ("{{%s}}", "{{{%s}}}", "{{#%s}}P{{this}}{{else}}I{{a}}{{/%s}}", "{{#%s}}P{{/%s}}", "{{^%s}}I{{a}}{{/%s}}", "{{#%s as |x y|}}{{x}},{{y}}{{/%s}}", "{{#if %s}}T{{a}}{{else}}E{{/if}}", "{{#unless %s}}T{{/unless}}", "{{#each %s}}{{.}}{{else}}E{{/each}}", "{{#with %s}}{{.}}{{else}}E{{/with}}", "{{#with b}}{{%s}}{{#%s}}Q{{/%s}}{{/with}}", "{{#each l}}{{%s}}{{/each}}", "{{> p %s}}", "{{> (%s)}}", "{{#> p %s}}x{{/p}}", "{{lookup %s 'a'}}", "{{lookup . %s}}", "{{%s b}}", "{{#%s b k=a}}P{{else}}I{{/%s}}", "{{{{%s}}}}r{{x}}{{{{/%s}}}}"):
            t = w % ((n,) * w.count("%s"))
            for k, ee in enumerate(e3):
                if q and (len(cs) + k) % 2: continue
                cs.append(dict(ee, t=list(t.encode())))
    for h in H:
        for a in ARGS:
            for i, w in enumerate(W):
                n = w.count("%s")
                x = h + a
                t = w % ((x,) if n == 1 else (x, x) if "opts (%s)" in w else (x, h))
                for k, ee in enumerate((e, e2)):
                    if q and (len(cs) + i) % 3 and k: continue
                    cs.append(dict(ee, t=list(t.encode())))
    # functions that are registered under names that look like paths: found under a simple name only
    pn = ["b.f", "b.g", "b/f", "../f", "./f", "this.f", "this", "@root.f", "@index", "..", ".", "b.[f]", "b.a", "5", "true", "undefined", "[f]", "a b", "f.x"]
    for i, k in enumerate(("echo", "opts", "wrap")):
        for fl in ((), ("known_helpers_only",), ("mustache_style_lambdas", "compat")):
            ee = s.env(DATA, fl, [[n, k] for n in pn], {"p": "[{{.}}]", "A": "partial A"}, known=[None, pn][i % 2])
            for h in pn + ["[b.f]", "[this]", "[..]", "[a b]", "[@index]", "[5]", "b.[g]", "this/f", "[f.x]"]:
                for a in ("", " a", " 1 (b.f 1)", " k=(this.f a)", " (5)"):
                    for w in W:
                        if q and c.rng.random() < .85: continue
                        n = w.count("%s"); x = h + a
                        cs.append(dict(ee, t=list((w % ((x,) if n == 1 else (x, x) if "opts (%s)" in w else (x, h))).encode())))
    s.cases(c, exe, cs, {"after": 1})
    A = [("{{#wrap}}", 1), ("{{/wrap}}", -1), ("{{#frame b 1 as |x y|}}", 1), ("{{/frame}}", -1), ("{{else}}", 0, 1), ("{{x.c}}{{@v}}{{a}}", 0), ("{{opts a}}", 0), ("{{echo (nul) @v x}}", 0), ("{{#ident b}}", 1), ("{{/ident}}", -1), ("{{#f}}", 1), ("{{/f}}", -1), ("{{#opts}}", 1), ("{{/opts}}", -1), ("{{else wrap}}", 0, 1)]
    s.enum(c, exe, A, 4 if q else 5, [e], bal=True)
    # helpers the compiler is told of: those of the environment and others, and a name that is a field too
    ks = [s.env(DATA, fl, ["echo", "wrap", "opts", "ident"], {"q": "({{echo}}{{a}}{{#wrap}}{{nope}}{{/wrap}}{{> @partial-block}})"}, known=known) for known in ([], ["echo"], ["echo", "a", "nope"], ["f", "opts", "wrap", "ident"], ["a", "b", "x", "p", "this"]) for fl in ((), ("known_helpers_only",), ("strict",), ("compat", "mustache_style_lambdas"))]
    s.enum(c, exe, [("{{echo}}{{echo a}}", 0), ("{{a}}{{{a}}}", 0), ("{{#a}}", 1), ("{{/a}}", -1), ("{{nope}}", 0), ("{{#wrap}}", 1), ("{{/wrap}}", -1), ("{{else}}", 0, 1), ("{{f}}{{b.f}}{{./a}}", 0), ("{{#if (ident a)}}", 1), ("{{/if}}", -1), ("{{> q}}", 0), ("{{#> q}}", 1), ("{{/q}}", -1), ("{{#each l as |a x|}}", 1), ("{{/each}}", -1), ("{{x}}", 0)], 2 if q else 3, ks, bal=True, laws=("MachineLaw",))
    s.probe(c, exe, 1500 if q else 30000, "args")
    s.random(c, exe, 3000 if q else 80000, lambda: {"flags": .02, "hp": .9, "lams": .15, "alias": .3, "partial": .05})
chk.main("R10", "model_checking", run)
