"""R06: partials are those of HbsSem."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, semcmp as s, hbuild
A1 = [("{{> p}}", 0), ("{{> q a}}", 0), ("{{> p k=a}}", 0), ("{{> (lookup . 'n') b k=1}}", 0), ("{{> nope}}", 0), ("{{#> p}}", 1), ("{{#> nope k=b}}", 1), ("{{/nope}}", -1), ("{{/p}}", -1), ("{{> @partial-block}}", 0), ("{{k}}{{a}},", 0), ("{{#with b}}", 1), ("{{/with}}", -1), ("{{#> @partial-block}}", 1), ("{{/@partial-block}}", -1)]
A2 = [("{{#each l}}", 1), ("{{/each}}", -1), ("{{#> w}}", 1), ("{{/w}}", -1), ("{{#> w . k='K'}}", 1), ("{{> p}}", 0), ("{{@index}}", 0), ("{{../a}};", 0), ("{{#> x}}", 1), ("{{/x}}", -1), ("{{#with b as |z|}}", 1), ("{{/with}}", -1), ("{{z.a}}{{k}}", 0)]
PS = [{"p": "[{{a}}{{k}}{{.}}]", "q": "<{{a}}{{../a}}{{#> @partial-block}}d{{/@partial-block}}>", "w": "({{> @partial-block}}{{@index}})", "x": "{{#each this}}{{> @partial-block k=@key}}{{/each}}{{k}}"},
      {"p": "{{#> w}}p{{> @partial-block}}{{/w}}", "q": "{{k}}{{> p}}", "w": "W{{> @partial-block a='in'}}{{> @partial-block b}}", "x": "{{#> p k='x'}}{{z}}{{a}}{{/p}}"},
      {"p": ("echo",), "q": "", "w": "{{#if @partial-block}}has{{/if}}{{#with b}}{{> @partial-block}}{{/with}}", "x": "{{> p}}{{{{raw}}}}"},
      {"p": "{{#> q}}{{a}}{{/q}}", "q": "{{#> w}}{{> @partial-block}}q{{/w}}", "w": "{{> @partial-block}}{{k}}", "x": 5}]
DATA = [{"a": "A", "b": {"a": "BA", "n": "w"}, "l": [{"a": 1}, "s"], "n": "p", "k": "ctx"}, {"a": None, "b": "str", "l": {"x": [1], "y": {"k": 2}}, "n": "q"}, {"n": 5, "b": [], "l": []}]
def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    envs = [s.env(d, f, ["echo"], p) for p in PS for d in DATA[:2 if q else 3] for f in (((), ("compat",)) if q else ((), ("compat",), ("explicit_partial_context",)))]
    s.enum(c, exe, A1, 3, envs, bal=True)
    s.enum(c, exe, A2, 3 if q else 4, envs, bal=True)
    if not q: s.enum(c, exe, A1, 4, envs[:6], bal=True)
    # the forms a partial's name and arguments take
    cs = []
    for n in ["p", "'p'", '"a b"', "p/s", "./p", "../p", "1", "1.5", "true", "null", "undefined", "this", "@root", "p.q", "[p]", "(ident 'p')", "(ident n)", "(ident nope)", "(ident 5)", "(lookup b 'n')", "@partial-block", "(nul)", "."]:
        for a in ["", " a", " b", " this", " ..", " nope", " 5", " 's'", " true", " null", " (ident b)", " l", " @root", " 0"]:
            for h in ["", " k=1", " a=b k=(ident a)", " k=1 k=2", " a=nope"]:
                for f in ((),) if q and (a or h) else ((), ("compat",), ("explicit_partial_context",)):
                    e = s.env(DATA[0], f, ["ident", "nul"], {k: "{{a}}|{{k}}|{{.}}|{{#with .}}{{a}}{{/with}}{{../a}}" for k in ["p", "a b", "p/s", "./p", "../p", "1", "1.5", "true", "this", "@root", "p.q", ".", "w", "null", "undefined"]})
                    cs.append(dict(e, t=list(("{{> %s%s%s}}{{a}}{{k}}" % (n, a, h)).encode())))
                    cs.append(dict(e, t=list(("{{#with b}}{{#>%s%s%s}}B{{k}}{{../a}}{{/%s}}{{a}}{{/with}}" % (n, a, h, n.strip("'\""))).encode())))
    s.cases(c, exe, cs, {"after": 1})
    s.scopes(c, exe, 800 if q else 30000)
    s.probe(c, exe, 1500 if q else 30000, "partial")
    s.random(c, exe, 2500 if q else 60000, lambda: {"flags": .15, "flagset": ["compat", "explicit_partial_context"], "raw": 0, "partial": .4, "lams": .03, "hp": .3}, {"after": 1})
chk.main("R06", "model_checking", run)
