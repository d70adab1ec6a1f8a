"""E01: after any failure the same context and machines give what fresh ones give."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, hbuild, drv, gen, rgen, semcmp as s, seqcmp

def b(x): return list(x.encode("latin1"))
def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    D = {"a": "A<", "b": [1, 2, {"a": "x"}], "c": {"a": "C", "f": ("fail",)}, "f": ("lam",), "u": "{{#a}}"}
    P = {"p": "[{{a}}]", "bad": "{{#a}}", "fl": "{{a}}{{fail}}{{a}}", "self": "{{> self}}", "pb": "({{> @partial-block}})", "deep": "{{#each b}}{{#with ../c}}{{> fl}}{{/with}}{{/each}}", "emp": "", "un": "{{> nope}}", "ml": "{{=<% %>=}}<%#a%>"}
    e = lambda t, f=(), dv=None, d=D: dict(s.env(d, f, ["fail", "echo", "frame", "wrap", "opts", "list", "safe"], P, dv), t=b(t))
    # one of every way to fail, and renders that show what could be left behind
    bad = [e("{{#a}}"), e("{{a"), e("x\n  {{#a}}{{/b}}"), e("{{> nope}}"), e("{{fail}}"), e("{{nope 1}}"), e("x{{> bad}}"), e("{{#each b}}{{> fl}}{{/each}}"), e("{{> deep}}"), e("{{#> pb}}{{fail}}{{/pb}}"), e("{{#frame a 7}}{{#with c as |x|}}{{fail}}{{/with}}{{/frame}}", dv={"v": 1}),
           e("{{echo (list 1 (fail) 3) k=(echo a)}}"), e("{{#> nope}}{{fail}}{{/nope}}"), e("{{a}}{{nope.x}}", ("strict",)), e("{{#b}}{{> un}}{{/b}}", ("compat",)), e("{{* dec}}"), e("{{#f}}{{fail}}{{/f}}", ("mustache_style_lambdas", "compat")), e("{{=<% %>=}}<%> ml%>", ("compat",)),
           e("{{#each b as |x i|}}{{#wrap x}}{{> pb}}{{/wrap}}{{/each}}"), e("{{{{raw}}}}x"), e("{{> p a b}}"), e("{{else}}"), e("{{#c}}{{f}}{{/c}}", ("mustache_style_lambdas",))]
    good = [e("{{a}}{{b.0}}{{@v}}{{@root.a}}"), e("{{#each b as |x i|}}{{i}}{{x}}{{@index}}{{@key}}{{#with ../c}}{{a}}{{../@index}}{{@../index}}{{/with}}{{/each}}{{@index}}{{i}}{{x}}"), e("{{#> pb}}{{a}}{{> p}}{{/pb}}  {{> p}}\n"), e("{{f}}{{#f}}{{a}}{{/f}}", ("mustache_style_lambdas",)),
            e("{{> p}}{{#frame a 5}}{{@v}}{{/frame}}{{@v}}", dv={"v": 2}), e("{{=<% %>=}}<%a%><%> p%>{{a}}", ("compat",)), e("{{#a}}{{../b.1}}{{> @partial-block}}{{/a}}"), e("{{#b}}{{.}}{{a}}{{/b}}{{^z}}N{{/z}}{{opts 1 k=2}}", ("compat",)), e("{{a}}", ("no_escape",))]
    vms = lambda h, v: [dict(x, vm=w) if w is not None else dict(x) for x, w in zip(h, v)]
    hs = []
    for x in bad:
        for y in good + bad:
            hs.append({"op": "renders", "seq": vms([x, y, x, y], [0, 0, 0, 0])})
            hs.append({"op": "renders", "seq": [dict(z, bare=1) for z in vms([x, y, y, x], [0, 0, None, 1])]})
    for _ in range(300 if q else 20000):
        hs.append({"op": "renders", "seq": [dict(x, vm=c.rng.randrange(2), bare=c.rng.randrange(2), times=c.rng.choice([1, 1, 2])) for x in [c.rng.choice(bad if c.rng.random() < .6 else good) for _ in range(c.rng.choice([5, 10, 20]))]]})
    for x in (e("{{> self}}"), e("{{#each b}}{{#if @first}}{{> self}}{{/if}}{{/each}}", ("compat",))):
        hs.append({"op": "renders", "seq": vms([x, good[0], x, good[2], good[1]], [0] * 5)})
        hs.append({"op": "renders", "seq": [dict(z, bare=1) for z in vms([x, good[1], good[4]], [0] * 3)]})
    # a failure deep in blocks, more often than there are levels; then what needs many levels
    deep = "{{#with c}}" * 20 + "%s" + "{{/with}}" * 20
    for k in (1, 8, 20) if q else (1, 3, 8, 20, 40):
        for f in ("{{fail}}", "{{> nope}}", "{{nope 1}}", "{{> fl}}", "{{#> pb}}{{fail}}{{/pb}}"):
            for fl in ((), ("compat",)):
                x = e(deep % f, fl); y = e(deep % "{{a}}", fl)
                hs.append({"op": "renders", "seq": [dict(z, bare=k % 2) for z in vms([y] + [x] * k + [y, good[1]], [0] * (k + 3))]})
    seqcmp.judge(c, exe, hs, "failures of every kind", True)
    # a failure at every place: a failing helper, an unknown one, a missing partial put behind every tag of a template
    hs = []
    FAILS = ["{{fail}}", "{{> nope}}", "{{nope 1}}", "{{> fl}}", "{{#fail}}x{{/fail}}", "{{echo (fail)}}", "{{> bad}}"]
    base = ["{{#each b}}{{#if this}}{{#with ../c as |x|}}{{a}}{{#> pb}}{{x.a}}{{/pb}}{{/with}}{{else}}E{{/if}}{{/each}}{{#frame a 1}}{{@v}}{{/frame}}", "{{#b}}{{#c}}{{> p}}{{^}}{{/c}}{{/b}}{{^z}}{{a}}{{/z}}{{#wrap a}}{{#opts}}x{{else}}y{{/opts}}{{/wrap}}",
            "{{#> nope2}}a{{#> pb}}{{> p}}{{/pb}}{{/nope2}}{{#each (list 1 2)}}{{#unless this}}{{else}}{{@index}}{{/unless}}{{/each}}"]
    import re
    for t in base:
        cuts = [m.end() for m in re.finditer(r"\}\}", t)]
        ok = e(t)
        for i in cuts:
            for f in FAILS if not q else c.rng.sample(FAILS, 4):
                x = e(t[:i] + f + t[i:])
                for fl in ((), ("compat",)):
                    x2 = dict(x, flags=s.fl(*fl)); ok2 = dict(ok, flags=s.fl(*fl))
                    hs.append({"op": "renders", "seq": vms([x2, ok2, x2, good[1], ok2], [0] * 5)})
    seqcmp.judge(c, exe, hs, "failure at every place", True)
    # options that come with the program end with it
    OP = ["{{a}}{{b.x.y}}{{nope}}", "{{#c}}{{nope.x}}{{/c}}", "{{> p}}{{fail}}", "{{#f}}{{a}}{{/f}}{{=<% %>=}}<%a%>", "{{#each b}}{{> fl}}{{/each}}", "{{#c}}{{b.0}}{{> p}}\n  {{> p}}\n{{/c}}", "{{#a}}{{../b.0}}{{> nope}}{{/a}}", "{{#b}}{{a}}{{/b}}{{z.x}}{{&z}}", "{{#> pb}}{{../a}}{{c.z}}{{/pb}}", "{{{f}}}{{f.x}}{{z}}"]
    FS = [(), ("strict",), ("compat",), ("assume_objects",), ("mustache_style_lambdas",), ("explicit_partial_context",), ("compat", "strict"), ("mustache_style_lambdas", "compat"), ("no_escape",), ("known_helpers_only",), ("ignore_standalone",), ("prevent_indent",)]
    xs = [e(t, f) for t in OP for f in FS]
    hs = [{"op": "renders", "seq": seqcmp.options(c.rng, [dict(c.rng.choice(xs), vm=c.rng.choice([0, 0, 0, 1]), bare=c.rng.randrange(2), times=c.rng.choice([1, 1, 2])) for _ in range(c.rng.choice([3, 6, 12]))])} for _ in range(400 if q else 20000)]
    seqcmp.judge(c, exe, hs, "options of the programs", True)
    # seeded histories: half of the templates are damaged, or call failing helpers
    hs = []
    for i in range(220 if q else 8000):
        cs = seqcmp.pool(c.rng, c.rng.choice([4, 8, 12]), {"partial": .25, "flags": c.rng.choice([0, .03, .1]), "depth": 3, "lams": .05})
        for x in cs:
            y = c.rng.random()
            if y < .25: x["t"] = list(gen.mutate(c.rng, bytes(x["t"])))
            elif y < .6:
                x["helpers"] = x["helpers"] + [["fail", "fail"]]
                k = [m.end() for m in re.finditer(rb"[^}]\}\}(?!\})", bytes(x["t"]))] or [0]
                k = c.rng.choice(k); x["t"] = x["t"][:k] + b(c.rng.choice(["{{fail}}", "{{nope 1}}", "{{> nope}}"])) + x["t"][k:]
            if c.rng.random() < .7: x["vm"] = c.rng.randrange(2)
            if c.rng.random() < .4: x["bare"] = 1
        if i % 4 == 0: seqcmp.options(c.rng, cs)
        hs.append({"op": "renders", "seq": cs})
    seqcmp.judge(c, exe, hs, "history of failures", True)
    c.assumptions += ["the caller forgets the error (context's num and msg) before the next call; the library has no call for it", "out of memory is E03"]
chk.main("E01", "model_checking", run)
