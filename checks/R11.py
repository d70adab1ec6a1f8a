"""R11: the operations the compiler emits are those of HbsCompiler."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, gen, hbuild, tlc, drv, rgen, semcmp as s
def compare(c, exe, cs):
    exp, r = tlc.cases("CaseCompile", cs)
    c.add("states", r.distinct); c.add("transitions", r.states)
    ans = drv.ask_all(exe, [{k: v for k, v in dict(x, op="compile").items() if k != "id"} for x in cs])
    for x, g in zip(cs, ans):
        e = exp[x["id"]]["res"]
        c.add("traces_validated_against_impl"); c.add("programs" if e[0] == "prog" else "rejected")
        case = {k: v for k, v in dict(x, op="compile").items() if k != "id"}
        if "crash" in g: c.fail(case, e, g, "crash"); continue
        if e[0] == "perr":
            continue    # L02's business
        got = ["prog", g["prog"]] if "prog" in g else ["err", g["err"]] if "err" in g else g
        if got != e:
            c.fail(case, e, got, "program")
def run(c):
    exe = hbuild.build("asan")
    seen = set(); cs = []
    def put(t, fl, known=None):
        k = (bytes(t), fl, None if known is None else tuple(known))
        if k in seen: return
        seen.add(k); c.seen("%r" % (k,))
        cs.append({"id": len(cs), "t": list(t), "flags": fl, **({} if known is None else {"known": [list(n.encode("latin1")) for n in known]})})
    q = c.quick
    # every kind of expression in every kind of tag, under every single option
    E = ["a", "a.b", "this", "../a", "@x", "@root.a", "1", "\"s\"", "true", "null", "undefined", "if", "each", "a b", "a b=1", "a (b c) 1", "lookup a b", "each a", "a.b c", "../a b", "b.c", "this.b"]
    for fl in [0] + [1 << b for b in range(13)] + ([] if q else [(1 << a) | (1 << b) for a in range(13) for b in range(a)]):
        for e in E:
            for w in ("{{%s}}", "{{{%s}}}", "{{#%s}}x{{/%s}}", "{{#%s as |b|}}{{b}}{{^}}{{b}}{{/%s}}", "{{^%s}}x{{/%s}}", "{{> %s}}", "{{#> %s}}x{{/%s}}", "{{&%s}}"):
                put((w % ((e,) if w.count("%") == 1 else (e, e.split()[0]))).encode("latin1"), fl)
    # helpers the compiler is told of: by the names themselves, at any depth, under every option about them
    for known in ([], ["a"], ["a", "b"], ["b"], ["s"], ["this"], [""], ["if"], ["aa", "A"]):
        for fl in (0, 1 << 4, 1, 1 << 10, 1 << 9, 1 << 12):
            for e in E + ["aa", "./a", "[a]", "@a", "[]"]:
                for w in ("{{%s}}", "{{#%s}}{{a}}{{b 1}}{{else}}{{^a}}{{b}}{{/a}}{{/%s}}", "{{#if x as |a|}}{{#each l}}{{%s}}{{/each}}{{/if}}", "{{echo (%s)}}", "{{> p (%s)}}", "{{#*d}}{{%s}}{{/d}}", "{{#> p}}{{%s}}{{/p}}"):
                    if q and len(known) + c.rng.randrange(3) < 3 and fl not in (0, 16): continue
                    put((w % ((e,) if w.count("%") == 1 else (e, e.split()[0]))).encode("latin1"), fl, known)
    g = gen.G(c.rng)
    for i in range(5000 if q else 80000):
        fl = 0
        if c.rng.random() < .6:
            for b in range(13):
                if c.rng.random() < .15: fl |= 1 << b
        put(g.template(), fl, None if c.rng.random() < .75 else c.rng.sample(["a", "b", "c", "foo", "x", "if", "this", "echo", "helper"], c.rng.randrange(5)))
    for x in cs[-3:]: c.sample(bytes(x["t"]).decode("latin1"), 40)
    for i in range(0, len(cs), 20000):
        compare(c, exe, cs[i:i+20000] if i == 0 else [dict(x) for x in cs[i:i+20000]])
    # executing the instructions writes what the tree means, and leaves every stack as it was
    L = ("MachineLaw",)
    D = {"a": "A", "b": {"c": "C", "a": "BA"}, "l": [1, {"a": "x"}], "z": None, "t": True, "f": ("lam",)}
    HS = ["echo", "wrap", "opts", "frame", "list", "ident", "nul", "fail"]
    P = {"p": "[{{a}}{{k}}]", "q": "({{> @partial-block}}{{echo 1 (@partial-block)}})"}
    envs = [s.env(D, fl, HS, P) for fl in ((), ("compat",), ("known_helpers_only",), ("strict",))][:4]
    A = [
     ([("{{#if t}}", 1), ("{{/if}}", -1), ("{{else}}", 0, 1), ("{{else if z}}", 0, 1), ("{{#each l as |x i|}}", 1), ("{{/each}}", -1), ("{{x.a}}{{i}}", 0), ("{{a}}", 0), ("{{#b}}", 1), ("{{/b}}", -1), ("{{^z}}", 1), ("{{/z}}", -1)], 0),
     ([("{{echo a (list b.c l) k=(echo 1 j=a)}}", 0), ("{{#wrap (echo a) k=l}}", 1), ("{{/wrap}}", -1), ("{{else}}", 0, 1), ("{{opts (nul) a k=(nul)}}", 0), ("{{#f}}", 1), ("{{/f}}", -1), ("{{f}}{{{f}}}", 0), ("{{#frame b 1 as |p q|}}", 1), ("{{/frame}}", -1), ("{{p.c}}{{q}}{{@v}}", 0)], 1),
     ([("{{> p}}", 0), ("{{> p b k=(echo 2)}}", 0), ("{{> (ident 'p') . k=a}}", 0), ("{{#> q}}", 1), ("{{/q}}", -1), ("{{#> nope b}}", 1), ("{{/nope}}", -1), ("{{#with b}}", 1), ("{{/with}}", -1), ("{{c}}{{../a}}", 0), ("{{echo 1 (fail)}}", 0)], 2),
    ]
    for a, k in A:
        s.enum(c, exe, a, 4 if q else 5, envs if k == 1 else envs[:2], bal=True, laws=L)
    s.machine(c, exe, [rgen.case(c.rng, {"flags": .1, "hp": .5, "lams": .15, "alias": .3, "partial": .15}) for _ in range(3000 if q else 40000)])
chk.main("R11", "model_checking", run)
