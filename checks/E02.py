"""E02: at, below and beyond every limit of nesting and size the library does what HbsSem's machine does, or reports the error."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, semcmp as s, hbuild, drv, tlc, frontcmp
b = lambda t: list(t.encode("latin1"))
HS = ["echo", "wrap", "ident", "frame", "opts", "list"]
def families(q=True):
    """name, sizes, n -> (template, environment)"""
    F = []
    def f(name, sizes, mk): F.append((name, sizes, mk))
    D = {"a": {"a": "x", "l": [1]}, "l": [[1, 2], 3], "t": True, "z": None, "f": ("lam",)}
    E = lambda fl=(), data=D, ps=None, dv=None, texts=(): dict(s.env(data, fl, HS, ps, dv), texts=[b(x) for x in texts])
    near = lambda *m: sorted({x + d for x in m for d in (-2, -1, 0, 1, 2) if x + d >= 0})
    nest = [0, 1, 2, 5, 12] + list(range(18, 23)) + list(range(27, 34)) + [60, 63, 64, 65, 130] if q else sorted(set(range(0, 9)) | set(range(18, 36)) | set(range(58, 68)) | {100, 130, 200})
    # what the compiler nests
    for o, c in (("{{#if t}}", "{{/if}}"), ("{{#a}}", "{{/a}}"), ("{{^z}}", "{{/z}}"), ("{{#if z}}{{else}}", "{{/if}}"), ("{{#each l as |v k|}}", "{{/each}}"), ("{{#with a as |w|}}", "{{/with}}"),
                 ("{{#wrap}}", "{{/wrap}}"), ("{{#frame . 1 as |p q|}}", "{{/frame}}"), ("{{#> nope}}", "{{/nope}}"), ("{{#> q}}", "{{/q}}"), ("{{#f}}", "{{/f}}")):
        body = "{{v}}{{w}}{{p}}{{a}}"
        ns = [n for n in nest if n < 7 or n > 28]
        if "each" in o: f("block " + o, [n for n in nest], lambda n, o=o, c=c: (o * n + body + c * n, E(data={"l": [[1]], "v": 1})))
        elif "wrap" in o: f("block " + o, ns, lambda n, o=o, c=c: (o * n + body + c * n, E()))
        elif "> q" in o: f("block " + o, nest, lambda n, o=o, c=c: (o * n + body + c * n, E(ps={"q": "[{{a}}]"})))
        else: f("block " + o, nest, lambda n, o=o, c=c: (o * n + body + c * n, E()))
    f("else if", nest, lambda n: ("{{#if z}}" + "{{else if z}}x" * n + "{{else if t}}T{{else}}F{{/if}}", E()))
    f("else in else", nest, lambda n: ("{{#if z}}{{else}}x" * n + "Y" + "{{/if}}" * n, E()))
    f("if and else if", nest, lambda n: ("{{#if t}}{{#if z}}{{else if z}}{{else if t}}" * (n // 3) + "x{{^}}y" + "{{/if}}{{/if}}" * (n // 3), E()))
    for e in ("(echo ", "(ident ", "(echo 1 ", "(echo 1 2 3 ", "(echo (list) ", "(a ", "(lookup . "):
        f("subexpression " + e, nest, lambda n, e=e: ("{{echo " + e * n + "1" + ")" * n + "}}", E()))
        f("block parameter " + e, nest, lambda n, e=e: ("{{#if " + e * n + "1" + ")" * n + "}}T{{/if}}", E()))
        f("partial name " + e, nest, lambda n, e=e: ("{{> " + e * n + "1" + ")" * n + "}}" if n else "{{> q}}", E(("compat",), ps={"q": "Q"})))
    f("hash in hash", nest, lambda n: ("{{echo " + "k=(echo " * n + "1" + ")" * n + "}}", E()))
    f("hash in hash in params", nest, lambda n: ("{{echo " + "1 k=(echo 2 3 " * n + "1" + ")" * n + "}}", E()))
    # operands of one call, and of calls that are arguments
    many = sorted(set(range(88, 99)) | {0, 1, 40, 150, 300})
    for w in ("{{echo %s}}", "{{#echo %s}}x{{/echo}}", "{{#each %s}}x{{/each}}", "{{lookup %s}}", "{{echo 1 (echo %s)}}", "{{echo k=(echo %s)}}", "{{echo 1 2 3 4 5 (echo (echo %s))}}", "{{> p (echo %s)}}", "{{#if (list %s)}}T{{/if}}"):
        f("parameters " + w, many, lambda n, w=w: (w % "1 " * 1 if n == 0 else w % ("1 " * n), E(ps={"p": "{{.}}"})))
    for w in ("{{echo%s}}", "{{#wrap%s}}x{{/wrap}}", "{{> p%s}}", "{{#> p%s}}x{{/p}}", "{{echo 1 2 (echo%s)}}", "{{#frame . 1%s}}x{{/frame}}"):
        f("hash pairs " + w, many, lambda n, w=w: (w % "".join(" k%d=%d" % (i, i) for i in range(n)), E(ps={"p": "{{k1}}{{k%d}}" % max(n - 1, 0)})))
    f("operands of nested calls", list(range(1, 40)), lambda n: ("{{echo " + "1 2 (echo " * n + "3" + ")" * n + "}}", E()))
    f("many operands of nested calls", list(range(1, 20)), lambda n: ("{{echo " + "1 2 3 4 5 6 7 8 (echo " * n + "9" + ")" * n + "}}", E()))
    f("hashes of nested calls", list(range(1, 40)), lambda n: ("{{echo " + "1 k=(echo 2 l=3 m=(echo " * n + "3" + "))" * n + "}}", E()))
    # programs that run in the middle of an expression: the operands below them stay
    for k, m in ((1, 0), (1, 88), (1, 92), (1, 93), (1, 95), (2, 40), (2, 46), (3, 30), (9, 10), (20, 4), (18, 5)):
        f("operands around %d blocks with %d" % (k, m), near(93 - k * m) + [0, 1, 5], lambda n, k=k, m=m: ("{{#> p}}" * k + "{{echo " + "2 " * n + "}}" + "{{/p}}" * k, E(ps={"p": "{{echo " + "1 " * m + "(@partial-block)}}"})))
        f("operands around %d blocks with %d, computed" % (k, m), near(92 - k * m) + [0, 1, 5], lambda n, k=k, m=m: ("{{#> p}}" * k + "{{echo " + "2 " * n + "(list)}}" + "{{/p}}" * k, E(ps={"p": "{{#wrap " + "1 " * m + "(@partial-block)}}{{/wrap}}"})))
    for k, m in ((1, 0), (5, 18), (6, 15), (8, 11), (19, 4)):
        f("hashes around %d blocks with %d" % (k, m), near(96 - k * (m + 1)) + [0, 1, 5], lambda n, k=k, m=m: ("{{#> p}}" * k + "{{echo " + "k=(echo " * min(n, 20) + ")" * min(n, 20) + "}}" + "{{/p}}" * k, E(ps={"p": "{{echo " + "k=(echo " * m + "k=(@partial-block)" + ")" * m + "}}"})))
    LF = ("compat", "mustache_style_lambdas")
    for rt in ("{{v}}", "{{#v}}x{{/v}}", "{{#w}}{{#v}}x{{/v}}{{/w}}", "{{> p (v)}}"):
        f("lambda without end " + rt, [0], lambda n, rt=rt: ("{{v}}", E(LF, {"v": ("rlam",), "w": {"a": 1}}, ps={"p": "x"}, dv={"rt": rt}, texts=[rt])))
    f("lambda without end in a section", [0], lambda n: ("{{#v}}x{{/v}}", E(LF, {"v": ("rlam",), "w": {"a": 1}}, ps={"p": "x"}, dv={"rt": "a{{#v}}{{/v}}"}, texts=["a{{#v}}{{/v}}"])))
    # running programs
    def chain(n, body): return {"p%d" % i: body.replace("NEXT", "p%d" % (i + 1)) for i in range(n)} | {"p%d" % n: "end"}
    for body, per in (("{{> NEXT}}", 1), ("x{{#if t}}{{> NEXT}}{{/if}}", 2), ("{{#if t}}{{#if t}}{{> NEXT}}{{/if}}{{/if}}", 3), ("{{#> NEXT}}{{/NEXT}}", 1), ("{{#each o}}{{> NEXT ..}}{{/each}}", 2)):
        f("chain of partials " + body, [1] + [x for x in near(383 // per) if not q or abs(x - 383 // per) < 2], lambda n, body=body: ("{{> p0}}", E(data={"t": True, "o": [0]}, ps=chain(n, body))))
    for name, ps in (("partial", {"p": "{{> p}}"}), ("partial with a hash", {"p": "{{> p k=1}}"}), ("two partials", {"p": "{{> q}}", "q": "{{#if t}}{{> p}}{{/if}}"}), ("partial block", {"p": "{{#> p}}x{{/p}}"}), ("partial block of itself", {"p": "{{#> @partial-block}}x{{/@partial-block}}{{> p}}"}),
                     ("dynamic", {"p": "{{> (ident 'p')}}"}), ("deeper contexts", {"p": "{{> p (list .)}}"}), ("indented", {"p": " {{> p}}\n"}), ("iteration", {"p": "{{#each .}}{{> p ..}}{{/each}}"}), ("data", {"p": "{{#frame . @v}}{{> p}}{{/frame}}"})):
        for fl in ((), ("compat",)):
            if name == "indented" and fl: continue      # the text grows with every level
            f("without end: %s %s" % (name, fl), [0], lambda n, ps=ps, fl=fl: ("{{> p}}", E(fl, {"t": True, "l": [1]}, ps)))
    # contexts and partial blocks
    def Dp(n, k, leaf, ps=None): return dict(E(data=leaf, ps=ps), deep=[n, k])
    lst = {"i": 0, "z": "Z"}
    ctxs = [1, 10, 47, 48] + near(95)
    for body in ("{{#if n}}{{> p n}}{{/if}}", "{{#with n}}{{> p}}{{/with}}", "{{#n}}{{> p}}{{/n}}", "{{#with n}}{{#with .}}{{> p}}{{/with}}{{/with}}"):
        f("contexts " + body, ctxs, lambda n, body=body: ("{{> p}}", Dp(n, "n", lst, {"p": "{{i}}" + body})))
    f("contexts, outermost", ctxs, lambda n: ("{{> p}}", Dp(n, "n", lst, {"p": "{{#if n}}{{> p n}}{{else}}{{" + "../" * min(n, 94) + "z}}{{@root.z}}{{/if}}"})))
    f("partial blocks", ctxs, lambda n: ("{{> p}}", Dp(n, "n", lst, {"p": "{{#if n}}{{#with n}}{{#> p}}B{{/p}}{{/with}}{{else}}{{> @partial-block}}{{/if}}"})))
    f("partial blocks run in each other", [1, 2, 20, 40, 60], lambda n: ("{{> p}}", Dp(n, "n", lst, {"p": "{{#if n}}{{#with n}}{{#> p}}B{{i}}{{> @partial-block}}{{/p}}{{/with}}{{else}}{{> @partial-block}}{{/if}}"})))
    f("frames", [1, 40, 60, 63], lambda n: ("{{#each l}}" * (n // 2) + "{{@index}}{{@" + "../" * max(n // 2 - 1, 0) + "index}}{{@" + "../" * (n // 2 + 1) + "index}}" + "{{/each}}" * (n // 2), Dp(n // 2, "l", "x")))
    # paths and names
    f("long path", [1, 2, 50, 95, 96, 97, 300], lambda n: ("{{" + ".".join(["a"] * n) + "}}{{#with " + "/".join(["a"] * n) + "}}{{.}}{{/with}}", Dp(n, "m", "x")))
    f("parents", [1, 2, 50, 95, 96, 97, 300], lambda n: ("{{#with a}}{{" + "../" * n + "t}}|{{#with " + "../" * n + "a}}{{.}}{{/with}}{{/with}}", E()))
    f("parents of data", [1, 2, 50, 95, 96, 97, 300], lambda n: ("{{#each l}}{{@" + "../" * n + "index}}{{/each}}", E()))
    f("long name", [1, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025], lambda n: ("{{" + "k" * n + "}}{{echo " + "k" * n + "=1 b='" + "s" * n + "'}}{{" + "n" * n + "}}", E(data={"k" * n: "V"})))
    f("block parameters used far below", [1, 5, 10, 20, 29, 30, 31], lambda n: ("{{#with a as |x|}}" + "{{#if t}}" * n + "{{x.a}}" + "{{/if}}" * n + "{{/with}}", E()))
    f("numbers", [0], lambda n: ("{{echo 2147483647 1.5 00012 1.0}}{{l.[0]}}{{l.[1]}}{{l.[4294967296]}}{{l.[99999999999999999999]}}{{l.[-1]}}", E()))
    # deep data
    for k in "amb":
        f("deep " + k, [1, 31, 32, 33, 100, 255, 256, 400], lambda n, k=k: ("{{.}}|{{#each .}}{{@key}}{{/each}}|{{#with .}}{{.}}{{/with}}", Dp(n, k, "x")))
    f("deep walk", [1, 20, 60], lambda n: ("{{#each .}}{{#if this.length}}{{> p}}{{/if}}{{> p}}{{/each}}" if n < 20 else "{{> p}}", Dp(n, "a", [], {"p": "[{{#each .}}{{> p}}{{/each}}]"})))
    return F
PARTS = ["x", "<&>", " ", "\n", "{{a}}", "{{{b}}}", "{{&b}}", "{{a.b}}", "{{#if t}}y{{/if}}", "{{#if z}}y{{else}}n{{/if}}", "{{#each l}}{{.}}{{@index}},{{/each}}", "{{#o}}{{k}}{{../b}}{{/o}}", "{{^z}}-{{/z}}", "{{! c }}", "{{!-- }} --}}", "{{> p}}", "{{#> q}}{{b}}{{/q}}",
         "{{echo b k=l}}", "{{echo (ident 'v') \"w\" 1 true}}", "{{{{raw}}}} {{x}} {{{{/raw}}}}", "\\{{b}} {{b}}", "{{#with o as |w|}}{{w.k}}{{/with}}", "{{#wrap}}{{b}}{{/wrap}}", "{{@root.b}}", "\xe9\xff"]
def scale(c, exe, q):
    e = s.env({"a": "A", "b": "<b>&", "t": True, "z": None, "l": [1, "<", [2, 3]], "o": {"k": "K"}}, ("ignore_standalone",), HS, {"p": "[{{b}}]", "q": "({{> @partial-block}}{{a}})"})
    P = [b(x) for x in PARTS] + [b("x" * 63), b("y" * 64), b("z" * 65), b("s" * 1000)]
    two = [(i, j) for i in range(len(P)) for j in range(len(P)) if i != j]
    two = c.rng.sample(two, 250 if q else len(two))
    cs = [dict(e, t=x, id=i) for i, x in enumerate(P)] + [dict(e, t=P[i] + P[j], id=len(P) + k) for k, (i, j) in enumerate(two)]
    exp, r = tlc.cases("CaseRender", cs)
    c.add("states", r.distinct); c.add("transitions", r.states)
    assert all(x["e"] == 0 for x in exp.values())
    for k, (i, j) in enumerate(two):
        if exp[len(P) + k]["v"] != exp[i]["v"] + exp[j]["v"]: raise RuntimeError("no composition: %r %r" % (PARTS[i], PARTS[j]))
    sizes = [2, 3, 10, 100, 1000, 3000] * 2 if q else [2, 3, 10, 100, 300, 1000, 2000, 4000] * 8
    ask = []
    for n in sizes:
        mix = c.rng.choice([range(len(P)), range(5, len(P) - 4), [0, 5, 6], [c.rng.randrange(len(P))]])
        ix = [c.rng.choice(list(mix)) for _ in range(n)]
        ask.append(ix)
    # a tag across every place a buffer may end
    for m in (4096, 8192, 16384, 32768, 65536):
        for o in ((-30, -9, -5, -4, -3, -2, -1, 0, 1) if q else range(-40, 3)):
            for k in ((5, 18) if q else (5, 6, 9, 11, 15, 18, 20, 21)):
                ask.append([(0, m + o), k, 1])
    reqs, want = [], []
    for ix in ask:
        t, w = [], []
        for i in ix:
            i, n = i if isinstance(i, tuple) else (i, 1)
            t += P[i] * n; w += exp[i]["v"] * n
        reqs.append(dict(e, t=t, op="render")); want.append(w)
    for x, w, g in zip(reqs, want, drv.ask_all(exe, reqs)):
        c.add("long_templates"); c.add("traces_validated_against_impl")
        if g.get("out") != [w]:
            c.fail(dict(x, t=x["t"][:3000], length=len(x["t"])), ["out", w[:3000]], {k: v[:1][0][:3000] if k == "out" else v for k, v in g.items()}, "long template of %d bytes" % len(x["t"]))
def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    cs = []
    for name, sizes, mk in families(q):
        for n in sizes:
            t, e = mk(n)
            cs.append((name, n, dict(e, t=b(t))))
    c.rng.shuffle(cs)
    deep = lambda x: x[0].startswith(("without end", "lambda without", "chain", "contexts", "partial blocks"))
    c.add("families", len({x[0] for x in cs}))
    exp1 = s.machine(c, exe, [x[2] for x in cs], only=True)
    # deeper still: what is refused stays refused (the parser may give up before the compiler does)
    ask = []
    for name, sizes, mk in families(q):
        if name.startswith(("block {", "block p", "subexp", "partial name", "else", "hash", "parameters", "operands of", "many op")) and "around" not in name:
            k = max(i for i, x in enumerate(cs) if x[0] == name and x[1] == max(sizes)) if sizes else None
            want = exp1[k]
            if want["e"] != 7: continue
            for n in (500, 1500, 2200, 4000) if not q else (500, 3000):
                t, e = mk(n)
                e.pop("texts", None)
                if "deep" not in e: ask.append((name, n, dict(e, t=b(t), op="render")))
    for (name, n, x), g in zip(ask, drv.ask_all(exe, [x for _, _, x in ask])):
        c.add("beyond_the_parsers_stack" if g.get("err") == 4 else "refused")
        if g.get("err") != 7 and not (n >= 1500 and g.get("err") == 4):
            c.fail(x, ["err", 7], g, "nesting %s %d" % (name, n))
    # long templates: the text of the parts, one after the other
    scale(c, exe, q)
    # and under other options, and through serialization
    var = []
    for name, n, x in cs:
        if c.rng.random() < ((0 if deep((name,)) else .25) if q else 1):
            fl = c.rng.choice([0, s.fl("compat"), s.fl("no_escape"), s.fl("explicit_partial_context"), s.fl("prevent_indent"), s.fl("mustache_style_lambdas"), s.fl("known_helpers_only")])
            var.append(dict(x, flags=x["flags"] | fl))
    s.machine(c, exe, var, only=True)
chk.main("E02", "model_checking", run)
