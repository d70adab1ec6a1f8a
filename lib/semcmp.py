"""Rendering: the specification's result against the library's."""
import json, os, re
import tlc, drv, rgen, gen

def V(x, ids=None):
    """Python data as a value of the specification"""
    ids = ids if ids is not None else [0]
    if x is None: return ["n"]
    if isinstance(x, bool): return ["b", x]
    if isinstance(x, int): return ["i", x] if -2**31 <= x < 2**31 else ["I", str(x)]
    if isinstance(x, float): return ["d", "%.15g" % x]
    if isinstance(x, str): return ["s", list(x.encode("latin1"))]
    if isinstance(x, bytes): return ["ss", list(x)]
    if isinstance(x, tuple): return ["f", x[0]]
    ids[0] += 1
    i = ids[0]
    if isinstance(x, list): return ["a", i, [V(e, ids) for e in x]]
    return ["m", i, [[list(k.encode("latin1")), V(v, ids)] for k, v in x.items()]]

def fl(*names):
    return sum(1 << rgen.FLAGS[n] for n in names)

def env(data, flags=(), helpers=(), partials=None, dv=None, known=None):
    ids = [0]
    e = {"data": V(data, ids), "flags": fl(*flags), "helpers": [[h, h] if isinstance(h, str) else list(h) for h in helpers],
         "partials": [[list(k.encode("latin1")), V(v, ids)] for k, v in (partials or {}).items()]}
    if dv is not None: e["dv"] = V(dv, ids)
    if known is not None: e["known"] = [list(k.encode("latin1")) for k in known]
    return e

def noid(v):
    """a value as the driver prints it"""
    if v[0] == "a": return ["a", [noid(x) for x in v[2]]]
    if v[0] == "m": return ["m", [[k, noid(x)] for k, x in v[2]]]
    if v[0] == "f": return ["f"]
    return v

def norm(x):
    """values that were printed by different means"""
    if isinstance(x, list):
        return ["d", float(x[1])] if len(x) == 2 and x[0] == "d" and isinstance(x[1], str) else [norm(y) for y in x]
    return x

def compare(c, exe, cs, exp, extra=None):
    """cs: cases (with id), exp: id -> {e, v, ph}"""
    ans = drv.ask_all(exe, [dict({k: v for k, v in x.items() if k != "id"}, op="render", trace=1, **(extra or {})) for x in cs])
    for x, g in zip(cs, ans):
        e = exp[x["id"]]
        want = ["out", e["v"]] if e["e"] == 0 else ["err", e["e"]]
        c.add("traces_validated_against_impl")
        c.add("rendered" if e["e"] == 0 else "failed_" + e["ph"])
        case = {k: v for k, v in x.items() if k != "id"}
        if "crash" not in g and "stdout" not in g and e["ph"] == "run":
            c.add("calls_recorded", len(e["log"]))
            if norm(g.get("log")) != norm(e["log"]):
                k = next((k for k, (a, b) in enumerate(zip(e["log"], g.get("log") or [])) if norm(a) != norm(b)), min(len(e["log"]), len(g.get("log") or [])))
                c.fail(case, e["log"][k:k + 2], (g.get("log") or [])[k:k + 2], "call %d of a function" % (k + 1))
        if "stdout" in g:
            c.fail(case, "nothing printed", g, "the library printed to stdout")
        elif "crash" in g:
            c.fail(case, want, g, "crash")
        elif "out" in g:
            if any(o != g["out"][0] for o in g["out"]):
                c.fail(case, "the same output every time", g["out"], "repeated rendering differs")
            elif ["out", g["out"][0]] != want:
                c.fail(case, want, ["out", g["out"][0]], "output")
            elif "after" in g and g["after"] != noid(x["data"]):
                c.fail(case, noid(x["data"]), g["after"], "the context was changed by rendering")
        elif ["err", g.get("err")] != want:
            c.fail(case, want, g, "error")
        elif not g.get("msg"):
            c.fail(case, "an error message", g, "error without message")

def cases(c, exe, cs, extra=None, chunk=20000):
    """cs: list of cases without id"""
    for i in range(0, len(cs), chunk):
        part = [dict(x, id=k) for k, x in enumerate(cs[i:i + chunk])]
        exp, r = tlc.cases("CaseRender", part)
        c.add("states", r.distinct); c.add("transitions", r.states)
        for x in part: c.seen({k: v for k, v in x.items() if k != "id"})
        for x in part[:3]: c.sample(bytes(x["t"]).decode("latin1"), 40)
        if os.environ.get("VERBOSE"): print("cases %.1fs %d" % (r.seconds, len(part)))
        compare(c, exe, part, exp, extra)

def scopes(c, exe, n):
    """a block that a partial renders, once or again and again, from scopes of its own: the block sees those of where it was written"""
    W = ["{{#each l as |x i|}}%s{{/each}}", "{{#with b as |y|}}%s{{/with}}", "{{#each b as |v k|}}%s{{/each}}", "{{#frame a 7 as |x y|}}%s{{/frame}}", "{{#with b}}%s{{/with}}", "{{#each l}}%s{{/each}}", "%s", "{{#l as |x|}}%s{{/l}}", "{{#if a}}%s{{/if}}", "{{#wrap b}}%s{{/wrap}}"]
    S = ["{{x}}", "{{y.a}}", "{{x.a}}{{i}}", "{{k}}{{v}}", "{{@index}}{{@../index}}", "{{@v}}{{@key}}", "{{a}}", "{{../a}}", "{{../../a}}", "{{.}}", "{{#with y as |x|}}{{x.a}}{{../a}}{{/with}}", "{{#each y as |q|}}{{q}}{{x}}{{@index}}{{@../index}}{{/each}}", "{{> t}}", "{{> @partial-block}}"]
    C = ["{{#> P}}%s{{/P}}", "{{#> P b}}%s{{/P}}", "{{#> P k=a x='h'}}%s{{/P}}", "{{#> P .}}%s{{/P}}", "{{#> none}}%s{{/none}}"]
    B = ["{{> @partial-block}}", "{{> @partial-block b}}", "{{> @partial-block a='in'}}", "{{#> @partial-block}}{{x}}{{/@partial-block}}", "{{#> Q}}{{> @partial-block}}{{x}}{{/Q}}", "{{> Q}}"]
    r, cs = c.rng, []
    def nest(ws, t):
        for w in ws: t = w % t
        return t
    for i in range(n):
        inner = "".join(r.sample(S, r.choice([1, 2, 3])))
        if r.random() < .3: inner += nest(r.choices(W, k=r.choice([1, 2])), "".join(r.sample(S, 2)))
        t = nest(r.choices(W, k=r.choice([0, 1, 1, 2, 3])), (r.choice(C) % inner).replace("P", r.choice("PQ") if r.random() < .2 else "P")) + r.choice(["", "{{x}}{{@index}}"])
        ps = {k: nest(r.choices(W, k=r.choice([0, 1, 1, 2, 3])), r.choice(B[:4] if k == "Q" else B) + "".join(r.sample(S[:-1], r.choice([0, 1])))) for k in "PQ"}
        d = {"a": "A", "b": {"a": "BA", "k": "BK"}, "l": r.choice([[1, {"a": "L"}], [{"a": 3, "b": {"a": 4}}, "s"], {"p": 1, "q": {"a": "LQ"}}]), "k": "K"}
        cs.append(dict(env(d, ("compat",) if r.random() < .1 else (), ["frame", "wrap"], dict(ps, t="<{{x}}{{a}}{{@index}}>"), {"v": "V"} if r.random() < .2 else None), t=list(t.encode())))
    cases(c, exe, cs, {"after": 1})

def wrap(v, n, k):
    """deep data, as CaseMachine.Wrap"""
    K = lambda t: list(t.encode())
    for i in range(n):
        d = 500000 + 2 * i
        if k == "a" or (k == "b" and i % 2): v = ["a", d, [v]]
        elif k in ("m", "b"): v = ["m", d, [[K("a"), v]]]
        elif k == "n": v = ["m", d, [[K("n"), v], [K("i"), ["i", i + 1]]]]
        elif k == "l": v = ["m", d, [[K("l"), ["a", d + 1, [v]]]]]
    return v

def machine(c, exe, cs, chunk=20000, only=False):
    """as cases, with the programs executed by the specification's machine; which has to say what the tree says (or need more room)"""
    res = {}
    for i in range(0, len(cs), chunk):
        part = [dict(x, id=k) for k, x in enumerate(cs[i:i + chunk])]
        if only: part = [dict(x, only=True) for x in part]
        exp, r = tlc.cases("CaseMachine", part, next="Next2")
        c.add("states", r.distinct); c.add("transitions", r.states); c.add("executed_by_the_machine", len(part))
        for x in part:
            c.seen({k: v for k, v in x.items() if k != "id"})
            e = exp[x["id"]]
            if not e["same"] and e["e"] != 7:
                raise RuntimeError("the machine and the tree differ: %r" % (dict(x, t=bytes(x["t"])), e))
        for x in part[:3]: c.sample(bytes(x["t"]).decode("latin1"), 40)
        if os.environ.get("VERBOSE"): print("machine %.1fs %d" % (r.seconds, len(part)))
        for x in part:
            x.pop("only", None); x.pop("texts", None)
            if "deep" in x: x["data"] = wrap(x["data"], *x.pop("deep"))
        compare(c, exe, part, exp)
        res.update({i + k: v for k, v in exp.items()})
    return res

def random(c, exe, n, opts=None, extra=None, mk=None):
    mk = mk or (lambda: rgen.case(c.rng, opts() if callable(opts) else opts))
    while n > 0:
        cases(c, exe, [mk() for _ in range(min(n, 20000))], extra)
        n -= 20000

def enum(c, exe, frags, mx, envs, wraps=(("", ""),), bal=False, laws=("OptionLaw", "ComposeLaw"), extra=None, timeout=800, compose=False):
    """frags: list of (text, nesting change[, glued])"""
    d = tlc.scratch()
    p = os.path.join(d, "params.ndjson")
    b = lambda s: list(s.encode("latin1"))
    def name(x):
        m = re.match(r"\{\{\{?\{?~?(#>|#\*|[#^/])?\s*([^\s~{}]+)", x[0])
        return m.group(2).strip('"') if m else ""
    with open(p, "w") as f:
        f.write(json.dumps({"frags": [{"s": b(x[0]), "d": x[1], "n": name(x), "g": len(x) > 2} for x in frags], "max": mx, "bal": bal, "envs": envs, "compose": compose,
                            "wraps": [{"pre": b(x), "post": b(y)} for x, y in wraps]}) + "\n")
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in laws) + "CONSTRAINT PrintCase\n"
    try:
        r = tlc.run("EnumRender", env={"PARAMS": p}, cfg_text=cfg, timeout=timeout)
    finally:
        os.unlink(p); os.rmdir(d)
    c.add("states", r.distinct); c.add("transitions", r.states)
    cs, exp, seen = [], {}, set()
    for x in r.res:
        k = (bytes(x["t"]), x["k"])
        if k in seen: continue
        seen.add(k)
        c.seen("%r" % (k,))
        i = len(cs)
        cs.append(dict(envs[x["k"] - 1], t=x["t"], id=i))
        exp[i] = x
    if os.environ.get("VERBOSE"): print("enum %.1fs %d cases" % (r.seconds, len(cs)))
    if cs: c.sample(bytes(cs[len(cs) // 2]["t"]).decode("latin1"), 40)
    compare(c, exe, cs, exp, extra)

def probe(c, exe, n, *kinds):
    cases(c, exe, [rgen.probe(c.rng, kinds) for _ in range(n)])
