"""E03: an allocation that fails, wherever it is, is an error and nothing else."""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, hbuild, drv, rgen, tlc, hist, datagen, semcmp as s

def b(x): return list(x.encode("latin1"))
def fault_model(c, kinds, ln, n, say):
    d = tlc.scratch(); p = os.path.join(d, "params.ndjson")
    open(p, "w").write(json.dumps(dict(kinds=kinds, len=ln, n=n, say=say)) + "\n")
    try: r = tlc.run("MCFault", env={"PARAMS": p}, cfg_text="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Law\nINVARIANT Last\nINVARIANT Say\nPROPERTY Ends\n", expect_ok=False)
    finally: os.unlink(p); os.rmdir(d)
    c.add("states", r.distinct); c.add("transitions", r.states)
    return r

# operations made of one call each; those that take the reference of their string, which is lost with the failure
ATOMIC = {"lit", "copy", "push", "set", "upd", "rawupd", "rawadd", "del", "sort", "nth", "get", "nthinto", "getinto", "flag", "eq", "count", "all", "mark"}
OWN = {"htmlcat", "cat", "cats", "fmtcat", "trunc", "ltrim", "rtrim", "stripc", "reduce", "indent", "indcat", "extend", "compact"}
def structures(c, rng, q):
    """maps, stacks, values and strings: an operation that runs out of memory has not happened"""
    exe = hbuild.build("asan", driver="data"); b = datagen.b
    cs = datagen.collide(exe, 8); pool = [b("key%d" % i) for i in range(300)] + [b(""), b("\0"), b("a\0b")]
    n = 800 if q else 20000
    reqs = []
    for i in range(n):
        ks = rng.choice(cs) if rng.random() < .5 else rng.sample(pool, rng.choice([2, 4, 7, 12, 20]))
        reqs.append({"cap": rng.choice([0, 0, 1, 2, 3]), "ops": datagen.map_history(rng, ks, rng.choice([10, 30]), rng.random() < .4)})
    hist.faults(c, exe, "maphist", "CaseMap", reqs, "map")
    reqs = [{"fixed": int(rng.random() < .2), "cap": rng.choice([0, 1, 3, 4, 8]), "ops": datagen.stack_history(rng, rng.choice([8, 25, 60]), rng.random() < .5)} for i in range(n)]
    hist.faults(c, exe, "stackhist", "CaseStack", reqs, "stack")
    reqs = []
    for i in range(2 * n):
        h = datagen.H(rng).history(rng.choice([5, 12, 25])); h["ops"] = [o for o in h["ops"] if o[0] in ATOMIC]; reqs.append(h)
    hist.faults(c, exe, "heap", "CaseHeap", reqs, "values")
    reqs = []
    for i in range(n):
        st = [datagen.text(rng) for _ in range(4)]
        reqs.append({"init": st, "rc": int(rng.random() < .75), "ops": [datagen.op(rng, st, k) for k in range(rng.choice([3, 8, 20]))] + [["val", i] for i in range(4)]})
    hist.faults(c, exe, "strhist", "CaseStr", reqs, "strings", lambda o: ["lit", o[1], []] if o[0] in OWN else None)

def run(c):
    exe = hbuild.build("asan"); q = c.quick; rng = c.rng
    m = 1000 if q else 20000      # more fault points than this: evenly spaced ones
    r = fault_model(c, ["need", "spare", "keep", "pass"], 4 if q else 5, 4, 1)
    assert r.ok, "".join(r.out)[-3000:]
    sig = lambda x: "".join(("F" if a["hit"] else "-") + {"nomem": "m", "right": "r"}[a["res"]] for a in x)
    good = {sig(x)for x in r.res}
    for k in ("blind", "early", "eat", "leave"):
        r = fault_model(c, ["need", k], 3, 4, 0)
        assert not r.ok and any("Invariant Law is violated" in l for l in r.out), k
        c.add("wrong_designs_rejected")
    def judge(reqs, what):
        # what the reference has to be: the specification's result
        rend = [dict(x, id=i) for i, x in enumerate(reqs) if x["what"] in ("full", "exec")]
        exp, r = tlc.cases("CaseRender", [{k: v for k, v in x.items() if k not in ("op", "what", "cache", "gap", "json", "yaml")} for x in rend]) if rend else ({}, None)
        if r: c.add("states", r.distinct); c.add("transitions", r.states)
        ans = drv.ask_all(exe, reqs)
        for i, (x, g) in enumerate(zip(reqs, ans)):
            c.seen(x)
            if "bad" not in g: c.fail(x, "an error and no more", g, what + ": crash"); continue
            c.add("fault_points", g["n"]); c.add("traces_validated_against_impl", g["runs"])
            if i in exp:
                e = exp[i]; want = [0, e["v"]] if e["e"] == 0 else [e["e"], None]
                if x["what"] == "exec" and e["e"] and g["err"] == e["e"]: pass
                elif [g["err"], g["out"]] != want: c.fail(x, want, [g["err"], g["out"]], what + ": without a fault"); continue
            for sg, k, n in g["cls"]:
                c.add("attempts_" + ("recovered" if "m" in sg else "unaffected"), n)
                if sg not in good: c.fail(dict(x, **{"from": k, "to": k}), "a history of HbsFault", [sg, k, g["bad"]], what + ": attempts with and without a fault"); break
    D = {"a": "A<", "b": [1, 2, {"a": "x"}], "c": {"a": "C", "d": {"e": "E"}}, "n": None, "z": 0, "t": True, "x": 1.5, "l": ("lam",), "arr": [[1, 2], [3]], "s": b"<b>"}
    P = {"p": "[{{a}}]\n", "q": "  {{> p}}\n{{> @partial-block}}", "bad": "{{#a}}", "fl": "{{a}}{{fail}}", "rec": "{{#each b}}{{> p}}{{/each}}", "inl": "{{#> q}}z{{/q}}", "ml": "a\n\nb{{=<% %>=}}\n<%a%>"}
    H = ["echo", "fail", "list", "obj", "wrap", "frame", "opts", "safe", "ident", "nul", "lam", "larr", "mlam"]
    def e(t, f=(), dv=None, **kw): return dict(s.env(D, f, H, P, dv), t=b(t), op="oom", alarm=200, max=m, **kw)
    T = ["x{{a}}y{{{a}}}{{&a}}{{s}}", "{{#each b as |v k|}}{{v}}{{k}}{{@index}}{{@key}}{{@first}}{{@last}}{{../a}}{{else}}E{{/each}}", "{{#each c}}{{@key}}{{this}}{{/each}}{{#each arr}}{{#each this}}{{.}}{{@../index}}{{/each}}{{/each}}",
         "\n  {{> p c k=1}}\n{{> rec}}", "{{#> q c}}a{{b.0}}{{/q}}", "{{#> nope}}F{{> p}}{{/nope}}", "{{> nope}}", "{{> bad}}", "{{> fl}}", "{{> ml}}", "{{> (echo 'p')}}{{> (lookup . 'a')}}", "{{> inl}}",
         "{{echo 1 (list a b) k='z' j=(obj a=1 c=(list))}}", "{{#if a}}y{{else if b}}m{{else}}n{{/if}}{{#unless z}}u{{/unless}}", "{{#with c.d}}{{e}}{{../a}}{{../../a}}{{else}}N{{/with}}{{#with n}}{{^}}N{{/with}}",
         "{{lookup b 1}}{{lookup c 'a'}}{{#each (lookup . 'b')}}{{.}}{{/each}}", "{{log a}}{{#wrap a}}{{b.2.a}}{{/wrap}}{{#opts 1 2 x=a}}p{{else}}i{{/opts}}", "{{#frame a 5}}{{@v}}{{#with ../c as |q|}}{{q.a}}{{/with}}{{/frame}}",
         "{{#b}}{{.}}{{/b}}{{^z}}inv{{/z}}{{#c}}{{a}}{{else}}{{/c}}{{#t}}{{a}}{{/t}}{{#x}}{{.}}{{/x}}", "{{~ a ~}}  \n {{~#if a~}} x {{~else~}} y {{~/if~}} ", "{{!-- c --}}{{! d }}\\{{e}}\\\\{{a}}{{{{echo}}}}raw{{a}}{{{{/echo}}}}",
         "{{l}}{{#l}}{{a}}{{/l}}", "{{fail}}", "{{#each b}}{{fail}}{{/each}}", "{{nope 1}}", "{{a.b.c}}{{./a}}{{this.a}}{{@root.a}}{{[a]}}{{\"a\"}}{{c.[d].e}}", "{{#a}}", "{{a", "x\n{{#a}}{{/b}}", "{{echo true false null undefined 1 -2 'a\"b' \"c'd\" @v ../a}}", "", "text only", "{{#each b}}\n  {{a}}\n{{/each}}\n",
         "{{#nope.x}}{{/nope.x}}{{larr}}{{safe a}}{{ident c}}{{nul}}", "{{#larr}}{{.}},{{/larr}}", "{{#mlam}}{{a}}{{/mlam}}"]
    F = [(), ("compat",), ("string_params", "track_ids"), ("no_escape", "known_helpers_only"), ("mustache_style_lambdas", "compat"), ("strict",), ("assume_objects",), ("ignore_standalone", "prevent_indent"), ("explicit_partial_context", "use_data"), ("alternate_decorators",)]
    reqs = []
    for i, t in enumerate(T):
        for w in ("full", "exec", "lex", "ast", "text", "ops", "module"):
            for f in (F[:2] + [F[2 + i % 8]] if w == "full" else [F[(i + len(w)) % 10]]):
                if not q or w in ("full", "exec") or (i + len(w)) % 2: reqs.append(e(t, f, {"v": 3} if i % 2 else None, what=w, gap=1 + i % 5))
        for w in ("full", "exec"):
            for cn in ("simple", "mmap"):
                if not q or "{{>" in t or "{{#>" in t or i % 4 == 0: reqs.append(e(t, F[i % 2], what=w, cache=cn, gap=2))
    for t in ("{{=<% %>=}}<%a%><%={{ }}=%>{{a}}", "a{{=| |=}}|a||=@ @=|@a@", "{{=<% %>=}}<%#b%><%.%><%/b%><%> p%>", "\\{{=a\n{{=<% %>=}}{{a}}<%!x%>"):
        for w in ("full", "delims", "exec"): reqs.append(e(t, ("compat",), what=w))
    # data that is read: JSON, YAML, native made of it
    J = {"a": "A<", "b": [1, 2, {"a": "x"}], "c": {"a": "C", "d": [None, True, 1.5, "\u00e9"]}}
    js = json.dumps(J, ensure_ascii=False)
    ya = "a: A<\nb: [1, 2, {a: x}]\nc:\n  a: C\n  d: [~, true, 1.5, \u00e9]\n"
    U = {"a": "A<", "b": J["b"], "c": {"a": "C", "d": [None, True, 1.5, "\xc3\xa9"]}}
    for t in ("{{a}}{{#each b}}{{.}}{{a}}{{/each}}{{c.d.3}}", "{{#each c}}{{@key}}{{#each this}}{{.}}{{/each}}{{/each}}{{echo b c k=c.d}}", "{{b.[2].a}}{{c}}{{#c}}{{#d}}{{.}}{{/d}}{{/c}}"):
        for kw in ({"json": js}, {"json": js, "convert": 1}, {"yaml": ya}):
            x = dict(s.env(U, (), H, P), t=b(t), op="oom", alarm=200, what="full", **kw); reqs.append(x)
    # tables that have to grow: the parser's stack, many names, long text
    for t in ("{{a}}" * 40 + "x" * 600, "{{#if a}}" * 40 + "x" + "{{/if}}" * 40, "{{echo " + "(list " * 70 + "a" + ")" * 70 + "}}", "{{echo " + " ".join("k%d=%d" % (i, i) for i in range(40)) + "}}", "{{#with a as |" + "x" * 300 + "|}}{{" + "x" * 300 + "}}{{/with}}", "{{echo " + " ".join("a" for i in range(40)) + "}}", "{{> p}}" * 12 + "{{#> q}}x{{/q}}" * 4, "{{" + "c." * 1 + ".".join(["d"] * 40) + "}}", "{{../" + "../" * 30 + "a}}"):
        for w in ("full", "exec", "ops"): reqs.append(e(t, (), what=w, gap=7, **({"cache": "simple"} if w == "exec" else {})))
    judge(reqs, "every construct")
    n = 450 if q else 20000
    while n > 0:
        reqs = []
        for i in range(min(n, 2000)):
            x = rgen.tame(rng, {"rec": 1, "partial": .3, "flags": rng.choice([0, .05, .1]), "depth": 2, "lams": .05})
            w = rng.choice(["full", "full", "exec", "exec", "exec", "delims", "lex", "ast", "text", "ops", "module"])
            y = dict(x, op="oom", what=w, gap=rng.choice([1, 2, 3, 10, 50]), alarm=200, max=m)
            if rng.random() < .4 and w in ("full", "exec"): y["cache"] = rng.choice(["simple", "mmap"])
            reqs.append(y)
        judge(reqs, "seeded"); n -= 2000
    structures(c, rng, q)
    c.assumptions += ["the library's own allocations fail (through its allocation pointers, in the order they are made); those of json-c, libyaml and LMDB do not", "one allocation fails in an attempt", "an allocation that only saves space may fail without the result being lost (the result is then the right one)", "after the error the caller forgets it (num, msg) before the next attempt", "a string given to a function that takes its reference is lost when that fails"]
chk.main("E03", "model_checking", run)
