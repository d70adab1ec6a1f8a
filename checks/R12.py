"""R12: rendering is a function of its inputs, which it leaves as they are."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, semcmp as s, hbuild, tlc, drv, rgen
ORD = [[0, 0], [0, 1, 0], [1, 0, 0, 1], [0, 0, 0, 1, 1]]
def compare(c, exe, cs):
    for i, x in enumerate(cs): x["id"] = i
    exp, r = tlc.cases("CaseRender", cs)
    c.add("states", r.distinct); c.add("transitions", r.states)
    rq = [dict({k: v for k, v in x.items() if k != "id"}, op="pure", order=ORD[x["id"] % 4], vmf=[-1, 0, 5, -1, 4096][x["id"] % 5]) for x in cs]
    for x, w, g in zip(cs, rq, drv.ask_all(exe, rq)):
        e = exp[x["id"]]; c.add("traces_validated_against_impl"); c.seen(w)
        want = ["out", e["v"]] if e["e"] == 0 else ["err", e["e"]]
        if e["ph"] != "run":
            if ["err", g.get("err")] != want: c.fail(w, want, g, "error")
            continue
        c.add("executions", len(w["order"])); c.add("rendered" if e["e"] == 0 else "failed_run")
        if "out" not in g: c.fail(w, want, g, "no answer"); continue
        for k, o in enumerate(g["out"]):
            if o != want: c.fail(w, want, g["out"], "execution %d on machine %d" % (k, w["order"][k])); break
        else:
            if not g["module"]: c.fail(w, "unchanged", "changed", "the compiled program was written to")
            elif g["input"] != s.noid(x["data"]): c.fail(w, s.noid(x["data"]), g["input"], "the context changed")
            elif g["partials"] != ["m", [[k, s.noid(v)] for k, v in uniq(x["partials"])]]: c.fail(w, x["partials"], g["partials"], "the partials changed")
            elif g["helpers"] != ["m", [[k, ["f"]] for k, _ in uniq([[list(h[0].encode()), 0] for h in x["helpers"]])]]: c.fail(w, x["helpers"], g["helpers"], "the helpers changed")
            elif g["dv"] != s.noid(x.get("dv", ["n"])): c.fail(w, x.get("dv"), g["dv"], "the data changed")
def uniq(ps):
    out = []
    for k, v in ps:
        for p in out:
            if p[0] == k: p[1] = v; break
        else: out.append([k, v])
    return out
def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    cs = []
    D = {"a": [1, {"b": "<"}], "b": {"c": "C", "a": {"x": 1}}, "s": "str", "f": ("lam",), "m": ("mlam",), "v": "V"}
    P = {"p": "{{a}}{{k}}{{#each .}}{{@key}}{{/each}}", "q": "{{#> @partial-block}}{{/@partial-block}}{{@index}}", "k": "K"}
    T = ["{{> p k=1 a=2}}{{k}}{{a.1.b}}", "{{> p b k=s}}{{b.k}}", "{{#each b}}{{@key}}{{#each ../a}}{{@index}}{{@../key}}{{/each}}{{/each}}", "{{#frame b 5}}{{@v}}{{#frame b 6}}{{@v}}{{/frame}}{{@v}}{{/frame}}{{@v}}", "{{obj s=1 t=b}}{{#with (obj k=b)}}{{#with k}}{{c}}{{/with}}{{/with}}",
         "{{safe s}}{{s}}", "{{#with s}}{{safe this}}{{this}}{{/with}}{{s}}", "{{list a b s}}{{#each (list a b)}}{{.}}{{/each}}", "{{#> q k=1}}{{k}}{{> p}}{{/q}}", "{{f}}{{#f}}x{{/f}}{{#m}}{{v}}{{/m}}", "{{#each (list 1 2 3)}}{{@index}}{{nope.x}}{{/each}}{{nope 1}}", "{{lookup a 1}}{{#each (lookup . 's')}}{{/each}}{{fail}}",
         "{{=<% %>=}}<% s %>{{s}}", "{{#a}}{{> p k=b.c}}{{/a}}{{#b as |x|}}{{> p x}}{{/b}}"]
    for t in T:
        for f in ((), ("compat",), ("mustache_style_lambdas",), ("strict",)):
            for hs in (["frame", "safe", "obj", "list", "echo", "fail"], ["obj"]):
                cs.append(dict(s.env(D, f, hs, P, {"v": 1, "index": [1]}), t=list(t.encode())))
    cs += [rgen.case(c.rng, {"flags": .06, "hp": .7, "partial": .2, "lams": .08, "depth": 4}) for _ in range(3500 if q else 80000)]
    for x in cs[:3] + cs[-5:]: c.sample(bytes(x["t"]).decode("latin1"), 8)
    for i in range(0, len(cs), 20000): compare(c, exe, cs[i:i + 20000])
chk.main("R12", "model_checking", run)
