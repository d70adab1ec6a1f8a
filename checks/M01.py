"""M01: a serialized program behaves as HbsModule's block, wherever it is, and renders what HbsSem says."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, semcmp as s, hbuild, tlc, drv, rgen
def hists(c, n, k):
    r = tlc.run("HbsModule", cfg_text="CONSTANTS\nN = %d\nMaxOps = %d\nINIT Init\nNEXT Next\nINVARIANT Coherent\nINVARIANT Relocatable\nPROPERTY SealKept\nCONSTRAINT PrintHist\nCHECK_DEADLOCK FALSE\n" % (n, k))
    c.add("states", r.distinct); c.add("transitions", r.states)
    seen = {}
    for x in r.res: seen[chk.canon(x)] = x["h"]
    return list(seen.values())
def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    # templates with every kind of operand, and their results
    cs = []
    base = s.env({"a": [1, {"b": "<"}], "b": {"c": "C"}, "e": ""}, (), ["echo", "ident"], {"p": "[{{a}}{{k}}]"})
    for t in ["", "x", "{{a}}", "{{#each a}}{{b}}{{@index}}{{else}}-{{/each}}", "{{#if e}}1{{else if b.c}}{{echo 'long string operand' 1 k=\"v\" j=(ident b.c)}}{{else}}3{{/if}}{{> p k=1}}", "{{#with b as |x|}}{{#with x}}{{c}}{{../e}}{{x.c}}{{/with}}{{/with}}",
              "{{#> p k='q'}}{{#each a as |v i|}}{{v.b}}{{i}}{{/each}}{{/p}}{{> nope}}", "{{lookup a 0}}{{nope 1}}", "".join("{{#if b}}%d" % i for i in range(9)) + "{{/if}}" * 9]:
        for f in (0, 1, 64, 1 << 12, 1 << 3):
            cs.append(dict(base, t=list(t.encode()), flags=f))
    for i in range(60 if q else 1500): cs.append(rgen.case(c.rng, {"flags": .05}))
    for i, x in enumerate(cs): x["id"] = i
    exp, r = tlc.cases("CaseRender", cs)
    c.add("states", r.distinct); c.add("transitions", r.states)
    good = [x for x in cs if exp[x["id"]]["ph"] == "run"]
    hs = hists(c, 2, 5) + hists(c, 3, 4) if q else hists(c, 2, 6) + hists(c, 3, 5) + hists(c, 4, 4)
    if not q and len(hs) > 400000: hs = c.rng.sample(hs, 400000)
    mods = {x["id"]: a for x, a in zip(good, drv.ask_all(exe, [{"op": "compile", "t": x["t"], "flags": x["flags"], "module": 1} for x in good]))}
    c.rng.shuffle(hs)
    rq = []
    for k, h in enumerate(hs):
        x = good[k % len(good)]
        rq.append((x, h, dict({a: b for a, b in x.items() if a != "id"}, op="modhist", ops=[y[0] for y in h], step=1 if k % 97 == 0 else 13)))
    ans = drv.ask_all(exe, [y[2] for y in rq])
    for (x, h, w), g in zip(rq, ans):
        c.add("traces_validated_against_impl"); c.seen({"t": x["t"], "o": w["ops"], "f": x["flags"]})
        case = {a: b for a, b in w.items()}
        if "steps" not in g: c.fail(case, "steps", g, "no answer"); continue
        for n, (y, got) in enumerate(zip(h, g["steps"])):
            op, want = y
            if want == ["run"]:
                e = exp[x["id"]]; want = ["out", e["v"]] if e["e"] == 0 else ["err", e["e"]]
            elif want == ["dump"]:
                m = mods[x["id"]]
                want = m["module"] if "flags" in x and "module" in m and not x["flags"] & 1 else got
            if got != want: c.fail(case, {"step": n, "is": want}, got, "step %s" % op); break
    for x in good[:8]: c.sample(bytes(x["t"]).decode("latin1"), 8)
    for x in rq[:3]: c.sample(str(x[2]["ops"]), 12)
    # and rendering through a moved block
    s.random(c, exe, 1000 if q else 40000, {"flags": .05}, {"via": 1})
chk.main("M01", "model_checking", run)
