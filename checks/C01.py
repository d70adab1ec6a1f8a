"""C01: a cache changes nothing: every render gives the result it gives without one."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, hbuild, drv, rgen, semcmp as s, seqcmp

def b(x): return list(x.encode("latin1"))
CACHES = [{"kind": "simple"}, {"kind": "simple", "max_n": 1}, {"kind": "simple", "max_n": 2}, {"kind": "simple", "age": 3}, {"kind": "simple", "max_size": 4000},
          {"kind": "mmap", "size": 12288, "entries": 1}, {"kind": "mmap", "size": 12288, "entries": 7}, {"kind": "mmap", "size": 16384, "entries": 16, "age": 3}, {"kind": "mmap", "size": 262144, "entries": 64},
          {"kind": "lmdb"}, {"kind": "lmdb", "age": 3}]
DIST = ["cgc", "creset", "ctick"]

def interleave(rng, cs, cache, gcp=.3):
    seq = []
    for x in cs:
        if rng.random() < gcp:
            d = rng.choice(["tick", "gc", "reset"] + (["reopen"] if cache["kind"] == "lmdb" else []))
            seq.append({"do": d, "n": rng.choice([1, 2, 5])} if d == "tick" else {"do": d})
        x = dict(x)
        if rng.random() < .6: x["vm"] = rng.randrange(3)
        if rng.random() < .3: x["times"] = rng.choice([2, 3])
        seq.append(x)
    return {"op": "renders", "cache": cache, "seq": seq}

def disturb(rng, x):
    """calls of the disturbing helpers put into the partials (and the template)"""
    x["helpers"] = x["helpers"] + [[h, h] for h in DIST]
    for p in x["partials"]:
        if p[1][0] == "s" and rng.random() < .5:
            t = b("{{%s}}" % rng.choice(DIST))
            p[1] = ["s", (t + p[1][1]) if rng.random() < .5 else p[1][1] + t]
    return x

def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    hs = []
    # every order of a few renders that meet in the cache in different ways
    D = {"a": "A<", "b": [1, 2, 3], "c": {"a": "C"}}
    P1 = {"p": "[{{a}}{{> q}}]", "q": "({{a}}{{#b}}{{.}}{{/b}})"}
    PD = {"p": "[{{a}}{{cgc}}{{> q}}{{a}}]", "q": "({{creset}}{{a}}{{ctick}}{{cgc}}{{#b}}{{.}}{{/b}})"}
    PR = {"p": "{{#c}}{{> p2}}{{/c}}{{a}}", "p2": "{{a}}{{creset}}{{cgc}}{{> q}}{{a}}", "q": "{{a}}{{creset}}{{a}}"}
    SELF = {"p": "{{a}}{{creset}}{{cgc}}{{#c}}{{> p}}{{/c}}{{a}}{{cgc}}"}
    e = lambda t, P, f=(): dict(s.env(D, f, ["cgc", "creset", "ctick", "fail", "echo"], P), t=b(t))
    basic = [e("{{> p}}", P1), e("  {{> p}}\n", P1), e("{{> p}}{{> p}}", P1, ("no_escape",)), e("{{> p c}}", P1, ("compat",)), e("{{=<% %>=}}<%> q%>", P1, ("compat",)),
             e("{{> p}}{{> q}}{{> p}}", PD), e("{{> p}}{{> p}}", PR), e("{{> p}}", dict(P1, q="{{fail}}")), e("{{> p}}", dict(P1, q="{{#a}}")), e("{{> q}}{{> p}}", P1, ("string_params",)),
             e("{{#> p}}x{{/p}}", dict(P1, p="{{> @partial-block}}{{a}}{{> @partial-block}}")), e("{{> p}}", P1, ("mustache_style_lambdas", "compat")), e("{{> p}}", {"p": "{{a}}"}), e("{{> p}}", {"p": "{{a}} "}), e("  {{> p}}\n", {"p": "{{a}}\n"}, ("compat",))]
    import itertools
    for cache in CACHES:
        small = basic if cache["kind"] != "lmdb" else basic[:9]
        for x, y in itertools.product(small, small):
            for mid in ([], [{"do": "gc"}]) if q else ([], [{"do": "gc"}], [{"do": "tick", "n": 5}], [{"do": "reset"}]):
                if mid and c.rng.random() < (.8 if q else .3): continue
                hs.append({"op": "renders", "cache": cache, "seq": [dict(x, vm=0), *mid, dict(y, vm=0), dict(x)]})
        for tpl in [e("{{> p}}|{{> p}}", SELF), e("{{#b}}{{> p}}{{/b}}", PD), e("{{#b}}{{> p}}{{cgc}}{{/b}}{{> q}}", PR)]:
            hs.append({"op": "renders", "cache": cache, "seq": [dict(tpl, vm=0, times=2), {"do": "tick", "n": 2}, dict(tpl, vm=1), dict(tpl)]})
    seqcmp.judge(c, exe, hs, "every pair")
    # long texts with the same hash
    cexe = hbuild.build("asan", driver="cache")
    names = "abcdefgh"
    for k in range(2 if q else 12):
        for pre in ("{{a}}" + "-" * 600, "{{a}}"):
            r = drv.ask_all(cexe, [{"op": "collide", "prefix": b(pre + str(k) + "-")}])[0]["r"]
            if not r: continue
            c.add("colliding_texts", 2)
            ts = [b(pre + str(k) + "-%d" % i) for i in r + [1, 2]]
            hs = []
            for cache in CACHES:
                for _ in range(2 if q else 6):
                    seq = [dict(s.env({"a": "A"}, (), DIST), t=b("{{> %s}}{{> %s}}{{> %s}}" % tuple(c.rng.sample(names[:len(ts)], 3))), partials=[[b(n), ["s", t]] for n, t in zip(names, ts)]) for _ in range(5)]
                    hs.append(interleave(c.rng, seq, cache))
            seqcmp.judge(c, exe, hs, "texts that collide")
    # random histories
    hs = []
    for i in range(260 if q else 8000):
        cache = c.rng.choice(CACHES)
        if cache["kind"] == "lmdb" and c.rng.random() < .3: cache = CACHES[0]
        cs = seqcmp.pool(c.rng, c.rng.choice([4, 8, 12]), {"partial": .4, "flags": c.rng.choice([0, .03, .15]), "depth": 2, "lams": .03})
        if c.rng.random() < .5: cs = [disturb(c.rng, x) for x in cs]
        h = interleave(c.rng, cs, cache)
        if i % 3 == 0: seqcmp.options(c.rng, h["seq"])
        hs.append(h)
    seqcmp.judge(c, exe, hs, "history of renders")
    c.assumptions += ["one process; concurrent users of one shared cache are C03", "the clock is the driver's"]
chk.main("C01", "model_checking", run)
