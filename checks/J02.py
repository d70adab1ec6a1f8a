"""J02: partials out of a directory behave as the files' contents in memory."""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, hbuild, hist, drv, rgen, semcmp as s, gen

def b(x): return list(x.encode("latin1"))
def enum(c, exe, base, ops, mx, obs, what):
    import tlc
    d = tlc.scratch(); p = os.path.join(d, "params.ndjson")
    open(p, "w").write(json.dumps(dict(base, ops=ops, max=mx, obs=obs)) + "\n")
    try: r = tlc.run("EnumLoader", env={"PARAMS": p}, cfg_text="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Law\nINVARIANT PrintCase\nPROPERTY Stable\nVIEW View\n")
    finally: os.unlink(p); os.rmdir(d)
    c.add("states", r.distinct); c.add("transitions", r.states)
    reqs, exps = [], []
    for x in r.res:
        reqs.append(dict(base, ops=[ops[k - 1] for k in x["h"]] + obs)); exps.append(x["r"]); c.seen(json.dumps([base, x["h"]]))
    if os.environ.get("VERBOSE"): print("%s: %.1fs %d" % (what, r.seconds, len(reqs)))
    c.sample(reqs[len(reqs) // 2]["ops"], 40)
    hist.compare(c, exe, "loader", reqs, exps, what)

def run(c):
    exe = hbuild.build("asan"); q = c.quick; rng = c.rng
    R = lambda t, f=(), d=None: ["render", dict({k: v for k, v in s.env(d if d is not None else {"a": "A<", "l": [1, 2]}, f, ["echo", "fail"]).items() if k != "partials"}, t=b(t))]
    F = lambda n, t: ["write", b(n), b(t)]
    ext = {"ext": b(".h"), "names": [b("p"), b("q"), b("d/p"), b("@partial-block"), b("z")]}
    obs = [["list"], ["find", b("p")], ["find", b("q")], R("{{> p}}|{{> q}}")]
    ops = [F("p.h", "1{{a}}\n"), F("p.h", "2{{> q}}"), F("q.h", "q"), F("q.h", ""), ["rm", b("p.h")], ["rm", b("q.h")], ["mkdir", b("q.h")], ["find", b("p")], R(" {{> p}}\n{{> q}}"), R("{{#> p}}in{{/p}}{{#> z}}{{> q}}{{/z}}"), R("{{> p}}{{fail}}"), R("{{> q}}{{> p}}", ("compat",))]
    enum(c, exe, ext, ops, 3 if q else 4, obs, "two partials")
    ops = [F("d/p.h", "D{{> q}}"), F("q.h", "[{{> @partial-block}}]"), ["rm", b("d")], ["find", b("d/p")], F("d", "file"), R("{{> d/p}}{{> (echo)}}"), R("{{#> d/p}}B{{/d/p}}{{#> q}}C{{/q}}"), F("@partial-block.h", "!"), ["mkdir", b("d/p.h")]]
    enum(c, exe, dict(ext, slash=1), ops, 4 if q else 5, [["list"], ["find", b("d/p")], ["find", b("d/../q")], ["find", b("./q")]], "directories")
    # every name against a directory; the same with other extensions
    fs = [F("p.h", "ph"), F("p", "p"), F(".h", "dot"), F("d/e/f.h", "def"), F("a b.h", "ab"), F("p.h.h", "phh"), F("d.h/x", "x"), F("\xff\xfe.h", "ff"), F("1.h", "one"), F("P.h", "P"), F("%s%n.h", "pct"), F("n" * 253 + ".h", "long"), F("d/index.h", "ix"), F("p/../q.h".replace("p/../", ""), "q"), F("e.h", "")]
    ns = ["p", "p.h", "", ".h", "d/e/f", "d/e", "d", "a b", "x", "\xff\xfe", "1", "P", "%s%n", "n" * 253, "n" * 254, "n" * 300, "d/x", "d.h/x", "./p", ".//./p", "d/../p", "d/e/../../p", "p/../p", "x/../p", "d//e///f", "p\0", "p\0x", "\0", "d/e/f\0.h", "p/", "d/", "e", "d/e/f/", "index", "n" * 900, ".", "d/."]
    reqs = []
    for e in (".h", "", ".h.h", "/index.h", "h", "/x"):
        fs2 = [f for f in fs if not (f[1] == b("p"))] if "/" in e or any("p/" in n for n in ns) else fs
        for k in range(2):
            f = fs if k == 0 else fs2
            reqs.append({"ext": b(e), "slash": k, "names": [], "ops": f + [["find", b(n)] for n in ns] + [["rm", x[1]] for x in f] + [["find", b(n)] for n in ns] + [["list"]]})
            L = [n for n in ns if not set(n) & set("]\0") and len(n) < 400 and n]
            for i in range(0, len(L), 5):
                M = L[i:i + 5]
                reqs.append({"ext": b(e), "slash": k, "names": [b(n) for n in M], "ops": f + [R("x{{> [%s] }}y" % n) for n in M] + [R('{{#> "%s"}}fallback{{/"%s"}}' % (n, n)) for n in M] + [["list"]]})
                reqs.append({"ext": b(e), "slash": k, "names": [b(n) for n in M], "ops": f + [R("x{{> (lookup . 'n') }}y", (), {"n": n}) for n in M] + [["list"]]})
    hist.cases(c, exe, "loader", "CaseLoader", reqs, "names")
    # many partials, contents of every kind and size, each found again after the file is gone
    reqs = []
    for n in (1, 3, 31, 32, 33, 64, 65, 130) if q else (1, 2, 3, 8, 31, 32, 33, 34, 63, 64, 65, 100, 128, 300, 700):
        o = [["write", b("n%d.h" % i), [rng.randrange(256) for _ in range(rng.choice([1, 1, 2, 10, 100]))]] for i in range(n)]
        order = [rng.randrange(n) for _ in range(2 * n)]
        reqs.append({"ext": b(".h"), "names": [], "ops": o + [["find", b("n%d" % i)] for i in order] + [["list"]] + [["rm", b("n%d.h" % i)] for i in range(n)] + [["find", b("n%d" % i)] for i in order] + [["list"]]})
    for k in [1, 2, 7, 8, 9, 63, 64, 65, 255, 256, 4095, 4096, 4097, 8192]:
        reqs.append({"ext": b(".h"), "names": [], "ops": [["write", b("p.h"), [rng.choice([0, 10, 13, 65, 255]) for _ in range(k)]], ["find", b("p")], ["write", b("p.h"), b("other")], ["find", b("p")], ["list"]]})
    hist.cases(c, exe, "loader", "CaseLoader", reqs, "contents")
    # seeded histories of renders over a changing directory
    reqs = []
    for i in range(700 if q else 12000):
        cs = [rgen.tame(rng, {"rec": 1, "partial": .5, "flags": rng.choice([0, .1]), "depth": 2, "lams": .03}) for _ in range(rng.choice([2, 4, 8]))]
        e = rng.choice([".h", "", ".hbs"])
        ps = {}
        for x in cs:
            for k, v in x["partials"]:
                if v[0] == "s" and 0 not in k and 47 not in k and k: ps.setdefault(bytes(k), []).append(v[1])
        o = []
        for x in cs:
            for k in ps:
                y = rng.random()
                if y < .5: o.append(["write", list(k) + b(e), rng.choice(ps[k])])
                elif y < .6: o.append([rng.choice(["rm", "mkdir"]), list(k) + b(e)])
                elif y < .7: o.append(["find", list(k)])
            o.append(["render", {k: v for k, v in x.items() if k != "partials"}])
        if not ps: continue
        bad = [k for k in ps if k in (b".", b"..") or b".." in k or len(k) > 200]
        if bad: continue
        reqs.append({"ext": b(e), "names": [list(k) for k in ps] + [b("@partial-block"), b("nope")], "ops": o + [["list"]]})
    hist.cases(c, exe, "loader", "CaseLoader", reqs, "history of renders")
    c.assumptions += ["files are read as root, so permissions do not come into it; devices, pipes and links are not tried", "an empty file counts as one that cannot be read (the project's tests require the error)", "the loader's value is used as the table of partials, not as template data"]
chk.main("J02", "model_checking", run)
