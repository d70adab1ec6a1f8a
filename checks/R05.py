"""R05: the builtin block helpers are those of HbsSem."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, semcmp as s, hbuild
VALS = [None, True, False, 0, 1, -1, 0.0, 1.5, "", "0", "00", "x", b"", b"0", b"s", [], [0], [None, False], ["a", {"b": 1}], {}, {"b": 0}, {"b": {"b": "bb"}, "a": [1]}, ("lam",), ("lfalse",), ("larr",), ("nul",), 2147483647, " ", "false"]
H = ["if a", "if b", "unless a", "with a", "each a", "a", "if a includeZero=true", "if a includeZero=false", "if a includeZero=b", "unless a includeZero=1", "unless a includeZero=0", "each a.b", "with a.b", "if", "unless", "each", "with", "if a b", "unless a b",
     "with a b", "each a b", "a.b", "with a as |a|", "each a as |a b|", "blockHelperMissing a", "blockHelperMissing", "helperMissing", "lookup a 'b'", "log a", "lookup . 'a'", "with (lookup a 'b')", "if (lookup a 0)", "each (lookup . 'a')"]
def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    cs = []
    for i, v in enumerate(VALS):
        e = [s.env({"a": v, "b": VALS[(i * 7 + k) % len(VALS)], "c": "C"}, f) for k in (3, 11) for f in ((), ("compat",))[:1 if q else 2]]
        for h in H:
            n = h.split()[0]
            for t in ("{{#%s}}+{{a}}{{.}}{{else}}-{{a}}{{/%s}}" % (h, n), "{{^%s}}+{{b}}{{else}}-{{@key}}{{/%s}}" % (h.split(" as ")[0], n), "{{#c}}{{/c}}{{#%s}}+{{/%s}}|" % (h, n), "{{#if nope}}{{else %s}}+{{this.b}}{{else}}-{{/if}}" % h,
                      "{{#each c}}{{else}}{{#%s}}{{../c}}{{@index}}{{/%s}}{{/each}}" % (h, n), "{{%s}}" % h.split(" as ")[0], "{{#%s}}1{{else if b}}2{{else unless b}}3{{else}}4{{/%s}}" % (h, n)):
                for x in e: cs.append(dict(x, t=list(t.encode())))
    # lookup of every kind of key in every kind of thing
    for v in VALS + [[1, [2, "x"], {"0": "z", "b": 3}], {"0": "zero", "1": "one", "true": "t", "": "e", "1.5": "f"}]:
        for k in ["0", "1", "2", "-1", "'0'", "'b'", "''", "true", "1.5", "c", "null", "undefined", "'1.5'", "99999999999"]:
            cs.append(dict(s.env({"a": v, "c": "b"}), t=list(("{{lookup a %s}}|{{#with (lookup a %s)}}{{b}}{{else}}-{{/with}}" % (k, k)).encode())))
    s.cases(c, exe, cs)
    A = [("{{#if a}}", 1), ("{{/if}}", -1), ("{{#unless b}}", 1), ("{{/unless}}", -1), ("{{else}}", 0, 1), ("{{else if b}}", 0, 1), ("{{else unless a}}", 0, 1), ("{{else with c}}", 0, 1), ("{{else each d}}", 0, 1), ("x", 0), ("{{.}}", 0)]
    envs = [s.env({"a": a, "b": b, "c": cc, "d": d}) for a in (0, "y") for b in (False, [1]) for cc in (None, {"a": 1}) for d in ([], ["p", "q"])]
    s.enum(c, exe, A, 4 if q else 6, envs if q else envs, bal=True)
    s.probe(c, exe, 1500 if q else 30000, "block", "data")
    s.random(c, exe, 2500 if q else 60000, lambda: {"flags": .02, "raw": 0, "partial": 0, "alias": .15})
chk.main("R05", "model_checking", run)
