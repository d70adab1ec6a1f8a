"""R03: paths denote what HbsSem's lookup says."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, semcmp as s, hbuild
P = [(x, 0) for x in ("a", "b", "0", "1", "this", "..", ".", "/", "[0]", "[c d]", "@root", "@key", "2", "../", "./")]
DATA = [{"a": {"b": [{"a": "A", "b": "B", "0": "Z", "c d": "C"}, {"a": {"b": 1}}, "s"], "a": {"a": 1, "b": {"a": "deep"}}, "c d": "CD", "this": "T"}, "b": "top", "0": "zero", "c d": [0, [1, "one"]], "1": None},
        {"a": [["x", "y"], {"a": "q", "b": [1, 2]}], "b": {"a": None, "b": {"b": "bb", "a": [{"a": "k"}]}}, "this": "this!", "..": "dots"},
        {"a": "str", "b": False, "0": [1]}, {"a": [], "b": {}}]
W = [("{{", "}}"), ("{{#with a}}{{{", "}}}{{/with}}"), ("{{#with a}}{{#each b}}[{{", "}}]{{/each}}{{/with}}"), ("{{#each b}}{{#if this}}{{ident ", "}}{{/if}}{{/each}}"),
     ("{{#", "}}+{{else}}-{{/this}}"), ("{{#a as |a b|}}{{", "}}{{/a}}"), ("{{#with b as |b|}}{{#with b.a}}{{b.", "}}{{/with}}{{/with}}")]
def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    envs = [s.env(d, f, ["ident"]) for d in DATA for f in ((), ("compat",))]
    s.enum(c, exe, P, 3 if q else 4, envs[:2] if q else envs, W, laws=())
    if q: s.enum(c, exe, P, 2, envs, W, laws=())
    # deep parent paths through nested contexts that repeat, are equal, or are scalars
    B = [("{{#with a}}", 1), ("{{/with}}", -1), ("{{#each b}}", 1), ("{{/each}}", -1), ("{{../a}}", 0), ("{{../../b}}", 0), ("{{#if ../this}}", 1), ("{{/if}}", -1), ("{{.}}", 0), ("{{../../../a.b}}", 0), ("{{#with ../a}}", 1)]
    D2 = [{"a": {"a": {"a": "3", "b": [1, 1, {"a": "e"}]}, "b": [{"a": "x"}, "s", "s"]}, "b": [{"b": [1, 2]}, 5, 5]}]
    s.enum(c, exe, B, 5 if q else 6, [s.env(d, f) for d in D2 for f in ((), ("compat",))], bal=True)
    s.probe(c, exe, 1500 if q else 30000, "path")
    s.random(c, exe, 2500 if q else 60000, lambda: {"flags": .25, "flagset": ["compat"], "partial": .05, "raw": 0, "lams": .02, "hp": .3})
chk.main("R03", "model_checking", run)
