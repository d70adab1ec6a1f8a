"""R01: rendering is the meaning HbsSem gives to a template."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, semcmp as s, hbuild, rgen
A1 = [("x", 0), ("{{a}}", 0), ("{{#a}}", 1), ("{{/a}}", -1), ("{{^a}}", 1), ("{{else}}", 0, 1), ("{{.}}", 0), ("{{#if b}}", 1), ("{{/if}}", -1), ("{{b.c}}", 0)]
A2 = [("<", 0), ("{{#b}}", 1), ("{{/b}}", -1), ("{{#c}}", 1), ("{{/c}}", -1), ("{{^}}", 0, 1), ("{{else if a}}", 0, 1), ("{{else b}}", 0, 1), ("{{c}}", 0), ("\n", 0)]
A3 = [(" ", 0), ("{{#each a}}", 1), ("{{/each}}", -1), ("{{#with b}}", 1), ("{{/with}}", -1), ("{{this}}", 0), ("{{../b.c}}", 0), ("{{@index}}", 0), ("{{else}}", 0, 1), ("{{a}}", 0), ("{{> p}}", 0)]
DATA = [{}, {"a": [1, 2], "b": {"c": "<"}, "c": True}, {"a": {"b": {"c": 0}, "a": ["s"]}, "b": [{"c": 1}, {"c": None}], "c": "t"},
        {"a": False, "b": "", "c": []}, {"a": ["x", [1, None], {"a": 5}], "b": {"b": {"c": "&"}, "a": []}, "c": ("lam",)}, {"a": 0, "b": True, "c": {"c": "k"}}]
def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    envs = [s.env(d, partials={"p": "[{{a}}{{#each .}}{{@key}}{{/each}}]"}) for d in DATA]
    ign = [dict(e, flags=s.fl("ignore_standalone")) for e in envs]
    s.enum(c, exe, A1, 4 if q else 6, ign if q else envs + ign, bal=True, compose=True)
    s.enum(c, exe, A2, 4 if q else 5, envs, bal=True)
    s.enum(c, exe, A3, 4 if q else 5, envs, bal=True, extra={"after": 1})
    s.random(c, exe, 5000 if q else 120000, {"flags": .03}, {"after": 1})
    s.random(c, exe, 1500 if q else 30000, {"flags": .0, "depth": 5, "lams": .02, "alias": 0})
chk.main("R01", "model_checking", run)
