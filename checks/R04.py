"""R04: iteration data and block parameters have HbsSem's scope."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, semcmp as s, hbuild
A1 = [("{{#each a}}", 1), ("{{#each .}}", 1), ("{{/each}}", -1), ("{{@index}}", 0), ("{{@key}},", 0), ("{{@first}}{{@last}}", 0), ("{{@../index}}{{@../key}};", 0), ("{{@root.z}}", 0), ("{{#each @root.a}}", 1), ("{{@index.x}}{{@../../index}}", 0)]
A2 = [("{{#each a as |x y|}}", 1), ("{{#each x as |y|}}", 1), ("{{#each . as |a|}}", 1), ("{{/each}}", -1), ("{{x}}{{y}},", 0), ("{{x.0}}{{x.z}};", 0), ("{{#with a as |x|}}", 1), ("{{/with}}", -1), ("{{this.x}}{{./y}}", 0), ("{{../x}}", 0), ("{{a}}", 0)]
A3 = [("{{#a as |x i|}}", 1), ("{{/a}}", -1), ("{{#frame 'c' x as |y x|}}", 1), ("{{/frame}}", -1), ("{{x}}{{i}}{{@v}},", 0), ("{{#each x}}", 1), ("{{/each}}", -1), ("{{@index}}{{@../index}}{{@v}}", 0), ("{{> p}}", 0), ("{{#> q}}", 1), ("{{/q}}", -1), ("{{#if x}}", 1), ("{{/if}}", -1)]
DATA = [{"a": [1, 2], "z": "Z", "x": "X", "y": "Y"}, {"a": {"k": [3, 4], "x": {"z": 1}}, "z": [0], "y": ["q"]}, {"a": [[5], [6, 7], {"x": 8}], "x": {"x": "xx"}, "z": {"index": 9}}, {"a": [], "x": 0}, {"a": {"x": "v", "y": [1, {"x": "w", "z": 2}], "a": ["A"]}}]
def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    ps = {"p": "<{{x}}{{@index}}{{@v}}{{#each this}}{{@../index}}{{/each}}>", "q": "({{#each .}}{{> @partial-block}}{{/each}}{{@index}})"}
    envs = [s.env(d, (), ["frame"], ps) for d in DATA] + [s.env(DATA[0], (), ["frame"], ps, {"index": "I", "root": "R", "z": {"x": 1}, "v": "V"})]
    s.enum(c, exe, A1, 4 if q else 6, envs, bal=True)
    s.enum(c, exe, A2, 4 if q else 5, envs, bal=True)
    s.enum(c, exe, A3, 4 if q else 5, envs[:4] if q else envs, bal=True)
    s.scopes(c, exe, 800 if q else 30000)
    s.probe(c, exe, 1500 if q else 30000, "data")
    s.random(c, exe, 3000 if q else 60000, lambda: {"flags": .02, "raw": 0, "lams": .03, "hp": .4, "depth": 5})
chk.main("R04", "model_checking", run)
