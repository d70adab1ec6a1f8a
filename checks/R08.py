"""R08: a partial that is alone on its line is indented as HbsWhitespace and HbsSem say."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, semcmp as s, hbuild
A = [("  ", 0), ("\n", 0), ("\t", 0), ("x", 0), ("{{> p}}", 0), ("{{> q}}", 0), ("\r\n", 0), ("{{#if a}}", 1), ("{{/if}}", -1)]
A2 = [(" ", 0), ("\n", 0), ("{{~> p}}", 0), ("{{> q~}}", 0), ("{{> (lookup . 'n')}}", 0), ("{{#> p}}", 1), ("{{/p}}", -1), ("{{#each l}}", 1), ("{{/each}}", -1), ("{{> e}}", 0)]
PS = [{"p": "1\n2\n", "q": "a{{a}}b", "e": ""}, {"p": " {{a}}\n\n  {{> q}}\n.", "q": "Q\nR", "e": "\n"}, {"p": "{{#if a}}\n  y\n{{/if}}\n{{> q}}\n", "q": "\n{{a}}\n\n", "e": "{{!x}}"},
      {"p": "{{> @partial-block}}\nP", "q": "{{#> p}}\n i\n{{/p}}\n", "e": "\r\nz\r"}, {"p": ("echo",), "q": "  {{> p}}\n\t{{> e}}\n", "e": "e\n"}]
DATA = [{"a": "v1\nv2\n", "l": [1, 2], "n": "p"}, {"a": "", "l": ["x\n"], "n": "q"}]
def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    envs = [s.env(d, f, ["echo"], p) for p in PS for d in DATA for f in ((), ("prevent_indent",), ("compat",), ("ignore_standalone",), ("compat", "prevent_indent"))]
    s.enum(c, exe, A, 3 if q else 4, envs[::3] if q else envs, bal=True, laws=())
    s.enum(c, exe, A2, 3 if q else 4, envs[1::3] if q else envs, bal=True, laws=())
    cs = []
    R = c.rng
    T = ["\n", "\n\n", "x", " ", "\t", "\r\n", "{{a}}", "{{> q}}", "{{#if a}}", "{{/if}}", "{{> r}}", "\n  ", "y\n", "{{{a}}}", "{{!c}}", "\\{{e}}", "{{#each l}}", "{{/each}}", "{{@index}}"]
    def tm(n, ok):
        o = "".join(R.choice(T) for _ in range(R.randrange(n)))
        return o if ok else o
    for i in range(4000 if q else 80000):
        ps = {"p": tm(8, 1), "q": tm(6, 1).replace("{{> q}}", "{{> r}}"), "r": tm(4, 1).replace("{{> q}}", "").replace("{{> r}}", "R\n")}
        for k in ps:
            for b in ("if", "each"):
                ps[k] = ps[k].replace("{{#%s " % b, "\0%s " % b)
            # balance: close in order what was opened
            out, st = "", []
            import re
            for part in re.split(r"(\{\{#if a\}\}|\{\{#each l\}\}|\0if a\}\}|\0each l\}\}|\{\{/if\}\}|\{\{/each\}\})", ps[k]):
                if part.startswith("\0"): st.append(part[1:].split()[0]); out += "{{#" + part[1:]
                elif part.startswith("{{/"):
                    if st: out += "{{/" + st.pop() + "}}"
                else: out += part
            ps[k] = out + "".join("{{/%s}}" % x for x in reversed(st))
        f = R.choice([(), (), (), ("prevent_indent",), ("compat",), ("ignore_standalone",), ("compat", "prevent_indent")])
        t = R.choice(["", "\n", "a\n", " "]) + R.choice(["", " ", "  ", "\t", " \t"]) + R.choice(["{{> p}}", "{{>q}}", "{{#> p}}\n Z\n{{/p}}", "{{> p}} "]) + R.choice(["", "\n", "\nz", "z", "\r\n  {{> q}}\n"])
        cs.append(dict(s.env(R.choice(DATA), f, [], ps), t=list(t.encode())))
    s.cases(c, exe, cs)
chk.main("R08", "model_checking", run)
