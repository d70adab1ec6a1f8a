"""J03: handlebarsc does with its arguments, files and input what HbsCli says."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, cli, gen, hbuild, rgen, valcmp, semcmp
from cli import b

NEUTRAL = [["--run-count=1"], ["--run-count", "3"], ["--run-count=0"], ["--run-count=-2"], ["--run-count=x"], ["--pool-size=0"], ["--pool-size=1"], ["--pool-size", "4096"], ["--pool-size=99999999999999"], ["--pretty-print"], ["--no-convert-input"], ["--no-conv"]]
BAD = [["--nope"], ["-z"], ["--lex=1"], ["--p"], ["--no"], ["-tt.hbs", "-q"], ["--flag-s=x"]]

def f(n, t): return [[list(x) for x in n.encode("latin1").split(b"/")], "file", t if isinstance(t, list) else b(t)]
def d(n): return [[list(x) for x in n.encode("latin1").split(b"/")], "dir", []]

def textual(v):
    """data that JSON and YAML can carry: no functions, text as UTF-8"""
    u = lambda s: list(bytes(s).decode("latin1").encode("utf-8"))
    if v[0] in ("s", "ss"): return ["s", u(v[1])]
    if v[0] == "f": return ["n"]
    if v[0] == "a": return ["a", v[1], [textual(x) for x in v[2]]]
    if v[0] == "m":
        out = []
        for k, x in v[2]:
            if u(k) not in [y[0] for y in out]: out.append([u(k), textual(x)])
        return ["m", v[1], out]
    return v

def run(c):
    exe = hbuild.build("asan", cli=True); q = c.quick; rng = c.rng
    A = lambda k, n: [k, b(n)]
    data = ["m", 1, [[b("a"), ["s", b("<x>")]], [b("p"), ["s", b("q")]]]]
    docs = [["json", b('{"a":"<x>","p":"q"}'), data], ["yaml", b("a: <x>\np: q\n"), data], ["json", b("{"), ["bad"]], ["yaml", b("["), ["bad"]], ["json", b("a: <x>\np: q\n"), ["bad"]], ["json", b("{{a}}"), ["bad"]], ["yaml", b('{"a":"<x>","p":"q"}'), data], ["json", b("-{{p}}"), ["bad"]], ["json", b("A\n"), ["bad"]]]
    fs = [f("t.hbs", "[{{a}}]{{> x}}\n"), f("e.hbs", "{{#a}}\n"), f("empty", ""), f("d.json", '{"a":"<x>","p":"q"}'), f("d.yaml", "a: <x>\np: q\n"), f("d.yml", "a: <x>\np: q\n"), f("bad.json", "{"), f("bad.yaml", "["),
          f("x.hbs", "{{p}}!"), f("x.t", "other"), f("sub/x.hbs", "sub{{a}}"), d("dir"), f("-n", "dash {{p}}"), f("dj", "a: <x>\np: q\n")]
    base = {"files": fs, "docs": docs, "names": [b("x")], "stdin": b("-{{p}}")}
    args = [A("template", "t.hbs"), A("template", "-"), A("template", "nope"), A("data", "d.json"), A("data", "d.yml"), A("flags", "compat"), A("flags", "no_escape,strict"), ["loader"], A("path", "sub"), A("ext", ".t"), ["nonewline"],
            ["mode", "lex"], ["mode", "execute"], ["mode", "compile"], A("pos", "e.hbs"), ["neutral", ["--run-count=2"]], ["bad", ["--nope"]]]
    cli.enum(c, exe, base, args, 2 if q else 3, "arguments")
    args = [A("template", "t.hbs"), A("pos", "t.hbs"), A("data", "d.yaml"), ["loader"], A("path", "sub/"), A("ext", ".t"), A("flags", "compat"), ["nonewline"]]
    cli.enum(c, exe, base, args, 3 if q else 5, "loading")
    # every mode with every kind of template and data
    cs = []
    modes = ["execute", "lex", "parse", "compile", "module", "usage", "version", "info"]
    for m in modes:
        for t in ("t.hbs", "e.hbs", "empty", "nope", "dir", "sub/x.hbs", "./sub/../t.hbs", "t.hbs/", "sub", "", "-", "sub/nope", "t.hbs/x"):
            for how in ("template", "pos"):
                if how == "pos" and t == "": continue
                for dn in ([None, "d.json"] if m != "execute" or q else [None, "d.json", "d.yaml", "d.yml", "dj", "bad.json", "bad.yaml", "nope.json", "nope.yaml", "dir", "empty", "-", ""]):
                    for extra in ([], [["loader"]]):
                        a = [A(how, t)] + ([A("data", dn)] if dn is not None else []) + ([["mode", m]] if m != "execute" or rng.random() < .5 else []) + extra
                        rng.shuffle(a)
                        cs.append(dict(base, args=a, full=False))
    for dn in ("d.json", "d.yaml", "d.yml", "dj", "bad.json", "bad.yaml", "nope.json", "dir", "empty", "-", "", "d.json/", "x.hbs"):
        for t in ("t.hbs", "-", "e.hbs", "nope"):
            for si in ("-{{p}}", '{"a":"<x>","p":"q"}', "", "{"):
                cs.append(dict(base, args=[A("data", dn), A("template", t), ["loader"]], full=False, stdin=b(si), docs=docs + [["json", b("{{p}}!"), ["bad"]]]))
    for a in NEUTRAL:
        for m in ("execute", "lex", "module"): cs.append(dict(base, args=[["neutral", a], A("template", "t.hbs"), A("data", "d.json"), ["loader"], ["mode", m]], full=False))
    for a in BAD:
        for rest in ([], [A("template", "t.hbs")], [["mode", "version"]], [["mode", "lex"], A("pos", "t.hbs")]):
            cs.append(dict(base, args=[["bad", a]] + rest, full=False)); cs.append(dict(base, args=rest + [["bad", a]], full=False))
    for a in (["-t"], ["--data"], ["--flags"]): cs.append(dict(base, args=[A("pos", "t.hbs"), ["bad", a]], full=False))
    for m in modes:
        for t in ("t.hbs", "e.hbs", "nope"): cs.append(dict(base, args=[["mode", m], A("template", t), ["loader"]], full=True))
    cs.append(dict(base, args=[["nonewline"], A("template", "one.hbs")], files=fs + [f("one.hbs", "{{nope}}")], full=True))
    cs.append(dict(base, args=[A("template", "big.hbs")], files=fs + [f("big.hbs", "x" * 9000)], full=True))
    cs.append(dict(base, args=[], full=False)); cs.append(dict(base, args=[A("pos", "t.hbs"), A("pos", "e.hbs"), ["loader"]], full=False))
    for w in cli.WORDS + ["", ",", "compat,strict", "strict compat", "Compat", "no_escape,,", "use_data", "prevent_indent", "escape", "xstrictx", "known_helpers", "ignore_standalone,no_escape"]:
        for t in ("{{a}}{{nope 1}}", "{{#a}}\n x\n{{/a}}\n", "{{#if a}} {{nope.b}}{{/if}}", "{{=<% %>=}}<%a%>", "{{{nope}}}{{../a}}", "{{log a 1 'x' true null this}}{{#with .}}{{log}}{{/with}}{{#if a}}{{nope.b}}{{log p k=1}}{{/if}}{{log (lookup . 'a')}}"):
            for m in ("execute", "module"): cs.append(dict(base, args=[A("flags", w), A("template", "-"), A("data", "d.json"), ["mode", m]], full=False, stdin=b(t)))
    cli.cases(c, exe, cs, "modes")
    # templates of every size, with every byte, as a file and through a pipe
    cs = []
    for n in [1, 2, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097] + ([] if q else [8191, 8192, 16384]):
        for k in ("nul", "text", "any"):
            t = [0 if k == "nul" and i % 3 == 0 else 65 + i % 26 if k != "any" else rng.randrange(256) for i in range(n)]
            t = [x if x not in (123, 92) else 65 for x in t]
            for src in ("-", "t.hbs"):
                cs.append(dict(base, args=[A("template", src), ["nonewline"]], files=[f("t.hbs", t)], stdin=t if src == "-" else [], full=False))
        s = ["s", b("y" * (n % 9000))]
        js = b('"' + "y" * (n % 9000) + '"')
        for src, si in (("-", js), ("d.json", []), ("d.yaml", [])):
            cs.append(dict(base, args=[A("template", "t.hbs"), A("data", src)], files=[f("t.hbs", "{{.}}"), f("d.json", js), f("d.yaml", js)], docs=[["json", js, s], ["yaml", js, s]], stdin=si, full=False))
    cli.cases(c, exe, cs, "sizes")
    # seeded templates over data in files, partials in a directory
    cs = []
    w = valcmp.Writer(rng); g = gen.G(rng)
    for i in range(1200 if q else 20000):
        x = rgen.tame(rng, {"rec": 1, "lams": 0, "depth": 2, "flags": 0, "known": 0})
        v = textual(x["data"])
        js, ys = list(w.json(v, False).encode("utf-8")), list(w.yaml(v).encode("utf-8"))
        nm = rng.choice(["t.hbs", "x", "in/t", "a b"]); dn = rng.choice(["d.json", "d", "in/d.yaml", "d.yml", "d.YAML", "yaml", ".yml"])
        if cli_format(dn) == "yaml" and 0 in ys: dn = "d.json"
        path = rng.choice([".", "in", "in/", "./in", "pp/qq"]); ext = rng.choice([".hbs", "", ".x.y"])
        ff = [f(nm, x["t"] or b("x")), f(dn, ys if cli_format(dn) == "yaml" else js)]
        taken = [y[0] for y in ff]; names = []
        for k, p in x["partials"]:
            k = bytes(k)
            if p[0] not in ("s", "ss") or not k or b"\0" in k or b".." in k or len(k) > 100 or k in (b".",): continue
            segs = [list(z) for z in (os.path.normpath(path).encode() + b"/" + k + ext.encode()).split(b"/") if z not in (b"", b".")]
            if any(segs[:len(t)] == t or t[:len(segs)] == segs for t in taken): continue
            taken.append(segs); ff.append([segs, "file", p[1]]); names.append(list(k))
        a = [A(rng.choice(["template", "pos"]), nm), A("data", dn)]
        si = []
        y = rng.random()
        if y < .15: a[0] = A("template", "-"); si = x["t"]
        elif y < .25: a[1] = A("data", "-"); si = js
        elif y < .3: a = a[:1]
        if rng.random() < .8: a.append(["loader"])
        if path != "." or rng.random() < .3: a.append(A("path", path))
        if ext != ".hbs" or rng.random() < .3: a.append(A("ext", ext))
        if rng.random() < .4: a.append(["nonewline"])
        if rng.random() < .3: a.append(["neutral", rng.choice(NEUTRAL)])
        if rng.random() < .35: a.append(A("flags", ",".join(rng.sample(cli.WORDS, rng.choice([1, 1, 2, 3])))))
        if rng.random() < .1: a.append(A("flags", rng.choice(cli.WORDS)))
        if rng.random() < .25: a.append(["mode", rng.choice(["lex", "parse", "compile", "module", "execute"])])
        k = a[0][0]
        rng.shuffle(a)
        cs.append({"args": a, "files": ff, "docs": [["json", js, v], ["yaml", ys, v]], "names": names + [b("@partial-block"), b("nope")], "stdin": si, "full": rng.random() < .03})
    cli.cases(c, exe, cs, "seeded runs")
    c.assumptions += ["what a JSON or YAML text denotes is J01's business", "names of files do not lead out of the scratch directory", "flag words are looked for anywhere in the argument, as the program does",
                      "the printed module is compared without hash, address, sizes and time", "an empty file is an error, empty standard input is not (pinned by the project's tests)"]
def cli_format(n): return "yaml" if (n.endswith(".yaml") and len(n) > 5) or (n.endswith(".yml") and len(n) > 4) else "json"
chk.main("J03", "model_checking", run)
