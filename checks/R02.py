"""R02: what is escaped, and how, is what HbsSem/HbsValues say."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, semcmp as s, hbuild, rgen
TAGS = [("{{a}}", 0), ("{{{a}}}", 0), ("{{&a}}", 0), ("{{a.b}}", 0), ("{{#a}}", 1), ("{{/a}}", -1), ("<&", 0), ("{{.}}", 0), ("{{safe a}}", 0), ("{{ident a}}", 0), ("{{echo a}}", 0),
        ("{{> p}}", 0), ("{{safe (ident a)}}", 0), ("{{{safe a}}}", 0), ("{{#safe a}}{{/safe}}", 0), ("{{#wrap}}{{a}}{{/wrap}}", 0), ("{{#each a}}{{this}}{{/each}}", 0), ("{{lookup a 'b'}}", 0), ("{{list a a}}", 0)]
VALS = ["<b>&\"'`", b"<i>&", ["<", b"<", 1, None], {"b": "'<"}, ("lam",), "a&amp;b", "\x00<\xff>", 5, -0.5, True, [["&", b"&"], {"b": "&"}], "", ("larr",)]
def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    hs = ["safe", "ident", "echo", "wrap", "list"]
    envs = [s.env({"a": v}, f, hs, {"p": "<{{a}}{{{a}}}>"}) for v in VALS for f in ((), ("no_escape",))]
    s.enum(c, exe, TAGS, 2 if q else 3, envs, bal=True)
    # every byte, every pair of interesting bytes, and long texts around the sizes buffers grow at
    cs = []
    txts = [bytes([b]) for b in range(256)]
    I = b"&<>\"'`a\x00\x80\xff;"
    txts += [bytes([x, y]) for x in I for y in I] + [bytes([x, y, z]) for x in b"&<'a" for y in b"&<`a" for z in b"&>\"a"]
    for n in (7, 8, 15, 16, 31, 63, 127, 128, 255, 256, 257, 511, 1023, 1024) if q else range(1, 700):
        for ch in (b"<", b"&", b"a"):
            txts.append(ch * n); txts.append(b"x" * (n - 1) + b"'")
    for x in range(200 if q else 5000):
        txts.append(bytes(c.rng.choice(I + b"xyz ") for _ in range(c.rng.randrange(1, 60))))
    for t in txts:
        for tm, fl in (("{{a}}|{{{a}}}|{{&a}}", 0), ("{{#b}}{{this}}{{/b}}{{b}}", 0), ("{{a}}", 8)):
            for v in (["s", list(t)],) if len(t) > 2 else (["s", list(t)], ["ss", list(t)]):
                cs.append({"t": list(tm.encode()), "data": ["m", 1, [[[97], v], [[98], ["a", 2, [v, v]]]]], "flags": fl, "helpers": [], "partials": []})
    s.cases(c, exe, cs)
    s.probe(c, exe, 1500 if q else 30000, "text")
    s.random(c, exe, 2500 if q else 60000, lambda: {"flags": .1, "flagset": ["no_escape"], "lams": .1, "raw": 0})
chk.main("R02", "model_checking", run)
