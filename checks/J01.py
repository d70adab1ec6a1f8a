import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import chk, hbuild, tlc, rgen, semcmp, valcmp

b = lambda s: list(s.encode("utf-8"))
KEYS = ["a", "b", "c", "k 1", "0", "1", "true", "null", "\u00e9", "", "x.y", "<k>", "q\"", "length", "this", "z" * 70] + ["n%d" % i for i in range(120)]
SRC = [("native", 0), ("native", 2), ("json", 0), ("json", 1), ("json", 2), ("jsonl", 0), ("mixed", 0), ("mixed", 1), ("mixed", 2), ("yaml", 0)]
BADYAML = ["", "[1", "{a: b", "\"abc", "'abc", "a: b: c", "a: 'b", "*x", "{[a]: b}", "? [a]\n: b", "- a\n b: c\n- ]", "a:\n\tb: c", "%FOO\n- [", "a: [1, 2\nb: 3", "\"\\q\"", "!<x"]
BADJSON = ["", " ", "nul", "tru", "[1 2]", "{\"a\" 1}", "{a:1}", "{1:2}", "\"a", "\"\\x\"", "\"\\u12", "[\"a\\\"]", "}", "]", ",", ":", "-", "+1", "[,1]", "{,}", "{\"a\":,}", "[1,,2]", "{\"a\":1,,}", "x", "\"\\u00zz\"", "[" * 40 + "]" * 40, "{\"a\":" * 40 + "1" + "}" * 40]

def check(c):
    exe = hbuild.build("asan", driver="data")
    rng = c.rng
    # every document of a few tokens
    toks = [{"s": b(s), "v": v} for s, v in (('"k"', ["s", b("k")]), ('"j"', ["s", b("j")]), ("17", ["i", 17]), ("null", ["n"]), ("true", ["b", True]))]
    d = tlc.scratch(); p = os.path.join(d, "params.ndjson")
    keys, idx = [b("k"), b("j"), b("")], [0, 1, 7]
    for mx, ts in ((5, toks), (7 if c.quick else 9, toks[:1] + toks[2:3])):
        open(p, "w").write(json.dumps({"toks": ts, "max": mx, "keys": keys, "idx": idx}) + "\n")
        r = tlc.run("EnumJson", env={"PARAMS": p}, cfg_text="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Law\nINVARIANT PrintCase\n")
        c.add("states", r.distinct); c.add("transitions", r.states)
        items = []
        for x in r.res:
            c.seen(json.dumps(x["t"]))
            for s, cv in (("json", 0), ("jsonl", 0), ("json", 2), ("mixed", 2)) if x["ok"] else (("json", 0), ("jsonl", 0)):
                items.append(({"src": s, "conv": cv, "text": x["t"], "keys": keys, "idx": idx}, x["r"] if x["ok"] else None))
        if os.environ.get("VERBOSE"): print("EnumJson: %.1fs %d documents" % (r.seconds, len(r.res)))
        c.sample(bytes(r.res[len(r.res) // 2]["t"]).decode(), 40)
        valcmp.compare(c, exe, items)
    os.unlink(p); os.rmdir(d)
    # documents by every way of loading them
    w = valcmp.Writer(rng)
    vs = [["s", b(t)] for t in valcmp.TXT] + [["m", 1, [[b(t), ["s", b(t)]]]] for t in valcmp.TXT if "\0" not in t]
    vs += [valcmp.doc(rng, rng.choice([1, 2, 3, 3, 4]), [0], KEYS) for _ in range(1500 if c.quick else 20000)]
    vs += [["m", 1, [[b(t), ["s", b(t)]], [b(t[:1] + "z"), ["i", 1]]]] for t in ("a\0b", "\0", "\0\0", "x\0")] + [["m", 1, [[b("a"), ["i", 1]], [b("a\0"), ["i", 2]], [b("a\0b"), ["m", 2, [[b("\0k"), ["n"]]]]]]]]
    items, bad = [], []
    for x, e in valcmp.facts(c, vs, lambda v: ([k for k, _ in v[2][:4]] if v[0] == "m" else []) + [b("a"), b("nope"), b("0"), [97, 0], []], [0, 1, 2, 41, 129, 130, 2147483647, -1]):
        js, ys = w.json(x["v"]), w.yaml(x["v"])
        for s, cv in SRC if not nulkey(x["v"]) else [q for q in SRC if q[0] in ("native", "yaml")]:
            q = {"src": s, "conv": cv, "keys": x["keys"], "idx": x["idx"]}
            if s == "native": q["v"] = x["v"]
            else: q["text"] = list((ys if s == "yaml" else js).encode("utf-8"))
            items.append((q, e))
        js = w.json(x["v"], False).strip()     # a document cut short is no document
        if x["v"][0] in "ams" and not nulkey(x["v"]) and rng.random() < .3:
            bad.append(({"src": rng.choice(["json", "jsonl"]), "text": list(js.encode("utf-8")[:rng.randrange(len(js.encode("utf-8")))]), "keys": [], "idx": []}, None))
    valcmp.compare(c, exe, items + bad)
    valcmp.compare(c, exe, [({"src": s, "text": b(t), "keys": [], "idx": []}, None) for t in BADJSON for s in ("json", "jsonl")] + [({"src": "yaml", "text": b(t), "keys": [], "idx": []}, None) for t in BADYAML])
    # templates over the document as JSON, YAML and built
    rexe = hbuild.build("asan")
    cs = []
    for i in range(2500 if c.quick else 30000):
        x = rgen.case(rng, {"lams": 0, "safe": False})
        cs.append(x)
    cs = [x for x in cs if plain(x["data"])]
    exp, r = tlc.cases("CaseRender", [dict(x, id=k) for k, x in enumerate(cs)])
    c.add("states", r.distinct); c.add("transitions", r.states)
    if os.environ.get("VERBOSE"): print("CaseRender: %.1fs %d" % (r.seconds, len(cs)))
    for k, x in enumerate(cs): x["id"] = k
    for kind in ("json", "jsonc", "yaml"):
        part = [dict(x, **({"yaml": w.yaml(x["data"])} if kind == "yaml" else {"json": w.json(x["data"]), "convert": int(kind == "jsonc")})) for x in cs]
        semcmp.compare(c, rexe, part, exp)
    for x in cs: c.seen(json.dumps(x["t"]) + json.dumps(x["data"]))
    c.assumptions += ["integers are within 64 bits, JSON object keys hold no NUL, documents nest less than json-c's limit of 32", "what json-c tolerates beyond RFC 8259 (trailing comma, trailing text) is accepted", "YAML is written in the JSON-compatible part of the language: no tags, anchors or merge keys"]

def nulkey(v): return any(0 in k or nulkey(x) for k, x in v[2]) if v[0] == "m" else any(map(nulkey, v[2])) if v[0] == "a" else False
def plain(v):
    if v[0] == "s":
        try: bytes(v[1]).decode("utf-8")
        except UnicodeDecodeError: return False
        return True
    if v[0] in ("f", "ss"): return False
    if v[0] == "a": return all(map(plain, v[2]))
    if v[0] == "m": return all(plain(["s", k]) and 0 not in k and plain(x) for k, x in v[2])
    return True
chk.main("J01", "model_checking", check)
