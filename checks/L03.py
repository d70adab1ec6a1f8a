"""L03: delimiter changes are rewritten as HbsDelims says, and mean the same as the default delimiters."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, semcmp as s, hbuild, tlc, drv, rgen, gen
b = lambda x: list(x.encode("latin1"))
def enum(c, exe, delims, items, mx, data, partials={}, lam=False, helpers=()):
    d = tlc.scratch(); p = os.path.join(d, "params.ndjson")
    its = []
    for x in items:
        if isinstance(x, int): its.append({"k": "set", "to": x, "s": [], "d": 0, "n": ""})
        elif x[0] == "T": its.append({"k": "text", "s": b(x[1:]), "d": 0, "n": ""})
        else:
            t = x[1:]; dd = 1 if t[0] in "#^" and len(t) > 1 else -1 if t[0] == "/" else 0
            its.append({"k": "tag", "s": b(t), "d": dd, "n": t[1:].split()[0] if dd else ""})
    e = s.env({}, ("compat",) + (("mustache_style_lambdas",) if lam else ()), helpers, partials)
    envs = [dict(e, data=s.V(x)) for x in data]
    with open(p, "w") as f:
        f.write(json.dumps({"items": its, "delims": [[b(x), b(y)] for x, y in delims], "max": mx, "data": [x["data"] for x in envs], "partials": e["partials"], "lam": lam,
                            "helpers": [[b(h), ["f", h]] for h in helpers]}) + "\n")
    r = tlc.run("EnumDelims", env={"PARAMS": p}, cfg_text="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT DelimLaw\nCONSTRAINT PrintCase\n")
    os.unlink(p); os.rmdir(d)
    c.add("states", r.distinct); c.add("transitions", r.states)
    cs, exp, seen = [], {}, set()
    for x in r.res:
        k = (bytes(x["t"]), x["k"])
        if k in seen: continue
        seen.add(k); c.seen(repr(k))
        exp[len(cs)] = x
        cs.append(dict(envs[x["k"] - 1], t=x["t"], id=len(cs)))
    if cs: c.sample(bytes(cs[len(cs) // 2]["t"]).decode("latin1"), 30)
    s.compare(c, exe, cs, exp)
    one = [x for x in cs if exp[x["id"]]["k"] == 1]
    rew(c, exe, [(x["t"], None, None) for x in one], [exp[x["id"]] for x in one])
def rew(c, exe, ts, exps):
    ans = drv.ask_all(exe, [dict({"op": "delims", "t": t}, **({"open": o, "close": cl} if o is not None else {})) for t, o, cl in ts])
    for (t, o, cl), e, g in zip(ts, exps, ans):
        c.add("rewritten")
        case = {"op": "delims", "t": t, "open": o, "close": cl}
        want = {"out": e["s"]} if e["ok"] else {"err": 1}
        if {k: g.get(k) for k in want} != want: c.fail(case, want, g, "rewriting")
def run(c):
    exe = hbuild.build("asan")
    q = c.quick
    D = [("{{", "}}"), ("<%", "%>"), ("|", "|"), ("[", "]]"), ("{", "}"), ("\"", "'"), ("{{{", "}}"), ("<<<", ">>"), ("|", "]]]]")]
    DATA = [{"a": "A", "b": [1, 2], "c": {"a": "<", "b": False}}]
    P = {"p": "({{a}}|a|<% a %>{{=| |=}}|a|{{a}})"}
    enum(c, exe, D, [2, 3, 1, 4, "#a", "t#b", "t/b", "T{{x}}", "T<% |", "Ty", "t> p"], 4 if q else 5, DATA, P)
    enum(c, exe, D, [5, 6, 7, 1, "ta", "t#c", "t/c", "t^b", "t/b", "T}} x", "T{a}", "T\n"], 4 if q else 5, DATA, P)
    enum(c, exe, D, [2, 3, 1, "t#f", "t/f", "ta", "#f", "T x", "tv"], 4 if q else 6, [{"f": ("mlam",), "v": "V", "a": "A"}, {"f": ("mlam",), "v": {"v": 1}, "a": ("mlam",)}], P, lam=True)
    enum(c, exe, D, [8, 9, 2, "t#f", "t/f", "ta", "tv"], 4 if q else 5, [{"f": ("mlam",), "v": "V", "a": "A"}], P, lam=True)
    # templates and what they mean, with findings among them
    pairs = [("{{=<% %>=}}<%a%>{{a}}<% a %>", "{{a}}\\{{a}}{{a}}"), ("{{=| |=}}|#b||.||/b|", "{{#b}}{{.}}{{/b}}"), ("a{{=<% %>=}}{ <%a%>", "a{ {{a}}"), ("{{=<% %>=}}{<%a%>", "{\\x{{a}}"), ("{{=<\\ \\>=}}<\\a\\>", "{{a}}")]
    e = s.env(DATA[0], ("compat",))
    for t, plain in pairs:
        want = "{A" if t == pairs[3][0] else None
        a, z = drv.ask_all(exe, [dict(e, op="render", t=b(t)), dict(e, op="render", t=b(plain))])
        w = b(want) if want else z["out"][0]
        if a.get("out") != [w]: c.fail({"op": "meaning", "t": t}, w, a, "meaning of a template with its own delimiters")
    # bytes
    cs = []
    FR = ["{{", "}}", "{{=", "=}}", "<%", "%>", "=", " ", "\\", "x", "{", "}", "{{=<% %>=}}", "<%={{ }}=%>", "{{a}}", "<%a%>", "\n", "\"", "{{= ", " =}}", "|", "<%=| |=%>", "|a|", "|={{ }}=|", "{{{a}}}", "\0", "{{!", "{{#b}}", "{{/b}}", "<%#b%>", "<%/b%>", "<% > p %>", "{{=<<< >>=}}", "<<<a>>", "<<<", ">>", "<<<#b>>", "<<</b>>", "<<<=| ]]]]=>>", "|a]]]]", "|={{ }}=]]]]"]
    R = c.rng
    for i in range(6000 if q else 150000):
        t = b("".join(R.choice(FR) for _ in range(R.choice([1, 2, 3, 4, 5, 6, 8, 12]))))
        o, cl = R.choice([("{{", "}}")] * 3 + D[1:] + [("", ""), ("<%", "}}")])
        if o == "" : o, cl = "{{", "%>"
        cs.append({"id": i, "t": t, "open": b(o), "close": b(cl)})
    exp, r = tlc.cases("CaseDelims", cs)
    c.add("states", r.distinct); c.add("transitions", r.states)
    rew(c, exe, [(x["t"], x["open"], x["close"]) for x in cs], [exp[x["id"]] for x in cs])
    cs2 = [dict(s.env(R.choice(DATA + [{"f": ("mlam",), "v": "V", "a": "A", "b": ("mlam",)}]), ("compat",) + (("mustache_style_lambdas",) if R.random() < .4 else ()), (), P), t=x["t"]) for x in cs[:3000 if q else 60000]]
    s.cases(c, exe, cs2)
chk.main("L03", "model_checking", run)
