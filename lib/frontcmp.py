"""Templates: lexer/parser/whitespace specification against the library."""
import json, os
import hbuild, tlc, drv, gen

def merge(ts):
    o = []
    for k, v in ts:
        if k == "CONTENT" and o and o[-1][0] == "CONTENT":
            o[-1] = [k, o[-1][1] + v]
        else:
            o.append([k, v])
    return o

IGN = 1 << 8

def structure(a):
    """the tree without what whitespace control decides"""
    if isinstance(a, list) and a and isinstance(a[0], str):
        if a[0] == "content":
            return ["content", a[2]]
        if a[0] == "partial":
            return [structure(x) for x in a[:4]]
        if a[0] == "str" or a[0] == "num":
            return a
    if isinstance(a, list):
        return [structure(x) for x in a]
    return a

def conts(a):
    """values of the static text nodes and the indents of partials, in order"""
    out = []
    def go(a):
        if isinstance(a, list) and a:
            if a[0] == "content":
                out.append(["content", a[1], a[2]]); return
            if a[0] == "partial":
                out.append(["indent", a[4]]); return
            if a[0] in ("str", "num", "path"):
                return
            for x in a:
                go(x)
    go(a)
    return out

def enum(frags, mx, bal=False, ign=False, invs=("LexLaw", "StripLaw", "KeepLaw", "PlainLaw", "RoundLaw"), timeout=800):
    """frags: list of (text, nesting change)"""
    d = tlc.scratch()
    p = os.path.join(d, "params.ndjson")
    with open(p, "w") as f:
        f.write(json.dumps({"frags": [{"s": list(t.encode("latin1")), "d": k} for t, k in frags], "max": mx, "bal": bal, "ign": ign}) + "\n")
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in invs) + "CONSTRAINT PrintCase\n"
    r = tlc.run("EnumParse", env={"PARAMS": p}, cfg_text=cfg, timeout=timeout)
    os.unlink(p); os.rmdir(d)
    return r

def located(t, loc):
    """is the error location inside the template (lines from 1, any column of the line)"""
    fl, fc, ll, lc = loc
    n = bytes(t).count(b"\n") + 1
    return 1 <= fl <= ll <= n + 1 and fc >= 0 and lc >= 0

def ask(exe, ts, ops):
    """ts: list of (template, ign)"""
    rq = []
    for t, ign in ts:
        for o in ops:
            q = {"op": o, "t": t}
            if ign and o != "lex": q["flags"] = IGN
            if o == "parse": q["tostr"] = 1
            rq.append(q)
    a = drv.ask_all(exe, rq)
    return [a[i:i + len(ops)] for i in range(0, len(a), len(ops))]

def compare(c, exe, cases, what, key):
    """cases: [(t, ign, toks, ast, text)] with the specification's tokens, tree and tree text"""
    ops = ["lex"] if what == "lex" else ["parse"]
    ans = ask(exe, [x[:2] for x in cases], ops)
    for (t, ign, toks, ast, txt), (g,) in zip(cases, ans):
        case = {"op": ops[0], "t": t, "ign": ign}
        c.add("traces_validated_against_impl")
        if "stdout" in g:
            c.fail(case, "nothing printed", g, "the library printed to stdout")
            continue
        if "crash" in g:
            c.fail(case, "an answer", g, "crash")
            continue
        if what == "lex":
            got = merge(g["toks"]) if "toks" in g else g
            if got != toks:
                c.fail(case, toks, got, "tokens")
        elif what == "grammar":
            if ast[0] == "err":
                c.add("rejected")
                if "err" not in g:
                    c.fail(case, "rejected", g, "accepted, should be rejected")
                elif g["err"] != ast[1]:
                    c.fail(case, ast, g, "error number")
                elif not g["msg"]:
                    c.fail(case, "a message", g, "error without message")
                elif not located(t, g["loc"]):
                    c.fail(case, "location inside the template", g, "error location")
            elif "ast" not in g:
                c.fail(case, "accepted", g, "rejected, should be accepted")
            elif structure(g["ast"]) != structure(ast):
                c.fail(case, structure(ast), structure(g["ast"]), "tree")
            elif g["tostr"] != txt:
                c.fail(case, txt, g["tostr"], "printed tree")
        elif what == "strip":
            if ast[0] == "err" or "ast" not in g or structure(g["ast"]) != structure(ast):
                continue        # L02's business
            c.add("stripped_nodes", sum(1 for x in conts(ast) if x[0] == "content" and x[1] != x[2]))
            if conts(g["ast"]) != conts(ast):
                c.fail(case, conts(ast), conts(g["ast"]), "static text")

def enum_cases(c, exe, what, frags, mx, bal=False, ign=False, timeout=600):
    r = enum(frags, mx, bal, ign, timeout=timeout)
    c.add("states", r.distinct); c.add("transitions", r.states)
    seen = {}
    for x in r.res:
        k = bytes(x["t"])
        if k not in seen:
            seen[k] = (x["t"], ign, x["toks"], x["ast"], x["str"])
    cs = list(seen.values())
    for x in cs[len(cs)//2:len(cs)//2+1]: c.sample(bytes(x[0]).decode("latin1"), 40)
    for t in seen: c.seen("%r%s" % (t, ign))
    compare(c, exe, cs, what, "enum")

def random_cases(c, exe, what, n, mk):
    cs = []
    seen = set()
    for i in range(n):
        t, ign = mk()
        if (t, ign) in seen: continue
        seen.add((t, ign))
        cs.append({"id": len(cs), "t": list(t), "ign": ign})
    exp, r = tlc.cases("CaseParse", cs)
    c.add("states", r.distinct); c.add("transitions", r.states)
    out = [(x["t"], x["ign"], exp[x["id"]]["toks"], exp[x["id"]]["ast"], exp[x["id"]]["str"]) for x in cs]
    for x in out[:3]: c.sample(bytes(x[0]).decode("latin1"), 40)
    for x in cs: c.seen("%r%s" % (bytes(x["t"]), x["ign"]))
    compare(c, exe, out, what, "random")
