"""Printed tokens, trees and listings: the specification's text against the library's."""
import json, os, re
import tlc, drv

LINE = re.compile(rb"^CONTENT \[(.*)\]$")
def merged(b):
    """token lines with runs of text joined"""
    out = []
    for x in bytes(b).split(b"\n"):
        m = LINE.match(x)
        if m and out and (p := LINE.match(out[-1])): out[-1] = b"CONTENT [" + p.group(1) + m.group(1) + b"]"
        else: out.append(x)
    return list(b"\n".join(out))

def expected(c, cs):
    """cs: cases (t, flags); the specification's printed forms"""
    out = []
    for i in range(0, len(cs), 20000):
        exp, r = tlc.cases("CasePrint", [dict(x, id=k) for k, x in enumerate(cs[i:i + 20000])])
        c.add("states", r.distinct); c.add("transitions", r.states)
        if os.environ.get("VERBOSE"): print("CasePrint: %.1fs %d" % (r.seconds, len(exp)))
        out += [exp[k] for k in range(len(exp))]
    return out

def body(b):
    """a printed module without what depends on the build and the run"""
    head, _, rest = bytes(b).partition(b"FLAGS: ")
    return list(b"FLAGS: " + rest) if re.fullmatch(rb"HASH: \d+\nVERSION: \d+\nADDR: (0x[0-9a-f]+|\(nil\))\nSIZE: \d+\nDATA OFFSET: \d+\nTS: [^\n]+\n", head) else list(b)
def same(what, want, got):
    if want == got: return True
    if what == "module" and want[0] == got[0] == "out": return body(got[1]) == want[1]
    return what == "lex" and want[0] == got[0] == "out" and merged(got[1]) == want[1]

def cases(c, exe, cs):
    exp = expected(c, cs)
    ans = drv.ask_all(exe, [dict(x, op="print") for x in cs])
    for x, e, g in zip(cs, exp, ans):
        c.add("traces_validated_against_impl"); c.seen(json.dumps(x))
        if "crash" in g: c.fail(x, e["ops"], g, "crash"); continue
        if "stdout" in g: c.fail(x, "nothing printed", g, "the library printed to stdout"); continue
        for w in ("lex", "ast", "ops", "module"):
            c.add(("printed_" if e[w][0] == "out" else "failed_") + w)
            if not same(w, e[w], g[w]): c.fail(x, e[w], g[w], "printed " + {"lex": "tokens", "ast": "tree", "ops": "instructions", "module": "module"}[w])
    for x in cs[:2]: c.sample(bytes(x["t"]).decode("latin1"), 40)
