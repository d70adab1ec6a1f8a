"""Questions to values: the specification's answers against the library's, whatever the value comes from."""
import json, os, re
import tlc, drv, hist

def norm(r):
    """floats as numbers; the printed form without digits of floats"""
    def go(v):
        if not isinstance(v, list): return v
        if len(v) == 2 and v[0] == "d" and isinstance(v[1], str): return ["d", float(v[1])]
        if v[:1] == ["f"]: return ["f"]
        return [go(x) for x in v]
    r = go(hist.noid(r))
    r[5] = float(r[5])
    r[18] = re.sub(r"float\([^)]*\)", "float(#)", bytes(r[18]).decode("latin1"))
    return r
NAMES = ["type", "count", "bool", "empty", "int", "float", "strval", "strlen", "scalar", "callable", "to_string", "escaped", "text", "escaped text", "iteration",
         "nested iteration", "members by key", "elements", "printed form", "equal to its copy", "copy", "copy after the value is gone", "converted"]

def compare(c, exe, items):
    """items: (request, expected facts or None for an error)"""
    ans = drv.ask_all(exe, [dict(q, op="valfn") for q, _ in items])
    for (q, e), g in zip(items, ans):
        c.add("traces_validated_against_impl"); c.add("src_" + q["src"])
        q = dict(q, op="valfn")
        if "crash" in g: c.fail(q, e, g, "crash")
        elif "stdout" in g: c.fail(q, e, g, "the library printed to stdout")
        elif e is None:
            if "err" not in g: c.fail(q, "an error", g, "accepted")
            elif g["err"] != 1 or not g.get("msg"): c.fail(q, "error 1 with a message", g, "error")
            else: c.add("rejected")
        elif "r" not in g: c.fail(q, e, g, "rejected")
        else:
            x, y = norm(e), norm(g["r"])
            if x != y:
                n = next(i for i in range(len(x)) if x[i] != y[i])
                c.fail(q, x[n], y[n], "%s (%s%s)" % (NAMES[n], q["src"], ["", ", converted", ", converted deeply"][q.get("conv", 0)]))

def facts(c, vs, keys, idx):
    """facts of values by the specification"""
    out = []
    for i in range(0, len(vs), 20000):
        part = [{"id": k, "v": v, "keys": keys(v) if callable(keys) else keys, "idx": idx} for k, v in enumerate(vs[i:i + 20000])]
        exp, r = tlc.cases("CaseValfn", part)
        c.add("states", r.distinct); c.add("transitions", r.states)
        if os.environ.get("VERBOSE"): print("CaseValfn: %.1fs %d values" % (r.seconds, len(part)))
        out += [(x, exp[x["id"]]["r"]) for x in part]
    for v in vs: c.seen(json.dumps(v))
    for v in vs[:3]: c.sample(v, 40)
    return out

ESC = {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r", 34: '\\"', 92: "\\\\"}
class Writer:
    """values as JSON or YAML text, in varied styles"""
    def __init__(self, rng): self.r = rng
    def cps(self, s): return [ord(x) for x in bytes(s).decode("utf-8")]
    def jstr(self, s):
        o = ""
        for x in self.cps(s):
            y = self.r.random()
            if x in ESC and (x in (34, 92) or y < .8): o += ESC[x]
            elif x < 32: o += "\\u%04x" % x
            elif x == 47 and y < .5: o += "\\/"
            elif x > 0xffff: o += chr(x) if y < .6 else "\\u%04x\\u%04X" % (0xd800 + (x - 0x10000 >> 10), 0xdc00 + (x - 0x10000 & 0x3ff))
            elif y < .1: o += "\\u%04x" % x
            else: o += chr(x)
        return '"' + o + '"'
    def ws(self): return self.r.choice(["", "", "", " ", "\n", "\t ", "\r\n"])
    def json(self, v, dup=True):
        w = self.ws
        t = v[0]
        if t == "n": return "null"
        if t == "b": return "true" if v[1] else "false"
        if t in "iI": return str(v[1])
        if t == "d": return self.float(v[1])
        if t == "s": return self.jstr(v[1])
        if t == "a": return "[" + w() + ("," + w()).join(self.json(x, dup) + w() for x in v[2]) + "]"
        ps = []
        for k, x in v[2]:
            if dup and self.r.random() < .06: ps.append((k, self.r.choice([["n"], ["i", 5], ["a", 0, [["i", 1]]]])))
            ps.append((k, x))
        return "{" + w() + ("," + w()).join(self.jstr(k) + w() + ":" + w() + self.json(x, dup) + w() for k, x in ps) + "}"
    def float(self, s):
        f = float(s)
        return self.r.choice([repr(f), "%.17g" % f, "%.10e" % f]) if "e" in s or "." in s else s + ".0"
    # YAML
    def ystr(self, s, flow):
        t = "".join(map(chr, self.cps(s)))
        x = self.r.random()
        plain = re.fullmatch(r"[A-Za-z_][A-Za-z0-9_ ]*", t) and not t.endswith(" ") and t not in ("true", "false", "null") and not self.number(t)
        if plain and x < .6: return t
        if x < .8 and "\n" not in t and all(32 <= ord(q) < 127 or 0xa0 <= ord(q) < 0xd800 and ord(q) not in (0x2028, 0x2029) for q in t): return "'" + t.replace("'", "''") + "'"
        o = ""
        for q in self.cps(s):
            if q in ESC: o += ESC[q]
            elif q == 0: o += "\\0"
            elif q < 32 or q == 127: o += "\\x%02x" % q
            elif q in (0x85, 0x2028, 0x2029, 0xfeff) or 0x80 <= q < 0xa0: o += "\\u%04X" % q
            elif q > 0xffff and self.r.random() < .5: o += "\\U%08X" % q
            else: o += chr(q)
        return '"' + o + '"'
    def number(self, t):
        return re.fullmatch(r"(?i)[-+]?(inf|infinity|nan)", t) and False
    def scalar(self, v, flow):
        t = v[0]
        if t == "n": return self.r.choice(["null", "~"])
        if t == "b": return "true" if v[1] else "false"
        if t in "iI": return str(v[1])
        if t == "d": return self.float(v[1])
        return self.ystr(v[1], flow)
    def flow(self, v):
        if v[0] == "a": return "[" + ", ".join(map(self.flow, v[2])) + "]"
        if v[0] == "m": return "{" + ", ".join(self.ystr(k, True) + ": " + self.flow(x) for k, x in v[2]) + "}"
        return self.scalar(v, True)
    def block(self, v, ind):
        """lines of the value, to stand on lines of their own at the indent"""
        p = " " * ind
        if v[0] in "am" and v[2] and self.r.random() < .75:
            o = ""
            for e in v[2]:
                key, x = ("-", e) if v[0] == "a" else (self.ystr(e[0], False) + ":", e[1])
                if x[0] in "am" and x[2] and self.r.random() < .8: o += p + key + "\n" + self.block(x, ind + 2)
                elif x[0] == "n" and self.r.random() < .3: o += p + key + "\n"
                elif x[0] == "s" and self.lit(x[1]): o += p + key + " |-\n" + "".join(" " * (ind + 2) + l + "\n" for l in bytes(x[1]).decode().split("\n"))
                else: o += p + key + " " + self.flow(x) + "\n"
            return o
        return p + self.flow(v) + "\n"
    def lit(self, s):
        return self.r.random() < .5 and re.fullmatch(rb"[a-zA-Z<&\"'][ -~]*(\n[!-~][ -~]*)*", bytes(s)) is not None
    def yaml(self, v):
        return self.r.choice(["", "", "---\n", "# comment\n", "%YAML 1.1\n---\n"]) + self.block(v, 0)

TXT = ["", "a", "b c", "<&>\"'`", "0", "1", "-7", "1.5", "true", "false", "null", "~", "nan", "inf", "Infinity", "x: y", "# c", "- d", "[1]", "{a}", "\n", "l1\nl2", "  sp ", "tab\there", "q\"'\\", "\u00e9\u00fc",
       "\u20ac", "\U0001f600", "\x00", "a\x00b", "\x01\x1f", "\x7f", "%", "@x", "`", "!t", "|", ">", "*a", "&a", "?", ":", ",", "/", "Robert Nan", "0x10", "1e3", "long " * 60, "null ", "True"]
def doc(rng, d, ids, keys):
    x = rng.random()
    if d <= 0 or x < .4:
        y = rng.random()
        if y < .1: return ["n"]
        if y < .2: return ["b", rng.random() < .5]
        if y < .35: return ["i", rng.choice([0, 1, -1, 42, 2147483647, -2147483648, 100])]
        if y < .38: return ["I", rng.choice(["2147483648", "-2147483649", "4294967295", "4294967296", "-4294967297", "9007199254740993", "1000000000000", "9223372036854775807", "-9223372036854775808"])]
        if y < .45: return ["d", rng.choice(["1.5", "0.5", "-0.25", "100000.5", "1e+20", "0.001", "1e-07", "123456.789", "0", "3"])]
        return ["s", list(rng.choice(TXT).encode("utf-8"))]
    ids[0] += 1
    i = ids[0]
    n = rng.choice([0, 1, 2, 2, 3, 5] + ([40, 130] if d == 3 and rng.random() < .1 else []))
    if x < .68: return ["a", i, [doc(rng, d - 1, ids, keys) for _ in range(n)]]
    ks = rng.sample(keys, min(n, len(keys)))
    return ["m", i, [[list(k.encode("utf-8")), doc(rng, d - 1, ids, keys)] for k in ks]]
