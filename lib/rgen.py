"""Seeded generators of rendering cases: templates together with the data, partials, helpers and options they use."""
import gen

KEYS = ["a", "b", "c", "foo", "bar", "x", "y", "items", "t", "z0", "0", "length", "pn", "f1", "f2", "if", "echo", "this", "e", "v", "", "a b", "a.b", "fo", "index", "first", "-", "@key"]
TEXTS = ["", "0", "s", "<b>&\"'`", "a&amp;b", "l1\nl2\n", "\xe9\x00\xff", "true", "p", "q", "a", "foo", "1", " ", "{{a}}", "x\ny"]
LAMS = ["lam", "lfalse", "larr", "nul", "echo", "ident", "list", "safe", "mlam", "fail", "opts", "wrap"]

BIG = ["4294967296", "-2147483649", "9007199254740993", "9223372036854775807", "-9223372036854775808"]
class Data:
    def __init__(self, rng, lams=0.08):
        self.r, self.id, self.lams = rng, 0, lams
    def nid(self):
        self.id += 1
        return self.id
    def scalar(self):
        r = self.r
        x = r.random()
        if x < .1: return ["n"]
        if x < .22: return ["b", r.random() < .5]
        if x < .4: return r.choice([["i", r.choice([0, 1, 2, -1, 7, 10, 2147483647])]] * 7 + [["I", r.choice(BIG)]])
        if x < .47: return ["d", r.choice(["1.5", "0", "-0.25", "100000.5", "1e+20", "0.001"])]
        if x < .52: return ["ss", list(r.choice(TEXTS).encode("latin1"))]
        return ["s", list(r.choice(TEXTS).encode("latin1"))]
    def value(self, d):
        r = self.r
        x = r.random()
        if r.random() < self.lams: return ["f", r.choice(LAMS)]
        if d <= 0 or x < .45: return self.scalar()
        if x < .72:
            return ["m", self.nid(), self.pairs(d - 1, r.choice([0, 1, 1, 2, 3, 4]))]
        n = r.choice([0, 1, 2, 2, 3])
        if r.random() < .5:
            ks = r.sample(KEYS, min(len(KEYS), r.choice([1, 2, 3])))
            return ["a", self.nid(), [["m", self.nid(), [[list(k.encode()), self.value(d - 2)] for k in ks]] for _ in range(n)]]
        return ["a", self.nid(), [self.value(d - 1) for _ in range(n)]]
    def pairs(self, d, n):
        ks = self.r.sample(KEYS, n)
        return [[list(k.encode()), self.value(d)] for k in ks]
    def root(self):
        if self.r.random() < .05: return self.value(2)
        return ["m", self.nid(), self.pairs(3, self.r.choice([3, 5, 7, 9]))]

def paths(rng, v, depth=4):
    """a path (text) into the value, mostly one that exists"""
    out = []
    while depth > 0:
        depth -= 1
        if v[0] == "m" and v[2]:
            k, v = rng.choice(v[2])
            out.append(bytes(k).decode())
        elif v[0] == "a" and v[2]:
            i = rng.randrange(len(v[2]) + (rng.random() < .1))
            out.append("[%d]" % i if rng.random() < .5 else "%d" % i)
            if i >= len(v[2]): break
            v = v[2][i]
        else: break
        if rng.random() < .4: break
    return out, v

BH = ("if", "unless", "each", "with")
class T(gen.G):
    """templates whose names follow the data they are rendered over"""
    def __init__(self, rng, data, helpers, partials, o):
        super().__init__(rng, ws=o.get("ws", True))
        self.h = helpers
        self.pn = partials
        self.scopes = [data]
        self.bps = []
        self.o = o
        self.root = data
        self.depth = o.get("depth", 3)
    def seg(self, s, first):
        if s.startswith("["): return s
        if s[:1].isdigit() and first: return "this." + s if self.r.random() < .5 else "[%s]" % s
        if s in ("this", ".", "..") or not s.replace("_", "a").isalnum(): return "[%s]" % s
        return s
    def ptext(self, segs):
        return self.r.choice([".", ".", ".", "/"]).join(self.seg(s, i == 0) for i, s in enumerate(segs))
    def name(self):
        r = self.r
        x = r.random()
        if x < .08: return r.choice(["this", ".", "this.this", "./a", "../this", ".."])
        if x < .16: return r.choice(["@index", "@key", "@first", "@last", "@root", "@root.a", "@../index", "@../../key", "@v", "@index.a", "@foo", "@_parent.index", "@partial-block"])
        if x < .24: return r.choice(gen.NAMES)
        if x < .36 and self.bps:
            s, _ = paths(r, ["n"] if r.random() < .5 else self.scopes[-1], 2)
            return ".".join([r.choice(self.bps)] + [self.seg(q, False) for q in s])
        up = 0
        i = len(self.scopes) - 1
        while r.random() < .25:
            up += 1; i -= 1
        segs, _ = paths(r, self.scopes[max(i, 0)] if i >= 0 else ["n"])
        if r.random() < .08: segs.append(r.choice(KEYS))
        t = self.ptext(segs)
        if up: return "../" * up + (t or "this") if t or r.random() < .7 else "../" * (up - 1) + ".."
        if not t: return "this"
        y = r.random()
        if y < .06: return "this." + t
        if y < .1: return "./" + t
        if y < .14: return "@root." + self.ptext(paths(r, self.root)[0] or ["a"])
        return t
    def find(self, t):
        """value a plain path text names in the innermost scope, or None"""
        v = self.scopes[-1]
        up = 0
        while t.startswith("../"):
            t = t[3:]; up += 1
        if up >= len(self.scopes): return None
        v = self.scopes[-1 - up]
        if t in ("this", ".", ""): return v
        for s in t.replace("/", ".").split("."):
            s = s.strip("[]")
            if s in ("this", ""): continue
            if v[0] == "m":
                for k, w in v[2]:
                    if bytes(k).decode("latin1") == s: v = w; break
                else: return None
            elif v[0] == "a" and s.isdigit() and int(s) < len(v[2]): v = v[2][int(s)]
            else: return None
        return v
    def hname(self):
        return self.r.choice(self.h) if self.h and self.r.random() < .9 else self.r.choice(["nope", "lookup", "if", "log", "log", "with"])
    def hash(self, p=.2):
        s = ""
        if self.r.random() < p:
            for _ in range(self.r.choice([1, 1, 2, 3])):
                s += " " + self.r.choice(["k", "h", "a", "b", "includeZero", "foo", "x", "k"]) + "=" + self.param(1)
        return s
    def param(self, d=2):
        r = self.r
        x = r.random()
        if x < .62: return self.name()
        if x < .85 or d <= 0: return r.choice(gen.LITS[:-1]) if r.random() < .97 else "12x"
        if r.random() < .25: return "(lookup " + self.name() + " " + self.param(0) + ")"
        return "(" + self.hname() + "".join(" " + self.param(d - 1) for _ in range(r.choice([0, 1, 1, 2]))) + self.hash(.15) + ")"
    def call(self, d=2, helper=False, np=None):
        r = self.r
        if r.random() < .7: return self.name()
        if r.random() < .2: return "lookup " + self.name() + " " + self.param(1)
        return self.hname() + "".join(" " + self.param(d) for _ in range(r.choice([0, 1, 1, 2]))) + self.hash()
    def enter(self, v, bps, f):
        self.scopes.append(v if v is not None else ["n"]); self.bps += bps
        s = f()
        self.scopes.pop()
        if bps: del self.bps[-len(bps):]
        return s
    def bp2(self):
        r = self.r
        x = r.random()
        if x < .7: return "", []
        a = r.choice(["x", "item", "a", "k"]); b = r.choice(["y", "i", "b"])
        return (" as |%s|" % a, [a]) if x < .83 else (" as |%s %s|" % (a, b), [a, b])
    def subscope(self, h, t):
        v = self.find(t)
        if h in ("if", "unless"): return self.scopes[-1]
        if h == "with": return v
        if h == "each":
            if v is None: return None
            if v[0] == "a": return self.r.choice(v[2]) if v[2] else None
            if v[0] == "m": return self.r.choice(v[2])[1] if v[2] else None
            return None
        if v is None: return None
        if v[0] == "a": return self.r.choice(v[2]) if v[2] else None
        if v[0] == "b": return self.scopes[-1]
        return v
    def block(self, d):
        r = self.r
        x = r.random()
        if x < .5:
            h = r.choice(BH); t = self.param(1) if r.random() < .3 else self.name(); inner = h + " " + t + (" includeZero=" + self.param(0) if h in ("if", "unless") and r.random() < .15 else "") + (self.hash(.05))
            if r.random() < .03: inner = h if r.random() < .5 else inner + " a"
        elif x < .8 or not self.h:
            h = t = self.name(); inner = t
            if t == "..": h = t = inner = "this"
        else:
            h = r.choice(self.h); inner = h + "".join(" " + self.param(1) for _ in range(r.choice([0, 1, 2]))) + self.hash(); t = "this"
        neg = r.random() < .08
        bt, bn = self.bp2() if not neg else ("", [])
        if h == t and r.random() < .8: bt, bn = "", []
        o = "{{" + self.til() + ("^" if neg else "#") + self.sp(.05) + inner + bt + self.til() + "}}"
        sc = self.subscope(h if h in BH else "", t)
        if h in BH and sc is self.scopes[-1]:
            self.bps += bn; body = self.body(d - 1)
            if bn: del self.bps[-len(bn):]
        else:
            body = self.enter(sc, bn, lambda: self.body(d - 1))
        els = ""
        n = r.choice([0, 0, 0, 1, 1, 2])
        for k in range(n):
            if k == n - 1 and r.random() < .6:
                els += "{{" + self.til() + r.choice(["else", "^"]) + self.til() + "}}" + self.body(d - 1)
            else:
                h2 = r.choice(BH + (self.name(),) if r.random() < .15 else BH)
                t2 = self.name(); b2, n2 = self.bp2()
                if h2 not in BH: b2, n2 = "", []
                els += "{{" + self.til() + "else " + h2 + (" " + t2 if h2 in BH else "") + b2 + self.til() + "}}" + self.enter(self.subscope(h2, t2), n2, lambda: self.body(d - 1))
        return o + body + els + "{{" + self.til() + "/" + h + self.til() + "}}"
    def pname(self):
        r = self.r
        x = r.random()
        if x < .8 and self.pn: return r.choice(self.pn)
        if x < .9: return "@partial-block"
        return "nope"
    def partial(self, d):
        r = self.r
        nm = self.pname()
        x = r.random()
        if x < .08: call = '(lookup . "pn")'
        elif x < .12: call = '(ident "%s")' % nm
        elif x < .16: call = '(%s)' % self.name()
        elif x < .25: call = '"%s"' % nm
        else: call = nm
        arg = " " + self.param(1) if r.random() < .35 else ""
        sc = self.find(arg.strip()) if arg else self.scopes[-1]
        args = arg + self.hash(.3)
        if d > 0 and r.random() < .4 and call[0] not in '(':
            return "{{" + self.til() + "#>" + r.choice(["", " "]) + call + args + self.til() + "}}" + self.body(d - 1) + "{{" + self.til() + "/" + nm + self.til() + "}}"
        return "{{" + self.til() + ">" + r.choice(["", " "]) + call + args + self.til() + "}}"
    def stmt(self, d):
        r = self.r
        o = self.o
        x = r.random()
        if x < .3: return self.text()
        if x < .55: return self.mustache()
        if x < .58: return self.comment()
        if x < .58 + o.get("partial", .13): return self.line(self.partial(d))
        if x < .73 and o.get("raw", 1):
            n = r.choice(self.h) if self.h and r.random() < .7 else r.choice(["a", "foo"])
            return "{{{{" + n + r.choice(["", " a", " k=1"]) + "}}}}" + r.choice(["", "x", " {{a}} ", "\n {{#x}}\n"]) + "{{{{/" + n + "}}}}"
        if d > 0: return self.line(self.block(d))
        return self.text()
    def line(self, s):
        if self.r.random() < .3: return self.r.choice(["\n", "\n  ", "\n\t"]) + s + "\n"
        return s

FLAGS = {"compat": 0, "string_params": 1, "track_ids": 2, "no_escape": 3, "known_helpers_only": 4, "prevent_indent": 5, "use_data": 6, "explicit_partial_context": 7,
         "ignore_standalone": 8, "alternate_decorators": 9, "strict": 10, "assume_objects": 11, "mustache_style_lambdas": 12}
def flags(rng, p, names=None):
    f = 0
    for n, b in FLAGS.items():
        if (names is None or n in names) and rng.random() < p: f |= 1 << b
    return f

HELPERS = ["echo", "opts", "wrap", "frame", "safe", "ident", "nul", "list", "obj", "fail"]
def case(rng, o=None):
    """o: lams, depth, partial, flags (probability), flagset, helpers"""
    o = dict(o or {})
    D = Data(rng, o.get("lams", .05))
    data = D.root()
    hs = [h for h in HELPERS if rng.random() < (o.get("hp", .45) if h != "fail" else .06)]
    reg = [[h, h] for h in hs]
    if rng.random() < o.get("alias", .08):
        reg.append([rng.choice(["if", "each", "lookup", "helperMissing", "blockHelperMissing", "a", "foo", "x", "with"]), rng.choice(["echo", "nul", "ident", "opts", "wrap"])])
    names = [r[0] for r in reg if r[0] not in ("helperMissing", "blockHelperMissing", "if", "each", "with")]
    pn = rng.sample(["p", "q", "r", "p/s", "1"], rng.choice([0, 1, 2, 3])) if o.get("partial", .13) > 0 else []
    parts = []
    for n in pn:
        x = rng.random()
        if x < .93:
            later = [m for m in pn if m > n] if rng.random() < o.get('rec', .997) else pn
            t = T(rng, data if rng.random() < .6 else (rng.choice(data[2])[1] if data[0] == "m" and data[2] else data), names, later, dict(o, depth=2))
            v = ["s", list(t.template() if rng.random() < .95 else gen.mutate(rng, t.template()))]
        elif x < .97: v = ["f", rng.choice(["lam", "echo", "ident"])]
        else: v = D.scalar()
        parts.append([list(n.encode()), v])
    t = T(rng, data, names, pn, o).template()
    c = {"t": list(t), "data": data, "flags": flags(rng, o.get("flags", .04), o.get("flagset")), "helpers": reg, "partials": parts}
    if rng.random() < .12:
        c["dv"] = ["m", D.nid(), [[list(k), v] for k, v in [(b"v", D.scalar()), (b"foo", D.value(1)), (b"root", D.scalar())] if rng.random() < .5]]
    if rng.random() < o.get("known", .06):      # helpers the compiler is told of
        c["known"] = [list(n.encode()) for n in rng.sample([r[0] for r in reg] + ["a", "foo", "b", "x", "nope", "if", ""], min(len(reg) + 7, rng.choice([0, 1, 1, 2, 3, 6])))]
    return c

def tame(rng, o, n=2):
    """a case without many @partial-block, which can make a rendering exponentially long"""
    while True:
        c = case(rng, o)
        if sum(bytes(t).count(b"@partial-block") for t in [c["t"]] + [v[1] for k, v in c["partials"] if v[0] == "s"]) <= n: return c

NUMS = ["i", 0], ["i", -1], ["i", 2147483647], ["i", -2147483648], ["i", 1000], ["I", "2147483648"], ["I", "-2147483649"], ["I", "4294967296"], ["I", "9007199254740993"], ["I", "9223372036854775807"], ["I", "-9223372036854775808"], ["d", "0"], ["d", "1.5"], ["d", "-0.25"], ["d", "1e+20"], ["d", "1e-07"], ["d", "123456789.125"], ["d", "-2147483648"], ["d", "0.000123"], ["d", "-1e-300"]
STRS = ["", "0", "00", "0\0", "\0", " ", "a", "null", "false", "&<>\"'`", "\0<", "x" * 300, "&" * 60, "\xff\x80", "a\nb"]
def rich(rng, d, deep=(8, 20, 29)):
    """values of unusual kinds and sizes"""
    x = rng.random()
    b = lambda s: list(s.encode("latin1"))
    if x < .1: return rng.choice(NUMS)
    if x < .2: return [rng.choice(["s", "s", "ss"]), b("".join(rng.choice(STRS) for _ in range(rng.choice([1, 1, 2, 3]))))]
    if x < .24: n = rng.choice([31, 32, 33, 64, 131]); return ["a", d.nid(), [d.value(0) for _ in range(n)]]
    if x < .28: n = rng.choice([15, 16, 17, 40]); return ["m", d.nid(), [[b("key%d" % i), d.value(0)] for i in range(n)]]
    if x < .31:
        v = d.value(0)
        for _ in range(rng.choice(deep)): v = ["a", d.nid(), [v]] if rng.random() < .5 else ["m", d.nid(), [[b("k"), v]]]
        return v
    if x < .4: return ["m", d.nid(), [[b(k), d.value(1)] for k in rng.sample(["", "0", "a", "k", "1", "-1", "this", "a b", "@key", "length", "\xe9"], rng.choice([1, 2, 4]))]]
    return d.value(rng.choice([0, 1, 2, 3]))

# templates that show everything about the value v (and w)
PROBES = {
 "text": ["{{v}}|{{{v}}}|{{&v}}|{{v.length}}|{{#if v}}{{v}}{{/if}}", "{{echo v}}{{{echo v w}}}{{safe v}}{{ident v}}", "{{[v]}}{{this.v}}{{./v}}{{w}}{{{w}}}"],
 "path": ["{{v.a}}{{v.k}}{{v.[]}}{{v.[0]}}{{v.0}}{{v.[1].a}}{{v.this}}{{v.length}}{{v.[a b]}}{{v.[-1]}}", "{{#with v}}{{a}}{{k}}{{[]}}{{[0]}}{{this.a}}{{../v.a}}{{../w}}{{@root.w}}{{@root.v.k}}{{/with}}", "{{#v}}{{a}}{{k}}{{.}}{{../w.a}}{{/v}}",
          "{{#each v}}{{#each this}}{{../this}}{{../../w}}{{@root.v.a}}{{/each}}{{/each}}"],
 "data": ["{{#each v}}[{{@key}}|{{@index}}|{{@first}}|{{@last}}|{{this}}]{{else}}E{{/each}}", "{{#each v as |x k|}}{{k}}={{x}},{{#each x as |y j|}}{{k}}.{{j}}={{y}}/{{@key}}{{@../key}}{{@../first}};{{/each}}{{x.a}}{{@last}}{{/each}}",
          "{{#each v}}{{#each ../w}}{{@../index}}{{@index}}{{@../key}}{{@key}}{{@last}}{{@../last}} {{/each}}{{@index}}{{/each}}", "{{#v}}{{@index}}{{@key}}{{@first}}{{@last}}{{/v}}", "{{#with v as |x y|}}{{x}}{{y}}{{x.a}}{{#with x.k as |x|}}{{x}}{{/with}}{{x}}{{/with}}"],
 "block": ["{{#each v}}[{{@key}}|{{@index}}|{{this}}]{{else}}E{{/each}}", "{{#v}}({{this}}){{else}}E{{/v}}{{^v}}N{{this.w}}{{/v}}", "{{#if v}}1{{else}}0{{/if}}{{#unless v}}1{{else}}0{{/unless}}{{#if v includeZero=true}}z{{/if}}", "{{#with v}}{{this}}{{a}}{{else}}N{{/with}}",
           "{{lookup v 0}}{{lookup v ''}}{{lookup v 'k'}}{{lookup v w}}{{lookup w v}}{{lookup (lookup v 'a') 'b'}}", "{{#each v}}{{#if this}}{{#with this}}{{.}}{{else}}N{{/with}}{{else}}F{{/if}}{{/each}}", "{{#each (lookup . 'v')}}{{.}}{{^}}E{{/each}}"],
 "partial": ["{{> p v}}|{{> p v k=w}}|{{> p k=v}}", "{{#each v}}{{> p}}{{> p w k=this}}{{@index}}{{/each}}", "{{#> q v}}B{{this}}{{a}}{{/q}}", "{{#> nope v}}F{{this}}{{k}}{{/nope}}", "{{#each v}}{{#> q}}{{@key}}{{this}}{{/q}}{{/each}}", "{{> (lookup . 'n') v}}{{> (ident 'q') a=v}}"],
 "args": ["{{echo v 1 2 3 4 5 6 7 8 9 w a=1 b=2 c=3 d=4 e=5 f=6 g=7 h=8 k=v}}", "{{#opts v w k=v}}{{this}}{{else}}E{{/opts}}", "{{echo (echo v w) (list v w v) (obj a=v b=w) k=(ident v)}}", "{{#wrap v}}{{this}}{{../w}}{{else}}-{{/wrap}}", "{{#frame v}}{{@v}}{{this}}{{/frame}}", "{{#list v w}}{{this}}{{@index}}{{/list}}{{#obj k=v}}{{k}}{{/obj}}", "{{#each (list v w 1 'x' null)}}{{@index}}{{.}};{{/each}}{{#with (obj a=v a=w b=3)}}{{a}}{{b}}{{/with}}"],
}
def probe(rng, kinds):
    d = Data(rng, .05)
    v, w = rich(rng, d, (3, 6)), rich(rng, d, (3, 6))
    b = lambda s: list(s.encode())
    hs = ["echo", "opts", "wrap", "frame", "safe", "ident", "list", "obj"]
    t = "".join(rng.choice(PROBES[k]) for k in [rng.choice(kinds) for _ in range(rng.choice([1, 1, 2, 3]))])
    return {"t": b(t), "data": ["m", d.nid(), [[b("v"), v], [b("w"), w], [b("n"), ["s", b("p")]]]], "flags": rng.choice([0, 0, 0, 0, 1, 64, 2 ** 12, 16, 8]) , "helpers": [[h, h] for h in hs],
            "partials": [[b("p"), ["s", b("<{{this}}|{{a}}|{{k}}|{{@index}}>")]], [b("q"), ["s", b("({{> @partial-block}}{{k}}\n  {{> @partial-block w}})")]]]}
