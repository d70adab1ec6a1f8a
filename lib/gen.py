"""Seeded generators of templates (token soup for the lexer/parser, well-formed trees for rendering)."""
import random

FRAGS = ["{{", "}}", "{{{", "}}}", "{{{{", "}}}}", "{{~", "~}}", "{{#", "{{/", "{{^", "{{else", "{{else}}", "{{^}}", "{{>", "{{#>",
         "{{&", "{{!", "{{!--", "--}}", "--~}}", "{{{{/", "{{*", "{{#*", "{", "}", "\\", "\\\\", "\\{{", "\\\\{{", "\n", "\r\n", "\r", " ", "\t", "  ",
         "a", "b", "foo", "this", "..", ".", "/", "@", "@a", "as |", "as  |x|", "|", "|x|", "|x y|", "(", ")", "=", "a=", "true", "false", "null", "undefined",
         "1", "-1", "1.5", "0", "\"s\"", "'s'", "\"", "'", "[", "]", "[a b]", "a.b", "../a", "./a", "this.a", "a/b", "~", "-", "--", "!", "*", "&", "x", "text",
         "{{a}}", "{{/a}}", "{{#a}}", "{{^a}}", "{{> a}}", "{{#> a}}", "{{else a}}", "{{ else }}", "{{~else~}}", "{{~^~}}", "{{ a }}", "{{{a}}}", "{{&a}}",
         "{{! c }}", "{{!-- c --}}", "{{!-- }} --}}", "{{{{a}}}}", "{{{{/a}}}}", "{{elsewhere}}", "{{#if a}}", "{{/if}}", "{{else if b}}", "{{~/if~}}",
         "\xc3\xa9", "<", "&amp;", "\"\\\"\"", "'\\''", "\"\\n\\x41\\101\"", "[a\\]b]", "?", ":", "$", "`", ";", ",", "\0", "\0\xff"]

def soup(rng, n=None):
    n = n or rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14])
    return "".join(rng.choice(FRAGS) for _ in range(n)).encode("latin1")

NAMES = ["a", "b", "foo", "bar", "x", "this", ".", "..", "../a", "a.b", "this.a", "./a", "a.[b c]", "@index", "@key", "@root.a", "a.b.c", "../../b", "[x y]",
         "@first", "@last", "this/a", "../this", "a/b", "lookup", "if", "each", "length", "thisx"]
LITS = ["1", "0", "-7", "1.5", *(["1", "0", "-7", "1.5"] * 2), "2147483648", "-2147483648", "9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "12345678901.0", "007", "-0", "2.00", *(["true", "false", "null", "undefined"] * 2), "true", "false", "null", "undefined", '"str"', "'sq'", '"a\\"b"', '""', '"0"', "12x"]

class G:
    """random well-formed templates, with whitespace and ~ noise"""
    def __init__(self, rng, names=NAMES, ws=True, partials=True, raw=True, depth=3, helpers=("if", "unless", "each", "with", "a", "b", "foo"), literals=True):
        self.r, self.names, self.ws, self.partials, self.raw, self.depth, self.helpers = rng, names, ws, partials, raw, depth, helpers
        self.literals = literals
    def sp(self, p=0.15):
        return self.r.choice([" ", "  ", "\n", "\t"]) if self.r.random() < p else ""
    def til(self, p=0.12):
        return "~" if self.ws and self.r.random() < p else ""
    def name(self):
        return self.r.choice(self.names)
    def param(self, d=2):
        x = self.r.random()
        if x < 0.6: return self.name()
        if x < 0.85 or d == 0: return self.r.choice(LITS) if self.literals else self.name()
        return "(" + self.call(d - 1, helper=True) + ")"
    def call(self, d=2, helper=False, np=None):
        s = self.r.choice(self.helpers) if helper else self.name()
        np = np if np is not None else self.r.choice([0, 0, 1, 1, 2])
        for _ in range(np): s += " " + self.param(d)
        if self.r.random() < 0.2:
            for _ in range(self.r.choice([1, 1, 2])): s += " " + self.r.choice(["k", "h", "a", "includeZero", "foo"]) + "=" + self.param(d)
        return s
    def text(self):
        t = self.r.choice(["x", "text ", " ", "\n", "\r\n", "  \n", "\n  ", "a\nb", "\t", " y ", "\n\n", "<&>", "z", "\\", "{", "}", " \\{{e}} ", "é"])
        return t
    def mustache(self):
        x = self.r.random()
        c = self.sp() + self.call(1, np=self.r.choice([0, 0, 0, 1])) + self.sp()
        if x < 0.6: return "{{" + self.til() + c + self.til() + "}}"
        if x < 0.85: return "{{" + self.til() + "{" + c + "}" + self.til() + "}}"
        return "{{" + self.til() + "&" + c + self.til() + "}}"
    def bp(self):
        x = self.r.random()
        if x < 0.75: return ""
        return " as " + self.sp() + ("|x|" if x < 0.9 else "|x y|")
    def block(self, d):
        h = self.r.choice(self.helpers + (self.name(),))
        np = 1 if h in ("if", "unless", "each", "with") else self.r.choice([0, 0, 1])
        inner = h + "".join(" " + self.param(1) for _ in range(np))
        if self.r.random() < 0.12: inner += " k=" + self.param(0)
        neg = self.r.random() < 0.1
        o = "{{" + self.til() + ("^" if neg else "#") + self.sp() + inner + self.bp() + self.til() + "}}"
        body = self.body(d - 1)
        els = ""
        n = self.r.choice([0, 0, 0, 1, 1, 2])
        for k in range(n):
            last = k == n - 1
            if last and self.r.random() < 0.6:
                els += "{{" + self.til() + self.r.choice(["else", "^", " else ", "^"]) + self.til() + "}}" + self.body(d - 1)
            else:
                els += "{{" + self.til() + "else " + self.r.choice(["if ", "unless ", "each ", "with "]) + self.param(0) + self.bp() + self.til() + "}}" + self.body(d - 1)
        close = h
        return o + body + els + "{{" + self.til() + "/" + close + self.til() + "}}"
    def partial(self, d):
        nm = self.r.choice(["p", "q", "p/r", "nope", '"p"', "[p]", "1", "(lookup . \"pn\")"])
        args = ""
        if self.r.random() < 0.3: args += " " + self.param(0)
        if self.r.random() < 0.3: args += " k=" + self.param(0)
        if d > 0 and self.r.random() < 0.35 and not nm.startswith("("):
            close = nm.strip('"[]') if nm[0] in '"[' else nm
            return "{{" + self.til() + "#>" + self.sp() + nm + args + self.til() + "}}" + self.body(d - 1) + "{{" + self.til() + "/" + close + self.til() + "}}"
        return "{{" + self.til() + ">" + self.sp() + nm + args + self.til() + "}}"
    def comment(self):
        return self.r.choice(["{{! c }}", "{{!-- c --}}", "{{!-- }} - --}}", "{{~! c ~}}", "{{~!-- c --~}}", "{{!}}", "{{!---->}}--}}", "{{!-- a -- b --}}"])
    def rawb(self):
        return "{{{{" + self.r.choice(["a", "b", "foo"]) + self.r.choice(["", " a", " k=1"]) + "}}}}" + self.r.choice(["", "x", " {{a}} ", "\n {{#x}}\n", "{{{{z}}}} {{{{/z}}}}"])
    def stmt(self, d):
        x = self.r.random()
        if x < 0.4: return self.text()
        if x < 0.62: return self.mustache()
        if x < 0.67: return self.comment()
        if x < 0.78 and self.partials: return self.partial(d)
        if x < 0.8 and self.raw:
            n = self.r.choice(["a", "b", "foo"])
            return "{{{{" + n + self.r.choice(["", " a", " k=1"]) + "}}}}" + self.r.choice(["", "x", " {{a}} ", "\n {{#x}}\n", "{{{{z}}}} {{{{/z}}}}"]) + "{{{{/" + n + "}}}}"
        if d > 0: return self.block(d)
        return self.text()
    def body(self, d=None, n=None):
        d = self.depth if d is None else d
        n = n if n is not None else self.r.choice([0, 1, 1, 2, 3])
        return "".join(self.stmt(d) for _ in range(n))
    def template(self):
        return self.body(self.depth, self.r.choice([1, 2, 3, 4])).encode("utf8")

def mutate(rng, t):
    t = bytearray(t)
    for _ in range(rng.choice([1, 1, 2])):
        x = rng.random()
        if x < 0.4 and t: del t[rng.randrange(len(t))]
        elif x < 0.7: t[rng.randrange(len(t) + 1):0] = rng.choice(FRAGS).encode("latin1")
        elif t:
            i = rng.randrange(len(t)); j = min(len(t), i + rng.randrange(1, 5)); t[i:i] = t[i:j]
    return bytes(t)
