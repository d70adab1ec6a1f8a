"""L01: the token sequence of every template is the one of HbsLexer."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import chk, frontcmp as f, gen, hbuild
A1 = ["{{", "}}", "{", "}", "\\", "a", " ", "\n", "!--", "--", "~", "x"]
A2 = ["{{", "}}", "\"", "'", "[", "]", "\\", "a", " ", "1", "@", ".", "|", "as "]
A3 = ["{{{{a}}}}", "{{{{/a}}}}", "{{{{/b}}}}", "{{{{", "{{", "}}", "\\", "x", "\n"]
A4 = ["{{", "}}", "true", "false", "null", "-", "7", "else", "^", "=", "(", ")", " ", ".", "/", "a", "~", "#", "&"]
def run(c):
    exe = hbuild.build("asan")
    z = lambda l: [(x, 0) for x in l]
    q = c.quick
    f.enum_cases(c, exe, "lex", z(A1), 3 if q else 5)
    f.enum_cases(c, exe, "lex", z(A2), 3 if q else 4)
    f.enum_cases(c, exe, "lex", z(A3), 4 if q else 5)
    f.enum_cases(c, exe, "lex", z(A4), 2 if q else 4)
    g = gen.G(c.rng)
    def mk():
        x = c.rng.random()
        if x < .5: return gen.soup(c.rng), False
        if x < .6: return bytes(c.rng.choice([c.rng.randrange(256), 123, 125, 92, 32, 97]) for _ in range(c.rng.randrange(1, 25))), False
        if x < .75: return g.template(), False
        if x < .85: return b"{{" + gen.soup(c.rng), False
        return gen.mutate(c.rng, g.template()), False
    f.random_cases(c, exe, "lex", 4000 if q else 60000, mk)
    c.assumptions += ["templates without an interior error in the C library's memory allocator", "adjacent CONTENT tokens are one piece of text"]
chk.main("L01", "model_checking", run)
