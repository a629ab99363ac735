from common import *

TITLE = "Layout, comments, quotes and redundant parentheses carry no meaning"
RULE = ("A case renders one generated program several ways (token separators from nothing at all to runs of every white space and comments with arbitrary bytes, either quote, extra "
        "parentheses, extra braces) and requires every rendering to do what the plain one and the reference interpreter do, with failure lines following the layout; "
        "non-trivial when the rendering differs from the plain one and the program printed something or failed.")
ASSUME = ["statements and expressions are nested by at most a few extra parentheses or braces, far below the nesting limit"]
WS = [b" ", b"\n", b"\t", b"\r\n", b"\v", b"\f", b"  ", b"\n\n", b" \t \n", b"\r"]
JUNK = [b"", b" note", b"#", b" \"unbalanced", b" it's", b" { ( [", b" } ) ]", b" if x: fun", b" \\", b"\xff\xfe", b"\xc3\xa9", b" \r", b";", b"\t", b"/* x", b" \x01\x7f"]


def comment(s):
    c = s.choice(JUNK) if s.chance(3, 4) else bytes(c for c in (s.int(1, 255) for _ in range(s.int(0, 12))) if c != 10)
    return b"#" + c + b"\n"


def white(s, comments=True):
    out = b""
    for _ in range(s.int(1, 3)):
        out += comment(s) if comments and s.chance(1, 3) else s.choice(WS)
    return out


def must_separate(a, b):
    """Only where two tokens would become one."""
    def word(c): return c == 95 or 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122
    if word(a[-1]) and word(b[0]):
        if 48 <= a[0] <= 57 and not 48 <= b[0] <= 57: return False     # a number, then a name
        return True
    return bytes([a[-1], b[0]]) in OPS2


class Random(Opts):
    def __init__(self, s, quotes=True, parens=True, braces=True):
        self.s, self.q, self.p, self.b = s, quotes, parens, braces
        self.left = 30
        self.used = set()

    def quote(self, n):
        if self.q and self.s.chance(1, 2):
            self.used.add("quotes")
            return "'"
        return '"'

    def parens(self, n):
        if self.p and self.left > 0 and self.s.chance(1, 5):
            k = self.s.int(1, 3)
            self.left -= k
            self.used.add("parentheses")
            return k
        return 0

    def braces(self, n):
        if self.b and self.left > 0 and self.s.chance(1, 4):
            self.left -= 1
            self.used.add("braces")
            return True
        return False


def program(s, budget=35):
    p = Gen(s, budget=budget, wrong=40).program(s.int(1, 9))
    if max_need(p) > 14: raise Discard("needs too many pending values")
    return p


def check(p, s, env, sep=None, opts=None, need=need_space, post=b"", what=""):
    plain = render(p)
    o0 = ref_run(p)
    text = render(p, sep=sep, opts=opts, need=need) + post
    o = ref_run(p)                       # the lines are those of this rendering
    if (o.ok, o.out) != (o0.ok, o0.out): raise AssertionError("the model depends on the layout")
    r = env.server().run([(SRC, NAME, text), (NEWRT, "", ""), (SRC, NAME, plain)], steps=400000)
    check_clean(r, text)
    a, b = r.ops[0], r.ops[2]
    compare(a, o, text)
    if (a.out, a.ok, a.vals, a.err) != (b.out, b.ok, b.vals, b.err):
        raise Violation("two texts that differ only in %s behave differently" % what, program=text, plain=plain, got=(a.ok, a.out, a.err, a.vals), expected=(b.ok, b.out, b.err, b.vals))
    if text != plain and (o.out or not o.ok): env.nontrivial(text)
    env.count("ends well" if o.ok else "aborts")
    env.sample(what, text.decode(errors="replace"))


def run_layout(s, env):
    p = program(s)
    den = s.choice([1, 2, 4, 12])
    def sep(i, a, t): return white(s) if s.chance(1, den) else None
    post = s.choice([b"", b"#", b"# the end", b"\n \t", b"#\n#", white(s)])
    check(p, s, env, sep=sep, post=post, what="layout and comments")


def run_tight(s, env):
    p = program(s)
    mix = s.choice([1, 1, 1, 6])
    def sep(i, a, t): return b"" if mix == 1 or not s.chance(1, mix) else white(s)
    check(p, s, env, sep=sep, need=must_separate, what="absent white space", opts=Random(s, True, False, False))


def run_opts(s, env):
    p = program(s)
    q, pa, br = s.choice([(True, False, False), (False, True, False), (False, False, True), (True, True, True)])
    o = Random(s, q, pa, br)
    check(p, s, env, opts=o, what="quotes" if not pa and not br else "parentheses" if pa and not br else "braces" if br and not pa else "quotes, parentheses and braces")
    for u in o.used: env.count("varied " + u)


def run_all(s, env):
    p = program(s)
    def sep(i, a, t): return None if s.chance(1, 2) else b"" if s.chance(1, 2) else white(s)
    check(p, s, env, sep=sep, opts=Random(s), need=must_separate, what="everything at once")


# ---- operators next to each other -----------------------------------------------------
def run_operators(s, env):
    """Dense unary and binary operators with and without white space between each two tokens."""
    def ex(d):
        c = s.below(8)
        if d <= 0 or c == 0: return s.choice([Int(s.int(0, 9)), Flt("1.5"), Var("a"), Var("b")])
        if c == 1: return Un(s.choice(["neg", "pos"]), ex(d - 1))
        if c == 2: return Un("not", Bin(s.choice(["<", ">", "<=", ">=", "==", "!="]), ex(d - 1), ex(d - 1)))
        if c == 3: return Dot(Var("m"), s.choice(["k", "x"]))
        if c == 4: return Idx(Var("l"), Int(s.int(0, 2)))
        if c == 5: return Bin(s.choice(["and", "or"]), Bin("<", ex(0), ex(0)), Bin(">", ex(0), ex(0)))
        if c == 6: return MCall(Var("m"), "f", ex(d - 1))
        return Bin(s.choice(["+", "-", "*", "+", "-", "<", ">=", "=="]), ex(d - 1), ex(d - 1))
    ty = lambda d: Var(s.choice(["int", "float", "None"])) if d <= 0 else s.choice([Un("nlb", ty(d - 1)), Bin("|", ty(d - 1), ty(d - 1)), Var("int")])
    ss = [Set("a", Int(7)), Set("b", Un("neg", Int(2))), Set("l", List(Int(1), Flt("2.5"), Int(3))),
          Set("m", Map(("id", "k", Int(4)), ("id", "x", Flt("0.5")), ("fun", "f", [("self", None, None), ("v", None, None)], Return(Un("neg", Var("v"))))))]
    for _ in range(s.int(1, 4)):
        ss.append(Print(ex(3), Str(";")))
        if s.chance(1, 3): ss.append(Print(Call(Var("istypeof"), ty(2), ex(1))))
        if s.chance(1, 3): ss.append(ExprS(Asn([Var("a")], Asn([Idx(Var("l"), Int(1))], ex(1)))))
    p = Prog(*ss)
    if max_need(p) > 14: raise Discard("needs too many pending values")
    k = s.below(3)
    def sep(i, a, t): return b"" if k == 0 or (k == 1 and s.chance(1, 2)) else white(s)
    check(p, s, env, sep=sep, need=must_separate, opts=Random(s, True, k == 2, False), what="white space around operators")


PHASES = [Phase("layout", run_layout, 4000, 100000), Phase("tight", run_tight, 3500, 80000), Phase("opts", run_opts, 4000, 100000),
          Phase("all", run_all, 3500, 100000), Phase("operators", run_operators, 4000, 100000)]
