from common import *
from wide import wide_body

TITLE = "Control flow runs exactly the prescribed statements"
RULE = ("A case is a random nest of if/else chains, while, do-while, break and return over bounded counters, inside and outside functions, every statement "
        "printing its own number; the trace is compared with the model; non-trivial when at least two control statements are nested.")
ASSUME = ["the statement semantics of lib/noja_ref.py is the documented one"]


class G:
    def __init__(self, s, bud):
        self.s, self.bud, self.k, self.maxnest, self.infun = s, bud, 0, 0, 0

    def mark(self):
        self.k += 1
        s = self.s
        if s.chance(2, 3): return Print(Str("%d " % self.k))
        # every other kind of expression statement
        c = s.below(9)
        t = Call(Var("c"), Int(self.k))
        if c < 3: return Set("u", Int(self.k))
        if c == 3: return ExprS(Asn([Var("u"), Var("v")], t))
        if c == 4: return ExprS(Asn([Idx(List(Int(0)), Int(0))], t))
        if c == 5: return ExprS(s.choice([Int(self.k), NoneE(), List(t), Map(("id", "k", t)), Var("c"), Str("s")]))
        if c == 6: return ExprS(Bin(s.choice(["==", "!="]), t, Int(1)))
        if c == 7: return ExprS(s.choice([Idx(List(t), Int(0)), Dot(Map(("id", "k", t)), "k"), Un("neg", t), Un("nlb", Var("int"))]))
        return ExprS(s.choice([Bin("and", Bool(True), Call(Var("c"), Bool(False))), Bin("or", Bool(False), Bool(True)), Un("not", Bool(True))]))

    def cond(self, vars_):
        s = self.s
        c = s.below(10)
        if c < 5 and vars_:
            v = Var(s.choice(vars_))
            w = s.below(4)
            if w == 0: return Bin("==", Bin("%", v, Int(s.int(2, 3))), Int(s.int(0, 1)))
            if w == 1: return Bin("<", v, Int(s.int(0, 4)))
            if w == 2: return Bin(">=", v, Int(s.int(1, 3)))
            return Bin("==", v, Int(s.int(0, 3)))
        if c < 7: return Bool(s.chance(1, 2))
        if c == 7: return Bin(s.choice(["and", "or"]), self.cond(vars_), self.cond(vars_))
        if c == 8: return Un("not", self.cond(vars_))
        return Call(Var("c"), self.cond(vars_))

    def body(self, d, vars_, loop):
        """One statement or a block."""
        s = self.s
        if s.chance(1, 3): return self.one(d, vars_, loop)
        return Block(*self.stmts(s.int(0, 3), d, vars_, loop))

    def stmts(self, n, d, vars_, loop):
        out = []
        for _ in range(n):
            if self.bud <= 0: break
            x = self.one(d, vars_, loop)
            out.append(x)
        return out

    def one(self, d, vars_, loop):
        s = self.s
        self.bud -= 1
        self.maxnest = max(self.maxnest, d)
        if self.bud <= 0 or d > 5: return self.mark()
        c = s.below(20)
        if c < 5: return self.mark()
        if c < 9:
            t = self.body(d + 1, vars_, loop)
            return If(self.cond(vars_), t, self.body(d + 1, vars_, loop)) if s.chance(1, 2) else If(self.cond(vars_), t)
        if c == 9:
            # else-if chain
            e = self.body(d + 1, vars_, loop) if s.chance(1, 2) else None
            for _ in range(s.int(1, 3)):
                e = If(self.cond(vars_), self.body(d + 1, vars_, loop), e) if e else If(self.cond(vars_), self.body(d + 1, vars_, loop))
            return e
        if c < 15:
            self.k += 1
            i = "i%d" % self.k
            n = s.int(0, 3) if d or s.chance(3, 4) else s.int(16, 40)
            inc = Set(i, Bin("+", Var(i), Int(1)))
            b = self.stmts(s.int(0, 3), d + 1, vars_ + [i], True)
            kind = s.below(6)
            step = Bin("<", Asn([Var(i)], Bin("+", Var(i), Int(1))), Int(n + 1))
            if kind == 4: l = DoWhile(b[0] if b and s.chance(3, 4) else Block(*b), step)
            elif kind == 5: l = DoWhile(self.one(d + 1, vars_ + [i], True), step)
            elif kind == 0: l = DoWhile(Block(inc, *b), Bin("<", Var(i), Int(n)))
            elif kind == 1: l = While(Bin("<", Asn([Var(i)], Bin("+", Var(i), Int(1))), Int(n + 1)), b[0] if len(b) == 1 and s.chance(1, 2) else Block(*b))
            elif kind == 2: l = While(Bool(True), Block(inc, If(Bin(">", Var(i), Int(n)), s.choice([Break(), Block(self.mark(), Break())])), *b))
            else: l = While(Bin("and", Bin("<", Var(i), Int(n)), Call(Var("c"), Bool(True))), Block(inc, *b))
            return Block(Set(i, Int(0)), l, self.mark())
        if c == 19:
            # a loop as a bare statement: its counter only goes up
            i = "w%d" % s.below(3)
            step = Bin("<", Asn([Var(i)], Bin("+", Var(i), Int(1))), Int(s.int(0, 5)))
            b = self.body(d + 1, vars_ + [i], True)
            return While(step, b) if s.chance(1, 2) else DoWhile(b, step)
        if c < 17 and loop: return Break() if s.chance(1, 2) else If(self.cond(vars_), Break())
        if c == 17 and self.infun:
            r = Return(*[Int(self.k)] if s.chance(2, 3) else [Int(self.k), NoneE()])
            return r if s.chance(1, 2) else If(self.cond(vars_), r)
        if c == 18 and self.infun < 2:
            self.k += 1
            f = "f%d" % self.k
            self.infun += 1
            fn = Fun(f, [("p", None, None)], Block(*self.stmts(s.int(1, 4), d + 1, ["p"], False)))
            self.infun -= 1
            return Block(fn, Print(Call(Var(f), Int(s.int(0, 3))), Str(" ")))
        return Block(*self.stmts(s.int(0, 3), d + 1, vars_, loop))


def case_nest(s, env):
    g = G(s, s.choice([12, 25, 45]))
    st = [Fun("c", [("x", None, None)], Block(Print(Str(".")), Return(Var("x")))), Set("n", Int(s.int(0, 4)))] + [Set("w%d" % i, Int(0)) for i in range(3)]
    st += g.stmts(s.int(1, 6), 0, ["n"], False)
    if s.chance(1, 4): st = st[:1] + [Fun("main", [("n", None, Int(2))], Block(*st[1:])), ExprS(Asn([Var("r"), Var("q")], Call(Var("main")))), Print(Var("r"), Var("q"), Str("\n"))]
    st.append(Print(Str("end\n")))
    text, o, op = run_prog(Prog(*st), env, sample="nest", vals=False, model={"fuel": 30000})
    for k in feature_classes(Prog(*st)):
        if k in ("if", "while", "dowhile", "break", "return"): env.count("construct " + k)
    if g.maxnest >= 2: env.nontrivial(text)


NB = [lambda: Int(1), lambda: Int(0), lambda: NoneE(), lambda: Str("true"), lambda: Flt("0.0"), lambda: List(), lambda: Map(), lambda: Var("bool"), lambda: Var("print")]


def case_cond(s, env):
    """Conditions that aren't booleans abort, before and after some iterations."""
    v = s.choice(NB)()
    c = s.below(7)
    m = lambda t: Print(Str(t + " "))
    n = s.int(0, 3)
    # a condition that is boolean n times first
    flip = Fun("q", [], Block(ExprS(Asn([Idx(Var("k"), Int(0))], Bin("+", Idx(Var("k"), Int(0)), Int(1)))), If(Bin("<=", Idx(Var("k"), Int(0)), Int(n)), Return(Bool(True))), Return(v)))
    pre = [Set("k", List(Int(0))), flip]
    if c == 0: st = [If(v, m("then"), m("else"))]
    elif c == 1: st = [If(v, m("then"))]
    elif c == 2: st = pre + [While(Call(Var("q")), m("body"))]
    elif c == 3: st = pre + [DoWhile(m("body"), Call(Var("q")))]
    elif c == 4: st = [Print(Bin(s.choice(["and", "or"]), v, Bool(True)))]
    elif c == 5: st = [Print(Bin("and", Bool(True), v)) if s.chance(1, 2) else Print(Bin("or", Bool(False), v))]
    else: st = [Print(Un("not", v))]
    if s.chance(1, 3): st = [Fun("f", [], Block(*st)), ExprS(Call(Var("f")))]
    text, o, op = run_prog(Prog(m("start"), *st, m("after")), env, sample="conditions", vals=False)
    env.nontrivial(text)


LEAF = [lambda: Set("u", Bin("+", Var("u"), Int(1))), lambda: Print(Str("x")), lambda: ExprS(Int(7)), lambda: ExprS(Asn([Var("u"), Var("v")], Call(Var("g")))), lambda: ExprS(Call(Var("g"))),
        lambda: Block(), lambda: Block(Print(Str("y"))), lambda: ExprS(Asn([Idx(Var("L"), Int(0))], Int(5))), lambda: ExprS(MCall(Map(("id", "g", Var("g"))), "g"))]


def case_leaf(s, env):
    """Exhaustive: every kind of bare statement at every place, gone through more often than a frame has room for values."""
    k = s.index
    leaf, k = LEAF[k % len(LEAF)], k // len(LEAF)
    other, k = [LEAF[0], LEAF[1], LEAF[5]][k % 3], k // 3
    place, k = k % 8, k // 8
    fun, k = k % 2, k // 2
    n = 3 if k else 20
    i = Var("i")
    even = Bin("==", Bin("%", i, Int(2)), Int(0))
    step = Bin("<", Asn([i], Bin("+", i, Int(1))), Int(n))
    x = leaf()
    body = [x, If(even, x), If(even, x, other()), If(even, other(), x), If(even, other(), If(Bin("==", i, Int(1)), x, other())), Block(x, other()), If(even, Block(x), other()),
            If(even, If(Bin("<", i, Int(n + 5)), x, Break()), other())][place]
    st = [Set("i", Int(0)), Set("u", Int(0)), Set("L", List(Int(0)))]
    for l in (While(step, body), Block(Set("i", Int(0)), DoWhile(body, step))): st.append(l)
    st.append(Print(Str(" "), Var("u"), i, Var("L"), Str("\n")))
    g = Fun("g", [], Return(Int(1), Int(2)))
    if fun: st = [g, Fun("f", [], Block(*st, Return(Int(1), Int(2), Int(3)))), ExprS(Asn([Var("a"), Var("b"), Var("c"), Var("d")], Call(Var("f")))), Print(Var("a"), Var("b"), Var("c"), Var("d"))]
    else: st = [g] + st
    text, o, op = run_prog(Prog(*st), env, sample="bare statements", vals=False)
    env.nontrivial(text)


def case_short(s, env):
    """and/or run a right operand only when it's needed."""
    cnt = [0]

    def e(d):
        cnt[0] += 1
        if d == 0: return Call(Var("t"), Int(cnt[0]), Bool(s.chance(1, 2)) if s.chance(11, 12) else s.choice(NB)())
        w = s.below(8)
        if w == 0: return Un("not", e(d - 1))
        return Bin(s.choice(["and", "or"]), e(d - 1), e(d - s.int(1, d)))
    st = [Fun("t", [("n", None, None), ("v", None, None)], Block(Print(Var("n"), Str(" ")), Return(Var("v")))), Print(e(s.int(1, 4)), Str("\n")),
          If(e(s.int(0, 2)), Print(Str("yes")), Print(Str("no"))), Set("i", Int(0)),
          While(Bin("and", Bin("<", Var("i"), Int(2)), e(1)), Set("i", Bin("+", Var("i"), Int(1))))]
    text, o, op = run_prog(Prog(*st), env, sample="short circuit", vals=False)
    env.nontrivial(text)


def case_bare(s, env):
    """Exhaustive: a break inside bare statements (no braces) of every pair of loops."""
    k = s.index
    outer, k = k % 2, k // 2
    inner, k = k % 2, k // 2
    wrap, k = k % 5, k // 5
    what, k = k % 2, k // 2
    when = k % 3
    x = [Break(), Return(Int(1))][what]
    i, j = Var("i"), Var("j")
    step = lambda v: Bin("<", Asn([v], Bin("+", v, Int(1))), Int(3))
    cond = Bin("==", j, Int(when))
    m = lambda t: Print(Str(t))
    stop = [lambda: If(cond, x), lambda: If(cond, x, m("e")), lambda: If(Un("not", cond), m("t"), x), lambda: If(Bool(True), If(cond, x, m("n"))), lambda: If(Bool(False), m("?"), If(cond, Block(x), m("n")))][wrap]()
    loop = lambda kind, v, b: While(step(v), b) if kind else DoWhile(b, step(v))
    st = [Fun("f", [], Block(Set("i", Int(0)), Set("j", Int(0)), loop(outer, i, Block(Set("j", Int(0)), m("o"), loop(inner, j, stop), Print(Str("a"), i, j))) if when < 2 else loop(outer, i, loop(inner, j, stop)), m("z"))), Print(Str("["), Call(Var("f")), Str("]"))]
    text, o, op = run_prog(Prog(*st), env, sample="bare bodies", vals=False)
    env.nontrivial(text)


def case_breaks(s, env):
    """Exhaustive: a break or return at each place of nested loops of every pair of kinds."""
    k = s.index
    outer, k = k % 3, k // 3
    inner, k = k % 3, k // 3
    place, k = k % 6, k // 6
    what, k = k % 3, k // 3
    when = k % 3
    m = lambda t: Print(Str(t))
    x = [Break(), Return(Int(1)), If(Bool(False), m("?"))][what]
    cond = Bin("==", Var("i"), Int(when))
    stop = If(cond, x) if when < 2 else x

    def loop(kind, v, body):
        inc = Set(v, Bin("+", Var(v), Int(1)))
        if kind == 0: return [Set(v, Int(-1)), While(Bin("<", Var(v), Int(2)), Block(inc, *body))]
        if kind == 1: return [Set(v, Int(-1)), DoWhile(Block(inc, *body), Bin("<", Var(v), Int(2)))]
        return [Set(v, Int(-1)), While(Bool(True), Block(inc, If(Bin(">", Var(v), Int(2)), Break()), *body))]
    def at(p): return [stop] if place == p else []
    inn = at(1) + [m("b")] + at(2)
    out = at(0) + [m("a")] + loop(inner, "j", inn + [Print(Var("j"))]) + [m("c")] + at(3)
    body = loop(outer, "i", out + [Print(Var("i"))]) + [m("d")] + ([Return(Int(5))] if place == 4 else [])
    st = [Fun("f", [], Block(*body)), Print(Str("["), Call(Var("f")), Str("]"))]
    text, o, op = run_prog(Prog(*st), env, sample="break and return", vals=False)
    env.nontrivial(text)


PHASES = [Phase("leaf", case_leaf, 9 * 3 * 8 * 2 * 2, 9 * 3 * 8 * 2 * 2, enum=True), Phase("breaks", case_breaks, 486, 486, enum=True), Phase("bare", case_bare, 120, 120, enum=True), Phase("nest", case_nest, 14000, 400000), Phase("conditions", case_cond, 1500, 15000), Phase("short", case_short, 3000, 60000),
          Phase("wide", wide_body, 1200, 8000)]
