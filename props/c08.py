from common import *

TITLE = "Integer arithmetic is exact or the program aborts"
RULE = ("A case applies integer operators to boundary-biased operands (written as literals, variables, parameters or sub-expressions) and is "
        "compared with exact arbitrary-precision arithmetic; non-trivial when an operator is applied to at least one operand other than 0 and 1 "
        "or the operation must abort.")
ASSUME = ["Python integers give the mathematically exact results"]
P63 = 1 << 63
IMAX, IMIN = P63 - 1, -P63


def anint(s):
    """Boundary-biased 64-bit integer."""
    c = s.below(10)
    if c == 0: return s.int(0, 12) - 2
    if c == 1: return s.choice([0, 1, -1, 2, -2, 3, 10, -10])
    if c == 2: return IMAX - s.below(4)
    if c == 3: return IMIN + s.below(4)
    if c == 4:
        v = (1 << s.int(1, 62)) + s.int(0, 2) - 1
        return -v if s.chance(1, 2) else v
    if c == 5:
        v = s.choice([1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, 3037000499, 3037000500, P63 // 2, P63 // 3, P63 // 2 - 1])
        return -v if s.chance(1, 2) else v
    v = s.below(1 << s.int(2, 63))
    return -v if s.chance(1, 2) else v


def lit(v):
    if v == IMIN: return Bin("-", Int(-IMAX), Int(1))
    return Int(v)


def partner(s, op, a):
    """An operand that puts the result next to a boundary."""
    c = s.below(4)
    d = s.int(-2, 2) if s.chance(1, 1) else 0
    try:
        if c == 0: return anint(s)
        t = s.choice([IMAX, IMIN]) + d
        if op == "+": v = t - a
        elif op == "-": v = a - t
        elif op == "*": v = (t // a if a else 0) + s.int(-1, 1)
        else: v = s.choice([0, -1, 1, a, -a, a + 1, 2, -2])
    except ZeroDivisionError:
        v = 0
    return max(IMIN, min(IMAX, v))


class Prg:
    def __init__(self, s):
        self.s, self.pre, self.n, self.post = s, [], 0, []

    def operand(self, v):
        """An expression with value v."""
        s = self.s
        c = s.below(5)
        if c == 0: return lit(v)
        self.n += 1
        if c in (1, 2):
            n = "v%d" % self.n
            self.pre.append(Set(n, lit(v)))
            return Var(n)
        if c == 3:
            n = "f%d" % self.n
            self.pre.append(Fun(n, [("x", None, None)], Return(Var("x"))))
            return Call(Var(n), lit(v))
        return Idx(List(lit(v), Int(0)), Int(0))


def exact_op(op, a, b):
    try: return R.arith(op, a, b)
    except R.Fail: return None


def case_ops(s, env):
    p = Prg(s)
    k = s.int(1, 5)
    good, bad = [], []
    for _ in range(k):
        op = s.choice("+-*/%")
        a = anint(s)
        b = partner(s, op, a)
        if op in "+*" and s.chance(1, 2): a, b = b, a
        if s.chance(1, 10):
            e = Un("neg", p.operand(a))
            r = -a if a != IMIN else None
            nt = True
        else:
            e = Bin(op, p.operand(a), p.operand(b))
            r = exact_op(op, a, b)
            nt = a not in (0, 1) or b not in (0, 1)
        env.count("operator %s: %s" % (e.k, "aborts" if r is None else "exact"))
        (bad if r is None else good).append(e)
        if nt or r is None: env.nontrivial(op, a, b)
    st = p.pre + [Print(e, Str("\n")) for e in good]
    if bad:
        st += [Print(Str("last\n")), Set("r", bad[0]), Print(Str("after\n"))]
        run_prog(Prog(*st), env, sample="operators")
    else:
        st.append(Return(List(*good[:3])))
        run_prog(Prog(*st), env, exact=True, sample="operators")


def tree(s, d, p, vals):
    if d == 0 or s.chance(1, 6):
        if vals and s.chance(1, 3): return Var(s.choice(vals))
        return p.operand(anint(s)) if s.chance(1, 2) else lit(s.int(-20, 20))
    c = s.below(12)
    if c == 0: return Un("neg", tree(s, d - 1, p, vals))
    if c == 1: return Un("pos", tree(s, d - 1, p, vals))
    op = s.weighted([(4, "+"), (4, "-"), (3, "*"), (2, "/"), (2, "%")])
    return Bin(op, tree(s, d - 1, p, vals), tree(s, d - 1, p, vals))


def case_tree(s, env):
    """Nested expressions and accumulating loops."""
    p = Prg(s)
    e = [tree(s, s.int(1, 4), p, []) for _ in range(s.int(1, 3))]
    body = []
    if s.chance(1, 2):
        n, op = s.int(1, 70), s.choice("+-*")
        step = lit(s.choice([2, 3, 7, -1, -2, 10, 1 << 40, -(1 << 57)]))
        body = [Set("acc", lit(s.choice([1, -1, 3, 5, anint(s)]))), Set("i", Int(0)),
                While(Bin("<", Var("i"), Int(n)), Block(Set("i", Bin("+", Var("i"), Int(1))), Set("acc", Bin(op, Var("acc"), step)),
                                                       Print(Var("acc"), Str(" "))))]
    st = p.pre + [x for q in e for x in (Print(q, Str("\n")),)] + body + [Print(Str("end\n"))]
    text, o, op = run_prog(Prog(*st), env, sample="expressions")
    env.nontrivial(text)


NONINT = [lambda s: Str("3"), lambda s: Bool(True), lambda s: NoneE(), lambda s: List(Int(1)), lambda s: Map(), lambda s: Var("int"),
          lambda s: Var("print"), lambda s: Call(Dot(Var("buffer"), "new"), Int(3))]


def case_types(s, env):
    """Operands that aren't numbers, and modulo of floats."""
    op = s.choice(["+", "-", "*", "/", "%", "neg"])
    bad = s.choice(NONINT)(s)
    if op == "%" and s.chance(1, 2): bad = Flt("2.5")
    good = lit(anint(s)) if s.chance(2, 3) else s.choice(NONINT)(s)
    if op == "neg": e = Un("neg", bad)
    elif s.chance(1, 2): e = Bin(op, good, bad)
    else: e = Bin(op, bad, good)
    st = [Print(Str("before\n")), Set("r", e), Print(Str("after\n"))]
    if s.chance(1, 2): st = [Fun("f", [], Block(*st))] + [ExprS(Call(Var("f"))), Print(Str("survived\n"))]
    text, o, op_ = run_prog(Prog(*st), env, sample="operands of other types")
    env.count("operator %s on other types" % op)
    env.nontrivial(text)


def case_literal(s, env):
    """Decimal literals: exact up to the largest integer, rejected above it."""
    z = b"0" * s.choice([0, 0, 0, 1, 5, 20])
    v = s.choice([IMAX, IMAX + 1, IMAX - 1, 1 << 64, (1 << 64) + 5, 10 ** 18, 10 ** 19, s.below(1 << 63), s.below(1 << 70), s.below(1000), 10 ** s.int(0, 30)])
    t = z + b"%d" % v
    text = b"print(" + t + b", '\\n');\nreturn " + t + b";\n"
    op = run_text(text, env, flags=runner.F_EXACT)
    if v <= IMAX:
        if not op.ok or op.out != b"%d\n" % v or op.exact != [b"i%d" % v]:
            raise Violation("an integer literal isn't its decimal value", program=text, output=op.out, error=op.err)
    elif op.ok or op.out:
        raise Violation("an integer literal that isn't representable was accepted", program=text, output=op.out)
    elif not op.err: raise Violation("failure without a report", program=text)
    env.count("literal " + ("in range" if v <= IMAX else "out of range"))
    env.nontrivial(t)
    env.sample("literal", text.decode())


PHASES = [Phase("operators", case_ops, 14000, 400000), Phase("expressions", case_tree, 5000, 150000), Phase("types", case_types, 1500, 20000),
          Phase("literals", case_literal, 1500, 30000)]
