from common import *

TITLE = "Float arithmetic and comparisons follow IEEE doubles and type rules"
RULE = ("A case builds float and mixed operands exactly (literals, halving, products), applies arithmetic, ordering and equality operators and "
        "compares every result bit for bit with IEEE doubles (Python floats); non-trivial when two operands differ or an abort is prescribed.")
ASSUME = ["Python floats are IEEE doubles with round-to-nearest", "a float divided by zero aborts, as the documentation's division rule says"]
P63 = 1 << 63
IMAX, IMIN = P63 - 1, -P63


def flt_lit(s):
    c = s.below(6)
    if c == 0: return s.choice(["0.0", "1.0", "0.5", "2.0", "0.1", "0.25", "10.0", "3.5"])
    if c == 1: return "%d.%d" % (s.below(1000), s.below(1000))
    if c == 2: return "%d.%s" % (s.below(1 << s.int(1, 62)), "".join(str(s.below(10)) for _ in range(s.int(1, 20))))
    if c == 3: return "0." + "0" * s.int(0, 30) + str(1 + s.below(10 ** 9))
    if c == 4: return str(1 + s.below(9)) + "".join(str(s.below(10)) for _ in range(s.int(0, 40))) + ".0"
    return s.choice(["9007199254740992.0", "9007199254740993.0", "9223372036854775807.0", "9223372036854775808.0", "4503599627370496.5",
                     "1.0000000000000002", "0.30000000000000004", "0.3", "179769313486231570000000000000000000000.0"])


def fval(s, pre, depth=2):
    """(expression, float value): also huge, tiny, infinite, signed zero and NaN values."""
    c = s.below(10)
    if c < 5 or depth == 0:
        t = flt_lit(s)
        return Flt(t), float(t)
    if c == 5:
        e, v = fval(s, pre, depth - 1)
        return Un("neg", e), -v
    if c in (6, 7):
        # repeated squaring reaches every magnitude
        e, v = fval(s, pre, depth - 1)
        n = "t%d" % len(pre)
        pre.append(Set(n, e))
        for _ in range(s.int(1, 7)):
            pre.append(Set(n, Bin("*", Var(n), Var(n))))
            v = v * v
        return Var(n), v
    if c == 8:
        n = "t%d" % len(pre)
        pre.append(Set(n, Flt("1.0")))
        v = 1.0
        k = s.int(1, 1075) if s.chance(1, 2) else s.int(1015, 1075)
        i = "i%d" % len(pre)
        d, x = s.choice([("/", "2.0"), ("*", "2.0")])
        pre += [Set(i, Int(0)), While(Bin("<", Var(i), Int(k)), Block(Set(n, Bin(d, Var(n), Flt(x))), Set(i, Bin("+", Var(i), Int(1)))))]
        for _ in range(k): v = v / 2 if d == "/" else v * 2
        return Var(n), v
    # inf - inf, inf
    n = "t%d" % len(pre)
    pre.append(Set(n, Flt("1" + "0" * 50 + ".0")))
    v = 1e50
    for _ in range(3):
        pre.append(Set(n, Bin("*", Var(n), Var(n))))
        v = v * v
    if s.chance(1, 2): return Bin("-", Var(n), Var(n)), v - v
    return Var(n), v


def anum(s, pre):
    if s.chance(2, 3): return fval(s, pre)
    c = s.below(4)
    v = s.choice([0, 1, -1, 2, IMAX, IMAX - 1, -IMAX, (1 << 53) + 1, (1 << 53), 3, 10]) if c else s.below(1 << s.int(1, 63))
    return Int(v), v


def pair(s, pre):
    a, x = anum(s, pre)
    if s.chance(1, 5):
        # nearly equal across the types
        if type(x) is int and abs(x) < 10 ** 30: return a, x, Flt("%d.0" % abs(x)), float(abs(x))
        if type(x) is float and x == x and abs(x) < 2 ** 62: return a, x, Int(int(x)), int(x)
    if s.chance(1, 6): return a, x, a, x
    b, y = anum(s, pre)
    return a, x, b, y


def need_float(x, y): return type(x) is float or type(y) is float


def case_arith(s, env):
    pre, items, bad = [], [], []
    for _ in range(s.int(1, 4)):
        op = s.choice("+-*/")
        a, x, b, y = pair(s, pre)
        if not need_float(x, y): b, y = Flt("2.5"), 2.5
        e = Bin(op, a, b)
        try:
            R.arith(op, x, y)
            items.append(e)
        except R.Fail: bad.append(e)
        env.count("operator %s %s,%s" % (op, type(x).__name__, type(y).__name__))
        env.nontrivial(op, repr(x), repr(y))
    st = list(pre)
    if bad: st += [Print(e, Str("\n")) for e in items] + [Print(Str("b\n")), ExprS(bad[0]), Print(Str("after\n"))]
    else: st += [Return(List(*items))]
    run_prog(Prog(*st), env, exact=True, sample="arithmetic", model={"fuel": 200000})


def case_rel(s, env):
    pre, items = [], []
    for _ in range(s.int(1, 3)):
        a, x, b, y = pair(s, pre)
        for op in ("<", ">", "<=", ">=", "==", "!="): items.append(Bin(op, a, b))
        env.count("relation %s,%s: %s" % (type(x).__name__, type(y).__name__, "equal" if x == y else "different"))
        env.nontrivial(repr(x), repr(y))
    st = pre + [ExprS(Asn([Var("r")], List(*items))), Return(Var("r"))]
    run_prog(Prog(*st), env, exact=True, sample="relations", model={"fuel": 200000})


def value(s, d=2):
    """An expression of any type (not only comparable ones)."""
    c = s.below(14)
    if c == 0: return NoneE()
    if c == 1: return Bool(s.chance(1, 2))
    if c in (2, 3): return Int(s.choice([0, 1, -1, 2, 65, IMAX, -IMAX, 1 << 53, (1 << 53) + 1]))
    if c in (4, 5): return Flt(s.choice(["0.0", "1.0", "2.0", "0.5", "65.0", "9007199254740992.0"])) if s.chance(2, 3) else Un("neg", Flt(s.choice(["0.0", "1.0"])))
    if c in (6, 7): return Str(s.choice(["", "a", "A", "ab", "abc", "1", "none", "é", "e", "\n", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaac"]))
    if c in (8,): return Var(s.choice(["int", "float", "bool", "String", "List", "Map", "None", "Type", "Buffer"]))
    if c in (9, 10) and d: return List(*[value(s, d - 1) for _ in range(s.int(0, 3))])
    if c == 11: return Call(Dot(Var("string"), "cat"), Str(s.choice(["", "a"])), Str(s.choice(["", "b"])))
    if c == 12: return Call(Var("type"), Int(1))
    if c == 13 and s.chance(1, 3): return s.choice([lambda: Map(), lambda: Var("print"), lambda: Un("nlb", Var("int")), lambda: Bin("|", Var("int"), Var("float")),
                                                     lambda: Call(Dot(Var("buffer"), "new"), Int(1)), lambda: Var("any")])()
    return Str("a")


def case_eq(s, env):
    """Equality: reflexive, symmetric, false across types, != its negation, aborting on uncomparable values of one type."""
    a = value(s)
    b = a if s.chance(1, 4) else value(s)
    op = s.choice(["==", "!="])
    k = s.below(3)
    if k == 0: st = [Print(Bin(op, a, b), Str("\n"))]
    elif k == 1: st = [Set("a", a), Set("b", b)] + [Print(Bin(o, Var(x), Var(y)), Str("\n")) for x, y, o in (("a", "b", "=="), ("b", "a", "=="), ("a", "b", "!="), ("a", "a", "=="), ("b", "b", "!="))]
    else: st = [Set("a", a), Set("b", Var("a")), Print(Bin(op, Var("a"), Var("b"))), Set("b", b), Print(Bin(op, Var("a"), Var("b")))]
    st.append(Print(Str("end\n")))
    text, o, _ = run_prog(Prog(*st), env, sample="equality")
    env.nontrivial(text)


def case_order_types(s, env):
    """Ordering anything that isn't a number aborts."""
    a, b = value(s), value(s)
    if s.chance(1, 2): b = Int(1)
    if s.chance(1, 2): a, b = b, a
    e = Bin(s.choice(["<", ">", "<=", ">="]), a, b)
    text, o, _ = run_prog(Prog(Print(Str("b")), Print(e), Print(Str("after"))), env, sample="ordering other types")
    env.nontrivial(text)


def case_chain(s, env):
    """Trees of mixed arithmetic."""
    def t(d):
        if d == 0: return Flt(flt_lit(s)) if s.chance(3, 5) else Int(s.int(-50, 50))
        if s.chance(1, 8): return Un("neg", t(d - 1))
        return Bin(s.weighted([(3, "+"), (3, "-"), (3, "*"), (1, "/")]), t(d - 1), t(d - 1))
    st = [Return(*[t(s.int(1, 4)) for _ in range(s.int(1, 3))])]
    text, o, _ = run_prog(Prog(*st), env, exact=True, sample="trees")
    env.nontrivial(text)


def case_literal(s, env):
    """A float literal is the double nearest to its decimal digits."""
    t = flt_lit(s)
    if len(t) >= 64: raise Discard("literal too long")
    op = run_text(b"return " + t.encode() + b";", env, flags=runner.F_EXACT)
    if not op.ok or op.exact != [b"f" + R.cfloat(float(t)).encode()]:
        raise Violation("a float literal isn't the nearest double", literal=t, got=op.exact, want=R.cfloat(float(t)), error=op.err)
    env.nontrivial(t)


PHASES = [Phase("arith", case_arith, 7000, 200000), Phase("relations", case_rel, 5000, 150000), Phase("equality", case_eq, 5000, 100000),
          Phase("ordertypes", case_order_types, 2000, 30000), Phase("trees", case_chain, 4000, 100000), Phase("literals", case_literal, 2000, 50000)]
