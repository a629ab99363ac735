from common import *
from c09 import fval
import ctypes, math

TITLE = "math and random give correct results"
RULE = ("A case applies the functions of math to generated doubles (ordinary, huge, tiny, infinite, NaN, signed zero) and compares bit for bit with the C library, or draws "
        "numbers from random with generated bounds and seeds and checks bounds and repeatability; wrong arguments must abort. Non-trivial unless the same call was made before.")
ASSUME = ["the installed libm, called through ctypes, is the C library function of the same name", "random.generate with swapped bounds means the same interval; missing bounds are 0 and the highest integer"]
M1 = ["sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "sqrt"]
M2 = ["atan2", "pow"]
LIM = (1 << 63) - 1


def smallish(s):
    c = s.below(5)
    if c == 0: return s.choice(["0.0", "1.0", "0.5", "2.0", "10.0", "100.0", "3.0"])
    if c < 3: return "%d.%d" % (s.below(10), s.below(10**6))
    if c == 3: return "0.%d" % s.below(10**9)
    return "%d.%d" % (s.below(1000), s.below(100))


def arg(s, pre):
    c = s.below(6)
    if c < 4:
        t = smallish(s)
        return (Un("neg", Flt(t)), -float(t)) if s.chance(1, 3) else (Flt(t), float(t))
    return fval(s, pre)


def case_math(s, env):
    pre, rets, calls = [], [], []
    for i in range(s.int(1, 5)):
        f = s.choice(M1 + M2 + M2 + M2 + ["floor", "ceil"])
        args = [arg(s, pre) for _ in range(2 if f in M2 else 1)]
        calls.append((f, [a[1] for a in args]))
        es = [a[0] for a in args]
        if s.chance(1, 10): es.append(Flt("9.0"))
        if s.chance(1, 16): es[s.below(len(args))] = s.choice([Int(1), NoneE(), Str("1.0"), Bool(True), List(Flt("1.0"))])
        elif s.chance(1, 30): es = es[:-1] if len(es) > 1 else []
        pre.append(Set("r%d" % i, Call(Dot(Var("math"), f), *es)))
        pre.append(Print(Str("%d" % i)))
        rets.append(Var("r%d" % i))
        env.count("math." + f)
    text, o, op = run_prog(Prog(*pre, Return(*rets)), env, exact=True, sample="math", model={"fuel": 60000})
    env.nontrivial(text)


def case_const(s, env):
    text, o, op = run_prog(Prog(Return(Dot(Var("math"), "PI"), Dot(Var("math"), "E"), Call(Dot(Var("math"), "floor"), Flt("0.0")))), env, exact=True)
    env.nontrivial(text)


def bnd(s):
    c = s.below(5)
    if c == 0: return s.choice([0, 1, -1, LIM, -LIM, -LIM - 1, 1 << 31, -(1 << 31), 1 << 53, (1 << 53) + 1, LIM - 1])
    if c < 3: return s.below(40) - 20
    v = s.below(1 << s.int(1, 63))
    return -v if s.chance(1, 2) else v


def iexp(v): return Int(v) if v >= -LIM else Bin("-", Int(-LIM), Int(1))


def case_random(s, env):
    """Bounds, and repeatability for a seed."""
    n = s.int(1, 12)
    calls, bounds = [], []
    for _ in range(n):
        c = s.below(8)
        a, b = bnd(s), bnd(s)
        if s.chance(1, 4): b = a + s.below(3) if a < LIM - 3 else a
        if c < 6: calls.append([iexp(a), iexp(b)]); bounds.append((min(a, b), max(a, b)))
        elif c == 6: calls.append([iexp(a)]); bounds.append((min(a, LIM), LIM))
        else: calls.append([NoneE(), iexp(b)] if s.chance(1, 2) else []); bounds.append((min(0, b), max(0, b)) if calls[-1] else (0, LIM))
    seed = bnd(s)
    g = lambda a: Call(Dot(Var("random"), "generate"), *a)
    st = [ExprS(Call(Dot(Var("random"), "seed"), iexp(seed))), Set("a", List()), Set("b", List())]
    st += [ExprS(Call(Var("append"), Var("a"), g(a))) for a in calls]
    st += [ExprS(Call(Dot(Var("random"), "seed"), iexp(seed)))]
    st += [ExprS(Call(Var("append"), Var("b"), g(a))) for a in calls]
    text = render(Prog(*st, Return(Var("a"), Var("b"))))
    op = run_text(text, env, flags=runner.F_EXACT)
    if not op.ok: raise Violation("drawing random numbers failed", program=text, error=op.err)
    def bad(m): raise Violation(m, program=text, values=op.exact, bounds=bounds, seed=seed)
    try:
        a, b = ([int(x[1:]) for x in e.strip(b"[]").split()] for e in op.exact)
    except ValueError: bad("not integers")
    if len(a) != n: bad("missing values")
    for v, (lo, hi) in zip(a, bounds):
        if not lo <= v <= hi: bad("%d isn't between its bounds" % v)
    if a != b: bad("the same seed gives another sequence")
    # and another run
    if s.chance(1, 4):
        op2 = run_text(text, env, flags=runner.F_EXACT)
        if op2.exact != op.exact: bad("another run with the same seed gives another sequence: %r" % op2.exact)
    env.nontrivial(text)
    env.count("random draws", n)


def case_spread(s, env):
    """Draws move through the interval: wide intervals don't give one value or one half only."""
    lo = bnd(s) // 4
    w = 1 << s.int(16, 60)
    n = 60
    st = [ExprS(Call(Dot(Var("random"), "seed"), iexp(bnd(s)))), Set("a", List()), Set("i", Int(0)),
          While(Bin("<", Var("i"), Int(n)), Block(ExprS(Call(Var("append"), Var("a"), Call(Dot(Var("random"), "generate"), iexp(lo), iexp(lo + w)))), Set("i", Bin("+", Var("i"), Int(1))))), Return(Var("a"))]
    text = render(Prog(*st))
    op = run_text(text, env, flags=runner.F_EXACT)
    if not op.ok: raise Violation("drawing random numbers failed", program=text, error=op.err)
    a = [int(x[1:]) for x in op.exact[0].strip(b"[]").split()]
    if any(not lo <= v <= lo + w for v in a): raise Violation("a number isn't between its bounds", program=text, values=a)
    # 60 independent draws leave a half (or everything but a half) empty with probability 2^-59
    if not any(v < lo + w // 2 for v in a) or not any(v >= lo + w // 2 for v in a): raise Violation("sixty draws all fell in the same half of the interval", program=text, values=a)
    env.nontrivial(text)


def case_badrandom(s, env):
    f = s.choice(["generate", "seed"])
    args = [s.choice([Str("1"), Flt("1.0"), List(), Bool(True), Var("int")])]
    if f == "generate" and s.chance(1, 2): args.insert(0, Int(3))
    elif s.chance(1, 2): args.append(Int(1))
    text = render(Prog(Print(Str("x")), ExprS(Call(Dot(Var("random"), f), *args)), Print(Str("no"))))
    op = run_text(text, env)
    if op.ok or op.out != b"x" or not op.err.strip(): raise Violation("a wrong argument isn't refused", program=text, output=op.out)
    env.nontrivial(text)


PHASES = [Phase("math", case_math, 12000, 250000), Phase("constants", case_const, 1, 1, enum=True), Phase("random", case_random, 5000, 100000),
          Phase("spread", case_spread, 400, 5000), Phase("badrandom", case_badrandom, 200, 1000)]
