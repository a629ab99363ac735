from common import *

TITLE = "Calls bind arguments and return values as documented"
RULE = ("A case defines functions with random parameter lists (defaults of every kind, annotations), bodies that print their parameters and return 0 to 8 "
        "values, and calls them with fewer, equal or more arguments in every calling form and receiving context; compared with the model; non-trivial when "
        "the number of arguments or of received values differs from the number declared, or a default or '->' is used.")
ASSUME = ["the calling convention of lib/noja_ref.py is the documented one"]


def simple(s):
    c = s.below(8)
    if c < 3: return Int(s.int(0, 99))
    if c == 3: return Str(s.choice(["a", "bc"]))
    if c == 4: return NoneE()
    if c == 5: return Bool(s.chance(1, 2))
    if c == 6: return List(Int(s.int(0, 9)))
    return Flt("1.5")


class G:
    def __init__(self, s):
        self.s, self.st, self.n, self.nt = s, [], 0, False
        # every evaluation leaves a mark
        self.st.append(Fun("t", [("tag", None, None), ("v", None, None)], Block(Print(Str("<"), Var("tag"), Str(">")), Return(Var("v")))))

    def mark(self, e):
        if self.s.chance(1, 2): return e
        self.n += 1
        return Call(Var("t"), Int(self.n), e)

    def fn(self, recv=False):
        s = self.s
        np = s.weighted([(12, s.int(0, 4)), (2, s.int(5, 9)), (1, s.int(10, 15))])
        names = ["p%d" % i for i in range(np)]
        if np and s.chance(1, 8): names[-1] = names[0]     # a repeated name
        ps = []
        for i, nm in enumerate(names):
            d = None
            if s.chance(2, 5):
                d = self.mark(simple(s))
                if s.chance(1, 4): d = Var(s.choice(["g1", "g2"]))
                elif s.chance(1, 5) and i + 1 < np and len(set(names)) == np: d = Bin("==", Var(names[s.int(i + 1, np - 1)]), NoneE())   # later parameters are already bound
                self.nt = True
            ps.append((nm, Var("any") if s.chance(1, 5) else None, d))
        vs = sorted(set(names))
        body = [Print(Str("("))] + [Print(*sum(([Var(n), Str(",")] for n in vs[i:i + 5]), [])) for i in range(0, len(vs), 5)] + [Print(Str(")"))]
        nr = s.weighted([(6, s.int(0, 3)), (1, s.int(4, 8))])
        if names and s.chance(1, 4): body.append(Set(s.choice(names), Int(1000)))   # assigning a parameter doesn't touch the caller
        rs = [self.mark(s.choice([simple(s)] + [Var(n) for n in sorted(set(names))])) for _ in range(nr)]
        c = s.below(5)
        if nr == 0 and c < 2: pass
        elif c == 2: body.append(If(Bin("==", Int(1), Int(s.int(1, 2))), Return(*(rs or [NoneE()])), Block(Print(Str("E")), *([Return(*rs)] if rs else []))))
        elif rs: body.append(Return(*rs))
        return names, ps, Block(*body), nr

    def args(self, np):
        s = self.s
        k = s.choice([np, np, np, max(0, np - s.int(1, 2)), np + s.int(1, 3), 0])
        if k != np: self.nt = True
        return [NoneE() if s.chance(1, 5) else self.mark(simple(s)) for _ in range(k)]

    def use(self, call, nr):
        s = self.s
        c = s.below(9)
        P = lambda *a: self.st.append(Print(*(list(a) + [Str("\n")])))
        if c < 3:
            k = s.choice([1, max(1, nr), nr + 1, nr + 2, max(1, nr - 1), 2])
            k = min(k, 7)
            ts = []
            for i in range(k):
                w = s.below(6)
                if w < 4: ts.append(Var("r%d" % i))
                elif w == 4: ts.append(Idx(Var("L"), Int(s.int(0, 2))))
                else: ts.append(Dot(Var("M"), s.choice(["a", "b"])))
            if k != nr or k > 1: self.nt = True
            self.st.append(Print(Str("=")))
            self.st.append(ExprS(Asn(ts, call)))
            P(*sum(([x, Str(" ")] for x in ts), []), Var("L"), Var("M"))
        elif c == 3: P(call)
        elif c == 4: P(List(call, Int(0)))
        elif c == 5: self.st.append(ExprS(call)); P()
        elif c == 6: P(Call(Var("type"), call))
        elif c == 7:
            f = "w%d" % len(self.st)
            self.st += [Fun(f, [], Return(*([call] if s.chance(1, 2) else [call, Str("second")]))), ExprS(Asn([Var("x"), Var("y"), Var("z")], Call(Var(f))))]
            P(Var("x"), Str(" "), Var("y"), Str(" "), Var("z"))
            self.nt = True
        else:
            # the value of a multiple assignment is its first value
            P(Asn([Var("x"), Var("y")], call)); P(Var("y"))


def case_calls(s, env):
    g = G(s)
    g.st += [Set("g1", Int(501)), Set("g2", Str("g")), Set("L", List(Int(1), Int(2), Int(3))), Set("M", Map(("id", "a", Int(1))))]
    for _ in range(s.int(1, 3)):
        names, ps, body, nr = g.fn()
        form = s.below(6)
        f = "f%d" % len(g.st)
        np = len(ps)
        if form < 2:
            g.st.append(Fun(f, ps, body)); mk = lambda: Call(Var(f), *g.args(np))
        elif form == 2:
            g.st += [Fun(f, ps, body), Set("al", List(Var(f)))]; mk = lambda: Call(Idx(Var("al"), Int(0)), *g.args(np))
        elif form == 3:
            g.st.append(Set(f, Map(("id", "id", Int(77)), ("fun", "m", ps, body)))); g.nt = True
            def mk():
                a = g.args(max(0, np - 1))
                return MCall(Var(f), "m", *a)
        elif form == 4:
            g.st.append(Set(f, Map(("fun", "m", ps, body)))); mk = lambda: Call(Dot(Var(f), "m"), *g.args(np))
        else:
            g.st.append(Fun(f, [], Block(Fun("inner", ps, body), Return(Var("inner"))))); mk = lambda: Call(Call(Var(f)), *g.args(np))
        for _ in range(s.int(1, 3)): g.use(mk(), nr)
    text, o, op = run_prog(Prog(*g.st), env, sample="calls", vals=False)
    if g.nt: env.nontrivial(text)


def case_enum(s, env):
    """Every small combination of parameters, defaults, arguments, results and receivers."""
    k = s.index
    np, k = k % 4, k // 4
    dm, k = k % 8, k // 8
    na, k = k % 6, k // 6
    nr, k = k % 5, k // 5
    nt, k = k % 5, k // 5
    form = k % 3
    ps = [("p%d" % i, None, Int(100 + i) if dm >> i & 1 else None) for i in range(np)]
    body = Block(Print(*[x for i in range(np) for x in (Var("p%d" % i), Str(" "))]), *([Return(*[Int(200 + i) for i in range(nr)])] if nr else []))
    args = [NoneE() if i % 3 == 2 else Int(i) for i in range(na)]
    st = [Set("m", Map(("id", "x", Int(5)), ("fun", "f", ps, body))) if form else Fun("f", ps, body)]
    call = [Call(Var("f"), *args), Call(Dot(Var("m"), "f"), *args), MCall(Var("m"), "f", *args)][form]
    if form == 2: st.insert(0, Set("dummy", Int(0)))
    if nt == 0: st.append(ExprS(call))
    else:
        st += [ExprS(Asn([Var("r%d" % i) for i in range(nt)], call)), Print(Str("|"), *[x for i in range(nt) for x in (Var("r%d" % i), Str(" "))])]
    text, o, op = run_prog(Prog(*st), env, sample="combinations", vals=False)
    if na != np or nr != nt or dm: env.nontrivial(text)


def case_counts(s, env):
    """Every number of results with every number of receivers, every number of parameters with every number of arguments."""
    k = s.index
    if k < 9 * 14:
        nr, nt, np, na = k % 9, k // 9, 1, 1
    else:
        k -= 9 * 14
        np, na, nr, nt = k % 13, k // 13, 2, 1
    ps = [("p%d" % i, None, Int(300 + i) if (i * 7 + k) % 5 == 0 else None) for i in range(np)]
    st = [Set("g", Int(1)), Fun("f", ps, Block(*([Print(Var("p%d" % i), Str(" ")) for i in range(np)] + ([Return(*[Int(200 + i) for i in range(nr)])] if nr else []))))]
    call = Call(Var("f"), *[Int(i) for i in range(na)])
    if nt == 0: st.append(ExprS(call))
    else: st += [ExprS(Asn([Var("r%d" % i) for i in range(nt)], call))] + [Print(Var("r%d" % i), Str(" ")) for i in range(nt)]
    st.append(Print(Str("|"), Var("g")))
    text, o, op = run_prog(Prog(*st), env, sample="counts", vals=False)
    env.nontrivial(text)


NCOUNTS = 9 * 14 + 13 * 13


def case_order(s, env):
    """Order of evaluation: arguments from last to first, then the callee; parameters' defaults from last to first."""
    g = G(s)
    n = s.int(1, 4)
    T = lambda e: (setattr(g, "n", g.n + 1), Call(Var("t"), Int(g.n), e))[1]
    ps = [("p%d" % i, None, T(Int(i)) if s.chance(1, 2) else None) for i in range(n)]
    g.st.append(Fun("f", ps, Block(Print(*[Var("p%d" % i) for i in range(n)]), Return(*[T(Int(i)) for i in range(s.int(1, 3))]))))
    c = s.below(3)
    args = [T(s.choice([NoneE(), Int(9)])) for _ in range(s.int(0, n))]
    if c == 0: call = Call(T(Var("f")), *args)
    elif c == 1: call = MCall(T(Map(("id", "f", Var("f")))), "f", *args)
    else: call = Call(Dot(T(Map(("id", "f", Var("f")))), "f"), *args)
    lst = List(Int(0), Int(0))
    g.st += [Set("L", lst), ExprS(Asn([Idx(T(Var("L")), T(Int(0))), Idx(T(Var("L")), T(Int(1)))], call)), Print(Var("L"))]
    text, o, op = run_prog(Prog(*g.st), env, sample="order", vals=False)
    env.nontrivial(text)


def case_notcallable(s, env):
    """Calling anything that isn't a function aborts; so does a missing method."""
    v = s.choice([Int(1), NoneE(), Str("print"), List(Var("print")), Map(), Var("int"), Bool(True), Flt("1.0"), Var("math"), Un("nlb", Var("int"))])
    args = [simple(s) for _ in range(s.int(0, 3))]
    c = s.below(3)
    if c == 0: e = Call(v, *args)
    elif c == 1: e = MCall(Map(("id", "x", v)), s.choice(["x", "y"]), *args)
    else: e = Call(Dot(Map(("id", "x", v)), s.choice(["x", "y"])), *args)
    text, o, op = run_prog(Prog(Print(Str("b")), Set("r", e), Print(Str("after"))), env, sample="not callable")
    env.nontrivial(text)


NENUM = 4 * 8 * 6 * 5 * 5 * 3
def case_annotated(s, env):
    """Annotations and defaults together: what arrives in the parameter is checked, wherever it came from."""
    import c14
    n = s.int(1, 3) if s.chance(4, 5) else s.int(4, 13)
    ps, args, names = [], [], []
    for i in range(n):
        t = c14.typ(s, s.int(0, 2))
        d = s.choice([None, NoneE(), c14.val(s, t, 4), simple(s), Call(Var("fn"))])
        ps.append(("p%d" % i, c14.texpr(t) if s.chance(5, 6) else None, d))
        args.append(s.choice([NoneE(), c14.val(s, t, 3), c14.val(s, t, 0), simple(s)]) if n < 5 or s.chance(1, n) else c14.val(s, t, 0))
    if s.chance(1, 3): args = args[:s.int(0, n)]
    body = Block(*[Print(*[x for i in range(a, min(a + 4, n)) for x in (Call(Var("typename"), Var("p%d" % i)), Str(","))]) for a in range(0, n, 4)], Return(Int(7)))
    st = [Fun("fn", [], Return(Int(1))), Fun("f", ps, body), Print(Call(Var("f"), *args)), Print(Call(Var("f"))), Print(Str("after"))]
    text, o, op = run_prog(Prog(*st), env, sample="annotated", vals=False)
    env.nontrivial(text)


PHASES = [Phase("annotated", case_annotated, 4000, 80000), Phase("combinations", case_enum, NENUM, NENUM, enum=True), Phase("counts", case_counts, NCOUNTS, NCOUNTS, enum=True), Phase("calls", case_calls, 8000, 250000), Phase("order", case_order, 3000, 60000), Phase("notcallable", case_notcallable, 600, 5000)]
