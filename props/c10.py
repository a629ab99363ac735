from common import *
from wide import wide_list

TITLE = "Lists behave as ordered, growable sequences"
RULE = ("A case is a history of list operations (literals, reads, writes, appends, aliasing, nesting, self-containing lists, iteration, passing to "
        "functions) whose printed observations are compared with a sequence model; non-trivial when it has at least 3 operations of which one writes.")
ASSUME = ["Python lists are the sequence model"]
IMAX = (1 << 63) - 1


class H:
    """History generator; shadow: variable -> Python list (aliased as in the program)."""
    def __init__(self, s):
        self.s, self.st, self.sh, self.n, self.writes, self.ops = s, [], {}, 0, 0, 0

    def var(self): return self.s.choice(sorted(self.sh)) if self.sh else self.new()

    def fresh(self):
        self.n += 1
        return "l%d" % self.n

    def new(self):
        s = self.s
        n = self.fresh()
        k = s.weighted([(4, s.int(0, 5)), (1, s.int(6, 11)), (1, 0)])
        es, sh = [], []
        for _ in range(k):
            e, v = self.item()
            es.append(e); sh.append(v)
        self.st.append(Set(n, List(*es)))
        self.sh[n] = sh
        return n

    def item(self):
        s = self.s
        c = s.below(10)
        if c < 4: v = s.int(-3, 99); return Int(v), v
        if c == 4: return NoneE(), None
        if c == 5: return Str(s.choice(["a", "xyz", ""])), "s"
        if c == 6: return Bool(s.chance(1, 2)), True
        if c == 7: return Flt("1.5"), 1.5
        if c == 8 and self.sh:
            v = s.choice(sorted(self.sh))
            return Var(v), self.sh[v]
        if c == 9: return List(Int(7), Int(8)), [7, 8]
        return Map(("id", "k", Int(1))), "m"

    def path(self):
        """A place holding a list: (expression, shadow)."""
        v = self.var()
        e, l = Var(v), self.sh[v]
        for _ in range(3):
            idx = [i for i, x in enumerate(l) if isinstance(x, list)]
            if not idx or not self.s.chance(1, 3): break
            i = self.s.choice(idx)
            e, l = Idx(e, Int(i)), l[i]
        return e, l

    def readkey(self, n):
        s = self.s
        c = s.below(12)
        if c < 6: return Int(s.int(0, max(0, n - 1)))
        if c == 6: return Int(n)
        if c == 7: return Int(s.choice([-1, -n, n + 1, IMAX, -IMAX, 1 << 32, (1 << 32) + max(0, n - 1), 1 << 31, -(1 << 31)]))
        if c == 8: return Flt(s.choice(["0.0", "1.0", "0.5"]))
        if c == 9: return s.choice([NoneE(), Str("0"), Bool(True), Bool(False), List(Int(0)), Map(), Var("int")])
        if c == 10: return Bin("+", Int(s.int(0, max(0, n - 1))), Int(0))
        return Bin("-", Int(n), Int(1))

    def badkey(self, n):
        s = self.s
        return s.choice([Int(n + 1), Int(-1), Int(IMAX), Int(-IMAX), Int((1 << 32) + max(0, n - 1)), Int(1 << 32), Int(n + 100), NoneE(), Str("0"), Flt("0.0"),
                         Bool(True), List(Int(0)), Int(-n - 1)])

    def step(self):
        s = self.s
        self.ops += 1
        c = s.below(26)
        if c < 3: self.new(); return
        e, l = self.path()
        n = len(l)
        P = lambda *a: self.st.append(Print(*(list(a) + [Str("\n")])))
        if c < 7: P(Idx(e, self.readkey(n)))
        elif c < 12:
            x, v = self.item()
            i = s.int(0, n) if n < 600 else s.int(0, n - 1)
            if s.chance(1, 3): i = n
            self.st.append(ExprS(Asn([Idx(e, Int(i))], x)))
            if i == n: l.append(v)
            else: l[i] = v
            self.writes += 1
        elif c < 15:
            x, v = self.item()
            self.st.append(ExprS(Call(Var("append"), e, x)))
            l.append(v); self.writes += 1
        elif c == 15: P(Call(Var("count"), e), Str(" "), e)
        elif c == 16: P(Call(Var("keysof"), e))
        elif c == 17:
            a = self.fresh()
            self.st.append(Set(a, e)); self.sh[a] = l
        elif c == 18:
            # the value of the assignment is the value stored
            i = s.int(0, n)
            self.st.append(Print(Asn([Idx(e, Int(i))], Int(5)), Str("\n")))
            if i == n: l.append(5)
            else: l[i] = 5
            self.writes += 1
        elif c == 19:
            f, q = "f%d" % len(self.st), s.int(0, 3)
            body = [ExprS(Asn([Idx(Var("x"), Call(Var("count"), Var("x")))], Int(q)))]
            if n: body.append(ExprS(Asn([Idx(Var("x"), Int(0))], Int(q + 10))))
            if s.chance(1, 2): body.append(Set("x", List()))
            self.st += [Fun(f, [("x", None, None)], Block(*body)), ExprS(Call(Var(f), e))]
            l.append(q)
            if n: l[0] = q + 10
            self.writes += 1
        elif c == 20:
            self.st += [Set("i", Int(0)), While(Bin("<", Var("i"), Call(Var("count"), e)), Block(Print(Idx(e, Var("i")), Str(",")), Set("i", Bin("+", Var("i"), Int(1)))))]
        elif c == 21 and n <= 60:
            it = "it%d" % len(self.st)
            self.st += [Set(it, Call(Var("makeIterator"), e)), ExprS(Asn([Var("v"), Var("k"), Var("j")], MCall(Var(it), "next"))),
                        While(Bin("!=", Var("j"), NoneE()), Block(Print(Var("k"), Str("=>"), Var("v"), Str(";")), ExprS(Asn([Var("v"), Var("k"), Var("j")], MCall(Var(it), "next")))))]
        elif c == 22:
            # swap and rotate by multiple targets
            if n >= 2:
                self.st += [Fun("sw", [("a", None, None), ("b", None, None)], Return(Var("b"), Var("a"))),
                            ExprS(Asn([Idx(e, Int(0)), Idx(e, Int(1))], Call(Var("sw"), Idx(e, Int(0)), Idx(e, Int(1)))))]
                l[0], l[1] = l[1], l[0]
                self.writes += 1
        elif c == 23:
            m = s.int(1, 40) if s.chance(5, 6) else s.int(41, 300)
            self.st += [Set("i", Int(0)), While(Bin("<", Var("i"), Int(m)), Block(ExprS(Asn([Idx(e, Call(Var("count"), e))], Bin("*", Var("i"), Int(3)))), Set("i", Bin("+", Var("i"), Int(1)))))]
            l.extend(3 * i for i in range(m)); self.writes += 1
        elif c == 24:
            self.st.append(ExprS(Asn([Idx(e, Call(Var("count"), e))], e)))
            l.append(l); self.writes += 1
        else:
            e2, l2 = self.path()
            self.st.append(Print(Idx(e, Int(s.int(0, max(0, n - 1))), Int(s.int(0, 2))), Str("\n")))

    def finish(self, bad):
        s = self.s
        for v in sorted(self.sh): self.st.append(Print(Str(v + "="), Var(v), Str(" "), Call(Var("count"), Var(v)), Str("\n")))
        if bad:
            e, l = self.path()
            k = self.badkey(len(l))
            c = s.below(3)
            if c < 2: b = ExprS(Asn([Idx(e, k)], Int(1)))
            else: b = s.choice([ExprS(Call(Var("append"), s.choice([Int(1), Str("a"), NoneE(), Map()]), Int(1))), ExprS(Call(Var("count"), s.choice([Int(1), NoneE(), Bool(True), Flt("1.0"), Var("print")]))),
                                ExprS(Asn([Idx(s.choice([Int(1), NoneE(), Str("abc"), Var("print")]), Int(0))], Int(1)))])
            self.st += [Print(Str("bad\n")), b, Print(Str("after\n"))]


def size_ok(sh):
    """Printing must stay small: cyclic and shared lists can print exponentially."""
    lim = [4000]
    def go(l, act):
        for x in l:
            lim[0] -= 1
            if lim[0] < 0: raise Discard("prints too much")
            if isinstance(x, list) and id(x) not in act: go(x, act | {id(x)})
    for l in sh.values(): go(l, {id(l)})


def case_history(s, env, lo=3, hi=25):
    h = H(s)
    h.new()
    for _ in range(s.int(lo, hi)):
        h.step()
        size_ok(h.sh)
    h.finish(s.chance(1, 3))
    text, o, op = run_prog(Prog(*h.st), env, sample="history", model={"fuel": 60000})
    if h.writes and h.ops >= 3: env.nontrivial(text)


def case_equality(s, env):
    """Lists compare item by item, by value."""
    h = H(s)
    h.new(); h.new()
    for _ in range(s.int(0, 4)): h.step(); size_ok(h.sh)
    a, b = h.var(), h.var()
    h.st += [Print(Str("eq\n")), Print(Bin(s.choice(["==", "!="]), Var(a), Var(b)), Str("\n")), Print(Str("after\n"))]
    text, o, op = run_prog(Prog(*h.st), env, sample="equality", model={"fuel": 60000})
    env.nontrivial(text)


def case_big(s, env):
    """Thousands of items: growth keeps every one of them."""
    n = s.int(100, 3000)
    mul, add, mod = s.int(1, 999), s.int(0, 99), s.int(7, 5000)
    start = s.int(0, 9)
    st = [Set("l", List(*[Int(i) for i in range(start)])), Set("i", Int(0))]
    add_e = Bin("%", Bin("+", Bin("*", Var("i"), Int(mul)), Int(add)), Int(mod))
    st.append(While(Bin("<", Var("i"), Int(n)), Block(ExprS(Asn([Idx(Var("l"), Call(Var("count"), Var("l")))], add_e)), Set("i", Bin("+", Var("i"), Int(1))))))
    k = s.int(1, 7)
    st += [Set("i", Int(0)), While(Bin("<", Var("i"), Int(n)), Block(ExprS(Asn([Idx(Var("l"), Var("i"))], Bin("+", Idx(Var("l"), Var("i")), Int(1)))), Set("i", Bin("+", Var("i"), Int(k)))))]
    st += [Print(Var("l"), Str("\n"), Call(Var("count"), Var("l")), Idx(Var("l"), Int(n + start)), Idx(Var("l"), Int(n + start - 1)))]
    text, o, op = run_prog(Prog(*st), env, sample="big", model={"fuel": 400000})
    env.nontrivial(text)


PHASES = [Phase("history", case_history, 12000, 300000), Phase("long", lambda s, e: case_history(s, e, 25, 70), 2000, 60000),
          Phase("equality", case_equality, 2500, 40000), Phase("big", case_big, 300, 6000),
          Phase("wide", wide_list, 800, 8000)]
