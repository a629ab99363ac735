from common import *
from wide import wide_map
from c10 import size_ok

TITLE = "Maps behave as insertion-ordered dictionaries of value keys"
RULE = ("A case is a history of insertions, updates and reads over one or several maps with keys of every kind (built in different ways, mutated "
        "after insertion, equal across representations), observed through reads, count, keysof and printing and compared with an ordered-dictionary "
        "model; non-trivial when at least two insertions and a read happen.")
ASSUME = ["the ordered dictionary in lib/noja_ref.py, keyed by type and value, is the model"]
IMAX = (1 << 63) - 1


def strkey(s):
    return s.choice(["a", "b", "k", "name", "", "é", "ab", "ba", "key%d" % s.int(0, 30), "a" * s.int(1, 40), "aaaaaaaaab", "aaaaaaaaac"])


def key(s, d=2):
    """A valid key expression."""
    c = s.below(14)
    if c < 3: return Str(strkey(s))
    if c < 6: return Int(s.choice([0, 1, -1, 2, 3, 8, 16, 64, 1 << 32, (1 << 32) + 1, IMAX, -IMAX, s.int(0, 40), s.int(0, 40)]))
    if c == 6: return Flt(s.choice(["0.0", "1.0", "2.5", "8.0", "100.0"])) if s.chance(2, 3) else Un("neg", Flt(s.choice(["0.0", "1.0"])))
    if c == 7: return Bool(s.chance(1, 2))
    if c == 8: return NoneE()
    if c == 9 and d: return List(*[key(s, d - 1) for _ in range(s.int(0, 3))])
    if c == 10:
        k = strkey(s)
        i = s.int(0, len(k))
        return Call(Dot(Var("string"), "cat"), Str(k[:i]), Str(k[i:]))
    if c == 11:
        a = s.int(0, 20)
        return Bin("+", Int(a), Int(s.int(0, 3)))
    if c == 12: return Bin("/", Flt("5.0"), Flt("2.0"))
    return Str(strkey(s))


def badkey(s):
    return s.choice([Map(), Var("int"), Var("print"), Call(Dot(Var("buffer"), "new"), Int(2)), Un("nlb", Var("int")), Bin("|", Var("int"), Var("float")),
                     List(Map()), List(Int(1), Var("int")), List(List(Var("print"))), Var("any"), Var("FUNC")])


class H:
    def __init__(self, s):
        self.s, self.st, self.maps, self.n, self.ins, self.reads = s, [Fun("FUNC", [], Return(Int(1)))], [], 0, 0, 0
        self.used = []

    def k(self):
        s = self.s
        if self.used and s.chance(3, 5): return s.choice(self.used)
        k = key(s)
        self.used.append(k)
        return k

    def new(self):
        s = self.s
        self.n += 1
        m = "m%d" % self.n
        es = []
        for _ in range(s.weighted([(3, s.int(0, 4)), (1, s.int(5, 12)), (1, 0)])):
            c = s.below(4)
            if c == 0: es.append(("id", s.choice(["a", "b", "k", "name", "ab"]), self.val()))
            elif c == 1 and s.chance(1, 3): es.append(("fun", s.choice(["get", "a"]), [("self", None, None)], Return(Dot(Var("self"), "k"))))
            else: es.append(("expr", self.k(), self.val()))
            self.ins += 1
        self.st.append(Set(m, Map(*es)))
        self.maps.append(m)

    def val(self):
        s = self.s
        c = s.below(8)
        if c < 4: return Int(s.int(0, 999))
        if c == 4: return Str(s.choice(["v", "w", ""]))
        if c == 5: return NoneE()
        if c == 6: return List(Int(s.int(0, 9)))
        return Bool(True)

    def m(self): return Var(self.s.choice(self.maps))

    def put(self, m, k, v): self.st.append(ExprS(Asn([Idx(m, k)], v)))

    def step(self):
        s = self.s
        P = lambda *a: self.st.append(Print(*(list(a) + [Str("\n")])))
        c = s.below(25)
        if c == 0: self.new(); return
        m = self.m()
        if c < 9: self.put(m, self.k(), self.val()); self.ins += 1
        elif c < 13: P(Idx(m, self.k())); self.reads += 1
        elif c == 13: P(Idx(m, key(s))); self.reads += 1
        elif c == 14: P(Call(Var("count"), m), Str(" "), Call(Var("keysof"), m)); self.reads += 1
        elif c == 15: P(m); self.reads += 1
        elif c == 16:
            f = s.choice(["a", "b", "k", "name", "ab"])
            if s.chance(1, 2): self.st.append(ExprS(Asn([Dot(m, f)], self.val()))); self.ins += 1
            else: P(Dot(m, f), Str(" "), Idx(m, Str(f))); self.reads += 1
        elif c == 17:
            # the key is captured by value: changing the list afterwards changes nothing
            v = "kl%d" % len(self.st)
            self.st.append(Set(v, List(Int(s.int(0, 3)), s.choice([Int(1), List(Int(2))]))))
            self.put(m, Var(v), self.val())
            self.st.append(s.choice([ExprS(Call(Var("append"), Var(v), Int(9))), ExprS(Asn([Idx(Var(v), Int(0))], Int(77))),
                                     ExprS(Asn([Idx(Var(v), Int(1))], List(Int(3))))]))
            P(Idx(m, Var(v)), Str(" "), m)
            self.used.append(List(Int(s.int(0, 3)), Int(1)))
            self.ins += 1; self.reads += 1
        elif c == 23:
            # ... at any depth, through the lists it's made of
            v, w = "kl%d" % len(self.st), "in%d" % len(self.st)
            pad = [Int(i) for i in range(s.choice([0, 0, 0, 1, 6, 7, 8, 9, 15, 16, 17, 30]))]
            inner = s.choice([List(Var(w)), List(Int(1), Var(w)), List(List(Var(w), Str("x")), Var(w))])
            for _ in range(s.choice([0, 0, 0, 1, 2, 5])): inner = List(*(s.choice([[], pad]) + [inner]))
            inner = List(*(pad + inner.kids + s.choice([[], pad])))
            self.st += [Set(w, List(*[Int(s.int(0, 3)) for _ in range(s.int(0, 3))])), Set(v, inner)]
            self.put(m, Var(v), self.val())
            P(Idx(m, Var(v)))
            self.st.append(s.choice([ExprS(Call(Var("append"), Var(w), Int(9))), ExprS(Asn([Idx(Var(w), Int(0))], s.choice([Int(77), Str("y"), List(Int(1))])))]))
            P(Idx(m, Var(v)), Str(" "), m, Str(" "), Call(Var("keysof"), m))
            if s.chance(1, 2):
                self.st += [Set("ks", Call(Var("keysof"), m)), Set("q", Int(0)),
                            While(Bin("<", Var("q"), Call(Var("count"), Var("ks"))), Block(If(Bin("==", Call(Var("type"), Idx(Var("ks"), Var("q"))), Var("List")), Block(Set("e", Idx(Var("ks"), Var("q"))), ExprS(Call(Var("append"), Var("e"), Int(5))),
                                If(Bin("==", Call(Var("type"), Idx(Var("e"), Int(0))), Var("List")), ExprS(Call(Var("append"), Idx(Var("e"), Int(0)), Int(6)))))), Set("q", Bin("+", Var("q"), Int(1)))))]
                P(m, Idx(m, Var(v)))
            self.ins += 1; self.reads += 1
        elif c == 18:
            # ... also the one given back by keysof
            v = "ks%d" % len(self.st)
            self.st += [Set(v, Call(Var("keysof"), m)), ExprS(Asn([Idx(Var(v), Int(0))], Int(5)))]
            P(m, Str(" "), Var(v), Str(" "), Call(Var("count"), m))
        elif c == 19:
            n = s.int(2, 60) if s.chance(5, 6) else s.int(61, 400)
            mul, add = s.choice([1, 2, 8, 16, 64, 1024, 7]), s.int(0, 5)
            kx = Bin("+", Bin("*", Var("i"), Int(mul)), Int(add))
            form = s.below(4)
            if form == 1: kx = Call(Var("toString"), kx)
            elif form == 2: kx = List(kx)
            elif form == 3: kx = Bin("*", kx, Flt("0.5"))
            if form == 1: n = min(n, 30)
            self.st += [Set("i", Int(0)), While(Bin("<", Var("i"), Int(n)), Block(ExprS(Asn([Idx(m, kx)], Var("i"))), Set("i", Bin("+", Var("i"), Int(1)))))]
            P(Call(Var("count"), m))
            self.ins += n
        elif c == 20:
            self.st.append(ExprS(Asn([Var("al")], m)))
            self.put(Var("al"), self.k(), self.val())
            P(m)
            self.ins += 1; self.reads += 1
        elif c == 21:
            self.put(m, self.k(), m)     # a map that contains itself
            P(m)
            self.ins += 1
        elif c == 22: P(Idx(m, key(s), key(s))); self.reads += 1
        else:
            self.put(m, List(*[key(s, 1), key(s, 1)]), self.val())
            P(Idx(m, badkey(s)))         # reading with a value that can't be a key is none
            self.reads += 1

    def finish(self, bad):
        s = self.s
        for m in self.maps:
            self.st.append(Print(Str(m + "="), Var(m), Str(" "), Call(Var("count"), Var(m)), Call(Var("keysof"), Var(m)), Str("\n")))
            for k in self.used[:6]: self.st.append(Print(Idx(Var(m), k), Str(";")))
        if bad:
            self.st.append(Print(Str("bad\n")))
            if s.chance(2, 3): self.put(self.m(), badkey(s), Int(1))
            else: self.st.append(Set("x", Map(("id", "a", Int(1)), ("expr", badkey(s), Int(2)))))
            self.st.append(Print(Str("after\n")))


def case_history(s, env, lo=3, hi=22):
    h = H(s)
    h.new()
    for _ in range(s.int(lo, hi)): h.step()
    h.finish(s.chance(1, 3))
    text, o, op = run_prog(Prog(*h.st), env, sample="history", model={"fuel": 100000, "maxbytes": 60000})
    if h.ins >= 2 and h.reads: env.nontrivial(text)


def case_nan(s, env):
    """NaN equals nothing: every insertion under it makes a new entry, no read finds one."""
    n = s.int(1, 4)
    st = [Set("z", Flt("1" + "0" * 40 + ".0"))] + [Set("z", Bin("*", Var("z"), Var("z"))) for _ in range(4)] + [Set("q", Bin("-", Var("z"), Var("z"))), Set("m", Map())]
    for i in range(n):
        st.append(ExprS(Asn([Idx(Var("m"), s.choice([Var("q"), List(Var("q")), Int(i)]))], Int(i))))
        st.append(Print(Idx(Var("m"), Var("q")), Call(Var("count"), Var("m"))))
    run = Prog(*st)
    text, o, op = run_prog(run, env, sample="nan")
    env.nontrivial(text)


def case_many(s, env):
    """Thousands of keys."""
    n = s.int(200, 3000)
    mul, mod = s.choice([1, 3, 7, 8, 64, 1024, 4096]), s.int(50, 4000)
    kx = Bin("%", Bin("*", Var("i"), Int(mul)), Int(mod))
    if s.chance(1, 3): kx = List(kx, Int(1))
    st = [Set("m", Map()), Set("i", Int(0)),
          While(Bin("<", Var("i"), Int(n)), Block(ExprS(Asn([Idx(Var("m"), kx)], Var("i"))), Set("i", Bin("+", Var("i"), Int(1))))),
          Print(Call(Var("count"), Var("m")), Str(" "), Var("m"), Str("\n"), Call(Var("keysof"), Var("m")))]
    text, o, op = run_prog(Prog(*st), env, sample="many", model={"fuel": 400000, "maxbytes": 10000000})
    env.nontrivial(text)


def case_vars(s, env):
    """Variables are kept in such a map too: any number of them, read back later."""
    n = s.int(1, 120)
    names = []
    for i in range(n):
        names.append(s.choice(["v%d" % s.int(0, 150), "a" * s.int(1, 30), "x_%d" % i, "_%d" % s.int(0, 9)]))
    st = []
    for i, nm in enumerate(names): st.append(Set(nm, Int(i)))
    for nm in s.perm(sorted(set(names)))[:20]: st.append(Print(Var(nm), Str(" ")))
    if s.chance(1, 3): st = [Fun("f", [], Block(*st)), ExprS(Call(Var("f")))]
    text, o, op = run_prog(Prog(*st), env, sample="variables", model={"fuel": 60000})
    env.nontrivial(text)


PHASES = [Phase("history", case_history, 12000, 300000), Phase("long", lambda s, e: case_history(s, e, 22, 60), 2000, 60000),
          Phase("nan", case_nan, 400, 5000), Phase("many", case_many, 250, 6000), Phase("variables", case_vars, 1500, 30000),
          Phase("wide", wide_map, 1000, 8000)]
