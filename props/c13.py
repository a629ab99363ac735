from common import *
from wide import wide_buffer
from c12 import text as utext

TITLE = "Buffers behave as fixed-size byte arrays with aliasing slices"
RULE = ("A case is a history over buffers and slices of slices: reads, writes, slicing, conversion and printing with valid and invalid indices, "
        "values, offsets, lengths and sizes, run under AddressSanitizer and compared with a byte-array model; non-trivial when a slice is taken, or a "
        "bound is reached, and at least one byte is written or converted.")
ASSUME = ["bytearray views are the model", "an empty slice starting at the very end is left out (the documentation doesn't say)"]
IMAX = (1 << 63) - 1
BIG = [IMAX, -IMAX, 1 << 32, 1 << 31, (1 << 32) + 1, (1 << 31) - 1, -(1 << 31), IMAX - 1]


class H:
    def __init__(self, s):
        self.s, self.st, self.n, self.v, self.slices, self.w = s, [], 0, {}, 0, 0

    def name(self):
        self.n += 1
        return "b%d" % self.n

    def new(self):
        s = self.s
        n = self.name()
        c = s.below(4)
        if c < 3:
            k = s.weighted([(5, s.int(0, 9)), (2, s.int(10, 64)), (1, s.int(65, 2000))])
            self.st.append(Set(n, Call(Dot(Var("buffer"), "new"), Int(k))))
            self.v[n] = (bytearray(k), 0, k)
        else:
            t = utext(s).encode()
            self.st.append(Set(n, Call(Dot(Var("buffer"), "fromString"), Str(t))))
            self.v[n] = (bytearray(t), 0, len(t))
        return n

    def pick(self): return self.s.choice(sorted(self.v))

    def step(self):
        s = self.s
        b = self.pick()
        base, off, n = self.v[b]
        P = lambda *a: self.st.append(Print(*(list(a) + [Str("\n")])))
        c = s.below(19)
        if c == 0: self.new()
        elif c == 17: P(Call(Var("count"), Call(Var("keysof"), Var(b))), Str(" "), Call(Var("keysof"), Var(b)) if n < 40 else Str("."))
        elif c < 6 and n:
            i = s.choice([s.int(0, n - 1), 0, n - 1])
            x = s.choice([s.int(0, 255), 0, 255, 128, 127])
            self.st.append(ExprS(Asn([Idx(Var(b), Int(i))], Int(x))))
            self.w += 1
        elif c < 9:
            k = s.choice([Int(s.int(0, max(n - 1, 0))), Int(0), Int(n - 1), Int(n), Int(-1), Int(s.choice(BIG)), Flt("0.0"), NoneE(), Str("0"), Bool(True), List(Int(0))])
            P(Idx(Var(b), k))
        elif c < 13 and n:
            o = s.choice([0, s.int(0, n - 1), n - 1])
            l = s.choice([n - o, s.int(0, n - o), 1, 0])
            m = self.name()
            self.st.append(Set(m, Call(Dot(Var("buffer"), "sliceUp"), Var(b), Int(o), Int(l))))
            self.v[m] = (base, off + o, l)
            self.slices += 1
        elif c == 13: P(Call(Var("count"), Var(b)), Str(" "), Var(b))
        elif c == 14:
            r, e = "s%d" % len(self.st), "e%d" % len(self.st)
            self.st += [ExprS(Asn([Var(r), Var(e)], Call(Dot(Var("buffer"), "toString"), Var(b)))), Print(Var(r), Call(Var("type"), Var(r)), Call(Var("type"), Var(e)), Str("\n"))]
            self.w += 1
        elif c == 15:
            al = self.name()
            self.st.append(Set(al, Var(b)))
            self.v[al] = self.v[b]
        elif c == 16 and n >= 2:
            # fill with text and read it back
            t = utext(s, s.int(1, 4)).encode()[:n]
            o = s.int(0, n - len(t))
            for i, x in enumerate(t): self.st.append(ExprS(Asn([Idx(Var(b), Int(o + i))], Int(x))))
            r = "s%d" % len(self.st)
            if len(t): self.st += [ExprS(Asn([Var(r), Var("err")], Call(Dot(Var("buffer"), "toString"), Call(Dot(Var("buffer"), "sliceUp"), Var(b), Int(o), Int(len(t)))))), Print(Var(r), Str("\n"))]
            self.w += 1
        else:
            self.st += [Set("i", Int(0)), While(Bin("<", Var("i"), Bin("+", Call(Var("count"), Var(b)), Int(1))) if n < 100 else Bool(False), Block(Print(Idx(Var(b), Var("i")), Str(",")), Set("i", Bin("+", Var("i"), Int(1)))))]

    def bad(self):
        s = self.s
        b = self.pick()
        n = self.v[b][2]
        B = lambda f, *a: Call(Dot(Var("buffer"), f), *a)
        put = lambda k, v: Asn([Idx(Var(b), k)], v)
        other = s.choice([Int(1), NoneE(), Str("a"), List(), Flt("1.0"), Map(), Var("Buffer")])
        ok = Int(s.int(0, max(0, n - 1)))
        big = Int(s.choice(BIG))
        cand = [put(Int(n), Int(1)), put(Int(-1), Int(1)), put(big, Int(1)), put(ok, Int(256)), put(ok, Int(-1)), put(ok, big), put(ok, other if other.k != "int" else NoneE()),
                put(other if other.k != "int" else Str("0"), Int(1)), put(Int(n + 7), Int(0)), put(ok, Flt("1.0")), put(ok, Str("a")), put(Int((1 << 32)), Int(1)),
                B("new", Int(-1)), B("new", Int(-IMAX)), B("new", Flt("4.0")), B("new", Str("4")), B("new"), B("new", NoneE()),
                B("sliceUp", Var(b), Int(-1), Int(1)), B("sliceUp", Var(b), Int(0), Int(n + 1)), B("sliceUp", Var(b), Int(n + 1), Int(0)), B("sliceUp", Var(b), Int(n), Int(1)), B("sliceUp", Var(b), Int(0), Int(-1)),
                B("sliceUp", Var(b), Int(max(n - 1, 0)), Int(2)), B("sliceUp", Var(b), Int(1), Int(IMAX)), B("sliceUp", Var(b), Int(0), Int(1 << 32)), B("sliceUp", Var(b), Int(1 << 32), Int(0)), B("sliceUp", Var(b), big, big),
                B("sliceUp", Var(b), Int(IMAX), Int(1)), B("sliceUp", Var(b), Int(1), Int(-1)),
                B("sliceUp", other, Int(0), Int(0)), B("sliceUp", Var(b), Str("0"), Int(0)), B("sliceUp", Var(b), Int(0), Flt("1.0")), B("sliceUp", Var(b), Int(0)), B("sliceUp", Var(b)),
                B("toString", other), B("toString"), B("fromString", other), B("fromString", Var(b)), B("fromString")]
        self.st += [Print(Str("bad\n")), ExprS(s.choice(cand)), Print(Str("after\n"))]


def case_history(s, env, lo=2, hi=20):
    h = H(s)
    h.new()
    for _ in range(s.int(lo, hi)): h.step()
    for b in sorted(h.v):
        if h.v[b][2] < 200: h.st.append(Print(Str(b + "="), Var(b), Str("\n")))
    bad = s.chance(2, 5)
    if bad: h.bad()
    t, o, op = run_prog(Prog(*h.st), env, sample="history", model={"fuel": 60000}, vals=False)
    if (h.slices or bad) and (h.w or bad): env.nontrivial(t)


def case_convert(s, env):
    """Strings survive the trip through a buffer, byte for byte."""
    t = utext(s, s.int(0, 200)).encode()
    if len(t) > 4000: raise Discard("long")
    b = Call(Dot(Var("buffer"), "fromString"), Str(t))
    st = [Set("b", b), Set("s", Call(Dot(Var("buffer"), "toString"), Var("b"))), Return(Var("s"), Var("b"), Call(Var("count"), Var("b")), Bin("==", Var("s"), Str(t)))]
    text_, o, op = run_prog(Prog(*st), env, exact=True, sample="conversion")
    env.nontrivial(t)


def case_deep(s, env):
    """Long chains of slices, each relative to the previous."""
    n = s.int(5, 300)
    lo, hi = 0, n
    st = [Set("b", Call(Dot(Var("buffer"), "new"), Int(n))), Set("c", Var("b"))]
    for _ in range(s.int(2, 30)):
        if hi - lo < 2: break
        o = s.int(0, min(5, hi - lo - 1))
        l = s.int(max(1, hi - lo - o - 5), hi - lo - o)
        st.append(Set("c", Call(Dot(Var("buffer"), "sliceUp"), Var("c"), Int(o), Int(l))))
        lo, hi = lo + o, lo + o + l
        i = s.int(0, l - 1)
        st.append(ExprS(Asn([Idx(Var("c"), Int(i))], Int(s.int(1, 255)))))
        st.append(Print(Call(Var("count"), Var("c")), Idx(Var("c"), Int(l)), Idx(Var("b"), Int(lo + i)), Str("\n")))
    st.append(Print(Var("b"), Var("c")))
    t, o, op = run_prog(Prog(*st), env, sample="chains", vals=False)
    env.nontrivial(t)


def case_large(s, env):
    """Buffers of up to 256K: all of a fresh one is zero, and conversion looks at every byte."""
    k = 1 << s.int(3, 18)
    n = max(1, min(1 << 18, s.choice([k + s.int(-2, 2), s.int(1, 1 << 17), s.int(1, 5000)])))
    B = lambda f, *a: Call(Dot(Var("buffer"), f), *a)
    st = [Set("b", B("new", Int(n)))]
    for _ in range(s.int(0, 4)):
        p = s.choice([n - 1, 0, s.int(0, n - 1), min(n - 1, 4096), min(n - 1, 65536)])
        st.append(ExprS(Asn([Idx(Var("b"), Int(p))], Int(s.int(1, 127)))))
    last = Var("b")
    if s.chance(1, 2):
        o = s.int(0, n - 1)
        l = s.choice([n - o, s.int(1, n - o)])
        st.append(Set("v", B("sliceUp", Var("b"), Int(o), Int(l))))
    else: o, l = 0, n; st.append(Set("v", Var("b")))
    if s.chance(1, 3): st.append(Print(Call(Var("count"), Call(Var("keysof"), Var("v"))), Str("\n")) if l < 20000 else Print(Str(".")))
    st += [ExprS(Asn([Var("t"), Var("e")], B("toString", Var("v")))), Print(Call(Var("type"), Var("t")), Call(Var("type"), Var("e")), Str("\n"))]
    p = s.choice([n - 1, o, o + l - 1, s.int(o, o + l - 1)])
    st += [ExprS(Asn([Idx(Var("b"), Int(p))], Int(s.choice([128, 255, 195, 240, 192])))), ExprS(Asn([Var("u"), Var("e")], B("toString", Var("v")))),
           Print(Call(Var("type"), Var("u")), Call(Var("type"), Var("e")), Str("\n"))]
    st.append(Return(Var("b"), Var("v"), Var("t"), Var("u")))
    text, o, op = run_prog(Prog(*st), env, exact=True, sample="large", vals=False, heap=1 << 23, model={"fuel": 4000000, "maxbytes": 80000000})
    env.count("large buffer")
    env.nontrivial(text)


PHASES = [Phase("history", case_history, 12000, 300000), Phase("long", lambda s, e: case_history(s, e, 20, 60), 1500, 40000), Phase("convert", case_convert, 2000, 40000),
          Phase("chains", case_deep, 2000, 40000),
          Phase("wide", wide_buffer, 1500, 8000), Phase("large", case_large, 500, 6000)]
