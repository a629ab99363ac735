from common import *

TITLE = "The prelude's helper functions do what their names say"
RULE = ("A case calls a helper (toString on nested values with and without a toString method, abs, min, max, append, isCallable, integerFromDigit, or a history of "
        "makeIterator steps over lists and maps changed meanwhile) with generated arguments, in and out of its domain, and compares what it returns with the model; "
        "non-trivial unless the same call was made before.")
ASSUME = ["toString of a float rounds to two decimals as floor(fraction * 100 + 0.5) and drops trailing zeros", "helpers are called within the call nesting limit"]
IB = [0, 1, -1, 9, 10, 11, -9, -10, 99, 100, 101, 1000, -1000, 123456789, (1 << 31) - 1, -(1 << 31), 1 << 32, (1 << 53) + 1, (1 << 63) - 1, -(1 << 63) + 1, 10**18, -10**18, 909090, 1000000007]


def num(s):
    c = s.below(4)
    if c == 0: return s.choice(IB)
    if c == 1: return s.int(0, 20) - 10
    k = s.int(1, 63)
    v = s.below(1 << k)
    return -v if s.chance(1, 2) else v


def E_int(v):
    if v == -(1 << 63): return Bin("-", Int(-(1 << 63) + 1), Int(1))
    return Int(v)


def flt(s):
    c = s.below(6)
    if c == 0: t = s.choice(["0.0", "0.5", "0.25", "0.125", "0.994", "0.995", "0.996", "0.999", "0.009", "0.005", "0.004", "1.005", "0.01", "0.1", "0.99", "9.995", "99.999"])
    elif c == 1: t = "%d.%02d" % (s.below(1000), s.below(100))
    elif c == 2: t = "%d.%03d" % (s.below(100), s.below(1000))
    elif c == 3: t = "%d.%d" % (s.below(1 << 40), s.below(10**6))
    elif c == 4: t = s.choice(["9007199254740993.0", "9223372036854774784.0", "4611686018427387904.5", "1000000000000000000.0", "123456789012.99"])
    else: t = "%d.%09d" % (s.below(10), s.below(10**9))
    e = Flt(t)
    return Un("neg", e) if s.chance(1, 2) else e


TXT = [b"", b"a", b"x y", b"\xc3\xa9", b"[1, 2]", b"{", b"\xf0\x9f\x98\x80", b"q\"q", b"n\nl", b"none", b"12"]


def value(s, d):
    c = s.below(12 if d > 0 else 7)
    if c < 2: return E_int(num(s))
    if c == 2: return flt(s)
    if c == 3: return Str(s.choice(TXT))
    if c == 4: return NoneE()
    if c == 5: return Var(s.choice(["int", "String", "List", "None", "Type"]))
    if c == 6: return Var(s.choice(["print", "count", "toString", "abs", "usr"]))
    if c < 10: return List(*[value(s, d - 1) for _ in range(s.int(0, 4) if s.chance(5, 6) else s.int(5, 20))])
    es = []
    for _ in range(s.int(0, 3)):
        k = s.below(4)
        if k == 0: es.append(("id", s.choice(["k", "a", "b", "iter2"]), value(s, d - 1)))
        elif k == 1: es.append(("expr", E_int(num(s)), value(s, d - 1)))
        elif k == 2: es.append(("expr", List(Int(s.below(5)), Str("k")), value(s, d - 1)))
        else: es.append(("expr", flt(s), value(s, d - 1)))
    c = s.below(6)
    if c == 0: es.insert(s.int(0, len(es)), ("fun", "toString", [("self", None, None)], Return(Call(Dot(Var("string"), "cat"), Str("<"), Call(Var("toString"), Call(Var("count"), Var("self"))), Str(">")))))
    elif c == 1: es.append(("id", "toString", s.choice([NoneE(), Str("x"), Int(3)])))
    return Map(*es)


USR = Fun("usr", [], Return(Int(1)))


def case_tostring(s, env):
    v = value(s, s.int(0, 2))
    args = [v]
    if s.chance(1, 4): args.append(s.choice([Bool(True), Bool(False), NoneE()]))
    st = [USR, Set("v", args[0]), Set("r", Call(Var("toString"), Var("v"), *args[1:])), Print(Var("r"), Str("\n")), Return(Var("r"), Call(Var("count"), Var("r")))]
    text, o, op = run_prog(Prog(*st), env, exact=True, sample="toString", model={"fuel": 60000})
    env.nontrivial(text)


def case_ints(s, env):
    """toString of integers: each one is read back as it was."""
    vs = [num(s) for _ in range(s.int(1, 8))] if not s.chance(1, 10) else [-(1 << 63), (1 << 63) - 1, s.below(1000)]
    st = []
    for v in vs: st.append(Print(Call(Var("toString"), E_int(v)), Str("\n")))
    text = render(Prog(*st))
    op = run_text(text, env)
    want = b"".join(b"%d\n" % v for v in vs)
    if not op.ok or op.out != want: raise Violation("toString of integers isn't their decimal form", program=text, expected=want, output=op.out, error=op.err)
    env.nontrivial(*sorted(vs))
    env.count("toString of integers", len(vs))


def huge(n):
    e = Flt("1" + "0" * 50 + ".0")
    for _ in range(n - 1): e = Bin("*", e, Flt("1" + "0" * 50 + ".0"))
    return e


def case_num(s, env):
    def n():
        c = s.below(12)
        if c < 6: return E_int(num(s) if s.chance(9, 10) else -(1 << 63))
        if c < 10: return flt(s)
        return s.choice([Str("1"), NoneE(), Bool(True), List(), Var("int"), Var("print"), huge(2)])
    f = s.choice(["abs", "min", "max", "min", "max", "isCallable", "append", "integerFromDigit", "toString"])
    if f in ("min", "max"):
        args = [n(), n()]
        if s.chance(1, 6):               # as large as the other, or nearly
            k = s.choice([0, 1, 2, 100, (1 << 53)]) + s.below(2)
            args = s.perm([Int(k), s.choice([Flt("%d.0" % k), Int(k), Int(k + 1), Flt("%d.5" % k)])])
    elif f == "append":
        args = [s.choice([List(n()), List(), Map(), NoneE(), Str("a")]), n()]
        st = [Set("l", args[0]), Set("m", Var("l")), ExprS(Call(Var("append"), Var("l"), args[1])), Print(Var("m")), Return(Var("l"), Var("m"))]
    elif f == "isCallable": args = [s.choice([n(), Var("print"), Var("usr"), Var("toString"), Map(("fun", "f", [], Return(Int(1)))), Dot(Map(("fun", "f", [], Return(Int(1)))), "f"), Dot(Var("string"), "cat"), Dot(Var("string"), "nope")])]
    elif f == "integerFromDigit": args = [s.choice([Str(bytes([s.int(32, 126)])), Str(str(s.below(10))), Str(""), Str("\xc3\xa9"), n()])]
    elif f == "toString": args = [s.choice([Bool(True), Call(Dot(Var("buffer"), "new"), Int(2)), Bin("|", Var("int"), Var("float")), Un("nlb", Var("int")), Var("any"), Flt("1" + "0" * 20 + ".5"), Var("string"), huge(8), Bin("-", huge(8), huge(8))])]
    else: args = [n()]
    if s.chance(1, 12): args = args[:-1] if s.chance(1, 2) else args + [Int(7)]
    if f != "append": st = [Print(Str("[")), Set("r", Call(Var(f), *args)), Print(Var("r")), Return(Var("r"))]
    text, o, op = run_prog(Prog(USR, *st), env, exact=True, sample=f, model={"fuel": 60000})
    env.count("helper " + f)
    env.nontrivial(text)


def coll(s):
    if s.chance(1, 2): return List(*[value(s, 0) for _ in range(s.int(0, 6))])
    es = []
    for _ in range(s.int(0, 6)):
        k = s.below(4)
        es.append(("id", s.choice("abcdefg"), value(s, 0)) if k < 2 else ("expr", s.choice([E_int(num(s)), Bool(True), NoneE(), List(Int(s.below(4))), flt(s)]), value(s, 0)))
    if s.chance(1, 8): es.append(("id", "iter", s.choice([NoneE(), Int(4)])))
    elif s.chance(1, 8): es.append(("fun", "iter", [("self", None, None)], Return(Map(("fun", "next", [("it", None, None)], Return(Str("mine"), Str("k"), Int(0)))))))
    return Map(*es)


def case_iter(s, env):
    """Histories of several iterators over collections that change meanwhile."""
    st = [USR]
    nc, ni = s.int(1, 2), s.int(1, 3)
    kinds = []
    for i in range(nc):
        c = coll(s)
        kinds.append(c.k)
        st.append(Set("c%d" % i, c))
    over = []
    for i in range(ni):
        k = s.below(nc)
        over.append(k)
        a = [Var("c%d" % k)]
        if s.chance(1, 5): a.append(s.choice([Bool(True), Bool(False), NoneE()]))
        st.append(Set("it%d" % i, Call(Var("makeIterator"), *a)))
    if s.chance(1, 2):
        # a whole traversal
        i = s.below(ni)
        st.append(Set("n", Int(0)))
        st.append(While(Bin("<", Var("n"), Int(8)), Block(ExprS(Asn([Var("v"), Var("k"), Var("i")], MCall(Var("it%d" % i), "next"))), Print(Var("v"), Str("/"), Var("k"), Str("/"), Var("i"), Str(" ")),
                  If(Bin("==", Var("i"), NoneE()), Break()), Set("n", Bin("+", Var("n"), Int(1))))))
    for _ in range(s.int(0, 14)):
        c = s.below(8)
        if c < 6:
            i = s.below(ni)
            st.append(ExprS(Asn([Var("v"), Var("k"), Var("i")], MCall(Var("it%d" % i), "next"))))
            st.append(Print(Var("v"), Str("/"), Var("k"), Str("/"), Var("i"), Str(" ")))
        elif c == 6:
            k = s.below(nc)
            if kinds[k] == "list": st.append(ExprS(Call(Var("append"), Var("c%d" % k), value(s, 0))))
            else: st.append(ExprS(Asn([Dot(Var("c%d" % k), s.choice("abcdefgh"))], value(s, 0))))
        else:
            k = s.below(nc)
            if kinds[k] == "list": st.append(If(Bin(">", Call(Var("count"), Var("c%d" % k)), Int(0)), ExprS(Asn([Idx(Var("c%d" % k), Int(0))], value(s, 0)))))
            else: st.append(ExprS(Asn([Idx(Var("c%d" % k), Int(s.below(4)))], value(s, 0))))
    if s.chance(1, 20): st.append(ExprS(Call(Var("makeIterator"), s.choice([Int(1), Str("abc"), NoneE(), Bool(True)]))))
    st.append(Return(*[Var("c%d" % i) for i in range(nc)]))
    text, o, op = run_prog(Prog(*st), env, exact=True, sample="iterators", model={"fuel": 60000})
    env.nontrivial(text)


def case_deep(s, env):
    """Beyond the nesting limit, or on cyclic values, the helpers stop with an error."""
    c = s.below(4)
    n = s.int(0, 9)
    if c == 0: text = b"l = [1]; l[0] = l; print(toString(l));"
    elif c == 1: text = b"m = {}; m.a = m; print(toString(m));"
    elif c == 2: text = b"x = 7; i = 0; while i < %d: { x = [x]; i = i + 1; } print(toString(x));" % n
    else: text = b"x = 7; i = 0; while i < %d: { x = {k: x}; i = i + 1; } print(toString(x));" % n
    op = run_text(text, env)
    if c < 2: good = not op.ok and op.out == b"" and op.err and op.err.strip()
    else:
        # 16 frames: the module, toString, two per level, and at most four for the number
        w = b"[" * n + b"7" + b"]" * n if c == 2 else b"{k: " * n + b"7" + b"}" * n
        good = (op.ok and op.out == w) or (n > 3 and not op.ok and op.out == b"" and op.err.strip())
    if not good: raise Violation("toString of a nested value neither renders it nor reports an error", program=text, output=op.out, error=op.err)
    env.nontrivial(text)


PHASES = [Phase("tostring", case_tostring, 5000, 100000), Phase("ints", case_ints, 2500, 60000), Phase("numeric", case_num, 5000, 100000), Phase("iterators", case_iter, 5000, 100000), Phase("deep", case_deep, 80, 200)]
