"""Large cases: what small ones show must also hold for hundreds or thousands of items, bytes, names, statements and lines."""
from common import *
from nast import tokens, layout


def size(s, top):
    """A size around a power of two, or any."""
    c = s.below(4)
    if c == 0: return s.int(0, top)
    if c == 1: return s.int(0, min(top, 300))
    p = 1 << s.int(3, max(3, top.bit_length() - 1))
    return max(0, min(top, p + s.int(-2, 2)))


def nl(*a): return Print(*(list(a) + [Str("\n")]))


def item(s, i, k):
    if k == 0: return Int(i)
    if k == 1: return Str("item%d" % i)
    if k == 2: return s.choice([Int(i), Flt("%d.5" % i), Str("s%d" % i), Bool(True), NoneE(), List(Int(i))])
    return List(Int(i), Int(-i))


def wide_list(s, env):
    """List literals of any length: every item at its place; equality sees every item."""
    n = size(s, 2500)
    k = s.below(4)
    items = [item(s, i, k) for i in range(n)]
    st = [Set("l", List(*items)), nl(Call(Var("count"), Var("l")))]
    if n:
        for _ in range(4): st.append(nl(Idx(Var("l"), Int(s.choice([s.int(0, n - 1), n - 1, 0])))))
        if n > 255: st.append(nl(Idx(Var("l"), Int(s.int(250, min(n - 1, 260))))))
        j = s.choice([s.int(0, n - 1), n - 1])
        other = list(items)
        other[j] = item(s, s.choice([j, j + 1, j + 256]), k)
        st += [Set("r", List(*other)), nl(Bin(s.choice(["==", "!="]), Var("l"), Var("r"))), nl(Bin("==", Var("l"), List(*items[:-1]))), nl(Bin("==", Var("r"), Var("r")))]
        if s.chance(1, 2): st += [ExprS(Asn([Idx(Var("r"), Int(j))], Idx(Var("l"), Int(j)))), nl(Bin("==", Var("l"), Var("r")))]
        if s.chance(1, 2): st += [ExprS(Asn([Idx(Var("l"), Int(n))], Str("end"))), nl(Idx(Var("l"), Int(n)), Call(Var("count"), Var("l")))]
    if s.chance(1, 2): st.append(nl(Var("l")))
    if s.chance(1, 3): st.append(nl(Call(Var("keysof"), Var("l"))))
    if s.chance(1, 4): st.append(nl(Idx(Var("l"), Int(n + 1))))
    text, o, op = run_prog(Prog(*st), env, sample="wide", model={"fuel": 400000, "maxbytes": 4000000}, heap=1 << 24)
    env.count("long list literal")
    env.nontrivial(text)


def key(s, i, k):
    if k == 0: return Int(i * 7)
    if k == 1: return Str("key%d" % i)
    if k == 2: return Str("p" * 40 + "%d" % i + "s" * 40)
    if k == 3: return Int(i << 32)
    if k == 4: return List(Int(i), Str("k"))
    return s.choice([Int(i), Str("%d" % i), Flt("%d.25" % i), List(Int(i))])


def wide_map(s, env):
    """Map literals and maps of any number of keys of any kind."""
    n = size(s, 1200)
    k = s.below(6)
    keys = [key(s, i, k) for i in range(n)]
    order = s.perm(list(range(n)))
    es = [("expr", keys[i], Int(i)) for i in order]
    if s.chance(1, 3) and n: es += [("expr", keys[s.int(0, n - 1)], Str("again")) for _ in range(3)]
    st = []
    if s.chance(1, 2): st.append(Set("m", Map(*es)))
    else:
        st.append(Set("m", Map()))
        for e in es: st.append(ExprS(Asn([Idx(Var("m"), e[1])], e[2])))
    st.append(nl(Call(Var("count"), Var("m"))))
    for _ in range(8 if n else 0): st.append(nl(Idx(Var("m"), keys[s.int(0, n - 1)])))
    for _ in range(4): st.append(nl(Idx(Var("m"), key(s, n + s.below(9), k))))
    if s.chance(1, 2): st.append(nl(Var("m")))
    if s.chance(1, 2): st.append(nl(Call(Var("keysof"), Var("m"))))
    text, o, op = run_prog(Prog(*st), env, sample="wide", model={"fuel": 400000, "maxbytes": 8000000}, heap=1 << 24)
    env.count("wide map")
    env.nontrivial(text)


def long_text(s, n):
    a = s.choice(["a", "ab", "x\u00e9", "\u20ac", "z\U0001f600q", "0123456789", "word "])
    t = (a * (n // len(a) + 1))[:n]
    if n and s.chance(1, 2):
        j = s.choice([0, n - 1, s.int(0, n - 1)])
        t = t[:j] + s.choice(["Q", "\u00e8", "\U0001f601"]) + t[j + 1:]
    return t


def wide_string(s, env):
    """Strings of thousands of characters: comparison, indexing, slicing, searching as keys."""
    n = size(s, 1300)
    t = long_text(s, n)
    u = t
    if n and s.chance(2, 3):
        j = s.choice([n - 1, s.int(0, n - 1), 0])
        u = t[:j] + s.choice([t[j], "Q", "R", "\u00e8"]) + t[j + 1:]
    if s.chance(1, 5): u = t + s.choice(["", "x", "\u00e9"])
    st = [Set("a", Str(t.encode())), Set("b", Str(u.encode()))]
    S = lambda f, *x: Call(Dot(Var("string"), f), *x)
    r = s.choice([0, 1, 3, 9])
    for _ in range(r):
        if s.chance(1, 2): st += [Set("a", S("cat", Var("a"), Str("-"), Var("a"))), Set("b", S("cat", Var("b"), Str("-"), Var("b")))]
        else: st += [Set("a", S("cat", Var("a"), Var("b"))), Set("b", S("cat", Var("b"), Var("b")))]
        if len(t.encode()) << r > 60000: break
    st += [nl(Bin(s.choice(["==", "!="]), Var("a"), Var("b"))), nl(Call(Var("count"), Var("a"))), nl(Call(Var("count"), Call(Dot(Var("buffer"), "fromString"), Var("b"))))]
    L = n
    for _ in range(3): st.append(nl(Idx(Var("a"), Int(s.int(0, max(0, L - 1)))), Idx(Var("b"), Bin("-", Call(Var("count"), Var("b")), Int(1 + s.below(3))))))
    st += [Set("m", Map()), ExprS(Asn([Idx(Var("m"), Var("a"))], Int(1))), ExprS(Asn([Idx(Var("m"), Var("b"))], Int(2))), nl(Idx(Var("m"), Var("a")), Idx(Var("m"), Var("b")), Call(Var("count"), Var("m")))]
    if s.chance(1, 2): st.append(nl(Var("a"), Str("|"), List(Var("b"))))
    text, o, op = run_prog(Prog(*st), env, sample="wide", model={"fuel": 400000, "maxbytes": 80000000}, heap=1 << 25)
    env.count("long string")
    env.nontrivial(text)


def wide_buffer(s, env):
    """Buffers of up to a megabyte."""
    n = max(1, size(s, 1 << 20))
    st = [Set("b", Call(Dot(Var("buffer"), "new"), Int(n))), nl(Call(Var("count"), Var("b")))]
    B = lambda f, *x: Call(Dot(Var("buffer"), f), *x)
    pos = sorted({max(0, min(n - 1, p)) for p in [size(s, n) for _ in range(6)] + [0, n - 1]})
    for p in pos: st.append(ExprS(Asn([Idx(Var("b"), Int(p))], Int(s.int(1, 255)))))
    names = [("b", 0, n)]
    for i in range(s.int(1, 4)):
        nm, o, l = s.choice(names)
        if l == 0: continue
        a = min(l - 1, size(s, l)) if s.chance(1, 2) else max(0, min(l - 1, s.choice(pos) - o))
        k = s.choice([l - a, max(0, min(l - a, size(s, l - a))), 1])
        st.append(Set("s%d" % i, B("sliceUp", Var(nm), Int(a), Int(k))))
        names.append(("s%d" % i, o + a, k))
    for nm, o, l in names:
        st.append(nl(Call(Var("count"), Var(nm))))
        for p in pos:
            if o <= p < o + l and s.chance(2, 3): st.append(nl(Idx(Var(nm), Int(p - o))))
        if l and s.chance(1, 2):
            w = s.int(0, l - 1)
            st += [ExprS(Asn([Idx(Var(nm), Int(w))], Int(s.int(0, 255)))), nl(Idx(Var("b"), Int(o + w)))]
        if s.chance(1, 4): st.append(nl(Idx(Var(nm), Int(l)), Str("never")) if s.chance(1, 6) else nl(Var(nm)) if l < 3000 else nl(Str("long")))
    text, o, op = run_prog(Prog(*st), env, sample="wide", model={"fuel": 400000, "maxbytes": 80000000}, heap=1 << 24)
    env.count("large buffer")
    env.nontrivial(text)


def wide_type(s, env):
    """Types of many parts: every part counts."""
    n = max(1, size(s, 300))
    ts = ["int", "float", "bool", "String"]
    vs = {"int": Int(1), "float": Flt("1.5"), "bool": Bool(True), "String": Str("s")}
    st = []
    c = s.below(3)
    parts = [s.choice(ts) for _ in range(n)]
    vals = [vs[p] for p in parts]
    j = s.choice([n - 1, 0, s.int(0, n - 1)])
    if s.chance(1, 2): vals[j] = vs[s.choice(ts)]
    if c == 0:
        if s.chance(1, 4): vals = vals[:j]
        st += [Set("T", List(*[Var(p) for p in parts])), Set("v", List(*vals))]
    elif c == 1:
        st += [Set("T", Map(*[("id", "k%d" % i, Var(p)) for i, p in enumerate(parts)])), Set("v", Map(*[("id", "k%d" % i, v) for i, v in enumerate(vals) if not (i == j and s.chance(1, 3))]))]
    else:
        e = Var(s.choice(["int", "List"]))
        n = min(n, 60)
        last = s.choice(["float", "String", "int"])
        for i in range(n): e = Bin("|", e, Var(last if i == n - 1 else s.choice(["int", "None", "List"])))
        st += [Set("T", e), Set("v", s.choice(list(vs.values())))]
    st += [nl(Call(Var("istypeof"), Var("T"), Var("v"))), Fun("f", [("x", Var("T"), None)], Return(Int(1))), nl(Call(Var("f"), Var("v")))]
    text, o, op = run_prog(Prog(*st), env, sample="wide", model={"fuel": 100000, "maxbytes": 8000000}, heap=1 << 24)
    env.count("type of many parts")
    env.nontrivial(text)


def wide_names(s, env):
    """Hundreds of variables, names of hundreds of characters that differ at one place."""
    n = max(2, size(s, 300))
    L = size(s, 600)
    pre, post = "v" * s.int(1, max(1, L)), "w" * s.int(0, max(0, L))
    nm = lambda i: "%s_%d_%s" % (pre, i, post)
    if n * (len(pre) + len(post)) > 60000: n = max(2, 60000 // (len(pre) + len(post)))
    st = [Set(nm(i), Int(i)) for i in s.perm(list(range(n)))]
    pick = [s.int(0, n - 1) for _ in range(5)]
    inner = [Set(nm(i), Int(-i)) for i in pick[:2]]
    other = "%s_%s" % (nm(pick[0]), "x")
    st += [Set(other, Str("other")), Fun("f", [(nm(n), None, None)], Block(*inner, nl(*[Var(nm(i)) for i in pick[:5]]), Return(Var(nm(n))))), nl(Call(Var("f"), Int(5)))]
    st += [nl(*[Var(nm(i)) for i in pick]), nl(Var(other))]
    if s.chance(1, 4): st.append(nl(Var(nm(n + 1))))
    text, o, op = run_prog(Prog(*st), env, sample="wide", model={"fuel": 100000, "maxbytes": 8000000}, heap=1 << 22)
    env.count("many long names")
    env.nontrivial(text)


def wide_body(s, env):
    """Jumps over hundreds and thousands of statements."""
    n = size(s, 1500)
    def filler(k): return [s.choice([ExprS(Int(i)), Set("a", Int(i)), ExprS(Asn([Var("t")], Bin("+", Var("t"), Int(1))))]) for i in range(k)]
    def body(k):
        b = filler(k)
        if s.chance(1, 2): b.insert(s.int(0, len(b)), If(Bin("==", Var("i"), Int(s.below(3))), s.choice([Break(), Block(Break()), Block(*(filler(s.int(0, 300)) + [Break()]))])))
        return [Set("i", Bin("+", Var("i"), Int(1)))] + b
    st = [Set("t", Int(0)), Set("a", Int(0)), Set("i", Int(0))]
    c = s.below(6)
    if c == 0: st.append(While(Bin("<", Var("i"), Int(3)), Block(*body(n))))
    elif c == 1: st.append(DoWhile(Block(*body(n)), Bin("<", Var("i"), Int(3))))
    elif c == 2: st.append(If(Bool(s.chance(1, 2)), Block(*filler(n)), Block(*filler(s.int(0, n)))))
    elif c == 3:
        e = Block(nl(Str("last")))
        m = min(n, 400)
        for i in range(m): e = If(Bin("==", Var("i"), Int(i + 1)), nl(Int(i)), e)
        st += [Set("i", Int(s.int(0, m + 1))), e]
    elif c == 4: st += [Fun("f", [("x", None, None)], Block(*filler(n), If(Var("x"), Return(Int(1))), *filler(s.int(0, 50)), Return(Var("a"))))] + filler(s.int(0, 300)) + [nl(Call(Var("f"), Bool(s.chance(1, 2))))]
    else:
        e = Bool(s.chance(1, 3))
        for i in range(min(n, 400)): e = Bin(s.choice(["and", "or"]), e, s.choice([Bool(True), Bool(False), Bin("<", Var("a"), Int(1))]))
        st += [Set("z", e), nl(Var("z"))]
    st.append(nl(Var("t"), Str(" "), Var("a"), Str(" "), Var("i")))
    text, o, op = run_prog(Prog(*st), env, sample="wide", model={"fuel": 100000, "maxbytes": 8000000}, heap=1 << 22)
    env.count("far jumps")
    env.nontrivial(text)


def wide_source(s, env):
    """Errors far into long sources: after many lines, long lines, long comments."""
    def gap():
        c = s.below(5)
        k = s.choice([size(s, 3000), size(s, 70000) if s.chance(1, 2) else 0])
        if c == 0: return b"\n" * k
        if c == 1: return b" " * k
        if c == 2: return b"# " + b"c" * k + b"\n"
        if c == 3: return b"#x\n" * (k // 3)
        return b"\r\n" * (k // 2) + b"\t"
    fail = s.choice([ExprS(Bin("+", Int(1), Str("a"))), ExprS(Var("nowhere")), ExprS(Call(Var("error"), Str("stop"))), ExprS(Idx(Var("l"), Int(99))), ExprS(Call(Int(3))), None])
    st = [Set("l", List(Int(1))), Fun("f", [("x", None, None)], Block(Set("y", Var("x")), *([fail] if fail else []), Return(Var("y"))))]
    st += [nl(Str("before")), ExprS(Call(Var("f"), Int(2))), nl(Str("after"))]
    p = Prog(*st)
    n = len(tokens(p))
    at = {s.below(max(1, n)): gap() for _ in range(s.int(1, 4))}
    def sep(i, a, t): return at.get(i)
    text, o, op = run_prog(p, env, sep=sep, sample="wide source", model={"fuel": 10000})
    env.count("long source")
    env.nontrivial(text)
