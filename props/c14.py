from common import *
from wide import wide_type

TITLE = "Type assertions and istypeof accept exactly the described values"
RULE = ("A case pairs random nested type descriptions with values made to satisfy them or nearly so, tested by istypeof and by function annotations "
        "with and without defaults, compared with a set-theoretic model; non-trivial when the description is composite.")
ASSUME = ["the satisfaction relation of lib/noja_ref.py is the documented one"]
BASE = ["int", "float", "bool", "String", "List", "Map", "None", "Type", "Buffer"]
FIELDS = ["a", "b", "name", "k"]


def typ(s, d):
    """A type description as a small term."""
    c = s.below(12)
    if d == 0 or c < 3: return ("t", s.choice(BASE))
    if c == 3: return ("any",)
    if c < 6: return ("?", typ(s, d - 1))
    if c < 9: return ("|", typ(s, d - 1), typ(s, d - 1))
    if c == 9: return ("l", [typ(s, d - 1) for _ in range(s.int(0, 3))])
    if c == 10: return ("m", [(s.choice(FIELDS), typ(s, d - 1)) for _ in range(s.int(0, 3))])
    return ("t", s.choice(["Callable", "Numeric", "Collection", "NFunc", "Func", "int"]))


def texpr(t):
    k = t[0]
    if k == "t": return Var(t[1])
    if k == "any": return Var("any")
    if k == "?": return Un("nlb", texpr(t[1]))
    if k == "|": return Bin("|", texpr(t[1]), texpr(t[2]))
    if k == "l": return List(*[texpr(x) for x in t[1]])
    return Map(*[("id", n, texpr(x)) for n, x in t[1]])


def anyval(s, d=1):
    c = s.below(14)
    if c < 2: return Int(s.int(0, 5))
    if c == 2: return Flt("1.5")
    if c == 3: return Bool(s.chance(1, 2))
    if c == 4: return Str(s.choice(["", "a"]))
    if c == 5: return NoneE()
    if c == 6: return Var(s.choice(["int", "String", "Type"]))
    if c == 7: return Call(Dot(Var("buffer"), "new"), Int(1))
    if c == 8: return Var("print")
    if c == 9: return Var("fn")
    if c == 10: return Un("nlb", Var("int"))
    if c == 11 and d: return List(*[anyval(s, d - 1) for _ in range(s.int(0, 3))])
    if c == 12 and d: return Map(*[("id", s.choice(FIELDS), anyval(s, d - 1)) for _ in range(s.int(0, 2))])
    return List() if c == 13 else Map()


def val(s, t, wrong):
    """A value that satisfies t, except that with chance 1/wrong at each node it may not."""
    if wrong and s.chance(1, wrong): return anyval(s)
    k = t[0]
    if k == "t":
        n = t[1]
        if n == "int": return Int(s.int(0, 9))
        if n == "float": return Flt("0.5")
        if n == "bool": return Bool(s.chance(1, 2))
        if n == "String": return Str(s.choice(["", "x"]))
        if n == "List": return List(*[anyval(s, 0) for _ in range(s.int(0, 2))])
        if n == "Map": return Map(*[("id", s.choice(FIELDS), anyval(s, 0)) for _ in range(s.int(0, 2))])
        if n == "None": return NoneE()
        if n == "Type": return Var(s.choice(["int", "Type", "None"]))
        if n == "Buffer": return Call(Dot(Var("buffer"), "new"), Int(s.int(0, 2)))
        if n == "Callable": return Var(s.choice(["print", "fn", "count", "toString"]))
        if n == "NFunc": return Var(s.choice(["print", "count"]))
        if n == "Func": return Var(s.choice(["fn", "toString"]))
        if n == "Numeric": return s.choice([Int(1), Flt("2.5")])
        if n == "Collection": return s.choice([List(), Map()])
    if k == "any": return anyval(s)
    if k == "?": return NoneE() if s.chance(1, 2) else val(s, t[1], wrong)
    if k == "|": return val(s, t[1 + s.below(2)], wrong)
    if k == "l":
        items = [val(s, x, wrong) for x in t[1]]
        c = s.below(5)
        if c == 0: items += [anyval(s, 0) for _ in range(s.int(1, 2))]
        elif c == 1 and wrong and items and s.chance(1, 2): items.pop()
        return List(*items)
    es = [(n, val(s, x, wrong)) for n, x in t[1]]
    c = s.below(5)
    if c == 0: es.append(("extra", anyval(s, 0)))
    elif c == 1 and wrong and es and s.chance(1, 2): es.pop(s.below(len(es)))
    if s.chance(1, 2): es = s.perm(es)
    return Map(*[("id", n, x) for n, x in es])


def composite(t): return t[0] not in ("t", "any")


FN = Fun("fn", [], Return(Int(1)))


def case_istypeof(s, env):
    st, nt = [FN], False
    for _ in range(s.int(1, 4)):
        t = typ(s, s.int(0, 3))
        v = val(s, t, s.choice([0, 6, 3])) if s.chance(5, 6) else anyval(s)
        te = texpr(t)
        if s.chance(1, 3):
            st += [Set("T", te), Set("v", v)]
            te, v = Var("T"), Var("v")
        st.append(Print(Call(Var("istypeof"), te, v), Str("\n")))
        if v.k == "var" and v.v == "v": st.append(Print(v, Str("\n")))
        nt = nt or composite(t)
        env.count("description " + t[0])
    text, o, op = run_prog(Prog(*st), env, sample="istypeof")
    env.count("true answers", o.out.count(b"true\n"))
    env.count("false answers", o.out.count(b"false\n"))
    if nt: env.nontrivial(text)


def case_args(s, env):
    """Annotated parameters, after defaults are applied."""
    np = s.int(1, 4)
    ps, args, nt = [], [], False
    wrong = s.choice([0, 0, 10, 4])
    for i in range(np):
        t = typ(s, s.int(0, 3))
        ann = texpr(t) if s.chance(4, 5) else None
        d = val(s, t, wrong) if s.chance(1, 3) else None
        ps.append(("p%d" % i, ann, d))
        if d is not None and s.chance(1, 2): args.append(NoneE())
        else: args.append(val(s, t, wrong))
        nt = nt or (ann is not None and composite(t))
    na = s.choice([np, np, np, np - 1, np + 1, 0])
    args = args[:na] + [Int(1)] * (na - np)
    body = Block(Print(Str("in ")), *[Print(Call(Var("typename"), Var("p%d" % i)), Str(" ")) for i in range(np)], Return(Int(7)))
    st = [FN, Print(Str("a\n"))]
    form = s.below(3)
    if form == 0: st += [Fun("f", ps, body), Print(Call(Var("f"), *args), Str("\n"))]
    elif form == 1 and np:
        st += [Set("m", Map(("fun", "f", ps, body))), Print(Call(Dot(Var("m"), "f"), *args), Str("\n"))]
    else: st += [Fun("mk", [], Block(Set("L", Var("int")), Fun("f", ps, body), Return(Var("f")))), Print(Call(Call(Var("mk")), *args), Str("\n"))]
    st.append(Print(Str("after\n")))
    text, o, op = run_prog(Prog(*st), env, sample="annotations")
    env.count("call " + ("accepted" if o.ok else "refused"))
    if nt: env.nontrivial(text)


def case_types_values(s, env):
    """type, typename and printing of types; isCallable."""
    st = [FN]
    for _ in range(s.int(1, 5)):
        v = anyval(s) if s.chance(2, 3) else texpr(typ(s, 2))
        c = s.below(4)
        if c == 0: st.append(Print(Call(Var("type"), v), Str("\n")))
        elif c == 1: st.append(Print(Call(Var("typename"), v), Str("\n")))
        elif c == 2: st.append(Print(Call(Var("isCallable"), v), Str("\n")))
        else: st.append(Print(Call(Var("istypeof"), Call(Var("type"), v), v), Bin("==", Call(Var("type"), v), Call(Var("type"), anyval(s))), Str("\n")))
    text, o, op = run_prog(Prog(*st), env, sample="type of values")
    env.nontrivial(text)


def case_enum(s, env):
    """Every basic type against every kind of value."""
    vals = [Int(1), Flt("1.0"), Bool(True), Str("a"), NoneE(), List(), Map(), Var("int"), Var("print"), Var("fn"), Call(Dot(Var("buffer"), "new"), Int(1)), Un("nlb", Var("int")),
            Bin("|", Var("int"), Var("float")), Var("any"), Var("math"), List(Int(1)), Map(("id", "a", Int(1)))]
    ts = [Var(b) for b in BASE + ["any", "Func", "NFunc", "Numeric", "Callable", "Collection", "NullableType", "SumType", "File", "Directory"]]
    n = len(ts) * len(vals)
    k = s.index % (n * 6)
    t, v, w = ts[k % len(ts)], vals[(k // len(ts)) % len(vals)], k // n
    wrap = [t, Un("nlb", t), Bin("|", t, Var("None")), List(t), Map(("id", "a", t)), Un("nlb", List(Bin("|", t, Var("int"))))][w]
    vv = [v, v, v, List(v), Map(("id", "a", v)), List(v)][w]
    st = [FN, Print(Call(Var("istypeof"), wrap, vv), Str("\n")), Fun("f", [("x", wrap, None)], Print(Str("in"))), ExprS(Call(Var("f"), vv)), Print(Str("end"))]
    text, o, op = run_prog(Prog(*st), env, sample="matrix")
    env.nontrivial(text)


PHASES = [Phase("matrix", case_enum, 1938, 1938, enum=True), Phase("istypeof", case_istypeof, 8000, 200000), Phase("arguments", case_args, 8000, 200000), Phase("types", case_types_values, 2000, 30000),
          Phase("wide", wide_type, 1500, 8000)]
