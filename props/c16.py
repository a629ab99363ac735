from common import *
from wide import wide_names

TITLE = "Scoping and closures follow the lexical rules"
RULE = ("A case is a random nest of functions sharing a small pool of names (so shadowing, late binding, capture, escape and undefined references are "
        "frequent), whose calls are interleaved; compared with a lexical environment model; non-trivial when a variable of an enclosing call is read "
        "or a name is undefined.")
ASSUME = ["assignment always binds in the running call, as documented"]
NAMES = ["a", "b", "c", "d"]


class G:
    def __init__(self, s, bud):
        self.s, self.bud, self.k, self.depth = s, bud, 0, 0
        self.fns = []

    def val(self):
        self.k += 1
        return Int(self.k)

    def stmts(self, n, fns, defined):
        out = []
        for _ in range(n):
            if self.bud <= 0: break
            self.bud -= 1
            out += self.one(fns, defined)
        return out

    def one(self, fns, defined):
        s = self.s
        c = s.below(22)
        P = lambda *a: Print(*(list(a) + [Str("\n")]))
        ref = lambda: Var(s.choice(sorted(defined))) if defined and s.chance(14, 15) else Var(s.choice(NAMES))
        if c < 5:
            n = s.choice(NAMES)
            defined.add(n)
            if s.chance(1, 4) and defined - {n}: return [Set(n, List(self.val(), ref()))]
            return [Set(n, self.val())]
        if c < 9: return [P(Str("%d:" % self.depth), ref())]
        if c == 9:
            n = ref()
            return [Set(n.v, Bin("==", n, NoneE()))] if defined.add(n.v) is None else []
        if c < 14 and self.depth < 4:
            # a function: nested, named from the pool or freshly
            self.k += 1
            f = "f%d" % self.k if s.chance(4, 5) else s.choice(NAMES)
            np = s.below(3)
            ps = [(s.choice(NAMES), None, ref() if s.chance(1, 3) else None) for _ in range(np)]
            if len({p[0] for p in ps}) < np: ps = ps[:1]
            self.depth += 1
            inner = set(defined) | {p[0] for p in ps}
            ifns = list(fns)
            body = self.stmts(s.int(1, 5), ifns, inner)
            esc = [x for x in ifns if x not in fns]
            r = s.below(4)
            if r < 2 and esc: body.append(Return(*[Var(x) for x in esc[:3]]))
            elif r == 2: body.append(Return(Var(s.choice(sorted(inner)))) if inner else Return(NoneE()))
            self.depth -= 1
            if f in NAMES: defined.discard(f)
            fns.append(f)
            return [Fun(f, ps, Block(*body))]
        if c < 19 and fns:
            f = s.choice(fns)
            args = [self.val() for _ in range(s.below(3))]
            call = Call(Var(f), *args)
            w = s.below(3)
            if w == 0: return [ExprS(call)]
            self.k += 1
            g = "h%d" % self.k
            # whatever came back: call it if it can be called
            use = If(Call(Var("isCallable"), Var(g)), Block(ExprS(Call(Var(g), *[self.val() for _ in range(s.below(2))])), ExprS(Call(Var(g)))), P(Var(g)))
            if w == 1: return [ExprS(Asn([Var(g)], call)), use]
            return [ExprS(Asn([Var(g), Var(g + "b")], call)), use,
                    If(Call(Var("isCallable"), Var(g + "b")), ExprS(Call(Var(g + "b")))), ExprS(Asn([Var(s.choice(NAMES))], self.val()))]
        if c == 19:
            # blocks and loops share the scope of their function
            n = s.choice(NAMES)
            w = s.below(3)
            body = Block(Set(n, self.val()))
            defined.add(n)
            if w == 0: return [If(Bool(True), body), P(Var(n))]
            if w == 1: return [Block(*body.kids), P(Var(n))]
            return [DoWhile(body, Bool(False)), P(Var(n))]
        if c == 20:
            # names of built-ins can be shadowed, and are seen otherwise
            b = s.choice(["min", "max", "PI", "ord", "abs"])
            return [Set(b, self.val()), P(Var(b))] if s.chance(1, 2) else [P(Call(Var("min"), self.val(), Int(1)))] if s.chance(1, 2) else []
        # a conditional definition
        n = s.choice(NAMES)
        return [If(Bool(s.chance(1, 2)), Set(n, self.val())), P(Str("?"), Var(n))] if s.chance(1, 3) else [If(Bool(False), Set(n, self.val()), Set(n, self.val())), P(Var(n))]


def case_nest(s, env):
    g = G(s, 40)
    st = g.stmts(s.int(3, 14), [], set())
    text, o, op = run_prog(Prog(*st), env, sample="nest", model={"fuel": 20000})
    if "closure-read" in o.classes or not o.ok: env.nontrivial(text)


def case_counters(s, env):
    """Factories: every call of the factory has its own variables, shared by the closures it made."""
    st = []
    depth = s.int(1, 3)
    # factory nested to some depth; state kept in a map or list, since assignments bind locally
    params = ["q%d" % i for i in range(depth)]
    state = s.choice(["map", "list"])
    ini = Map(("id", "n", Var(params[-1]))) if state == "map" else List(Var(params[-1]))
    cell = lambda: Dot(Var("st"), "n") if state == "map" else Idx(Var("st"), Int(0))
    inner = Block(Set("st", ini),
                  Fun("inc", [("by", None, Int(1))], Block(ExprS(Asn([cell()], Bin("+", cell(), Var("by")))), Return(cell()))),
                  Fun("get", [], Return(Bin("+", cell(), Var(params[0])))),
                  Fun("loc", [], Block(Set("st", Int(5)), Return(Var("st")))),
                  Return(Var("inc"), Var("get"), Var("loc")))
    body = inner
    for i in range(depth - 1, 0, -1):
        body = Block(Fun("mk%d" % i, [(params[i], None, Int(10 * i))], body), Return(Var("mk%d" % i)))
    st.append(Fun("mk0", [(params[0], None, Int(7))], body))
    sets = []
    for i in range(s.int(1, 4)):
        e = Call(Var("mk0"), *([Int(s.int(0, 50))] if s.chance(2, 3) else []))
        for _ in range(depth - 1):
            v = "m%d_%d" % (i, _)
            st.append(Set(v, e))
            e = Call(Var(v), *([Int(s.int(0, 50))] if s.chance(2, 3) else []))
        names = ["i%d" % i, "g%d" % i, "l%d" % i]
        st.append(ExprS(Asn([Var(n) for n in names], e)))
        sets.append(names)
    if depth > 1 and s.chance(1, 2):
        # two inner factories of the same outer call share its variables
        e = Call(Var("m0_0"), Int(3))
        for k in range(depth - 2): e = Call(e)
        st.append(ExprS(Asn([Var("ix"), Var("gx"), Var("lx")], e)))
        sets.append(["ix", "gx", "lx"])
    for _ in range(s.int(2, 12)):
        i, g, l = s.choice(sets)
        c = s.below(5)
        if c < 2: st.append(Print(Call(Var(i), *([Int(s.int(0, 9))] if s.chance(1, 2) else [])), Str(" ")))
        elif c < 4: st.append(Print(Call(Var(g)), Str(" ")))
        else: st.append(Print(Call(Var(l)), Call(Var(g)), Str(" ")))
    text, o, op = run_prog(Prog(*st), env, sample="counters")
    env.nontrivial(text)


def case_recursive(s, env):
    """Recursion: each call has its own variables, also for the closures made in them."""
    n = s.int(1, 5)
    order = s.chance(1, 2)
    body = [Set("loc", Bin("*", Var("n"), Int(s.int(1, 9)))), Fun("show", [], Return(Var("loc"))), ExprS(Call(Var("append"), Var("fs"), Var("show")))]
    rec = If(Bin(">", Var("n"), Int(0)), ExprS(Asn([Var("r")], Call(Var("f"), Bin("-", Var("n"), Int(1))))))
    body.insert(0 if order else len(body), rec)
    body.append(Print(Var("loc"), Str(" "), Var("n"), Str(";")))
    if s.chance(1, 2): body.append(Set("loc", Bin("+", Var("loc"), Int(1000))))
    st = [Set("fs", List()), Fun("f", [("n", None, None)], Block(*body)), ExprS(Call(Var("f"), Int(n))), Set("i", Int(0)),
          While(Bin("<", Var("i"), Call(Var("count"), Var("fs"))), Block(Print(Call(Idx(Var("fs"), Var("i"))), Str(",")), Set("i", Bin("+", Var("i"), Int(1)))))]
    if s.chance(1, 2): st.append(Print(Var("loc")))    # undefined here
    text, o, op = run_prog(Prog(*st), env, sample="recursion", vals=False)
    env.nontrivial(text)


def case_late(s, env):
    """A name is looked up when the reference runs: definitions made later are seen, and those of callers aren't."""
    v = s.choice(NAMES)
    st = [Fun("f", [], Return(Var(v)))]
    c = s.below(5)
    if c == 0: st += [Set(v, Int(1)), Print(Call(Var("f"))), Set(v, Int(2)), Print(Call(Var("f")))]
    elif c == 1: st += [Fun("g", [], Block(Set(v, Int(9)), Return(Call(Var("f"))))), Print(Str("x")), Print(Call(Var("g")))]
    elif c == 2: st += [Set(v, Int(1)), Fun("g", [], Block(Set(v, Int(9)), Return(Call(Var("f"))))), Print(Call(Var("g")), Var(v))]
    elif c == 3: st += [Fun("g", [(v, None, None)], Block(Fun("h", [], Return(Var(v))), Set(v, Bin("+", Var(v), Int(1))), Return(Var("h")))), Set("h1", Call(Var("g"), Int(1))), Set("h2", Call(Var("g"), Int(5))), Print(Call(Var("h1")), Call(Var("h2")), Call(Var("h1")))]
    else: st += [Fun("g", [], Block(Fun("h", [], Return(Var(v))), Return(Var("h")))), Set("h", Call(Var("g"))), Set(v, Int(4)), Print(Call(Var("h"))), Fun("k", [], Block(Set(v, Int(8)), Print(Call(Var("h"))), Print(Var(v)))), ExprS(Call(Var("k"))), Print(Var(v))]
    if s.chance(1, 2): st = [Fun("outer", [], Block(*st)), ExprS(Call(Var("outer"))), Print(Str("end")), Print(Var(s.choice(NAMES)))]
    text, o, op = run_prog(Prog(*st), env, sample="late binding", vals=False)
    env.nontrivial(text)


PHASES = [Phase("nest", case_nest, 12000, 300000), Phase("counters", case_counters, 5000, 120000), Phase("recursion", case_recursive, 1500, 20000), Phase("late", case_late, 1500, 20000),
          Phase("wide", wide_names, 1500, 8000)]
