from common import *
from c09 import fval
import os, cli

TITLE = "print renders every value by fixed rules"
RULE = ("A case builds values of every kind (nested, shared and cyclic collections, slices of buffers, exact doubles, arbitrary UTF-8 text), prints them with one or more calls of any "
        "number of arguments under a random collection schedule, and compares the bytes with the rendering rules; the values themselves are compared afterwards; "
        "non-trivial when a collection, float, buffer or non-ASCII string is printed.")
ASSUME = ["a value met again inside itself is written '...'", "floats follow C's %2.2f", "values that have no printed form are written '<TYPE is unprintable>'"]
VARIANTS = ["asan", "cli"]
BYTES = [b"", b"a", b"%d%s%n", b"\\n", b"tab\t", b"line\n", b"cr\r", b'"', b"'", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b", ", b": ", b"[", b"]", b"{}", b"...", b"none", b"\x01\x7f"]


class B:
    def __init__(self, s):
        self.s, self.pre, self.names, self.n = s, [], [], 0

    def new(self, e, kind):
        v = "v%d" % self.n
        self.n += 1
        self.pre.append(Set(v, e))
        self.names.append((v, kind))
        return Var(v)

    def text(self):
        s = self.s
        return b"".join(s.choice(BYTES) for _ in range(s.int(0, 3)))

    def val(self, d):
        s = self.s
        c = s.below(16 if d > 0 else 10)
        if c == 0: return Int(s.choice([0, 1, -1, 42, (1 << 63) - 1, -(1 << 63) + 1, 1 << 32])) if s.chance(1, 2) else Int(s.below(1 << s.int(1, 63)))
        if c == 1: return fval(s, self.pre, 1)[0]
        if c < 4: return Str(self.text())
        if c == 4: return s.choice([NoneE(), Bool(True), Bool(False)])
        if c == 5: return s.choice([Var(x) for x in ("int", "float", "bool", "String", "List", "Map", "Buffer", "Type", "None", "any", "print", "toString", "string", "File", "Directory")])
        if c == 6: return s.choice([Un("nlb", Var("int")), Bin("|", Var("int"), Var("float")), Un("nlb", Bin("|", Var("int"), Un("nlb", Var("String")))), Bin("|", List(Var("int")), Var("Map")), Un("nlb", List(Var("int")))])
        if c == 7 and self.names: return Var(s.choice(self.names)[0])
        if c == 8:
            b = self.new(Call(Dot(Var("buffer"), "fromString"), Str(self.text())), "buf") if s.chance(1, 2) else self.new(Call(Dot(Var("buffer"), "new"), Int(s.int(1, 5))), "buf")
            if s.chance(1, 2): self.pre.append(If(Bin(">", Call(Var("count"), b), Int(0)), ExprS(Asn([Idx(b, Int(0))], Int(s.below(256))))))
            return b
        if c == 9:
            n = s.int(2, 9)
            b = self.new(Call(Dot(Var("buffer"), "new"), Int(n)), "buf")
            for _ in range(3): self.pre.append(ExprS(Asn([Idx(b, Int(s.below(n)))], Int(s.below(256)))))
            off = s.below(n)
            return self.new(Call(Dot(Var("buffer"), "sliceUp"), b, Int(off), Int(s.int(0, n - off))), "buf")
        if c < 13:
            e = List(*[self.val(d - 1) for _ in range(s.int(0, 4))])
            return self.new(e, "list") if s.chance(1, 2) else e
        es = []
        for _ in range(s.int(0, 4)):
            k = s.below(5)
            if k < 2: es.append(("id", s.choice(["k", "ab", "x_1"]), self.val(d - 1)))
            elif k == 2: es.append(("expr", s.choice([Int(s.below(9)), Bool(True), NoneE(), Str(self.text()), Flt("2.5")]), self.val(d - 1)))
            elif k == 3: es.append(("expr", List(Int(s.below(9)), Str(self.text()), List()), self.val(d - 1)))
            else: es.append(("fun", "f", [], Return(Int(1))))
        e = Map(*es)
        return self.new(e, "map") if s.chance(1, 2) else e


def case_values(s, env):
    b = B(s)
    prints = []
    for _ in range(s.int(1, 4)):
        args = [b.val(s.int(0, 3)) for _ in range(s.weighted([(5, s.int(1, 4)), (1, 0), (1, s.int(5, 12))]))]
        b.pre.append(Print(*args))
    keep = [Var(n) for n, _ in b.names[:6]]
    p = Prog(*b.pre, Print(Str("\n")), *([Return(*keep)] if keep else []))
    text, o, op = run_prog(p, env, exact=True, sample="values", model={"fuel": 60000}, heap=1 << 18, gc_every=s.choice([0, 0, 11, 23]) if any(n.k == "while" for n in walk(p)) else s.choice([0, 0, 1, 3, 7]))
    ks = set(feature_classes(p))
    if ks & {"list", "map", "flt"} or any(n.k == "str" and max(n.v or b"a") > 127 for n in walk(p)): env.nontrivial(text)


def case_cyclic(s, env):
    """Graphs of lists and maps with arbitrary references between them."""
    n = s.int(1, 4)
    st = []
    kinds = []
    for i in range(n):
        k = s.below(2)
        kinds.append(k)
        st.append(Set("g%d" % i, Map() if k else List()))
    # at most two references out of each node keeps the unfolding small
    for i in range(n):
        for j in range(s.int(0, 2 if n < 4 else 1) if not s.chance(1, 3) else 1):
            t = Var("g%d" % s.below(n))
            w = s.below(3)
            if w == 1: t = List(t, Int(1))
            elif w == 2: t = Map(("id", "in", t))
            if kinds[i]: st.append(ExprS(Asn([Dot(Var("g%d" % i), s.choice(["a", "b", "c"]))], t)))
            else: st.append(ExprS(Call(Var("append"), Var("g%d" % i), t)))
        if s.chance(1, 3):
            if kinds[i]: st.append(ExprS(Asn([Dot(Var("g%d" % i), "z")], Int(i))))
            else: st.append(ExprS(Call(Var("append"), Var("g%d" % i), Str("s"))))
    show = [Print(Var("g%d" % i), Str("\n")) for i in range(n)]
    st += show + [Print(*[Var("g%d" % i) for i in range(n)])] + show
    st.append(Return(*[Call(Var("count"), Var("g%d" % i)) for i in range(n)]))
    text, o, op = run_prog(Prog(*st), env, exact=True, sample="graph", model={"fuel": 60000}, gc_every=s.choice([0, 0, 1, 5]))
    if b"..." in o.out: env.count("cyclic")
    env.nontrivial(text)


def case_deep(s, env):
    """Nested up to a depth of thousands of levels."""
    d = s.choice([s.int(1, 100), s.int(100, 1000), s.int(1000, 4000)])
    k = s.below(2)
    st = b"x = 1; i = 0; while i < %d: { x = %s; i = i + 1; } print(x); print(x);" % (d, [b"[x]", b"{k: x}"][k])
    op = run_text(st, env, heap=1 << 24)
    w = [b"[" * d + b"1" + b"]" * d, b"{k: " * d + b"1" + b"}" * d][k] * 2
    if not op.ok or op.out != w: raise Violation("a deeply nested value is printed wrongly", program=st, output=op.out[:500], error=op.err)
    env.nontrivial(st)


def case_cli(s, env):
    """The same through the real binary."""
    b = B(s)
    for _ in range(s.int(1, 3)): b.pre.append(Print(*[b.val(2) for _ in range(s.int(1, 3))]))
    p = Prog(*b.pre)
    if max_need(p) > 14: raise Discard("needs too many pending values")
    text = render(p)
    o = ref_run(p, fuel=60000)
    r = cli.noja(["-i", text], "/")
    if r is None: raise Inconclusive("wall clock limit")
    if norm(r.out) != norm(o.out) or (r.rc == 0) != o.ok or r.rc < 0: raise Violation("noja prints something else", program=text, expected=o.out, output=r.out, status=r.rc, stderr=r.err)
    env.nontrivial(text)


PHASES = [Phase("values", case_values, 8000, 200000), Phase("graphs", case_cyclic, 4000, 80000), Phase("deep", case_deep, 60, 400), Phase("cli", case_cli, 1000, 10000)]
