from common import *
import os

TITLE = "Garbage collection never changes what a program does"
RULE = ("A case is a generated program (a random whole program, a history of operations on a graph of lists, maps, closures, buffers and types with aliases and cycles, or an "
        "allocation loop holding files open) run with collections forced after every k-th instruction or with a heap so small that it collects by itself; the outcome is compared "
        "with the reference interpreter and with a run on a heap that never fills; non-trivial when at least one collection happened, or the run stopped with an out-of-heap error.")
ASSUME = ["values that the language gives no way to reach may be dropped at any time", "a run stopped by an out-of-heap error has printed a prefix of the full output"]
FILES = Dot(Var("files"), "openFile")


# ---- garbage and graphs --------------------------------------------------------
def churn_fun():
    """fun churn(n): n rounds of garbage of many kinds."""
    i, x = Var("ci"), "cx"
    return Fun("churn", [("n", None, None)], Block(
        Set("ci", Int(0)),
        While(Bin("<", Var("ci"), Var("n")), Block(
            Set(x, List(Var("ci"), List(Var("ci"), Str("junk")), Map(("id", "a", Var("ci")), ("id", "b", Flt("1.5"))))),
            Set("cy", Call(Dot(Var("string"), "cat"), Str("abc"), Str("defghijklmnop"))),
            Set("cz", Call(Dot(Var("buffer"), "new"), Int(24))),
            Fun("cf", [], Return(Var(x))),
            Set("ci", Bin("+", Var("ci"), Int(1))))),
        Return(Var("n"))))


def walk_fun():
    """fun walk(x, d): print everything reachable within d steps."""
    t = Var("t")
    return Fun("walk", [("x", None, None), ("d", None, None)], Block(
        Set("t", Call(Var("type"), Var("x"))),
        If(Bin("==", t, Var("List")), Block(
            Print(Str("["), Call(Var("count"), Var("x"))),
            If(Bin(">", Var("d"), Int(0)), Block(
                Set("i", Int(0)),
                While(Bin("<", Var("i"), Call(Var("count"), Var("x"))), Block(
                    Print(Str(" ")),
                    ExprS(Call(Var("walk"), Idx(Var("x"), Var("i")), Bin("-", Var("d"), Int(1)))),
                    Set("i", Bin("+", Var("i"), Int(1))))))),
            Print(Str("]"))),
           If(Bin("==", t, Var("Map")), Block(
                Set("ks", Call(Var("keysof"), Var("x"))),
                Print(Str("{"), Call(Var("count"), Var("ks"))),
                If(Bin(">", Var("d"), Int(0)), Block(
                    Set("i", Int(0)),
                    While(Bin("<", Var("i"), Call(Var("count"), Var("ks"))), Block(
                        Print(Str(" "), Idx(Var("ks"), Var("i")), Str("=")),
                        ExprS(Call(Var("walk"), Idx(Var("x"), Idx(Var("ks"), Var("i"))), Bin("-", Var("d"), Int(1)))),
                        Set("i", Bin("+", Var("i"), Int(1))))))),
                Print(Str("}"))),
              Print(Var("x"))))))


def graph(s, nops):
    """Statements: a history over variables o0..o5, with checks."""
    out = [churn_fun(), walk_fun()]
    kinds, sizes = {}, {}
    names = ["o%d" % i for i in range(6)]
    depth = 2 if s.chance(3, 4) else 3
    clos = []

    def val():
        c = s.below(10)
        have = [n for n in names if n in kinds]
        if c < 4 and have: return Var(s.choice(have))
        if c == 4: return Str(s.choice(["", "a", "some text", "h\u00e9llo", "x" * s.int(20, 90)]))
        if c == 5: return Flt(s.choice(["0.5", "1.25", "100.0"]))
        if c == 6: return List(Int(s.int(0, 9)), Str("in"))
        if c == 7: return Call(Dot(Var("string"), "cat"), Str("p"), Str("q" * s.int(0, 5)))
        if c == 8: return s.choice([NoneE(), Bool(True), Bool(False)])
        return Int(s.choice([s.int(0, 300), 1 << 40]))

    for n in names[:2]:
        kinds[n] = "list" if s.chance(1, 2) else "map"
        out.append(Set(n, List() if kinds[n] == "list" else Map()))
    for _ in range(nops):
        c = s.below(24)
        n = s.choice(names)
        ls = [x for x in kinds if kinds[x] == "list"]
        ms = [x for x in kinds if kinds[x] == "map"]
        bs = [x for x in kinds if kinds[x] == "buf"]
        if c < 2:
            kinds[n] = "list"
            out.append(Set(n, List(*[val() for _ in range(s.int(0, 3))])))
        elif c < 4:
            kinds[n] = "map"
            out.append(Set(n, Map(*[("id", s.choice("abcde"), val()) for _ in range(s.int(0, 3))])))
        elif c < 8 and ls:
            l = s.choice(ls)
            out.append(ExprS(Call(Var("append"), Var(l), val())))
        elif c < 12 and ms:
            m = s.choice(ms)
            k = s.below(4)
            if k == 0: out.append(ExprS(Asn([Idx(Var(m), Int(s.int(0, 40)))], val())))
            elif k == 1: out.append(ExprS(Asn([Idx(Var(m), List(Int(s.int(0, 3)), Str("k")))], val())))
            else: out.append(ExprS(Asn([Dot(Var(m), s.choice(["a", "b", "c", "dd", "eee"]))], val())))
        elif c == 12 and ms:                     # a big map: several rehashes
            m = s.choice(ms)
            out.append(Set("g", Int(0)))
            out.append(While(Bin("<", Var("g"), Int(s.int(5, 20))), Block(
                ExprS(Asn([Idx(Var(m), Var("g"))], List(Var("g")))), Set("g", Bin("+", Var("g"), Int(1))))))
        elif c == 13 and ls:
            l = s.choice(ls)
            out.append(Set("g", Int(0)))
            out.append(While(Bin("<", Var("g"), Int(s.int(5, 20))), Block(
                ExprS(Call(Var("append"), Var(l), List(Var("g")))), Set("g", Bin("+", Var("g"), Int(1))))))
        elif c == 14:
            src = s.choice(list(kinds))
            kinds[n] = kinds[src]
            if kinds[n] == "buf": sizes[n] = sizes[src]
            out.append(Set(n, Var(src)))
        elif c == 15:
            # a pair of closures over a fresh state holding an existing object
            src = s.choice(list(kinds))
            g, h, mk = "cg%d" % len(clos), "ch%d" % len(clos), "mk%d" % len(clos)
            out.append(Fun(mk, [("start", None, Int(0))], Block(
                Set("st", Map(("id", "n", Var("start")), ("id", "o", Var("h0")))),
                Fun("inc", [], Block(ExprS(Asn([Dot(Var("st"), "n")], Bin("+", Dot(Var("st"), "n"), Int(1)))), Return(Dot(Var("st"), "n")))),
                Fun("get", [], Return(Dot(Var("st"), "o"), Dot(Var("st"), "n"))),
                Return(Var("inc"), Var("get")))))
            out.append(Set("h0", Var(src)))
            out.append(ExprS(Asn([Var(g), Var(h)], Call(Var(mk), Int(s.int(0, 50))))))
            clos.append((g, h))
        elif c == 16 and clos:
            g, h = s.choice(clos)
            out.append(Print(Call(Var(g)), Str("\n")))
            out.append(ExprS(Asn([Var("ra"), Var("rb")], Call(Var(h)))))
            out.append(ExprS(Call(Var("walk"), Var("ra"), Int(1))))
            out.append(Print(Var("rb"), Str("\n")))
        elif c == 17:
            live = [x for x in bs if sizes[x] > 0]
            if s.chance(1, 2) or not live:
                sizes[n] = s.choice([16, 16, 40])
                out.append(Set(n, Call(Dot(Var("buffer"), "fromString"), Str("0123456789abcdef"))) if sizes[n] == 16 else Set(n, Call(Dot(Var("buffer"), "new"), Int(40))))
            else:
                # a slice of any part, maybe of itself
                b = s.choice(live)
                o = s.int(0, sizes[b] - 1)
                ln = s.choice([sizes[b] - o, s.int(0, sizes[b] - o)])
                out.append(Set(n, Call(Dot(Var("buffer"), "sliceUp"), Var(b), Int(o), Int(ln))))
                sizes[n] = ln
            kinds[n] = "buf"
        elif c == 18 and bs:
            b = s.choice(bs)
            if sizes[b]: out.append(ExprS(Asn([Idx(Var(b), Int(s.int(0, sizes[b] - 1)))], Int(s.int(0, 255)))))
        elif c == 19:
            kinds[n] = "type"
            out.append(Set(n, s.choice([Un("nlb", Var("int")), Bin("|", Var("int"), Var("String")), List(Var("int"), Un("nlb", Var("float"))),
                                        Map(("id", "a", Bin("|", Var("int"), Var("None"))))])))
        elif c == 20 and any(k == "type" for k in kinds.values()):
            t = s.choice([x for x in kinds if kinds[x] == "type"])
            out.append(Print(Call(Var("istypeof"), Var(t), val()), Str("\n")))
        elif c == 21:
            # temporaries pending during a call that collects
            a, b = val(), val()
            out.append(ExprS(Call(Var("walk"), List(a, Call(Var("churn"), Int(s.int(0, 12))), b, Map(("id", "q", Call(Var("churn"), Int(s.int(0, 6)))))), Int(2))))
            out.append(Print(Str("\n")))
        elif c == 22 and len(kinds) > 1:
            d = s.choice(list(kinds))
            if kinds[d] != "drop":
                out.append(Set(d, NoneE()))
                del kinds[d]
        else:
            out.append(ExprS(Call(Var("churn"), Int(s.int(0, 20)))))
        if s.chance(1, 4) and kinds:
            x = s.choice(list(kinds))
            if kinds[x] != "type":
                out.append(ExprS(Call(Var("walk"), Var(x), Int(depth))))
                out.append(Print(Str("\n")))
    for x in sorted(kinds):
        if kinds[x] != "type":
            out.append(ExprS(Call(Var("walk"), Var(x), Int(depth))))
            out.append(Print(Str("\n")))
    for g, h in clos: out.append(Print(Call(Var(g)), Str("\n")))
    rs = [Var(x) for x in sorted(kinds) if kinds[x] == "buf"][:3]
    out.append(Return(*(rs or [Int(0)])))      # not the variables: they may form cycles
    return Prog(*out)


def whole(s):
    g = Gen(s, budget=50, wrong=80)
    p = g.program(s.int(2, 10))
    ss = [churn_fun()]
    for x in p.kids:
        ss.append(x)
        if s.chance(1, 3) and x.k != "return": ss.append(ExprS(Call(Var("churn"), Int(s.int(1, 15)))))
    return Prog(*ss)


def text_of(p):
    if max_need(p) > 14: raise Discard("needs too many pending values")
    return render(p)


# ---- collections forced between any two instructions ---------------------------------
def every(p, s, env, what):
    text = text_of(p)
    o = ref_run(p)
    k = s.weighted([(4, 1), (2, 2), (1, 3), (1, 5), (1, 17)])
    res = env.server().run([(SRC, NAME, text)], gc_every=k, heap=s.choice([60000, 30000, 200000]), flags=runner.F_EXACT, steps=20000, cpu=60, wall=120)
    check_clean(res, text, "the program, collecting after every %d instruction(s)," % k)
    if res.stopped == 2: raise Discard("too long")
    op = res.ops[0]
    if not op.ok and op.err and b"Out of heap" in op.err:
        check_prefix(op, o.out, text)
        env.count("out of heap")
        return
    compare(op, o, text)
    if res.live or res.fds: raise Violation("memory or descriptors left over after collecting and freeing", program=text, live=res.live, fds=res.fds)
    if res.gcs: env.nontrivial(text, k)
    env.count("collections", res.gcs)
    env.sample(what, text.decode(errors="replace"))


def run_every(s, env): every(whole(s), s, env, "whole program, forced collections")
def run_graph_every(s, env): every(graph(s, s.int(3, 25)), s, env, "object graph, forced collections")


# ---- heaps of every size --------------------------------------------------------------
def same(a, b):
    return (norm(a.out), a.ok, a.err, a.trace, [norm(v) for v in a.vals], a.exact) == (norm(b.out), b.ok, b.err, b.trace, [norm(v) for v in b.vals], b.exact)


def check_prefix(op, full, text, **d):
    if not norm(full).startswith(norm(op.out)):
        raise Violation("a run that ran out of heap printed something else than the full run", program=text, full=full, got=op.out, **d)


def sweep(p, s, env, what, cwd="", files=False):
    text = text_of(p)
    big = env.server().run([(SRC, NAME, text)], heap=64 << 20, flags=runner.F_EXACT, steps=20000, cwd=cwd)
    check_clean(big, text)
    if big.stopped == 2: raise Discard("too long")
    if big.over: raise Discard("too big")
    b = big.ops[0]
    for _ in range(4):
        h = s.weighted([(2, 0), (3, 1), (2, 2)])
        h = s.int(6500, 9000) if h == 0 else s.int(9000, 30000) if h == 1 else s.int(30000, 120000)
        r = env.server().run([(SRC, NAME, text)], heap=h, flags=runner.F_EXACT, steps=25000, cwd=cwd, cpu=60)
        check_clean(r, text, "the program, with a heap of %d bytes," % h)
        if not r.pre.newrt:
            if not r.pre.err or b"ut of heap" not in r.pre.err: raise Violation("a runtime can't be created, but not for lack of heap", heap=h, error=r.pre.err)
            env.count("heap too small for the built-ins")
            continue
        if r.live or r.fds: raise Violation("memory or descriptors left over", program=text, heap=h, live=r.live, fds=r.fds)
        op = r.ops[0]
        if not op.ok and op.err and b"Out of heap" in op.err:
            check_prefix(op, b.out, text, heap=h)
            env.count("stops out of heap")
        elif not same(op, b):
            raise Violation("the size of the heap changes what the program does", program=text, heap=h, expected=b.out, got=op.out, expected_error=b.err, error=op.err,
                            expected_values=b.vals, values=op.vals, expected_trace=b.trace, trace=op.trace)
        else: env.count("same behaviour")
        if r.over: env.nontrivial(text, h)
    env.sample(what, text.decode(errors="replace"))


def run_heaps(s, env): sweep(whole(s), s, env, "whole program, small heaps")
def run_graph_heaps(s, env): sweep(graph(s, s.int(3, 30)), s, env, "object graph, small heaps")


# ---- objects with destructors -----------------------------------------------------------
def run_files(s, env):
    d = env.scratch()
    for i in range(3):
        with open(os.path.join(d, "f%d" % i), "wb") as f: f.write(bytes((65 + (i * 7 + j) % 26) for j in range(40 + i)))
        os.chmod(os.path.join(d, "f%d" % i), 0o666)
    ss = [churn_fun()]
    held = []
    for k in range(s.int(2, 12)):
        c = s.below(6)
        if c < 2:
            v = "h%d" % s.below(4)
            ss.append(Set(v, Call(FILES, Str("f%d" % s.below(3)), Dot(Var("files"), "READ"))))
            if v not in held: held.append(v)
        elif c == 2:
            v = "d%d" % s.below(2)
            ss.append(Set(v, Call(Dot(Var("files"), "openDir"), Str("."))))
        elif c == 3:
            # open and drop, many times
            ss.append(Set("q", Int(0)))
            ss.append(While(Bin("<", Var("q"), Int(s.int(1, 9))), Block(
                Set("tmp", Call(FILES, Str("f%d" % s.below(3)), Dot(Var("files"), "READ"))),
                Set("td", Call(Dot(Var("files"), "openDir"), Str("."))),
                Set("q", Bin("+", Var("q"), Int(1))))))
            ss.append(ExprS(Call(Var("churn"), Int(s.int(10, 40)))))
        elif c == 4 and held:
            v = s.choice(held)
            ss.append(Set("b", Call(Dot(Var("buffer"), "new"), Int(s.int(1, 9)))))
            ss.append(Set("n", Call(Dot(Var("files"), "read"), Var(v), Var("b"))))
            ss.append(Print(Var("n"), Str(" "), Var("b"), Str("\n")))
        else: ss.append(ExprS(Call(Var("churn"), Int(s.int(0, 40)))))
    for v in held:
        ss.append(Set("b", Call(Dot(Var("buffer"), "new"), Int(5))))
        ss.append(Print(Call(Dot(Var("files"), "read"), Var(v), Var("b")), Var("b"), Str("\n")))
    sweep(Prog(*ss), s, env, "files and directories held across collections", cwd=d, files=True)


# ---- deep and wide structures, moved whole ------------------------------------------------
def run_big(s, env):
    n = s.choice([1, 7, 8, 9, 63, 64, 65, 200, 500, 1500])
    kind = s.below(6)
    i = Var("i")
    inc = Set("i", Bin("+", i, Int(1)))
    lp = lambda *b: While(Bin("<", i, Int(n)), Block(*(list(b) + [inc])))
    ss = [churn_fun(), Set("i", Int(0))]
    if kind == 0:
        ss += [Set("x", NoneE()), lp(Set("x", List(i, Var("x")))), Set("y", Var("x")), Set("k", Int(0)),
               ExprS(Call(Var("churn"), Int(20))),
               While(Bin("!=", Var("y"), NoneE()), Block(Set("k", Bin("+", Bin("*", Var("k"), Int(3)), Idx(Var("y"), Int(0)))), Set("k", Bin("%", Var("k"), Int(1000003))), Set("y", Idx(Var("y"), Int(1))))),
               Print(Var("k"))]
    elif kind == 1:
        ss += [Set("x", Map()), lp(ExprS(Asn([Idx(Var("x"), i)], Bin("*", i, i)))), ExprS(Call(Var("churn"), Int(20))),
               Set("k", Int(0)), Set("i", Int(0)), lp(Set("k", Bin("+", Var("k"), Idx(Var("x"), i)))), Print(Var("k"), Str(" "), Call(Var("count"), Call(Var("keysof"), Var("x"))))]
    elif kind == 2:
        ss += [Set("x", List()), lp(ExprS(Call(Var("append"), Var("x"), Call(Dot(Var("string"), "cat"), Str("s"), Call(Var("toString"), i))))), ExprS(Call(Var("churn"), Int(20))),
               Print(Idx(Var("x"), Int(n - 1)), Idx(Var("x"), Int(0)), Call(Var("count"), Var("x")))]
    elif kind == 3:
        ss += [Set("x", Map()), lp(ExprS(Asn([Idx(Var("x"), List(i, Str("k")))], List(i)))), ExprS(Call(Var("churn"), Int(20))),
               Set("k", Int(0)), Set("i", Int(0)), lp(Set("k", Bin("+", Var("k"), Idx(Idx(Var("x"), List(i, Str("k"))), Int(0))))), Print(Var("k"))]
        if n > 200: raise Discard("too big")
    elif kind == 4:
        ss += [Fun("mk", [("n", None, None), ("p", None, None)], Block(Fun("f", [], Return(Bin("+", Var("n"), Int(1)), Var("p"))), Return(Var("f")))),
               Set("x", NoneE()), lp(Set("x", Call(Var("mk"), i, Var("x")))), ExprS(Call(Var("churn"), Int(20))), Set("k", Int(0)),
               While(Bin("!=", Call(Var("type"), Var("x")), Var("None")), Block(ExprS(Asn([Var("a"), Var("x")], Call(Var("x")))), Set("k", Bin("%", Bin("+", Bin("*", Var("k"), Int(3)), Var("a")), Int(1000003))))), Print(Var("k"))]
    else:
        ss += [Set("x", List()), Set("x", Call(Dot(Var("buffer"), "new"), Int(n))), lp(ExprS(Asn([Idx(Var("x"), i)], Bin("%", i, Int(256))))),
               Set("z", Call(Dot(Var("buffer"), "sliceUp"), Var("x"), Int(n // 2), Int(n - n // 2))), Set("w", Call(Dot(Var("buffer"), "sliceUp"), Var("z"), Int(0), Int(1))), Set("w", NoneE()),
               ExprS(Call(Var("churn"), Int(20))), ExprS(Asn([Idx(Var("z"), Int(0))], Int(77))), Print(Idx(Var("x"), Int(n // 2)), Var("z"))]
    p = Prog(*ss)
    text = text_of(p)
    o = ref_run(p, fuel=400000)
    r = env.server().run([(SRC, NAME, text)], heap=s.choice([1 << 20, 300000, 3 << 20]), gc_every=s.choice([0, 97, 211]) if n <= 200 else 4001, cpu=100, wall=200)
    check_clean(r, text)
    op = r.ops[0]
    if not op.ok and b"Out of heap" in op.err: check_prefix(op, o.out, text)
    else: compare(op, o, text)
    env.nontrivial(text, kind)
    env.sample("big structures", text.decode(errors="replace"))


# ---- hundreds of thousands of live objects ------------------------------------------------
def run_huge(s, env):
    """Structures of so many objects that only closed forms tell what's in them; collected a few times."""
    n = s.choice([30000, 40000, 65535, 65536, 65537, 100000, 131072, 150000, 200000])
    kind = s.below(6)
    M = 1000003
    tick = "i = i + 1; "
    if kind == 0:
        text = "x = none; i = 0; while i < %d: { x = [i, x]; i = i + 1; } s = 0; k = 0; while x != none: { s = (s + x[0] * (k + 1)) %% %d; k = k + 1; x = x[1]; } print(s, ' ', k);" % (n, M)
        want = "%d %d" % (sum((n - 1 - k) * (k + 1) for k in range(n)) % M, n)
    elif kind == 1:
        text = "x = []; i = 0; while i < %d: { append(x, [i]); i = i + 1; } s = 0; i = 0; while i < %d: { s = (s + x[i][0] * i) %% %d; i = i + 1; } print(s, ' ', count(x));" % (n, n, M)
        n0 = n
        want = "%d %d" % (sum(i * i for i in range(n0)) % M, n0)
    elif kind == 2:
        n //= 2
        text = "x = {}; i = 0; while i < %d: { x[i] = [i * 3]; i = i + 1; } s = 0; i = 0; while i < %d: { s = (s + x[i][0]) %% %d; i = i + 1; } print(s, ' ', count(x));" % (n, n, M)
        want = "%d %d" % (sum(i * 3 for i in range(n)) % M, n)
    elif kind == 3:
        n //= 4
        text = "x = none; i = 0; while i < %d: { b = buffer.new(2); b[0] = i %% 251; b[1] = i %% 7; if i %% 3 == 0: x = [b, x]; i = i + 1; } s = 0; while x != none: { s = (s * 3 + x[0][0] + x[0][1]) %% %d; x = x[1]; } print(s);" % (n, M)
        r = 0
        for i in reversed([i for i in range(n) if i % 3 == 0]): r = (r * 3 + i % 251 + i % 7) % M
        want = "%d" % r
    elif kind == 4:
        n //= 3
        text = "fun mk(v, p) { fun get() return v, p; return get; } x = none; i = 0; while i < %d: { x = mk(i, x); i = i + 1; } s = 0; k = 0; while k < %d: { v, x = x(); s = (s * 5 + v) %% %d; k = k + 1; } print(s, ' ', x == none);" % (n, n, M)
        r = 0
        for i in reversed(range(n)): r = (r * 5 + i) % M
        want = "%d true" % r
    else:
        n //= 2
        text = "a = []; b = []; i = 0; while i < %d: { l = [i + 0.5]; append(a, l); append(b, l); i = i + 1; } i = 0; while i < %d: { if i %% 2 == 0: b[i][0] = 'even'; i = i + 1; } k = 0; i = 0; while i < %d: { if a[i][0] == 'even': k = k + 1; i = i + 1; } print(k, ' ', a[%d][0], ' ', count(b));" % (n, n, n, n // 2 | 1)
        want = "%d %.2f %d" % ((n + 1) // 2, (n // 2 | 1) + 0.5, n)
    text = text.encode()
    # one collection while the structure is complete, at least
    r = env.server().run([(SRC, NAME, text)], heap=s.choice([200 << 20, 400 << 20, 100 << 20]), steps=1 << 40, gc_every=s.choice([60007, 200003, 400009, 900001]), cpu=150, wall=290)
    check_clean(r, text)
    op = r.ops[0]
    if not op.ok and b"Out of heap" in op.err: raise Discard("out of heap")
    if not op.ok: raise Violation("a program building a big structure fails", program=text, error=op.err, expected=want)
    if norm(op.out) != want.encode(): raise Violation("what a big structure holds has changed", program=text, expected=want, output=op.out)
    if r.live or r.fds: raise Violation("memory or descriptors left over", program=text, live=r.live)
    env.nontrivial(text)
    env.count("huge")
    env.sample("huge structures", text.decode())


PHASES = [Phase("programs", run_every, 1600, 60000), Phase("graphs", run_graph_every, 1400, 60000),
          Phase("heaps", run_heaps, 1200, 40000), Phase("graph-heaps", run_graph_heaps, 1200, 40000),
          Phase("files", run_files, 400, 10000), Phase("big", run_big, 120, 2000),
          Phase("huge", run_huge, 40, 600)]
