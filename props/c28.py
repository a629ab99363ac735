from common import *
import os, cli

TITLE = "Runs, runtimes and front-end options are independent of each other"
RULE = ("A case runs a generated history of programs (good, failing, broken ones, ones reading input or using up calls and values, ones looking for variables of earlier runs) in one runtime, in "
        "fresh runtimes of the same process or in several runtimes with streams of their own, each given as a source, a string or a file; every run must do what the reference model "
        "prescribes for it alone and what the same text does in a process of its own; or it runs one program through every front end. Non-trivial when at least two programs ran.")
ASSUME = ["random numbers and open descriptors are process-wide and left out"]
VARIANTS = ["asan", "cli"]
V = Var
PROBES = [b"x", b"y", b"a", b"b", b"n", b"l", b"m", b"f", b"g", b"i"]


def deep(k): return [Fun("f", [("n", None, None)], Block(If(Bin("==", V("n"), Int(0)), Return(Int(0))), Return(Bin("+", Int(1), Call(V("f"), Bin("-", V("n"), Int(1))))))), Print(Call(V("f"), Int(k)), Str("\n"))]


def nest(k):
    e = Int(0)
    for i in range(k): e = List(e, Int(i)) if i % 2 else List(Int(i), e)
    return e


def modtext(s):
    m = s.choice([b"good.noja", b"good.noja", b"broken.noja", b"failing.noja", b"missing.noja", b"nested.noja", b"counter.noja"])
    return s.choice([b"m = import('%s'); print(m.v); m.v = 5; print(keysof(m)); return m.v, 2;", b"m = import('%s'); n = import('%s'); print(m.l == n.l); append(m.l, 9); print(m.l, n.l);",
                     b"fun f() return import('%s'); m = f(); print(m->get()); x = 1;", b"x = 3; import('%s'); print(x);"]).replace(b"%s", m)


MODULES = {"good.noja": b"v = 1; l = [1, 2]; fun get(self) return self.v, 2, 3;", "broken.noja": b"print('never'); v = = 2;", "failing.noja": b"l = [1]; print('failing'); error('in the module');",
           "nested.noja": b"g = import('good.noja'); v = g.v + 1; l = g.l; fun get(self) return g->get();", "counter.noja": b"i = 0; l = []; while i < 20: { append(l, i); i = i + 1; } v = i; fun get(self) { i = i + 1; return i; }", "data": b"data of the file"}


def scratch(env):
    d = env.scratch()
    if not os.path.exists(os.path.join(d, "good.noja")):
        os.chmod(d, 0o777)
        for n, t in MODULES.items():
            with open(os.path.join(d, n), "wb") as f: f.write(t)
            os.chmod(os.path.join(d, n), 0o644)
    return d


def program(s, names, exhaust=False):
    """(tree or None, text)"""
    c = s.below(17 if exhaust else 16)
    if c == 16:
        return None, s.choice([b"l = []; while true: append(l, [1, 2, {'a': l}]);", b"fun f() { l = []; while true: l = [l, 'some text', buffer.new(100)]; } f();",
                               b"s = 'abcdefgh'; while true: s = string.cat(s, s);", b"m = {}; i = 0; while true: { m[i] = [i]; i = i + 1; }"])
    if c < 4:
        p = Gen(s, budget=s.choice([8, 15, 25]), wrong=s.choice([60, 60, 10])).program(s.int(1, 5))
    elif c == 4:
        st = []
        for _ in range(s.int(1, 3)):
            nm = s.choice(names) if names and s.chance(3, 4) else s.choice(["x", "y", "a", "b", "n", "l", "f", "g", "i"])
            st.append(s.choice([Print(V(nm), Str("\n")), Set("q", V(nm)), ExprS(Call(V(nm))), Set("own", Int(1))]))
        p = Prog(*st)
    elif c == 5:
        text = b" ".join(s.choice([[b"x = ;"], [b"{ a = 1;"], [b"print('one'); y = = 2;"], [b"'open"], [b"break;"], [b"1 = 2;"], [b"a, b = 1;"], [b"(1, 2);"], [b"fun f( {"], [b"x = 1; @"], [b"x = 99999999999999999999;"]]))
        return None, text
    elif c == 6: p = Prog(*deep(s.int(0, 17)))
    elif c == 7: p = Prog(Print(Str("n")), Set("v", nest(s.int(1, 12))), Print(V("v")))
    elif c == 8: p = Prog(*[Print(Call(V("input")), Str("|")) for _ in range(s.int(1, 3))])
    elif c == 9:
        nm = s.choice(["print", "count", "append", "input", "type", "string", "buffer", "math", "map", "isnone", "min", "error", "assert", "import"])
        p = Prog(Set(nm, s.choice([NoneE(), Int(3), Str("mine"), List()])), s.choice([ExprS(Call(V("append"), List(), V(nm))), Print(V(nm)), Return(V(nm))]))
    elif c == 10:
        k = s.int(0, 13)
        p = Prog(Set("t", Int(k)), Fun("f", [("n", None, None)], Block(If(Bin("==", V("n"), Int(0)), ExprS(Call(V("error"), Str("stop%d" % k)))), Set("z", List(Int(1), Int(2), Call(V("f"), Bin("-", V("n"), Int(1)))))))
                 , ExprS(Call(V("f"), Int(k))), Print(Str("not here")))
    elif c == 11:
        nm = s.choice(["string", "buffer", "math", "files", "net", "random", "string", "buffer"])
        return None, ("%s.%s = %s; print(%s.%s); return 1;" % (nm, s.choice(["x", "new", "sin", "open"]), s.choice(["1", "none", "[1]"]), nm, s.choice(["x", "new", "sin", "open"]))).encode()
    elif c == 13:
        # many values going out
        vals = lambda: [s.choice([Int(i), Str("v%d" % i), List(Int(i)), NoneE(), Bool(True)]) for i in range(s.int(2, 8))]
        st = [Fun("many", [], Return(*vals())), ExprS(Asn([V("a"), V("b"), V("c")], Call(V("many")))), Print(V("a"), V("b"), V("c"))]
        st.append(s.choice([Return(*vals()), Return(*vals()), Return(Call(V("many"))), ExprS(Call(V("error"), Str("after"))), ExprS(Call(V("many")))]))
        p = Prog(*st)
    elif c == 14: return None, modtext(s)
    elif c == 15:
        # types and standard functions that could keep something
        return None, s.choice([b"b = buffer.new(%d); b[0] = %d; s = buffer.sliceUp(b, 0, 1); print(b, s); return b, s;" % (s.int(1, 9), s.int(0, 255)),
                               b"print(string.cat('a', toString(%d), 'b'), math.sqrt(%d.0), math.floor(2.5)); return int | none, [int], ?str;" % (s.int(0, 99), s.int(0, 9)),
                               b"f, e = files.openFile('%s', files.READ); print(type(f)); b = buffer.new(3); n = files.read(f, b, 3); print(n, b); error(toString(n));" % s.choice([b"missing", b"data", b"data"]),
                               b"d = files.openDir('.'); x = files.nextDirItem(d); print(x != none); return keysof({'a': 1});",
                               b"fun f(x: int, y: ?str = 'd') return x, y; print(f(%d)); print(f(1, %s));" % (s.int(0, 9), s.choice([b"none", b"'s'", b"3"]))])
    else:
        # values going out: closures and structures
        p = Prog(Set("x", List(Int(1), Map(("id", "k", Str("v"))))), Fun("g", [("w", None, None)], Block(Return(V("w")))), Return(V("x"), s.choice([V("g"), Int(7), Str("end")])) if s.chance(1, 2) else Return(V("x")))
    if max_need(p) > 14: return None, None
    for n in walk(p):
        if n.k == "=":
            for t in n.kids[:-1]:
                if t.k == "var" and t.v not in names: names.append(t.v)
    return p, render(p)


def way(s, env, i, text):
    """(operation, name shown in traces)"""
    c = s.below(4)
    if c == 0: return (SRC, NAME, text), NAME
    if c == 1: return (SRC, "prog%d" % i, text), "prog%d" % i
    if c == 2 and b"\0" not in text: return (CSTR, "str%d" % i, text), "str%d" % i
    d = env.scratch()
    os.chmod(d, 0o777)
    f = os.path.join(d, "f%d.noja" % i)
    with open(f, "wb") as h: h.write(text)
    os.chmod(f, 0o644)
    return (FILE, f, ""), f


def stdin_of(s):
    return b"".join(s.choice([b"one\n", b"two words\n", b"\n", b"last", b"\xc3\xa9\n"]) for _ in range(s.int(0, 8)))


def judge(i, op, p, text, o, alone, story):
    def bad(m, **k): raise Violation("run %d of the history %s" % (i, m), program=text, history=story, output=op.out, error=op.err, **k)
    if alone is not None:
        x, y = op, alone
        if norm(x.out) != norm(y.out): bad("prints something else than alone", alone=y.out)
        if x.ret != y.ret: bad("ends in an other way than alone", ret=x.ret, alone=y.ret, alone_error=y.err)
        if not x.ok and (x.err != y.err or x.trace != y.trace): bad("fails in an other way than alone", trace=x.trace, alone=y.err, alone_trace=y.trace)
        if x.ok and [norm(v) for v in x.vals] != [norm(v) for v in y.vals]: bad("returns something else than alone", values=x.vals, alone=y.vals)
    if o is not None:
        try: compare(op, o, text)
        except Violation as v:
            v.details["history"] = story
            raise


def history(s, env, slots=False):
    n = s.int(2, 7)
    names = []
    ops, info = [], []
    stdins = {0: stdin_of(s)}
    left = dict(stdins)
    cur = 0
    story = []
    gc = s.choice([0, 0, 0, 0, 11])
    heap = s.choice([0, 1 << 17, 1 << 16, 1 << 20])
    if gc: heap = 0
    for i in range(n):
        if slots and s.chance(2, 3):
            k = s.below(4)
            if k != cur:
                if k not in stdins: stdins[k] = left[k] = stdin_of(s)
                ops.append((SLOT, str(k), stdins[k])); info.append(None)
                story.append("-- runtime %d" % k)
                cur = k
        elif s.chance(1, 5):
            ops.append((NEWRT, "", "")); info.append(None)
            story.append("-- fresh runtime")
        p, text = program(s, names, heap in (1 << 16, 1 << 17))
        if text is None: continue
        op, name = way(s, env, i, text)
        o = None
        inp = left[cur]
        if p is not None:
            it = R.Interp(stdin=inp, name=name)
            try: o = it.run(p)
            except (R.Skip, RecursionError): raise Discard("model")
            left[cur] = inp[it.inpos:]
        ops.append(op)
        info.append((i, p, text, o, inp, op))
        story.append("-- %s\n%s" % (op[1], text.decode(errors="replace")))
    if not any(info): raise Discard("nothing to run")
    d = scratch(env)
    res = env.server().run(ops, stdin=stdins[0], heap=heap, gc_every=gc, cwd=d)
    text = "\n".join(story)
    check_clean(res, text, "the history of runs")
    if res.live: raise Violation("the history of runs leaves memory behind", history=text, live=res.live)
    if res.fds: raise Violation("the history of runs leaves descriptors open", history=text, descriptors=res.fds)
    if res.errs: raise Violation("output on the host's error stream", history=text, errors=res.errs)
    ran = 0
    for op, f in zip(res.ops, info):
        if f is None:
            if op.newrt == 0: raise Violation("no fresh runtime", history=text)
            continue
        i, p, t, o, inp, oper = f
        alone = None
        if p is None or s.chance(1, 3):
            r = env.server().run([oper], stdin=inp, heap=heap, gc_every=gc, cwd=d)
            check_clean(r, t)
            alone = r.ops[0]
            if op.errout: raise Violation("output on the host's error stream", history=text, errors=op.errout)
        judge(i, op, p, t, o, alone, text)
        ran += 1
        env.count("ends well" if op.ok else "fails")
    if ran >= 2: env.nontrivial(text)
    env.sample("several runtimes" if slots else "one process", text[:3000])


def run_same(s, env): history(s, env)
def run_slots(s, env): history(s, env, True)


def run_many(s, env):
    """The same few programs over and over in one runtime: the twentieth run is like the first."""
    progs = []
    for _ in range(s.int(1, 3)):
        p, t = program(s, [])
        if t is not None and (p is None or not any(n.k == "var" and n.v == "input" for n in walk(p))): progs.append((p, t))
    if not progs: raise Discard("nothing to run")
    seq = [s.choice(progs) for _ in range(s.int(20, 60))]
    res = env.server().run([(SRC, NAME, t) for _, t in seq], heap=s.choice([1 << 16, 1 << 18, 0]), cwd=scratch(env))
    check_clean(res, seq[0][1], "repeating programs")
    if res.live: raise Violation("repeating programs leaves memory behind", programs=[t for _, t in progs], live=res.live)
    first = {}
    for i, ((p, t), op) in enumerate(zip(seq, res.ops)):
        k = (op.ret, norm(op.out), op.err, op.trace, tuple(norm(v) for v in op.vals))
        if t not in first: first[t] = k
        elif first[t] != k: raise Violation("run %d of the same text differs from its first run" % i, program=t, first=first[t], now=k, others=[x for _, x in progs])
    env.nontrivial(*[t for _, t in seq])


def run_ways(s, env):
    """One program through the embedding interface and the command line."""
    names = []
    p, text = program(s, names)
    if text is None: raise Discard("too big")
    inp = stdin_of(s)
    d = scratch(env)
    os.chmod(d, 0o777)
    f = os.path.join(d, "prog.noja")
    with open(f, "wb") as h: h.write(text)
    os.chmod(f, 0o644)
    o = None
    if p is not None: o = ref_run(p, stdin=inp)
    outs = []
    for op, name in (((SRC, NAME, text), "source"), ((CSTR, NAME, text), "string"), ((FILE, f, ""), "file")):
        r = env.server().run([op], stdin=inp, cwd=d)
        check_clean(r, text)
        outs.append((name, r.ops[0].ok, r.ops[0].out, r.ops[0].err))
    heap = s.choice([[], ["-H", "300000"], ["--heap", "3000000"]])
    for args, name in ((["-i", text], "inline"), (["--inline", text], "--inline"), (["prog.noja"], "relative path"), ([f], "absolute path"), (["-p", "-o", os.path.join(d, "prof"), f], "profiled")):
        r = cli.noja(heap + args, d, stdin=inp)
        if r is None: raise Inconclusive("wall clock limit")
        if r.rc < 0: raise Violation("noja is killed", program=text, way=name, status=r.rc)
        outs.append((name, r.rc == 0, r.out, r.err))
        if (r.rc == 0) == bool(r.err): raise Violation("the status and the errors shown don't agree", program=text, way=name, status=r.rc, errors=r.err)
    if o is not None: outs.insert(0, ("model", o.ok, o.out, b""))
    for x in outs[1:]:
        if x[1] != outs[0][1] or norm(x[2]) != norm(outs[0][2]):
            raise Violation("the program does something else given as %s than as %s" % (x[0], outs[0][0]), program=text, one=outs[0], other=x)
    msgs = [(w, e.split(b"\n")[0]) for w, ok, _, e in outs if w != "model" and not ok]
    for w, e in msgs[1:]:
        if not e.strip() or e != msgs[0][1]: raise Violation("the failure is reported differently given as %s than as %s" % (w, msgs[0][0]), program=text, one=msgs[0][1], other=e)
    env.nontrivial(text)
    env.sample("front ends", text.decode(errors="replace"))


PHASES = [Phase("history", run_same, 4000, 80000), Phase("runtimes", run_slots, 3000, 60000), Phase("many", run_many, 600, 8000), Phase("ways", run_ways, 900, 12000)]
