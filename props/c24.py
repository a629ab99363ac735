from common import *
import os, shutil
import c22, c23, c26, c02

TITLE = "Freeing a runtime releases everything it acquired"
RULE = ("A case ends runs in a generated way (to the end, failing, stopped by the host or the step limit, not compiling, not assembling, out of heap, with files, directories and modules in use, "
        "one or several runs and runtimes) and counts every block and descriptor after the runtime is freed; or it runs a generated function with bounded live data many and many more times "
        "and compares the peak memory; non-trivial when the program got to run or its rejection was judged.")
ASSUME = ["memory is what the interpreter asks of malloc and its family, counted exactly by wrappers", "profiling keeps one record per function object and is left out of the bounded-memory part"]
VARIANTS = ["asan", "rel"]


def gone(res, text, how):
    check_clean(res, text)
    if res.live: raise Violation("memory isn't released", program=text, ending=how, blocks=res.live, bytes=res.live_bytes, first=res.first_leak)
    if res.fds: raise Violation("files or directories stay open", program=text, ending=how, descriptors=res.fds)


def files_program(s):
    """Opens things and loses them in various ways."""
    F = lambda n, *a: Call(Dot(Var("files"), n), *a)
    st = [Set("keep", List())]
    for i in range(s.int(1, 8)):
        e = s.choice([lambda: F("openFile", Str("m.noja"), Dot(Var("files"), "READ")), lambda: F("openDir", Str(".")), lambda: F("openFile", Str("out%d" % i), Dot(Var("files"), "WRITE")),
                      lambda: F("openFile", Str("missing"), Dot(Var("files"), "READ")), lambda: F("openDir", Str("missing"))])()
        c = s.below(6)
        if c == 0: st.append(ExprS(e))
        elif c == 1: st.append(Set("x", e))
        elif c == 2: st.append(ExprS(Call(Var("append"), Var("keep"), e)))
        elif c == 3: st.append(Set("m", Map(("id", "f", e))))
        elif c == 4: st += [Fun("g%d" % i, [], Block(Set("y", e), Return(Int(1)))), ExprS(Call(Var("g%d" % i)))]
        else: st += [Set("i", Int(0)), While(Bin("<", Var("i"), Int(s.int(1, 30))), Block(Set("x", e), Set("b", Call(Dot(Var("buffer"), "new"), Int(s.choice([10, 4000])))), Set("i", Bin("+", Var("i"), Int(1)))))]
    c = s.below(4)
    if c == 1: st.append(ExprS(Call(Var("error"), Str("end"))))
    elif c == 2: st.append(Return(Var("keep")))
    elif c == 3: st.append(ExprS(Bin("+", Int(1), Str("x"))))
    return Prog(*st)


MODULES = {"m.noja": b"fun f(x) { return [x]; } v = {'a': f};", "syntax.noja": b"x = ;", "token.noja": b"x = 1; y = 'open", "long.noja": b"x = 1;\n" * 3000 + b"}",
           "number.noja": b"x = 99999999999999999999999;", "loop.noja": b"while true { }", "break.noja": b"if true: break;", "fails.noja": b"l = [1, 2]; error('in module');",
           "self.noja": b"import('self.noja');", "chain.noja": b"import('chain2.noja');", "chain2.noja": b"f = files.openFile('m.noja', files.READ); import('syntax.noja');",
           "empty.noja": b"", "rets.noja": b"return 1, [2], {'k': 3};", "lost.noja": b"import('missing.noja');", "args.noja": b"import(3);",
           "keeps.noja": b"f = files.openFile('m.noja', files.READ); fun g() { return f; }", "big.noja": b"".join(b"fun f%d(a, b) { return [a, b, 'text %d']; }\n" % (i, i) for i in range(400))}


def modules(d):
    for n in os.listdir(d): os.unlink(os.path.join(d, n))
    for n, t in MODULES.items():
        with open(os.path.join(d, n), "wb") as f: f.write(t)
        os.chmod(os.path.join(d, n), 0o644)


def imports_program(s):
    """Imports scripts that work, and scripts that fail in every way."""
    st = [Set("keep", List())]
    for i in range(s.int(1, 6)):
        e = Call(Var("import"), Str(s.choice(sorted(MODULES) + ["missing.noja", ".", "m.noja/x", "n" * 1100, ""])))
        c = s.below(5)
        if c == 0: st.append(ExprS(e))
        elif c == 1: st.append(Set("x", e))
        elif c == 2: st.append(ExprS(Call(Var("append"), Var("keep"), e)))
        elif c == 3: st += [Fun("g%d" % i, [], Block(Set("y", List(Int(1))), Return(e))), Set("z", Call(Var("g%d" % i)))]
        else: st += [Set("i", Int(0)), While(Bin("<", Var("i"), Int(s.int(1, 12))), Block(Set("x", e), Set("i", Bin("+", Var("i"), Int(1)))))]
    return Prog(*st)


def any_text(s, d):
    """A program of any kind; also texts that don't compile."""
    c = s.below(11)
    if c < 2: p = c22.subject(s, d)
    elif c == 2: p = Gen(s, budget=50, wrong=s.choice([60, 15, 8])).program(s.int(1, 8))
    elif c in (3, 4): p = files_program(s)
    elif c == 5: p = c26.program(s) if hasattr(c26, "program") else Gen(s, budget=30, wrong=60).program(3)
    elif c == 6:
        t = bytearray(render(Gen(s, budget=30, wrong=60).program(s.int(1, 5))))
        for _ in range(s.int(1, 3)):
            i = s.below(max(1, len(t)))
            k = s.below(3)
            if k == 0: del t[i:i + s.int(1, 5)]
            elif k == 1: t[i:i] = s.choice([b"(", b")", b"}", b"{", b"=", b"'", b"@", b"else", b"fun", b",", b":", b"1.5e", b"\xff"])
            else: del t[i:]
        return bytes(t)
    elif c in (9, 10): p = imports_program(s)
    elif c == 7: return s.choice([b"l = []; while true: append(l, [1, 2, {'a': l}]);", b"fun f() { l = []; while true: l = [l, 'some text', buffer.new(100)]; } f();", b"m = {}; i = 0; while true: { m[i] = fun() { return m; }; i = i + 1; }",
                                  b"fun f(n) { x = [n]; return f(n + 1); } f(0);", b"[1, 2, [3, 4, [5, [6, [7, [8, [9, [10, [11, 12, 13, 14, 15, 16, 17, 18]]]]]]]]]];"])
    else:
        p = Prog(Fun("f", [("n", None, None)], Block(Set("l", List(Var("n"), Str("x"))), If(Bin("<", Var("n"), Int(s.int(0, 14))), Return(Call(Var("f"), Bin("+", Var("n"), Int(1))))), ExprS(Call(Var("error"), Str("deep"))))), ExprS(Call(Var("f"), Int(0))))
    if max_need(p) > 14: raise Discard("needs too many pending values")
    return render(p)


def run_endings(s, env):
    d = env.scratch()
    os.chmod(d, 0o777)
    modules(d)
    ops, shown = [], []
    for i in range(s.weighted([(5, 1), (2, 2), (1, 4)])):
        t = any_text(s, d)
        c = s.below(10)
        if c < 5: op = (SRC, "p%d" % i, t)
        elif c == 5:
            f = os.path.join(d, "p%d.noja" % i)
            with open(f, "wb") as h: h.write(t)
            os.chmod(f, 0o644)
            op = (FILE, f, "")
        elif c == 6: op = s.choice([(FILE, os.path.join(d, "nothing"), ""), (FILE, d, ""), (ASMFILE, os.path.join(d, "nothing"), ""), (SRC, NAME, b"")])
        elif c == 7:
            r = env.server().run([(COMPILE, NAME, t)])
            check_clean(r, t)
            if not r.ops[0].ok: op = (COMPILE, NAME, t)
            else:
                a = bytearray(c23.asm_of(r.ops[0].listing))
                if s.chance(1, 3) and a:
                    k = s.below(len(a))
                    a[k:k + 1] = s.choice([b"", b";", b"!", b"label:", b"\"", b"POP 1;", b"zzz"])
                    op = (ASSEMBLE, NAME, bytes(a))
                else: op = (ASM, NAME, bytes(a))
        elif c == 8:
            k = s.choice([DIAG, COMPILE, DIAGFILE, ASMFILE])
            if k in (DIAG, COMPILE): op = (k, "", t)
            else:
                f = os.path.join(d, "q%d.noja" % i)
                with open(f, "wb") as h: h.write(t if k == DIAGFILE or s.chance(1, 2) else s.choice([b"PUSHINT 1; RETURN 1;", b"EXIT", b"PUSHVAR \"print\"; CALL 0, 1; EXIT;", b"l: JUMP m;", b""]))
                os.chmod(f, 0o644)
                op = (k, f if s.chance(5, 6) else f + "x", "")
        else: op = (CSTR, "str", t)
        if s.chance(1, 6): ops.append((NEWRT, "", "")); shown.append("-- fresh runtime")
        ops.append(op)
        shown.append("-- %s\n%s" % (op[1], (op[2] or b"").decode(errors="replace") if op[2] else ""))
    text = "\n".join(shown)
    kw = {}
    how = "by itself"
    c = s.below(6)
    if c == 1: kw = dict(stop_at=s.int(0, 400), stop_mode=s.int(1, 3)); how = "stopped by the host"
    elif c == 2: kw = dict(gc_every=s.int(1, 9)); how = "collecting often"
    elif c == 3: how = "in a small heap"
    heap = s.choice([8000, 12000, 20000]) if c == 3 else s.choice([0, 1 << 17])
    r = env.server().run(ops, cwd=d, heap=heap, steps=20000, stdin=b"one\ntwo\n", flags=s.choice([0, 0, 0, runner.F_PROFILE, runner.F_NOBUILTINS]), **kw)
    gone(r, text, how)
    for o in r.ops: env.count("ended well" if o.ok else "ended with an error" if o.ret is not None else "other")
    env.count("ended " + how)
    env.nontrivial(text, how, heap)
    env.sample(how, text[:1500])


GARBAGE = ["[i, [i, 'text']]", "{'a': i, 'b': [i]}", "buffer.new(200)", "string.cat('abc', toString(i), 'def')", "fun_()", "buffer.toString(buffer.new(50))", "[1, 2, 3, 4, 5, 6, 7, 8]",
           "buffer.sliceUp(buffer.new(100), 10, 20)", "import('m.noja')", "files.openDir('.')", "{1: {2: {3: i}}}", "string.slice('some longer text', 2, 5)", "keysof({'x': 1, 'y': 2})", "[i, 'a'] == [i, 'a']",
           "type([1])", "int | none", "?int", "[int]"]


def bounded_text(s, n):
    """A function whose calls leave nothing behind, or a bounded ring of values, called n times."""
    c = s.below(4)
    pre, body = [], []
    if c < 2:
        body += ["x%d = %s;" % (k, s.choice(GARBAGE)) for k in range(s.int(1, 5))]
    if c >= 1:
        size = s.int(1, 12)
        pre += ["ring = [%s];" % ", ".join(["none"] * size), "mp = {};"]
        body += ["ring[i %% %d] = %s;" % (size, s.choice(GARBAGE)), "mp[i %% %d] = %s;" % (s.int(1, 9), s.choice(GARBAGE))]
        if s.chance(1, 3): body.append("ring[(i + 1) %% %d] = ring;" % size)
        if s.chance(1, 3): body.append("old = ring[(i + %d) %% %d];" % (s.int(0, 5), size))
    if s.chance(1, 3): body.append("fun inner(p) { return [p, i]; } y = inner(i);")
    if s.chance(1, 3): body.append("l = []; j = 0; while j < %d: { append(l, [j]); j = j + 1; }" % s.choice([3, 20, 70]))
    if s.chance(1, 4): body.append("m = {}; j = 0; while j < %d: { m[j] = 'v'; j = j + 1; }" % s.choice([3, 20, 40]))
    if s.chance(1, 4): body.append("if i % 7 == 3: print('x');")
    return ("fun fun_() { return fun_; } " + " ".join(pre) + " i = 0; fun work(i, ring, mp) { " + " ".join(body) + " } while i < %d: { work(i, " % n + ("ring, mp" if c >= 1 else "none, none") + "); i = i + 1; }").replace("i % ", "i % ").encode()


def run_bounded(s, env):
    """Peak memory doesn't depend on how long the program runs."""
    d = env.scratch()
    os.chmod(d, 0o755)
    with open(os.path.join(d, "m.noja"), "wb") as f: f.write(b"fun f(x) { return [x]; } v = {'a': f};")
    os.chmod(os.path.join(d, "m.noja"), 0o644)
    rec0 = len(s.rec)
    heap = s.choice([1 << 14, 1 << 15, 1 << 16])
    text = bounded_text(s, 40)
    choices = s.rec[rec0 + 1:]
    again = lambda n: bounded_text(Src(ch=list(choices)), n)
    kw = dict(cwd=d, heap=heap, steps=40000000)
    srv = env.server("rel")
    probe = srv.run([(SRC, NAME, text)], **kw)
    check_clean(probe, text)
    if not probe.ops[0].ok:
        if b"Out of heap" in probe.ops[0].err: raise Discard("doesn't fit in the heap")
        raise Violation("the bounded program fails", program=text, error=probe.ops[0].err)
    per = max(1, probe.ops[0].instrs // 40)
    n1 = max(100, min(4000, 60000 // per))
    a = srv.run([(SRC, NAME, again(n1))], **kw)
    b = srv.run([(SRC, NAME, again(6 * n1))], **kw)
    for r in (a, b):
        check_clean(r, text)
        gone(r, text, "after a long run")
        if not r.ops[0].ok: raise Violation("a longer run of a program with bounded data fails", program=text, error=r.ops[0].err, calls=n1)
    if b.peak > a.peak + heap // 4 + 20000: raise Violation("memory grows with the length of the run", program=again(6 * n1), heap=heap, calls=(n1, 6 * n1), peak=(a.peak, b.peak))
    env.nontrivial(text, heap)
    env.count("peak under %d times the heap" % (1 + b.peak // heap))
    env.sample("bounded", text.decode())


def run_absolute(s, env):
    """Garbage of any amount in a heap of any size: never more than a few heaps of memory."""
    heap = s.choice([10000, 20000, 50000, 100000, 400000])
    size = s.choice([1, 100, 1000])
    unit = s.choice(["[1, 2, 3]", "buffer.new(%d)" % size, "'some text'", "{'k': [1]}", "string.cat('ab', 'cd')"])
    text = ("i = 0; while i < %d: { x = %s; i = i + 1; }" % (heap // 4, unit)).encode()
    empty = env.server("rel").run([(SRC, NAME, b"i = 0;")], heap=heap)
    r = env.server("rel").run([(SRC, NAME, text)], heap=heap, steps=40000000)
    gone(r, text, "after a long run")
    if not r.ops[0].ok: raise Violation("a program that keeps nothing fails", program=text, error=r.ops[0].err)
    # the heap, its copy while collecting (each with what one instruction put beyond its end)
    # (the bytes of buffers are beside the heap: no more buffers than the heap has room for)
    outside = size * (heap // 150) if "buffer" in unit else 0
    if r.peak > empty.peak + 2 * heap + 40000 + outside: raise Violation("a program that keeps nothing uses more memory than its heap allows", program=text, heap=heap, peak=r.peak, started_with=empty.peak)
    env.nontrivial(text, heap)
    env.sample("absolute", text.decode())


PHASES = [Phase("endings", run_endings, 6000, 150000), Phase("bounded", run_bounded, 300, 4000), Phase("absolute", run_absolute, 100, 600)]
