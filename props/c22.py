from common import *
import os, cli, signal, subprocess, time, build

TITLE = "A host can stop a program at any instruction"
LEVEL = "fault_enumeration"
RULE = ("A case runs a generated program to its end recording how much it has printed before each instruction, then again stopping it at every instruction (of short programs; at a "
        "generated selection of long ones) by a refusing callback, by an interruption or both, also while the built-ins are loaded and inside imported modules; every stopped run must fail as "
        "a forced abortion with exactly the output of that point, no further callback, a printable stack trace and nothing left behind; non-trivial when it was stopped at 3 instructions or more.")
ASSUME = ["an interruption raised from within the callback may take effect before the instruction at hand or before the next one"]
VARIANTS = ["asan", "cli"]


def subject(s, d):
    """(operations, what to show)"""
    c = s.below(10)
    if c < 6: p = Gen(s, budget=s.choice([6, 12, 30, 60]), wrong=s.choice([200, 60, 20])).program(s.int(1, 7))
    elif c == 6:
        p = Prog(Fun("f", [("n", None, None)], Block(Print(Var("n"), Str(" ")), If(Bin(">", Var("n"), Int(0)), ExprS(Call(Var("f"), Bin("-", Var("n"), Int(1))))), Print(Str("out\n")), Return(List(Var("n"), Int(1))))),
                 Print(Call(Var("f"), Int(s.int(0, 12)))))
    elif c == 7:
        # imports: the module prints, calls and may fail
        m = Gen(s, budget=15, wrong=s.choice([60, 10])).program(s.int(1, 4))
        m.kids.insert(0, Print(Str("module\n")))
        with open(os.path.join(d, "m.noja"), "wb") as f: f.write(render(m))
        os.chmod(os.path.join(d, "m.noja"), 0o644)
        p = Prog(Print(Str("start\n")), Set("m", Call(Var("import"), Str("m.noja"))), Print(Var("m")), Print(Str("end\n")))
    elif c == 8:
        # the program holds files and directories open
        p = Prog(Set("d", Call(Dot(Var("files"), "openDir"), Str("."))), Set("f", Call(Dot(Var("files"), "openFile"), Str("m.noja"), Dot(Var("files"), "READ"))),
                 Set("i", Int(0)), While(Bin("<", Var("i"), Int(s.int(1, 6))), Block(Print(Var("i")), Set("x", Call(Dot(Var("files"), "nextDirItem"), Var("d"))), Set("i", Bin("+", Var("i"), Int(1))))))
        with open(os.path.join(d, "m.noja"), "wb") as f: f.write(b"x = 1;")
    else:
        p = Prog(Set("l", List()), Set("i", Int(0)), While(Bin("<", Var("i"), Int(s.int(1, 40))), Block(ExprS(Call(Var("append"), Var("l"), List(Var("i"), Str("some text")))),
                 Set("b", Call(Dot(Var("buffer"), "new"), Int(s.choice([10, 3000])))), Print(Call(Var("count"), Var("l")), Str(",")), Set("i", Bin("+", Var("i"), Int(1))))), Return(Var("l")))
    return p


def points(s, n, limit):
    if n <= limit: return list(range(n))
    ks = {0, 1, n - 1, n - 2, n // 2}
    for _ in range(limit): ks.add(s.below(n))
    return sorted(ks)


def check_stop(res, k, mode, base, full, text, pre=False):
    """res: the run stopped at instruction k (counted from the very first one)."""
    def bad(m, **x): raise Violation(m, program=text, instruction=k, how={1: "refusing callback", 2: "interruption", 3: "both"}[mode], output=res.out, **x)
    check_clean(res, text, "stopping the program at instruction %d" % k)
    if res.live: bad("a stopped run leaves memory behind", live=res.live)
    if res.fds: bad("a stopped run leaves descriptors open", descriptors=res.fds)
    if res.stopped != 1: bad("the program doesn't get to the instruction it's stopped at")
    N = base.icount
    if pre:
        op = res.pre
        if op.newrt != 0: bad("the runtime is made although loading its built-ins was stopped")
    else: op = res.ops[0]
    pos = [base.outpos[k]]
    if mode == 2:
        if k + 1 < N: pos.append(base.outpos[k + 1])
        else: pos.append(len(full))
    if len(res.out) not in pos or not full.startswith(res.out): bad("the output isn't what was printed up to there", expected=full[:pos[0]], whole=full)
    last = k == N - 1
    if mode == 2 and last and res.icount == N and (op.ok, op.err, op.vals) == (base.ops[0].ok, base.ops[0].err, base.ops[0].vals): return
    if op.ok: bad("a stopped run succeeds")
    if b"Forced abortion" not in (op.err or b""): bad("the stop isn't reported as a forced abortion", error=op.err)
    if res.icount > k + (2 if mode == 2 else 1): bad("the program goes on after being stopped", instructions=res.icount)
    if not pre and not (op.trace or b"").startswith(b"Stack trace:"): bad("no stack trace after a stop", trace=op.trace)


def run_points(s, env):
    d = env.scratch()
    os.chmod(d, 0o755)
    p = subject(s, d)
    if max_need(p) > 14: raise Discard("needs too many pending values")
    text = render(p)
    f = os.path.join(d, "prog.noja")
    with open(f, "wb") as h: h.write(text)
    os.chmod(f, 0o644)
    op = (FILE, f, "") if s.chance(1, 3) or any(n.k == "var" and n.v == "import" for n in walk(p)) else (SRC, NAME, text)
    heap = s.choice([0, 0, 16384])
    stdin = b"a line\nan other\n"
    kw = dict(stdin=stdin, cwd=d, heap=heap)
    env_srv = env.server()
    base = env_srv.run([op], flags=runner.F_OUTPOS, steps=20000, **kw)
    check_clean(base, text)
    if base.stopped == 2: raise Discard("runs for too long")
    full = base.out
    # a callback that agrees changes nothing
    free = env_srv.run([op], flags=runner.F_NOCALLBACK, **kw)
    check_clean(free, text)
    a, b = base.ops[0], free.ops[0]
    if (norm(a.out), a.ret, a.err, a.trace, [norm(v) for v in a.vals]) != (norm(b.out), b.ret, b.err, b.trace, [norm(v) for v in b.vals]):
        raise Violation("a callback that always agrees changes the run", program=text, with_callback=a.out, without=b.out, error=a.err, error_without=b.err)
    start = base.icount - a.instrs
    ks = points(s, a.instrs, 30 if env.tier == "quick" else 150)
    again = s.chance(1, 3)
    for j, k in enumerate(ks):
        mode = 1 + (j + s.below(3)) % 3
        ops = [op] + ([op] if again and mode == 1 else [])
        r = env_srv.run(ops, stop_at=start + k, stop_mode=mode, flags=runner.F_PROFILE if j % 7 == 3 else 0, gc_every=5 if j % 11 == 4 else 0, **kw) if len(ops) == 1 else \
            env_srv.run(ops, stop_at=start + k, stop_mode=mode, **kw)
        if len(ops) == 2:
            # the runtime can be used again after a callback has refused
            c = r.ops[1]
            check_clean(r, text, "running again after a stop")
            if b"input" not in text and ((norm(c.out), c.ret, c.err) != (norm(a.out), a.ret, a.err)):
                raise Violation("after a stopped run the same program does something else", program=text, instruction=k, expected=a.out, output=c.out, error=c.err)
            r.out = r.ops[0].out or b""
            r.icount -= c.instrs
        check_stop(r, start + k, mode, base, full, text)
    env.count("stopped runs", len(ks))
    if len(ks) >= 3: env.nontrivial(text)
    env.count("all instructions" if len(ks) == a.instrs else "a selection of instructions")
    env.sample("program", text.decode(errors="replace")[:2500])


def run_prelude(s, env):
    """Every instruction of loading the built-ins, each way of stopping."""
    base = env.server().run([(SRC, NAME, b"print('never');")], flags=runner.F_OUTPOS)
    check_clean(base, b"")
    n = base.icount - base.ops[0].instrs
    k, mode = s.index // 3, 1 + s.index % 3
    if k >= n + (1 if False else 0): raise Discard("the built-ins take fewer instructions")
    r = env.server().run([(SRC, NAME, b"print('never');")], stop_at=k, stop_mode=mode)
    if mode == 2 and k == n - 1 and r.ops and not r.pre.err:
        # noticed when the program itself starts
        check_clean(r, b"")
        if r.ops[0].ok or b"Forced abortion" not in r.ops[0].err or r.out: raise Violation("an interruption is lost", instruction=k, output=r.out)
    else:
        check_stop(r, k, mode, base, b"", b"(built-ins)", pre=True)
    env.nontrivial(k, mode)


LOOPS = [b"i = 0; while true: { print(i, '\\n'); i = i + 1; j = 0; while j < 2000: j = j + 1; }", b"fun f(n) { i = 0; while i < 3000: { i = i + 1; } print(n, '\\n'); return n + 1; } n = 0; while true: n = f(n);",
         b"print('0\\n'); while true: { }", b"i = 0; do { l = [1, 2, 3]; append(l, i); b = buffer.new(100); print(i, '\\n'); i = i + 1; j = 0; while j < 2000: j = j + 1; } while true;",
         b"fun f() while true: { x = 1; } print('0\\n'); fun g() f(); g();", b"print('0\\n'); import('loop.noja');"]


def run_signal(s, env):
    """The command line program is stopped by signals."""
    d = env.scratch()
    os.chmod(d, 0o777)
    cli.write(os.path.join(d, "loop.noja"), b"while true: { x = [1]; }")
    i = s.below(len(LOOPS))
    text = LOOPS[i]
    cli.write(os.path.join(d, "p.noja"), text)
    sig = s.choice([signal.SIGINT, signal.SIGTERM])
    inline = s.chance(1, 2)
    prof = s.chance(1, 4)
    kw = {}
    if os.geteuid() == 0: kw = {"user": 65534, "group": 65534, "extra_groups": []}
    of = open(os.path.join(d, "out"), "wb"); ef = open(os.path.join(d, "err"), "wb")
    p = subprocess.Popen([build.build("cli")] + (["-p"] if prof else []) + (["-i", text] if inline else ["p.noja"]), cwd=d, stdin=subprocess.DEVNULL, stdout=of, stderr=ef, preexec_fn=cli._drop, **kw)
    try:
        # wait until the handlers are in place
        t0 = time.time()
        while time.time() - t0 < 60:
            try: st = open("/proc/%d/status" % p.pid).read()
            except OSError: break
            m = [l for l in st.split("\n") if l.startswith("SigCgt")]
            if m and int(m[0].split()[1], 16) >> (sig - 1) & 1: break
            if p.poll() is not None: break
            time.sleep(0.002)
        time.sleep(s.choice([0, 0.002, 0.01, 0.03, 0.08]))
        if p.poll() is not None: raise Violation("noja ends by itself", program=text, status=p.returncode)
        p.send_signal(sig)
        try: p.wait(15)
        except subprocess.TimeoutExpired:
            raise Violation("noja doesn't stop when it's signalled", program=text, signal=sig)
    finally:
        if p.poll() is None:
            p.kill(); p.wait()
        of.close(); ef.close()
    out, err = open(os.path.join(d, "out"), "rb").read(), open(os.path.join(d, "err"), "rb").read()
    if p.returncode <= 0 or b"Forced abortion" not in err: raise Violation("a signalled run must end with a forced abortion", program=text, status=p.returncode, errors=err)
    if len(out) > 1 << 22: raise Violation("a signalled run goes on printing", program=text, printed=len(out))
    want = b"".join(b"%d\n" % k for k in range(out.count(b"\n") + 1))
    if not want.startswith(out): raise Violation("a signalled run printed something else", program=text, output=out[-500:])
    env.nontrivial(text, sig, inline, prof, s.rec[-1])
    env.sample("signal", text.decode())


def count_straight(ins, i, calls):
    """Instructions executed from index i to the end of the function, following jumps; calls[k] is what the k-th call adds."""
    n = 0
    seen = set()
    while True:
        if i in seen or i >= len(ins): return None
        seen.add(i)
        op, args = ins[i]
        n += 1
        if op == "JUMP": i = int(args[0][1:]); continue
        if op.startswith("JUMPIF"): return None
        if op in ("RETURN", "EXIT", "ERROR"): return n
        if op == "CALL": n += calls.pop(0) if calls else 0
        i += 1


def run_counted(s, env):
    """Straight programs: the callback is consulted before every single instruction."""
    names = ["x", "y", "z"]
    g = Gen(s, budget=10, wrong=1 << 30)
    funs = s.below(3)
    st = []
    for k in range(funs):
        st.append(Fun("f%d" % k, [("p", None, None)], Block(*([Set("q", Bin("+", Var("p"), Int(1)))] * s.int(0, 3) + [Return(List(Var("p")))] * s.int(0, 1)))))
    order = []
    for _ in range(s.int(1, 6)):
        if funs and s.chance(1, 2):
            k = s.below(funs); order.append(k)
            st.append(ExprS(Call(Var("f%d" % k), Int(s.int(0, 9)))))
        else: st.append(s.choice([lambda: Set(s.choice(names), Int(s.int(0, 9))), lambda: Set("l", List(Int(1), List(Str("a")))), lambda: ExprS(Bin("*", Int(2), Bin("-", Int(3), Int(1)))),
                                  lambda: ExprS(Map(("id", "a", Int(1)))), lambda: ExprS(Un("neg", Int(4)))])())
    text = render(Prog(*st))
    res = env.server().run([(COMPILE, NAME, text), (SRC, NAME, text)])
    check_clean(res, text)
    ins = []
    for l in res.ops[0].listing.decode().split("\n"):
        if l: ins.append((l.split("\t")[0], l.split("\t")[1:]))
    bodies = [int(a[0][1:]) for op, a in ins if op == "PUSHFUN"]
    want = count_straight(ins, 0, [count_straight(ins, bodies[k], []) for k in order])
    if want is None: raise Discard("not straight")
    got = res.ops[1].instrs
    if got != want: raise Violation("the host isn't consulted before every instruction", program=text, instructions=want, consulted=got)
    if order: env.nontrivial(text)
    env.sample("counted", text.decode())


PHASES = [Phase("counted", run_counted, 1500, 20000), Phase("points", run_points, 1500, 30000), Phase("prelude", run_prelude, 600, 600, enum=True), Phase("signal", run_signal, 120, 1500)]
