from common import *
import os, re, resource, cli

TITLE = "Profiling observes without interfering"
RULE = ("A case runs a generated program (calls of every kind: recursion, methods, closures made in loops, callbacks, defaults, failing calls, several programs in one runtime, collections "
        "in between) with and without profiling and requires identical behaviour; the profile's call counts must be those of the reference interpreter; "
        "through the command line as well, with and without an output file; non-trivial when at least one function was called.")
ASSUME = ["the profile has one entry for each function object that was called", "entries of the built-in prelude aren't compared", "a function's time is the processor time between its calls and returns, so that of a nested call is part of its caller's; compared with the processor time of the whole process with 25 ms of tolerance"]
VARIANTS = ["asan", "cli"]
LINE = re.compile(rb"^ *(\S+) - (.*) - (\d+) calls - (\d+\.\d\d)us$")


def parse_profile(t):
    """[(function, source, calls)] of the program's own functions."""
    out = []
    for l in (t or b"").split(b"\n"):
        if not l: continue
        m = LINE.match(l)
        if not m: raise Violation("a line of the profile can't be read", line=l)
        if m.group(2) == b"<prelude>": continue
        out.append((m.group(1).decode(), m.group(2).decode(), int(m.group(3))))
    return out


def model_profile(I):
    return sorted((f.name or "???", f.src or NAME, f.calls) for f in I.funcs if f.calls)


def model(p, **kw):
    I = R.Interp(**kw)
    try: o = I.run(p)
    except R.Skip as e: raise Discard("model: " + str(e))
    except RecursionError: raise Discard("model: recursion")
    return I, o


def same(a, b, text):
    if (norm(a.out), a.ok, a.err, a.trace, [norm(v) for v in a.vals]) != (norm(b.out), b.ok, b.err, b.trace, [norm(v) for v in b.vals]):
        raise Violation("profiling changes what the program does", program=text, plain=(a.ok, a.out, a.err, a.trace, a.vals), profiled=(b.ok, b.out, b.err, b.trace, b.vals))


def check(ps, env, what, **kw):
    """Programs run one after the other in one runtime."""
    texts, want, outs = [], [], []
    # The prelude calls itself <prelude>; any other name is just a name.
    names = [ODD_NAMES[(i + len(render(p))) % len(ODD_NAMES)] if len(render(p)) % 3 == 0 else NAME for i, p in enumerate(ps)]
    for p, name in zip(ps, names):
        if max_need(p) > 14: raise Discard("needs too many pending values")
        texts.append(render(p))
        I, o = model(p, name=name)
        if "call-limit" in o.classes: raise Discard("call limit")
        want += model_profile(I)
        outs.append(o)
    ops = [(SRC, n, t) for n, t in zip(names, texts)] + [(PROFILE, "", "")]
    x = env.server().run(ops, **kw)
    y = env.server().run(ops, flags=runner.F_PROFILE, **kw)
    text = b"\n---\n".join(texts)
    for r in (x, y): check_clean(r, text)
    for a, b, o in zip(x.ops, y.ops, outs):
        same(a, b, text)
        compare(b, o, text)
    if x.ops[-1].profile: raise Violation("a profile without profiling", program=text, profile=x.ops[-1].profile)
    got = sorted(parse_profile(y.ops[-1].profile))
    want.sort()
    if got != want: raise Violation("the profile's counts differ from the calls made", program=text, expected=want, got=got)
    if y.live or y.fds: raise Violation("memory or descriptors left after profiling", program=text, live=y.live)
    if want: env.nontrivial(text)
    env.count("functions in profiles", len(want))
    env.count("ends well" if outs[-1].ok else "aborts")
    env.sample(what, text.decode(errors="replace") + "\n--- profile\n" + "\n".join(map(str, got)))


def run_random(s, env):
    check([Gen(s, budget=60, wrong=40).program(s.int(3, 14))], env, "whole program", gc_every=s.choice([0, 0, 0, 5]), heap=0)


def calls(s):
    """A program that is mostly calls."""
    ss = []
    n = s.int(1, 4)
    kinds = {}
    for i in range(n):
        f = "fn%d" % i
        c = s.below(8)
        kinds[f] = c
        if c == 0: ss.append(Fun(f, [("x", None, None)], Return(Bin("+", Var("x"), Int(1)))))
        elif c == 1: ss.append(Fun(f, [("x", None, Int(3))], Block(If(Bin("<=", Var("x"), Int(0)), Return(Int(0))), Return(Bin("+", Int(1), Call(Var(f), Bin("-", Var("x"), Int(1))))))))
        elif c == 2: ss.append(Fun(f, [("x", None, None)], Block(Fun("inner", [("y", None, None)], Return(Bin("*", Var("y"), Int(2)))), Return(Bin("+", Call(Var("inner"), Var("x")), Call(Var("inner"), Int(1)))))))
        elif c == 3: ss.append(Fun(f, [("x", Var("int"), Int(2))], Return(Var("x"))))
        elif c == 4: ss.append(Fun(f, [("x", None, None)], Block()))
        elif c == 5 and i: ss.append(Fun(f, [("x", None, None)], Block(ExprS(Call(Var("fn%d" % s.below(i)), Int(s.int(0, 3)))), Return(Int(5)))))
        elif c == 6: ss.append(Fun(f, [("x", None, Int(1))], Return(Call(Var("apply"), Var("x")), Int(2))))
        else: ss.append(Fun(f, [], Return(Int(7))))
    ss.insert(0, Fun("apply", [("v", None, None)], Return(Var("v"))))
    ss.append(Set("o", Map(("id", "n", Int(1)), ("fun", "get", [("self", None, None)], Return(Dot(Var("self"), "n"))), ("fun", "set", [("self", None, None), ("v", None, None)], ExprS(Asn([Dot(Var("self"), "n")], Var("v")))))))
    ss.append(Fun("mk", [("k", None, None)], Block(Fun("made", [], Return(Var("k"))), Return(Var("made")))))
    ss.append(Fun("twice", [("f", None, None), ("v", None, None)], Block(ExprS(Call(Var("f"), Var("v"))), Return(Call(Var("f"), Var("v"))))))
    for _ in range(s.int(2, 10)):
        c = s.below(9)
        f = "fn%d" % s.below(n)
        if c < 3: ss.append(ExprS(Call(Var(f), Int(s.int(0, 5)))))
        elif c == 3:
            i = "i%d" % len(ss)
            ss += [Set(i, Int(0)), While(Bin("<", Var(i), Int(s.int(0, 12))), Block(ExprS(Call(Var(f), Int(s.int(0, 2)))), Set(i, Bin("+", Var(i), Int(1)))))]
        elif c == 4: ss.append(Print(MCall(Var("o"), "get")) if s.chance(1, 2) else ExprS(MCall(Var("o"), "set", Int(s.int(0, 9)))))
        elif c == 5:
            i = "i%d" % len(ss)
            ss += [Set(i, Int(0)), While(Bin("<", Var(i), Int(s.int(0, 5))), Block(Set("c", Call(Var("mk"), Var(i))), ExprS(Call(Var("c"))), If(Bin(">", Var(i), Int(s.int(0, 3))), ExprS(Call(Var("c")))), Set(i, Bin("+", Var(i), Int(1)))))]
        elif c == 6: ss.append(ExprS(Call(Var("twice"), Var(s.choice([f, "apply"])), Int(s.int(0, 4)))))
        elif c == 7: ss.append(Fun(f, [("x", None, Int(0))], Return(Int(s.int(0, 9)))))     # a second function with that name
        else: ss.append(Set("g", Var(f)))
    if s.chance(1, 5):
        ss.append(ExprS(Call(Var("fn0"), s.choice([Str("a"), NoneE(), List()]))))          # may fail inside
    if s.chance(1, 5):
        ss.append(Fun("bad", [], ExprS(Call(Var("error"), Str("stop")))))
        ss.append(ExprS(Call(Var("twice"), Var("bad"))))
    return Prog(*ss)


def run_calls(s, env): check([calls(s)], env, "calls", gc_every=s.choice([0, 0, 1, 3]), heap=s.choice([0, 0, 40000]))
def run_several(s, env): check([calls(s) for _ in range(s.int(2, 3))], env, "several programs")


def run_cli(s, env):
    d = env.scratch()
    p = calls(s) if s.chance(2, 3) else Gen(s, budget=40, wrong=40).program(s.int(3, 10))
    if max_need(p) > 14: raise Discard("needs too many pending values")
    text = render(p)
    if b"\0" in text: raise Discard("NUL in an argument")
    I, o = model(p)
    if "call-limit" in o.classes: raise Discard("call limit")
    cli.write(os.path.join(d, "p.noja"), text)
    of = os.path.join(d, "profile.txt")
    if os.path.exists(of): os.unlink(of)
    inline = s.chance(1, 2)
    args = ["-i", text] if inline else ["p.noja"]
    a = cli.noja(args, d)
    b = cli.noja([s.choice(["-p", "--profile"])] + args, d)
    os.chmod(d, 0o777)
    c = cli.noja(["-p", s.choice(["-o", "--output"]), "profile.txt"] + args, d)
    if None in (a, b, c): raise Inconclusive("wall clock limit")
    bad = lambda m, **k: (_ for _ in ()).throw(Violation(m, program=text, plain=(a.rc, a.out, a.err), profiled=(b.rc, b.out, b.err), to_file=(c.rc, c.out, c.err), **k))
    if norm(a.out) != norm(o.out): bad("the command line prints something else than the program", expected=o.out)
    if a.rc != b.rc or a.err != b.err or a.rc != c.rc or a.err != c.err: bad("profiling changes the exit status or the errors")
    if a.out != c.out: bad("profiling to a file changes the output")
    if not b.out.startswith(a.out): bad("profiling changes the output")
    if s.chance(1, 4):
        e = cli.noja(["-p", "-o", s.choice(["missing/profile.txt", ".", "/dev/null/x"])] + args, d)
        if e is None: raise Inconclusive("wall clock limit")
        if e.out != a.out or e.rc == 0 or not e.err.strip(): bad("a profile that can't be written isn't reported", unwritable=(e.rc, e.out, e.err))
    prof = b.out[len(a.out):]
    if not o.ok:
        env.count("aborts")
        return
    got = [(f, n) for f, src, n in sorted(parse_profile(prof))]
    want = [(f, n) for f, src, n in model_profile(I)]
    if sorted(got) != sorted(want): bad("the profile's counts differ from the calls made", expected=want, got=got)
    if not os.path.exists(of): bad("the profile isn't written to the output file")
    data = open(of, "rb").read()
    os.unlink(of)
    if sorted((f, n) for f, _, n in parse_profile(data)) != sorted(want): bad("the profile in the file differs from the calls made", expected=want, file=data)
    if want: env.nontrivial(text, inline)
    env.sample("command line", text.decode(errors="replace") + "\n---\n" + prof.decode(errors="replace"))


SLACK = 25000.0     # microseconds: processor time may be counted in coarse ticks


def run_time(s, env):
    """Functions that keep the processor busy, calling each other in a tree: how their times relate."""
    d = env.scratch()
    n = s.int(2, 6)
    budget = s.int(200, 500) * 1000     # turns of the busy loops, all in all
    kids = {i: [] for i in range(n)}
    for i in range(1, n): kids[s.below(i)].append((i, s.int(1, 4)))
    times = {0: 1}
    for i in range(n):
        for j, k in kids[i]: times[j] = times.get(j, 0) + times[i] * k
    own = [s.choice([0, 0, 1, 3]) for _ in range(n)]
    if not any(own): own[-1] = 1
    total = sum(o * times[i] for i, o in enumerate(own))
    turns = [budget * o // total for o in own]
    src = []
    for i in reversed(range(n)):
        # a busy loop, and the calls before, in between or after it
        ls = ["i = 0; while i < %d: i = i + 1;" % turns[i]] if turns[i] else []
        for j, k in kids[i]: ls.insert(s.int(0, len(ls)), "k = 0; while k < %d: { w%d(); k = k + 1; }" % (k, j) if s.chance(1, 2) else "w%d();" % j * k)
        src.append("fun w%d() { %s }" % (i, " ".join(ls)))
    src.append("w0();")
    if s.chance(1, 3): src.append("i = 0; while i < %d: i = i + 1;" % s.int(1000, 60000))
    text = "\n".join(src).encode()
    a = resource.getrusage(resource.RUSAGE_CHILDREN)
    r = cli.noja(["-p", "-i", text], d)
    b = resource.getrusage(resource.RUSAGE_CHILDREN)
    if r is None: raise Inconclusive("wall clock limit")
    cpu = (b.ru_utime + b.ru_stime - a.ru_utime - a.ru_stime) * 1e6
    def bad(m, **k): raise Violation(m, program=text, profile=r.out, stderr=r.err, status=r.rc, processor_time="%.0fus" % cpu, **k)
    if r.rc != 0 or r.err: bad("a working program fails under the profiler")
    got = {}
    for l in r.out.split(b"\n"):
        m = LINE.match(l)
        if m and m.group(2) != b"<prelude>": got[m.group(1).decode()] = (int(m.group(3)), float(m.group(4)))
    if {f: c for f, (c, _) in got.items()} != {"w%d" % i: times[i] for i in range(n)}: bad("the profile's counts differ from the calls made")
    T = [got["w%d" % i][1] for i in range(n)]
    for i in range(n):
        if T[i] > cpu + SLACK: bad("a function's time is larger than the whole process's", function="w%d" % i)
    # a function is called by only one other, which therefore includes its time
    for i in range(n):
        inner = sum(T[j] for j, _ in kids[i])
        if inner > T[i] + 1: bad("a function's time doesn't include that of the functions it calls", function="w%d" % i)
        if not turns[i] and kids[i] and inner < 0.5 * T[i] - SLACK: bad("the time of functions that do all of their caller's work is missing", function="w%d" % i)
    work = budget + 1000
    rest = int(src[-1].split(" < ")[1].split(":")[0]) if src[-1].startswith("i") else 0
    if T[0] < 0.4 * cpu * work / (work + rest) - SLACK: bad("the time of a function that did the work is missing")
    env.nontrivial(text)
    env.count("functions timed", n)
    env.sample("times", text.decode() + "\n---\n" + r.out.decode(errors="replace") + "--- processor time %.0fus" % cpu)


PHASES = [Phase("time", run_time, 120, 1500), Phase("programs", run_random, 2500, 60000), Phase("calls", run_calls, 3500, 80000), Phase("several", run_several, 1000, 20000), Phase("cli", run_cli, 400, 6000)]
