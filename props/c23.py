from common import *
import os
import c05, c22

TITLE = "Failing memory allocations are reported, never fatal"
LEVEL = "fault_enumeration"
RULE = ("A case performs a generated operation (running a generated program from a source, string or file, with imports, files and a small or large heap, with or without profiling; compiling; "
        "assembling; drawing; making a runtime) counting its allocations, then again with each of them failing (all of short operations, a generated selection of long ones), alone or "
        "together with all later ones; each faulty run must fail with a report or do everything right, print a prefix of the normal output and leave nothing behind, under the address "
        "sanitizer; non-trivial when an allocation of the operation itself failed.")
ASSUME = ["allocations inside the C library (streams, directories) are not made to fail"]


def program(s, d):
    if s.chance(1, 2):
        return render(c22.subject(s, d))
    p = Gen(s, budget=s.choice([10, 25, 50]), wrong=s.choice([60, 15])).program(s.int(1, 6))
    if max_need(p) > 14: raise Discard("needs too many pending values")
    return render(p)


def operation(s, env):
    d = env.scratch()
    os.chmod(d, 0o755)
    c = s.below(14)
    text = program(s, d)
    if c < 5: ops, what = [(SRC, NAME, text)], "run"
    elif c == 5: ops, what = [(CSTR, "(string)", text)], "run string"
    elif c < 8:
        f = os.path.join(d, "prog.noja")
        with open(f, "wb") as h: h.write(text)
        os.chmod(f, 0o644)
        ops, what = [(FILE, f, "")], "run file"
    elif c == 8: ops, what = [(COMPILE, NAME, text)], "compile"
    elif c == 9: ops, what = [(DIAG, "", text)], "draw"
    elif c < 12:
        r = env.server().run([(COMPILE, NAME, text)])
        check_clean(r, text)
        if not r.ops[0].ok: raise Discard("doesn't compile")
        a = asm_of(r.ops[0].listing)
        text = a
        ops, what = ([(ASSEMBLE, NAME, a)], "assemble") if c == 10 else ([(ASM, NAME, a)], "run assembly")
    elif c == 12:
        ops, what = [(SRC, NAME, text), (SRC, "second", b"print('second'); return [1, {'a': 2}];")], "run two"
    else: ops, what = [(NEWRT, "", ""), (SRC, NAME, text)], "new runtime"
    return d, ops, what, text


def asm_of(listing):
    import asmtext
    return asmtext.emit(asmtext.parse(listing), asmtext.Style())


def same(a, b):
    return (a.ok, norm(a.out or b""), [norm(v) for v in a.vals], a.listing, a.diagram) == (b.ok, norm(b.out or b""), [norm(v) for v in b.vals], b.listing, b.diagram)


def faulty(env, ops, k, frm, base, text, what, kw):
    def bad(m, **x): raise Violation(m, program=text, operation=what, allocation=k, mode="this and all later ones fail" if frm else "only this one fails", output=r.out, **x)
    r = env.server().run(ops, fail_at=k, fail_from=frm, steps=100000, **kw)
    c = r.crash()
    if r.timed_out: raise Inconclusive("wall clock limit")
    if c: bad("a failing allocation is fatal: " + (c.splitlines()[0] if c.splitlines() else c), report=c)
    if r.live: bad("a failing allocation leads to a leak", live=r.live, first=r.first_leak)
    if r.fds: bad("a failing allocation leads to open descriptors", descriptors=r.fds)
    failed_before = base.setup_allocs is not None and k < base.setup_allocs
    for i, (op, b) in enumerate(zip(r.ops, base.ops)):
        if not norm(b.out or b"").startswith(norm(op.out or b"")): bad("the output isn't a prefix of the normal one", normal=b.out)
        if op.kind == NEWRT: continue
        if op.ret == -2: continue                    # there's no runtime: reported when it was made
        if op.ok:
            if not b.ok: bad("an operation that fails normally succeeds", normal_error=b.err)
            if op.err_on_success: bad("success together with a reported error")
            if not same(op, b): bad("a failure disguised as success: it gives something else than normally", normal=b.out, normal_values=b.vals, values=op.vals)
        else:
            if not op.err or not op.err.strip(): bad("a failure without a report")
            if op.failed == 0 and not failed_before and r.ops[0].kind != NEWRT and i == 0 and not b.ok and (op.err, op.trace) != (b.err, b.trace):
                bad("an other error although no allocation failed", error=op.err, normal=b.err)
    if r.pre.newrt == 0 and r.pre.err is not None and not r.pre.err.strip(): bad("built-ins aren't loaded and nothing is reported")
    return r


def run_faults(s, env):
    d, ops, what, text = operation(s, env)
    kw = dict(stdin=b"a line\nan other\n", cwd=d, heap=s.choice([0, 0, 12000, 20000, 65536]), flags=s.choice([0, 0, runner.F_PROFILE]))
    base = env.server().run(ops, steps=20000, **kw)
    check_clean(base, text)
    if base.stopped == 2: raise Discard("runs for too long")
    if base.live: raise Violation("memory is left behind", program=text, live=base.live)
    first = base.setup_allocs or 0
    total = first + sum(o.allocs or 0 for o in base.ops)
    ks = c22.points(s, total - first, 24 if env.tier == "quick" else 200)
    own = 0
    for j, k in enumerate(ks):
        for frm in ((0, 1) if env.tier != "quick" else (s.below(2),)):
            r = faulty(env, ops, first + k, frm, base, text, what, kw)
            if any(o.failed for o in r.ops): own += 1
    env.count("faulty runs", len(ks))
    env.count(what)
    if own: env.nontrivial(text, what)
    env.sample(what, text.decode(errors="replace")[:1500])


def run_setup(s, env):
    """Every allocation of making a runtime and loading the built-ins."""
    k, v = s.index // 4, s.index % 4
    kw = dict(flags=runner.F_PROFILE if v & 2 else 0, heap=0 if s.index % 3 else 9000)
    text = b"print('x'); return 1;"
    base = env.server().run([(SRC, NAME, text)], **kw)
    check_clean(base, text)
    if k >= base.setup_allocs: raise Discard("fewer allocations")
    r = faulty(env, [(SRC, NAME, text)], k, v & 1, base, text, "making a runtime", kw)
    if r.pre.newrt == 1 and v & 1: raise Violation("a runtime with its built-ins is made although no memory can be had", allocation=k)
    env.nontrivial(k, v)


PHASES = [Phase("setup", run_setup, 1000, 1000, enum=True), Phase("faults", run_faults, 2600, 40000)]
