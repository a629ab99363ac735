from common import *
import asmtext as A, struct, math

TITLE = "Compiled code and its assembly listing are interchangeable"
RULE = ("A case compiles a generated program, writes its instructions as assembly text (labels, escapes, spacing chosen at random), assembles it, requires exactly the same instructions and "
        "operands and, running both, the same output, result and error; or alters one instruction of a listing and requires Executable_Equiv to tell the two apart in both directions; "
        "non-trivial when the listing has at least 6 instructions.")
ASSUME = ["string operands up to the assembler's 1024 bytes, without NUL bytes", "0.0 and -0.0 are the same operand for the equivalence relation"]


def compile_(text, env):
    r = env.server().run([(COMPILE, NAME, text)])
    check_clean(r, text, "compiling the program")
    if not r.ops[0].ok: raise Violation("a well-formed program is rejected", program=text, error=r.ops[0].err)
    return A.parse(r.ops[0].listing)


def roundtrip(text, s, env, run=True, big_heap=False):
    ins = compile_(text, env)
    try: asm = A.emit(ins, A.RandomStyle(s))
    except ValueError as e: raise Violation("the compiled code jumps outside of the program", program=text, instructions=repr(ins))
    plain = A.emit(ins)
    ops = [(ASSEMBLE, NAME, asm), (EQUIV, asm, plain)]
    if run: ops += [(SRC, NAME, text), (NEWRT, "", ""), (ASM, NAME, asm)]
    r = env.server().run(ops, steps=150000)
    check_clean(r, text, "assembling and running the listing of the program")
    op = r.ops[0]
    if not op.ok: raise Violation("the listing of a compiled program isn't accepted by the assembler", program=text, assembly=asm, error=op.err)
    if op.err_on_success: raise Violation("the assembler succeeds and reports an error", assembly=asm)
    got = A.parse(op.listing)
    if A.key(got) != A.key(ins):
        d = [(i, a, b) for i, (a, b) in enumerate(zip(ins, got)) if A.key([a]) != A.key([b])][:3]
        raise Violation("assembling the listing of a compiled program gives other instructions", program=text, assembly=asm, differences=repr(d), lengths=(len(ins), len(got)))
    if r.ops[1].equiv[:4] != [1, 1, 1, 1]: raise Violation("equivalent executables are told apart", program=text, answers=r.ops[1].equiv, log=r.ops[1].equivlog)
    if run:
        a, b = r.ops[2], r.ops[4]
        if r.stopped == 2: raise Discard("too long")
        if (a.out, a.ok, a.vals) != (b.out, b.ok, b.vals) or (a.err or b"") != (b.err or b""):
            raise Violation("a program and its assembled listing behave differently", program=text, assembly=asm, source=(a.ok, a.out, a.err, a.vals), assembled=(b.ok, b.out, b.err, b.vals))
        env.count("runs" if a.ok else "aborts")
    for n, _ in ins: env.count("instruction " + n)
    if len(ins) >= 6: env.nontrivial(asm)
    env.sample("round trip", text.decode(errors="replace") + "\n---\n" + asm.decode(errors="replace"))


def run_programs(s, env):
    p = Gen(s, budget=50, wrong=30).program(s.int(1, 12))
    if max_need(p) > 14: raise Discard("needs too many pending values")
    roundtrip(render(p), s, env)


STRS = [b"", b"a", b'quo"te', b"back\\slash", b"\\n", b"new\nline", b"\t\r\n", b"'", b"\\\\", b'\\"', b"\xc3\xa9", b"\xf0\x9f\x98\x80", b";", b"a;b:c,d", b"//x", b"\x01\x7f", b"x" * 1024, b"\n" * 500, b'"' * 300, b"%s%d%n", b"\\"]


def run_literals(s, env):
    """Every kind of operand value."""
    ss = []
    for _ in range(s.int(1, 8)):
        c = s.below(6)
        if c == 0: ss.append(Print(Str(s.choice(STRS) if s.chance(2, 3) else bytes(s.int(1, 126) for _ in range(s.int(0, 30))))))
        elif c == 1: ss.append(Print(Int(s.choice([0, 1, 2, 255, 2**31 - 1, 2**31, 2**32, 2**32 + 1, 2**53, 2**63 - 1, s.int(0, 2**63 - 1)])), Str("\n")))
        elif c == 2:
            t = s.choice(["0.0", "0.1", "1.0", "3.14159", "123456789.123456789", "0.000001", "1" + "0" * 22 + ".5", "0.30000000000000004", "179769313486231570000.0"])
            if s.chance(1, 2): t = "%d.%d" % (s.below(10 ** s.int(1, 20)), s.below(10 ** s.int(1, 20)))
            ss.append(Print(Flt(t), Str("\n")))
        elif c == 3: ss.append(Print(Map(*[("id", s.choice(["a", "_b", "Cc", "d_1", "x" * 40]), Str(s.choice(STRS))) for _ in range(s.int(0, 4))])))
        elif c == 4:
            n = s.choice(["f", "_", "a1", "Fun_2"])
            ss.append(Fun(n, [("p%d" % i, Var("int") if s.chance(1, 3) else None, Int(i) if s.chance(1, 2) else None) for i in range(s.int(0, 5))], Block(Return(*[Int(i) for i in range(s.int(1, 4))]))))
            ss.append(ExprS(Call(Var(n), *[Int(9) for _ in range(s.int(0, 3))])))
        else: ss.append(Set(s.choice(["x", "_y", "Z9"]), List(*[Str(s.choice(STRS)) for _ in range(s.int(0, 3))])))
    roundtrip(render(Prog(*ss)), s, env)


def run_control(s, env):
    """Dense jumps: nested conditions and loops without much in them."""
    cnt = [0]

    def cond(d):
        c = s.below(6)
        if d == 0 or c == 0: return s.choice([Bool(True), Bool(False), Var("t")])
        if c == 1: return Un("not", cond(d - 1))
        if c == 2: return Bin("<", Var("n"), Int(s.int(0, 9)))
        return Bin(s.choice(["and", "or"]), cond(d - 1), cond(d - 1))

    def stm(d, loop):
        c = s.below(8)
        if d == 0 or c == 0: return Set("n", Bin("+", Var("n"), Int(1)))
        if c == 1: return Print(Var("n"), Str(" "))
        if c == 2: return If(cond(2), stm(d - 1, loop))
        if c == 3: return If(cond(2), stm(d - 1, loop), stm(d - 1, loop))
        if c == 4: return Block(*[stm(d - 1, loop) for _ in range(s.int(0, 3))])
        if c == 5 and loop: return Break()
        if c == 6: return While(Bin("and", Bin("<", Var("n"), Int(20)), cond(1)), Block(Set("n", Bin("+", Var("n"), Int(1))), stm(d - 1, True)))
        cnt[0] += 1
        if cnt[0] > 3: return Print(Str("x"))
        return DoWhile(Block(Set("n", Bin("+", Var("n"), Int(1))), stm(d - 1, True)), Bin("<", Var("n"), Int(15)))
    p = Prog(Set("n", Int(0)), Set("t", Bool(True)), *[stm(4, False) for _ in range(s.int(1, 4))])
    roundtrip(render(p), s, env)


# ---- the equivalence relation ----------------------------------------------------
def rnd_ins(s, n):
    """A random listing: any instruction, any operand."""
    out = []
    for _ in range(n):
        name = s.choice(list(A.OPS))
        ops = []
        for k in A.OPS[name]:
            if k == "x": ops.append(("x", s.below(n)))
            elif k == "i": ops.append(("i", rnd_int(s)))
            elif k == "f": ops.append(("f", rnd_float(s)))
            else: ops.append(("s", rnd_str(s)))
        out.append((name, ops))
    return out


def rnd_int(s): return s.choice([0, 1, -1, 7, 255, 256, 2**31 - 1, 2**31, -2**31, 2**32, 2**32 + 5, -2**32, 2**63 - 1, -(2**63 - 1), s.int(-1000, 1000), s.int(-(2**63 - 1), 2**63 - 1)])
def rnd_float(s):
    if s.chance(1, 2): return s.choice([0.0, 1.0, 0.5, -2.25, 1e15, 0.1, 1e-7, 123456.789])
    v = (s.below(1 << 53) / (1 << 53) - 0.5) * 10.0 ** s.int(-6, 20)
    return v or 1.0
def rnd_str(s): return s.choice(STRS) if s.chance(1, 3) else bytes(s.int(1, 255) for _ in range(s.int(0, 12)))


def alter(ins, s):
    """A listing that differs in one thing; None if there's nothing to alter that way."""
    ins = [(n, list(o)) for n, o in ins]
    n = len(ins)
    i = s.below(n)
    c = s.below(10)
    name, ops = ins[i]
    if c == 0:                                  # drop one (the targets stay valid)
        if n < 2: return None
        r = ins[:i] + ins[i + 1:]
        return "one instruction less", [(a, [("x", min(v, n - 2)) if k == "x" else (k, v) for k, v in o]) for a, o in r]
    if c == 1: return "one instruction more", ins + [s.choice([("NOPE", []), ("EXIT", []), ("RETURN", [("i", 0)]), ("POP", [("i", 0)])])]
    if c == 2:
        same = [x for x in A.OPS if A.OPS[x] == A.OPS[name] and x != name]
        if not same: return None
        ins[i] = (s.choice(same), ops)
        return "another instruction of the same shape", ins
    if c == 3:
        other = [x for x in A.OPS if A.OPS[x] == ""]
        x = s.choice(other)
        if x == name: return None
        ins[i] = (x, [])
        return "another instruction", ins
    if c == 4 and n > 1:
        j = s.below(n)
        if A.key([ins[i]]) == A.key([ins[j]]): return None
        ins[i], ins[j] = ins[j], ins[i]
        return "two instructions swapped", ins
    if not ops: return None
    j = s.below(len(ops))
    k, v = ops[j]
    if k == "x":
        w = s.below(n)
        if w == v: return None
        ops[j] = (k, w)
        return "another jump target", ins
    if k == "i":
        w = s.choice([v + 1, v - 1, -v, v + 2**32, v - 2**32, v ^ (1 << s.below(62)), v + 2**31, 0])
        if w == v or abs(w) >= 2**63: return None
        ops[j] = (k, w)
        return "another integer operand", ins
    if k == "f":
        w = s.choice([math.nextafter(v, math.inf), math.nextafter(v, -math.inf), -v, v + 1.0, v * 2, v + 0.25, v * (1 + 2**-24)])
        if w == v or len(A.fmt_float(w)) > 400: return None
        ops[j] = (k, w)
        return "another float operand", ins
    b = bytearray(v)
    m = s.below(5)
    if m == 0: b += bytes([s.int(1, 255)])
    elif not b: b += b"z"
    elif m == 1: b = b[:-1]
    elif m == 2: b[s.below(len(b))] ^= 1 << s.below(7)
    elif m == 3: b[len(b) - 1] ^= 1
    else: b = bytearray(bytes(b).swapcase())
    if bytes(b) == v or 0 in b or len(b) > 1024: return None
    ops[j] = (k, bytes(b))
    return "another string operand", ins


def run_equiv(s, env):
    if s.chance(1, 2): ins = rnd_ins(s, s.int(1, 14))
    else:
        p = Gen(s, budget=20, wrong=60).program(s.int(1, 4))
        if max_need(p) > 14: raise Discard("needs too many pending values")
        ins = compile_(render(p), env)
    r = None
    for _ in range(8):
        r = alter(ins, s)
        if r: break
    if not r: raise Discard("nothing to alter")
    what, other = r
    a, b, c = A.emit(ins, A.RandomStyle(s)), A.emit(other, A.RandomStyle(s)), A.emit(ins, A.RandomStyle(s))
    res = env.server().run([(EQUIV, a, b), (EQUIV, a, c)])
    check_clean(res, a, "comparing executables")
    x, y = res.ops
    if not x.ok or not y.ok: raise Violation("a well-formed assembly text is rejected", first=a, second=b, error=(x.err, y.err))
    if x.equiv != [0, 0, 1, 0]: raise Violation("different executables count as equivalent (%s)" % what, first=a, second=b, answers=x.equiv)
    if not x.equivlog: raise Violation("the difference isn't logged", first=a, second=b)
    if y.equiv != [1, 1, 1, 1] or y.equivlog: raise Violation("identical programs don't count as equivalent", first=a, second=c, answers=y.equiv, log=y.equivlog)
    env.count("altered: " + what)
    if len(ins) >= 6: env.nontrivial(a, b)
    env.sample("equivalence, " + what, a.decode(errors="replace") + "\n--- against\n" + b.decode(errors="replace"), limit=1)


PHASES = [Phase("programs", run_programs, 5000, 120000), Phase("literals", run_literals, 3000, 60000), Phase("control", run_control, 3000, 60000),
          Phase("equivalence", run_equiv, 8000, 200000)]
