from common import *
import cli, os

TITLE = "input reads exactly one line at a time"
RULE = ("A case gives a generated byte stream as standard input (lines of any length around the reader's internal sizes, multi-byte text, empty lines, NUL, carriage returns, "
        "with and without a final newline, sometimes invalid UTF-8) to a program calling input() a generated number of times, interleaved with other work; every line returned "
        "is compared byte for byte; non-trivial when a line isn't empty.")
ASSUME = ["a newline byte ends a line; all other bytes belong to it", "at the end of input input() gives an empty string"]
VARIANTS = ["asan", "cli"]
SIZES = [0, 1, 2, 127, 128, 253, 254, 255, 256, 257, 509, 510, 511, 512, 513, 1019, 1020, 1021, 1023, 1024, 2040, 2041, 4080, 4095, 4096, 8160, 16321]


def line(s):
    c = s.below(8)
    if c == 0: return b""
    if c == 1: n = s.choice(SIZES)
    elif c == 2: n = s.int(0, 3000)
    else: n = s.int(0, 12)
    k = s.below(5)
    if k == 0: return b"x" * n
    if k == 1: return (b"0123456789abcdef" * (n // 16 + 1))[:n]
    if k == 2:
        out = bytearray()
        while len(out) < n:
            out += s.choice([b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"a", b" ", b"\t", b"\r", b"\0", b"\xef\xbf\xbd"]) if len(out) < 40 else b"\xc3\xa9zz"
        return bytes(out)
    if k == 3: return bytes([32 + s.below(95) for _ in range(min(n, 30))])
    return b"\xe2\x82\xac" * (n // 3)


def stream(s, bad):
    ls = [line(s) for _ in range(s.int(0, 6))]
    d = b"\n".join(ls)
    if s.chance(1, 2) and ls: d += b"\n"
    if bad and d is not None:
        i = s.int(0, len(d))
        d = d[:i] + s.choice([b"\xff", b"\x80", b"\xc3", b"\xe2\x82", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xf0\x80\x80\x80"]) + d[i:]
    return d


def prog(s):
    n = s.int(1, 9)
    st = [Set("l", List())]
    for i in range(n):
        c = s.below(6)
        if c < 3: st.append(ExprS(Call(Var("append"), Var("l"), Call(Var("input")))))
        elif c == 3: st += [Set("x", Call(Var("input"))), Print(Call(Var("count"), Var("x")), Str(":"), Var("x"), Str("|")), ExprS(Call(Var("append"), Var("l"), Var("x")))]
        elif c == 4: st.append(ExprS(Call(Var("append"), Var("l"), List(Call(Var("input")), Call(Var("input"))))))
        else: st += [Print(Call(Var("input"), Str("ignored? ")), Str(";"))]
    return st


def case_lines(s, env, bad=False):
    d = stream(s, bad)
    st = prog(s)
    text, o, op = run_prog(Prog(*st, Print(Var("l")), Return(Var("l"))), env, exact=True, sample="lines", stdin=d, heap=1 << 22, gc_every=s.choice([0, 0, 0, 1]))
    if bad: env.count("stream with invalid text")
    if d.strip(b"\n"): env.nontrivial(text, d)


def case_bad(s, env): case_lines(s, env, True)


def case_whole(s, env):
    """Reading everything to the end in a loop."""
    d = stream(s, False)
    n = d.count(b"\n") + s.int(0, 4)
    st = [Set("i", Int(0)), While(Bin("<", Var("i"), Int(n)), Block(Print(Call(Var("input")), Str("\n")), Set("i", Bin("+", Var("i"), Int(1)))))]
    text, o, op = run_prog(Prog(*st), env, sample="whole", stdin=d, vals=False, heap=1 << 22)
    env.nontrivial(text, d)


def case_sizes(s, env):
    """Exhaustive: every line length up to 1100 bytes, then another line."""
    n = s.index
    a = (b"abcdefghijklmnopqrstuvwxyz0123456789" * 40)[:n]
    d = a + b"\nnext\n" + a
    st = [Print(Call(Var("input")), Str("|")), Print(Call(Var("input")), Str("|")), Print(Call(Var("input")), Str("|")), Print(Call(Var("input")), Str("|"))]
    text, o, op = run_prog(Prog(*st), env, sample="sizes", stdin=d, vals=False)
    env.nontrivial(n)


def case_cli(s, env):
    d = stream(s, s.chance(1, 5))
    p = Prog(*prog(s), Print(Var("l")))
    text = render(p)
    o = ref_run(p, stdin=d)
    r = cli.noja(["-H", str(1 << 24), "-i", text], "/", stdin=d)
    if r is None: raise Inconclusive("wall clock limit")
    if norm(r.out) != norm(o.out) or (r.rc == 0) != o.ok or r.rc < 0: raise Violation("noja reads something else", program=text, stdin=d, expected=o.out, output=r.out, status=r.rc, stderr=r.err)
    env.nontrivial(text, d)


PHASES = [Phase("sizes", case_sizes, 1100, 1100, enum=True), Phase("lines", case_lines, 6000, 120000), Phase("bad", case_bad, 1500, 20000), Phase("whole", case_whole, 1500, 30000), Phase("cli", case_cli, 800, 8000)]
