from common import *
from wide import wide_string

TITLE = "Strings behave as immutable sequences of Unicode characters"
RULE = ("A case builds strings of 1 to 4 byte characters (literals with every escape, concatenation, chr) and applies indexing, count, keysof, slicing, "
        "trimming, ord/chr, comparison and conversion, with valid and invalid arguments; compared with Python's str/bytes; non-trivial when a string "
        "holds a character outside of ASCII, an escape, a blank at an end, or an argument is at or over a bound.")
ASSUME = ["Python's UTF-8 codec and str type are the model", "string.integer-from-digit of several characters is left out"]
IMAX = (1 << 63) - 1
EDGE = [0x21, 0x41, 0x7a, 0x7e, 0x7f, 0x80, 0xa0, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]


def achar(s):
    c = s.below(10)
    if c < 4: return chr(s.int(0x61, 0x7a))
    if c == 4: return s.choice(" \t\n\r\"'\\#{};")
    if c == 5: return " "
    if c < 8: return chr(s.choice(EDGE))
    if c == 8:
        v = s.int(1, 0x10ffff)
        return chr(v) if not 0xd800 <= v <= 0xdfff else "x"
    return chr(s.int(1, 0x7f))


def text(s, n=None):
    if n is None: n = s.weighted([(5, s.int(0, 6)), (2, s.int(7, 20)), (1, s.int(21, 80))])
    t = "".join(achar(s) for _ in range(n))
    if s.chance(1, 4): t = " " * s.int(0, 3) + t + " " * s.int(0, 3)
    return t


class H:
    def __init__(self, s):
        self.s, self.st, self.n, self.vars = s, [], 0, {}
        self.nt = False

    def mk(self):
        s = self.s
        t = text(s)
        if any(ord(c) > 127 or c in " \t\n\r\"'\\" for c in t): self.nt = True
        self.n += 1
        v = "s%d" % self.n
        b = t.encode()
        c = s.below(5)
        if c < 3 or not self.vars: e = Str(b)
        elif c == 3:
            k = s.int(0, len(t))
            e = Call(Dot(Var("string"), "cat"), Str(t[:k].encode()), Str(t[k:].encode()))
        else:
            o, ob = s.choice(sorted(self.vars.items()))
            e, b = Call(Dot(Var("string"), "cat"), Var(o), Str(b), Var(o)), ob + b + ob
            if len(b) > 3000: e, b = Var(o), ob
        self.st.append(Set(v, e))
        self.vars[v] = b
        return v

    def pick(self): return self.s.choice(sorted(self.vars.items()))

    def sarg(self):
        s = self.s
        if self.vars and s.chance(2, 3): return Var(self.pick()[0])
        return Str(text(s).encode())

    def step(self):
        s = self.s
        v, b = self.pick()
        t = b.decode()
        P = lambda *a: self.st.append(Print(*(list(a) + [Str("\n")])))
        S = lambda n, *a: Call(Dot(Var("string"), n), *a)
        c = s.below(20)
        if c == 0: self.mk()
        elif c < 4:
            k = s.choice([Int(s.int(0, max(0, len(t) - 1))), Int(len(t) - 1), Int(len(t)), Int(-1), Int(len(b)), Int(IMAX), Int(1 << 32), Int(-IMAX), Flt("0.0"), NoneE(), Str("0"), Bool(True)])
            P(Idx(Var(v), k), Str("|"), Call(Var("type"), Idx(Var(v), k)))
        elif c == 4: P(Call(Var("count"), Var(v)), Str(" "), Call(Var("count"), Call(Dot(Var("buffer"), "fromString"), Var(v))))
        elif c == 5:
            self.st += [Set("i", Int(0)), While(Bin("<", Var("i"), Bin("+", Call(Var("count"), Var(v)), Int(1))),
                                               Block(Print(Idx(Var(v), Var("i")), Str("|")), Set("i", Bin("+", Var("i"), Int(1)))))]
        elif c == 6: P(Call(Var("keysof"), Var(v)))
        elif c < 9:
            # valid slices fall on character boundaries
            i = s.int(0, len(t)); j = s.int(i, len(t))
            off = len(t[:i].encode()); ln = len(t[i:j].encode())
            a = s.below(4)
            if a == 0: e = S("slice", Var(v), Int(off))
            elif a == 1: e = S("slice", Var(v), NoneE(), Int(len(t[:j].encode())))
            elif a == 2: e = S("slice", Var(v))
            else: e = S("slice", Var(v), Int(off), Int(ln))
            P(e, Str("|"), Call(Var("count"), e))
            self.nt = True
        elif c == 9: P(Str("<"), S("trim", Var(v)), Str(">"), Call(Var("count"), S("trim", Var(v))))
        elif c == 10 and t: P(S("ord", Var(v)), Str(" "), S("chr", S("ord", Var(v))))
        elif c == 11:
            cp = s.choice(EDGE + [s.int(1, 0xd7ff)])
            P(S("chr", Int(cp)), Call(Var("count"), S("chr", Int(cp))), S("ord", S("chr", Int(cp))), Bin("==", S("chr", Int(cp)), Str(chr(cp).encode())))
            self.nt = True
        elif c == 12: P(Str(""), S("cat", *[self.sarg() for _ in range(s.int(0, 5))]))
        elif c < 15:
            w = self.sarg()
            P(Bin(s.choice(["==", "!="]), Var(v), w), Bin("==", S("cat", Var(v), Str("")), Var(v)))
        elif c == 15:
            d = s.choice(["0", "7", "42", "007", "9223372036854775807", "9223372036854775808", "99999999999999999999", "18446744073709551616", "18446744073709551617", "", "-1", "+1", " 1", "1 ", "1a", "a1", "1.5", "0x10", "٣",
                          str(s.below(1 << 63)), "0" * s.int(1, 30) + str(s.int(0, 9))])
            arg = Str(d.encode())
            n, w = "n%d" % len(self.st), "w%d" % len(self.st)
            self.st += [ExprS(Asn([Var(n), Var(w)], S("toInt", arg))), Print(Var(n), Call(Var("type"), Var(n)), Bin("==", Call(Var("type"), Var(w)), Var("String")), Str("\n"))]
        elif c == 16:
            # the original stays as it was
            self.st += [ExprS(S("trim", Var(v))), ExprS(S("cat", Var(v), Str("zz"))), Print(Var(v), Str("\n"))]
            if b: self.st.append(ExprS(S("slice", Var(v), Int(len(t[0].encode())))))
            P(Var(v), Call(Var("count"), Var(v)))
        elif c == 17:
            P(Call(Dot(Var("buffer"), "toString"), Call(Dot(Var("buffer"), "fromString"), Var(v))), Str(" "), Call(Dot(Var("buffer"), "fromString"), Var(v)))
        elif c == 18: P(List(Var(v), Map(("id", "k", Var(v)), ("expr", Var(v), Int(1)))))
        else: P(Idx(Map(("expr", Var(v), Int(11))), S("cat", Str(t[:1].encode()), Str(t[1:].encode()))))

    def bad(self):
        """An invalid use, which must abort."""
        s = self.s
        v, b = self.pick()
        t = b.decode()
        S = lambda n, *a: Call(Dot(Var("string"), n), *a)
        other = s.choice([Int(1), NoneE(), Flt("1.0"), List(), Map(), Bool(True), Var("String"), Call(Dot(Var("buffer"), "fromString"), Str("ab"))])
        cand = [S("slice", Var(v), Int(len(b) + 1)), S("slice", Var(v), Int(-1)), S("slice", Var(v), Int(0), Int(len(b) + 1)), S("slice", Var(v), Int(0), Int(-1)),
                S("slice", Var(v), Int(1), Int(len(b))), S("slice", Var(v), Int(IMAX)), S("slice", Var(v), Int(1), Int(IMAX)), S("slice", Var(v), Int(-IMAX)), S("slice", other), S("slice", Var(v), Str("0")),
                S("slice", Var(v), Int(0), Flt("1.0")), S("trim", other), S("ord", other), S("ord", Str("")), S("chr", Str("a")), S("chr", Flt("65.0")), S("chr", NoneE()),
                S("chr", Int(-1)), S("chr", Int(0x110000)), S("chr", Int(s.int(0xd800, 0xdfff))), S("chr", Int(IMAX)), S("chr", Int(1 << 32)), S("chr", Int((1 << 32) + 65)), S("cat", Var(v), other),
                S("cat", other, Var(v)), S("toInt", other), Asn([Idx(Var(v), Int(0))], Str("x")), Asn([Dot(Var(v), "x")], Str("x")),
                S("slice", Var(v), Int(1 << 32)), S("slice", Var(v), Int(0), Int(1 << 32))]
        # slices through the middle of a character
        multi = [i for i, ch in enumerate(t) if len(ch.encode()) > 1]
        if multi:
            i = s.choice(multi)
            off = len(t[:i].encode())
            cand += [S("slice", Var(v), Int(off + 1)), S("slice", Var(v), Int(0), Int(off + 1)), S("slice", Var(v), Int(off), Int(len(t[i].encode()) - 1))] * 3
        self.st += [Print(Str("bad\n")), Print(s.choice(cand)), Print(Str("after\n"))]
        self.nt = True


def case_history(s, env):
    h = H(s)
    h.mk()
    for _ in range(s.int(1, 12)): h.step()
    for v in sorted(h.vars): h.st.append(Print(Var(v), Str("\n")))
    if s.chance(2, 5): h.bad()
    t, o, op = run_prog(Prog(*h.st), env, sample="history", model={"fuel": 60000}, vals=False)
    if h.nt: env.nontrivial(t)


ESC = {b"n": b"\n", b"t": b"\t", b"r": b"\r", b"\\": b"\\", b"'": b"'", b'"': b'"'}


def case_literal(s, env):
    """Literals written with any mix of escapes, raw line breaks and either quote; invalid escapes are refused."""
    q = s.choice([b'"', b"'"])
    out, val, bad = b"", b"", False
    for _ in range(s.int(0, 30)):
        c = s.below(8)
        if c < 4:
            e = s.choice(sorted(ESC))
            out += b"\\" + e; val += ESC[e]
        elif c == 4: out += b"\n"; val += b"\n"
        elif c == 5 and s.chance(1, 12):
            e = s.choice([b"a", b"0", b"x", b"b", b"N", b"u", b"e", b" ", b"\xc3\xa9"])
            out += b"\\" + e; bad = True
        else:
            ch = achar(s).encode()
            if ch in (q, b"\\"): out += b"\\" + ch
            else: out += ch
            val += ch
    t = b"x = " + q + out + q + b";\nprint(x);\nprint(count(x), buffer.fromString(x));\nreturn x;\n"
    op = run_text(t, env, flags=runner.F_EXACT)
    want = val + b"%d[" % len(val.decode()) + b", ".join(b"%02X" % c for c in val) + b"]"
    if bad:
        if op.ok or op.out: raise Violation("an invalid escape was accepted", program=t, output=op.out)
        if not op.err: raise Violation("failure without a report", program=t)
    elif not op.ok or op.out != want or op.exact != [b"s" + val.hex().encode()]:
        raise Violation("a string literal doesn't hold the characters written", program=t, output=op.out, expected=want, error=op.err)
    env.count("literal " + ("refused" if bad else "accepted"))
    env.nontrivial(t)
    env.sample("literal", t.decode(errors="replace"))


def case_invalid_utf8(s, env):
    """Bytes that aren't UTF-8 never become a string: the text is refused, and so is the conversion of a buffer."""
    good = text(s, s.int(0, 6)).encode()
    cut = s.int(0, len(good))
    while cut < len(good) and 0x80 <= good[cut] < 0xc0: cut += 1
    bad = s.choice([b"\x80", b"\xc3", b"\xff", b"\xfe", b"\xc0\xaf", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf",
                    b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3\xc3", b"\xc3(", b"\xf8\x88\x80\x80\x80", b"\xe9a"])
    data = good[:cut] + bad + good[cut:]
    if R.valid_utf8(data): raise Discard("valid after all")
    body = b"".join(b"b[%d] = %d;\n" % (i, c) for i, c in enumerate(data))
    t = b"b = buffer.new(%d);\n" % len(data) + body + b"s, e = buffer.toString(b);\nprint(s, ' ', type(e), ' ', b);\n"
    op = run_text(t, env)
    want = b"none String [" + b", ".join(b"%02X" % c for c in data) + b"]"
    if not op.ok or op.out != want: raise Violation("a buffer that isn't UTF-8 was turned into a string", program=t, output=op.out, expected=want)
    lit = b'print("' + data.replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'");'
    op = run_text(lit, env)
    if op.ok or op.out: raise Violation("source text that isn't UTF-8 was run", program=lit, output=op.out)
    if not op.err: raise Violation("failure without a report", program=lit)
    env.nontrivial(data)
    env.sample("not UTF-8", repr(data))


def case_roundtrip(s, env):
    """Every code point: chr, ord, printing and indexing agree."""
    base = s.index
    cps = []
    k = 24
    for i in range(k):
        cp = (base * k + i) * 37 % 0x110000 if s.chance(1, 2) else s.int(0, 0x10ffff)
        if 0xd800 <= cp <= 0xdfff or cp == 0: continue
        cps.append(cp)
    t = "s = '';\n" + "".join("s = string.cat(s, string.chr(%d));\n" % c for c in cps) + "i = 0;\nwhile i < count(s): { print(string.ord(s[i]), ' '); i = i + 1; }\nreturn s;\n"
    op = run_text(t.encode(), env, flags=runner.F_EXACT)
    if not op.ok or op.exact != [b"s" + "".join(map(chr, cps)).encode().hex().encode()] or op.out != "".join("%d " % c for c in cps).encode():
        raise Violation("chr, ord and indexing disagree", program=t, output=op.out, values=op.exact, error=op.err)
    env.nontrivial(tuple(cps))


PHASES = [Phase("history", case_history, 12000, 300000), Phase("literals", case_literal, 3000, 80000), Phase("invalid", case_invalid_utf8, 1500, 30000),
          Phase("codepoints", case_roundtrip, 1000, 46000),
          Phase("wide", wide_string, 2000, 12000)]
