from common import *
import aparse, asmtext as A, cli, fuzzer, os, struct

TITLE = "Any assembly text is assembled or rejected cleanly"
RULE = ("A case is an assembly text: random instruction lists in random layouts, mutated at symbol or byte level, prefixes, every mnemonic with every combination of operand kinds, misspelt mnemonics, label graphs, literals at their limits, "
        "random bytes, or what a coverage-guided fuzzer makes of those; an independent reader of the grammar says whether it is a program, with which instructions, operands and positions, and the assembler must give exactly those, "
        "or reject it with a message and a failing status; non-trivial when the text holds at least one symbol.")
ASSUME = ["floating point literals of 512 characters or more or too small for full precision, the literal -2^63, and zero bytes in strings are only required not to crash",
          "assembled code is run only when it comes from a compiled program"]
TECHNIQUE = "property-based testing and fuzzing: generated, mutated and enumerated assembly texts and coverage-guided sessions against an independent reader of the assembly grammar, under sanitizers"


def judge_all(env, texts, what="an assembly text"):
    r = env.server().run([(ASSEMBLE, NAME, t) for t in texts], flags=runner.F_LISTOFFS, cpu=40)
    c = r.crash()
    if r.timed_out: raise Inconclusive("wall clock limit")
    if c:
        t = texts[min(len(texts) - 1, len(r.ops))]
        for u in texts:
            if env.server().run([(ASSEMBLE, NAME, u)]).crash():
                t = u
                break
        raise Violation("%s crashed or hung the assembler: %s" % (what, c.splitlines()[0]), assembly=t, report=c)
    res = []
    for t, op in zip(texts, r.ops):
        w = aparse.read(t)
        res.append(w)
        if op.ok is False and not (op.err or b"").strip(): raise Violation("the assembler fails silently", assembly=t)
        if op.ok and op.err_on_success: raise Violation("the assembler reports an error and succeeds", assembly=t, error=op.err)
        if not op.ok and op.off is not None and not -1 <= op.off <= len(t): raise Violation("the error lies out of the text", assembly=t, offset=op.off)
        if w is None: env.count("not specified"); continue
        env.count("accepted" if w[0] == "ok" else "rejected: " + w[1].split(" of ")[0])
        if w[0] == "bad":
            if op.ok: raise Violation("what isn't an assembly program is accepted", assembly=t, expected="rejected: " + w[1], listing=op.listing)
            if w[2] is not None and op.off is not None and not w[2][0] <= op.off <= w[2][1]:
                raise Violation("the reported position isn't in the statement that is refused", assembly=t, expected="%s, at %d to %d" % (w[1], *w[2]), got=op.off, error=op.err)
            continue
        if not op.ok: raise Violation("a well-formed assembly program is rejected", assembly=t, error=op.err)
        got = A.parse(op.listing)
        want = [(n, o) for n, o, _ in w[1]]
        if A.key(got) != A.key(want):
            d = [(i, a, b) for i, (a, b) in enumerate(zip(want, got)) if A.key([a]) != A.key([b])][:3]
            raise Violation("the assembler gives other instructions than those written", assembly=t, differences=repr(d), lengths=(len(want), len(got)))
        pos = [l.rsplit(b"\t@", 1)[1] for l in op.listing.split(b"\n") if l]
        exp = [b"%d+%d" % (a, len(n)) for n, _, a in w[1]]
        if pos != exp:
            k = [i for i in range(len(exp)) if pos[i] != exp[i]][0]
            raise Violation("an instruction doesn't know where it was written", assembly=t, instruction=k, expected=exp[k], got=pos[k])
    return res


INTS = [0, 1, -1, 7, 31, 255, 2**31 - 1, -2**31, 2**32, 2**63 - 1, -2**63 + 1]
STRS = [b"", b"a", b"x y", b'q"q', b"b\\s", b"n\nl", b"\t\r\n", b"\xc3\xa9", b"\xff\xfe", b";", b",", b":", b"%d", b"z" * 1024, b"\n" * 1024, b"'"]
FLTS = [0.0, 1.0, -1.5, 0.1, 1e22, 123456.789, 1e-7, 1.7976931348623157e308, 0.30000000000000004, -0.0]


def operand(s, k, n):
    if k == "s": return ("s", s.choice(STRS) if s.chance(2, 3) else bytes(s.int(1, 255) for _ in range(s.int(0, 20))))
    if k == "f": return ("f", s.choice(FLTS) if s.chance(1, 2) else s.int(-10**6, 10**6) / s.choice([1, 3, 7, 1000, 10**9]))
    if k == "x": return ("x", s.below(n))
    return ("i", s.choice(INTS) if s.chance(1, 2) else s.int(-2**63 + 1, 2**63 - 1))


def instrs(s, n=None):
    n = n or s.int(1, 25)
    names = sorted(A.OPS)
    out = []
    for _ in range(n):
        w = s.choice(names)
        out.append((w, [operand(s, k, n) for k in A.OPS[w]]))
    return out


def valid(s): return A.emit(instrs(s), A.RandomStyle(s))


def run_valid(s, env):
    t = valid(s)
    w = judge_all(env, [t])[0]
    if w and w[0] == "bad": raise AssertionError("the generator and the reader disagree: " + w[1])
    env.nontrivial(t)
    env.sample("valid", t.decode(errors="replace"))


SYMS = [b"PUSHINT", b"PUSHSTR", b"PUSHFLT", b"PUSHFUN", b"JUMP", b"ADD", b"POP", b"CALL", b"CHECKTYPE", b"RETURN", b"EXIT", b"l0", b"l1", b"label", b"add", b"NOP", b"NOPE", b":", b";", b",", b"1", b"-1", b"+2", b"1.5", b"-0.0", b'"s"', b'""', b"-", b"+", b".", b"'", b'"', b"\\", b"#", b"@", b"1.", b".5", b"1e3", b"0x1", b"-l0", b"9223372036854775808", b"-9223372036854775809", b"//c\n"]
SYM = re.compile(rb'"(?:[^"\\]|\\.)*"|[A-Za-z_][A-Za-z0-9_]*|[+-]?[0-9]+(?:\.[0-9]+)?|[^\s]', re.S)


def run_symbols(s, env):
    """One or more symbols are changed."""
    toks = SYM.findall(valid(s))
    for _ in range(s.weighted([(5, 1), (2, 2), (1, 6)])):
        c = s.below(6)
        i = s.below(len(toks) + 1)
        if c == 0 and toks: del toks[min(i, len(toks) - 1)]
        elif c == 1: toks[i:i] = [s.choice(SYMS)]
        elif c == 2 and toks: toks[min(i, len(toks) - 1)] = s.choice(SYMS)
        elif c == 3 and toks:
            i, j = min(i, len(toks) - 1), s.below(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif c == 4: toks[i:i] = toks[i:i + s.int(1, 6)]
        else: del toks[i:i + s.int(1, 6)]
    sep = s.choice([b" ", b"\n", b" ", b"\t\r\n"])
    t = sep.join(toks)
    judge_all(env, [t])
    env.nontrivial(t)
    env.sample("symbols", t.decode(errors="replace"))


def run_bytes(s, env):
    t = bytearray(valid(s)) if s.chance(4, 5) else bytearray(b"".join(s.choice(SYMS) for _ in range(s.int(0, 12))))
    for _ in range(s.weighted([(4, 1), (2, 3), (1, 10)])):
        i = s.below(len(t) + 1)
        c = s.below(6)
        if c == 0: t[i:i] = s.choice(SYMS + [b"\0", b"\xff", b"\\x", b"\n", b"_", b"9"])
        elif c == 1: del t[i:i + s.int(1, 5)]
        elif c == 2: t[i:i + 1] = bytes([s.int(0, 255)])
        elif c == 3: del t[i:]
        elif c == 4: t[i:i] = t[i:i + s.int(1, 30)]
        elif t: t[min(i, len(t) - 1)] ^= 1 << s.below(8)
    t = bytes(t)
    judge_all(env, [t])
    env.nontrivial(t)
    env.sample("bytes", t.decode(errors="replace"))


def run_prefixes(s, env):
    t = valid(s)[:1500]
    judge_all(env, [t[:i] for i in range(len(t) + 1)], "a prefix of an assembly program")
    env.count("texts", len(t) + 1)
    env.nontrivial(t)


KINDS = [b"5", b"-5", b"2.5", b'"t"', b"fwd", b"here"]


def run_kinds(s, env):
    """Every mnemonic with every combination of up to three kinds of operands (four for one of them)."""
    names = sorted(A.OPS)
    w = names[s.index % len(names)].encode()
    texts = []
    combos = [()]
    for n in range(4):
        texts += [b"NOPE;\nhere: " + w + b" " + b", ".join(c) + b";\nfwd: EXIT;" for c in combos]
        combos = [c + (k,) for c in combos for k in KINDS]
    texts += [b"here: " + w + b" " + b",".join([b"5"] * n) + b"; fwd: EXIT;" for n in range(4, 14)]
    texts += [b"here: " + w + b" " + b",".join(c) + b"\n" for c in [(k,) for k in KINDS]] + [w, w + b";", b" " + w + b" ; ", b"a:" + w, b"a :" + w + b";", w + b":" + w, w + b": " + w + b" " + w]
    # misspelt
    for i in range(len(w) + 1):
        texts += [w[:i] + w[i + 1:], w[:i] + b"X" + w[i:], w[:i] + w[i:i + 1].lower() + w[i + 1:], w[:i], w[:i] + b" " + w[i:], w[:i] + b"_" + w[i:], w[:i] + b"\0" + w[i:]]
    texts += [w + w, w + b"5", w + b"2" * 70, w + b"A" * 300, w.lower(), w + b"," , w + b", 1", w + b" 1,", w + b" 1 2", w + b" 1,,2", w + b" : 1"]
    judge_all(env, texts, "a mnemonic with operands")
    env.count("texts", len(texts))
    env.nontrivial(w)


def run_labels(s, env):
    """Label graphs: forward, backward, repeated, unknown, names that begin alike."""
    pool = [b"a", b"aa", b"aaa", b"a1", b"a_", b"_a", b"A", b"l", b"l1", b"l10", b"l2", b"x" * 63, b"x" * 64, b"x" * 65, b"x" * 300, b"PUSHINT", b"ADD", b"_", b"__"]
    n = s.int(1, 30)
    use = [s.choice(pool) for _ in range(s.int(1, 6))]
    out = []
    free = list(dict.fromkeys(use))
    wrong = s.chance(1, 3)
    for i in range(n):
        l = b""
        if free and s.chance(1, 3) or (wrong and use and s.chance(1, 12)):
            nm = s.choice(use) if wrong and s.chance(1, 4) else free.pop(s.below(len(free))) if free else use[0]
            l = nm + s.choice([b":", b" : ", b":\n"])
        c = s.below(7)
        x = s.choice(pool if wrong and s.chance(1, 10) else use)
        out.append(l + [b"JUMP " + x, b"JUMPIFANDPOP " + x, b"JUMPIFNOTANDPOP " + x, b"PUSHFUN " + x + b', 1, "f"', b"PUSHINT " + x, b"NOPE", b"CALL " + x + b", " + s.choice(use)][c])
    if not wrong:
        for f in free: out.append(f + b": NOPE")
    t = s.choice([b";", b";\n", b" ; "]).join(out) + s.choice([b"", b";"])
    judge_all(env, [t])
    env.nontrivial(t)
    env.sample("labels", t.decode(errors="replace"))


def run_many_labels(s, env):
    n = s.choice([100, 500, 1500])
    order = s.perm(range(n)) if n <= 500 else list(range(n))[::-1]
    t = b"".join(b"k%d: JUMP k%d;\n" % (i, order[i]) for i in range(n))
    judge_all(env, [t], "an assembly text with many labels")
    env.nontrivial(n, t[:50])


def run_literals(s, env):
    c = s.below(5)
    texts = []
    if c == 0:
        for n in (0, 1, 2, 1022, 1023, 1024, 1025, 1026, 2000, 70000):
            for unit in (b"x", b"\\n", b"\xc3\xa9", b"\xff", b"\n"):
                texts.append(b'PUSHSTR "' + unit * n + b'";')
                texts.append(b'PUSHSTR "' + unit * n + s.choice([b"y", b"\\t", b"\\", b"\\q", b""]) + s.choice([b'";', b'"', b"", b"'"]))
    elif c == 1:
        for v in [0, 1, 10, 2**31, 2**63 - 2, 2**63 - 1, 2**63, 2**63 + 1, 2**64, 10**18, 10**19, 10**30] + [s.int(0, 2**66) for _ in range(20)]:
            for g in (b"", b"+", b"-", b"-0", b"+000", b"--", b"+-", b"- "): texts.append(b"PUSHINT " + g + b"%d;" % v)
    elif c == 2:
        for _ in range(60):
            a = s.choice([b"0", b"1", b"00", b"123", b"9" * s.int(1, 320), b"%d" % s.below(10**9)])
            b = s.choice([b"0", b"5", b"00", b"123", b"9" * s.int(1, 320), b"%d" % s.below(10**9), b"0" * s.int(1, 300) + b"1"])
            texts.append(b"PUSHFLT " + s.choice([b"", b"-", b"+"]) + a + s.choice([b".", b".", b".", b"", b". ", b"..", b".-", b"e"]) + b + s.choice([b"", b";", b"e5;", b"f;", b".1;"]))
    elif c == 3:
        for e in range(256): texts += [b'PUSHSTR "a\\' + bytes([e]) + b'b";', b'PUSHSTR "a' + bytes([e]) + b'b";', b"PUSHINT " + bytes([e]) + b"5;", b"PUSHINT 5" + bytes([e]) + b";", b"ADD" + bytes([e]) + b"ADD;", bytes([e]) + b"ADD;", b"a" + bytes([e]) + b"b: ADD;", b"PUSHINT 5;" + bytes([e])]
    else:
        big = s.choice([2000, 20000])
        texts = [b"NOPE;" * big, b"\n" * big, b" " * big + b"ADD", b"ADD" * big, b"PUSHINT " + b"0" * big + b"1;", b"CALL " + b"1," * big + b"1;", b"PUSHSTR " + b'"a",' * big, b"a" * big + b": JUMP " + b"a" * big + b";", b"JUMP " + b"a" * big + b";"]
    judge_all(env, texts, "a literal")
    env.count("texts", len(texts))
    env.nontrivial(texts[-1][:100], c)


def run_cli(s, env):
    """noja -a: status and messages; nothing of a rejected text is run."""
    import c05
    d = env.scratch()
    if s.chance(1, 3):
        p = Gen(s, budget=25, wrong=200).program(s.int(1, 5))
        if max_need(p) > 14: raise Discard("needs too many pending values")
        t = A.emit(c05.compile_(render(p), env), A.RandomStyle(s))
    else:
        t = b'PUSHSTR "RAN"; PUSHVAR "print"; CALL 1, 0;\n' + A.emit(instrs(s, s.int(1, 6)), A.RandomStyle(s))
        toks = SYM.findall(t)
        for _ in range(s.int(1, 3)):
            i = s.below(len(toks))
            if s.chance(1, 2): toks[i] = s.choice(SYMS)
            else: del toks[i]
            if not toks: break
        t = b" ".join(toks)
    w = aparse.read(t)
    if w is None: raise Discard("not specified")
    f = os.path.join(d, "p.asm")
    with open(f, "wb") as h: h.write(t)
    if w[0] == "ok":
        if not t.startswith(b"PUSHSTR \"RAN\"") :
            r0 = env.server().run([(ASM, NAME, t)], steps=30000)
            check_clean(r0, t)
            if r0.stopped: raise Discard("runs long")
            want = r0.ops[0].ok
        else: raise Discard("arbitrary code isn't run")
    else: want = False
    for args, what in ((["-a", f], "file"), (["-a", "-i", t], "inline")):
        if what == "inline" and (not t or t[:1] == b"-" or b"\0" in t): continue
        r = cli.noja(args, cwd=d, stdin=b"", timeout=60)
        if r is None: raise Inconclusive("wall clock limit")
        def bad(m): raise Violation(m + " (%s)" % what, assembly=t, status=r.rc, stdout=r.out, stderr=r.err)
        if r.rc < 0: bad("noja was killed by a signal")
        if want != (r.rc == 0): bad("noja's status is wrong")
        if not want and not r.err.strip(): bad("noja fails silently")
        if w[0] == "bad" and r.out.strip(): bad("part of a rejected text is run")
    env.nontrivial(t)
    env.count("command line: " + ("accepted" if w[0] == "ok" else "rejected"))
    env.sample("command line", t.decode(errors="replace"))


def run_fuzz(s, env):
    """A session of coverage-guided fuzzing; what reached new code is judged like any other text."""
    seeds = [valid(s)[:800] for _ in range(20)] + [b" ".join(s.choice(SYMS) for _ in range(s.int(1, 10))) for _ in range(20)]
    r = fuzzer.session(env.scratch(), seeds, [x for x in SYMS if x] + [n.encode() for n in A.OPS], s.below(1 << 30), 30000 if env.tier == "quick" else 600000, asm=True, max_len=800)
    if r is None: raise Inconclusive("wall clock limit")
    if r.crash is not None:
        judge_all(env, [r.crash], "an assembly text found by the fuzzer")
        raise Violation("a text found by the fuzzer crashes or hangs the assembler, or makes it fail silently", assembly=r.crash, report=r.report)
    for i in range(0, len(r.corpus), 200): judge_all(env, r.corpus[i:i + 200], "an assembly text found by the fuzzer")
    env.count("executions of the fuzzer", r.execs)
    env.count("texts that reached new code", len(r.corpus))
    env.nontrivial(seeds)


PHASES = [Phase("valid", run_valid, 2500, 60000), Phase("symbols", run_symbols, 5000, 150000), Phase("bytes", run_bytes, 5000, 150000), Phase("prefixes", run_prefixes, 150, 3000),
          Phase("operand kinds", run_kinds, len(A.OPS), len(A.OPS), enum=True), Phase("labels", run_labels, 2500, 60000), Phase("many labels", run_many_labels, 16, 60), Phase("literals", run_literals, 100, 1500),
          Phase("command line", run_cli, 200, 3000), Phase("fuzzer", run_fuzz, 8, 64)]
