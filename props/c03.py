from common import *
import nparse, os
import cli, fuzzer

TITLE = "Any source text is run or rejected cleanly"
RULE = ("A case is a text: a generated program mutated at token or byte level, each prefix of one, a random or enumerated sequence of tokens, random bytes, or what a coverage-guided fuzzer makes of those; "
        "an independent reader of the grammar says whether it is a program. A program must run as the reference interpreter says, anything else must be rejected with a message, a failing status and the offending line, "
        "by compilation, execution, the diagram and the command line alike, without a crash, a hang or a leak; non-trivial when a text differs from the valid program it came from or holds at least two tokens.")
ASSUME = ["texts beyond an implementation limit (nesting, literal length, values pending) are only required not to crash or to fail silently here; C19 decides those limits",
          "a zero byte inside a string literal ends the literal's value: such texts are only required not to crash"]

TOKENS = [b"if", b"fun", b"not", b"and", b"or", b"else", b"none", b"true", b"false", b"return", b"while", b"break", b"do",
          b"a", b"b", b"print", b"1", b"0", b"1.5", b"'s'", b'"t"', b"(", b")", b"[", b"]", b"{", b"}", b";", b",", b":", b".", b"->", b"=", b"==", b"!=", b"<", b"<=", b">", b">=",
          b"+", b"-", b"*", b"/", b"%", b"|", b"?", b"!", b"#x\n", b"'", b"@", b"\\", b"'%s%n%s%n%9$s'"]
FORMAT = TOKENS[-1]
BYTES = [b"", b"\0", b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"'", b'"', b"\\", b"#", b"\n", b"\r", b"\x0b", b"\x1f", b"\x7f", b"\x80", b"1e5", b"0x1", b"1.", b".5", b"1..2", b"&&", b"||", b"!", b"!==", b"===", b"<>", b"=>", b"-->", b"->", b"::", b";;",
         b"'a' 'b'", b"\\n", b"'\\", b"'\\x'", b"'\\''", b"/*", b"//", b"9223372036854775807", b"9223372036854775808", b"$", b"`", b"~", b"^", b"&", b"@"]
SNIPPETS = [b"break;", b"return;", b"return 1, 2;", b"a, b = 1;", b"a, b = f();", b"(a, b) = f();", b"1 = 2;", b"a + 1 = 2;", b"a->b;", b"a->b.c();", b"(a->b)(1);", b"x = (1, 2);", b"f((1, 2));", b"[1, 2,];", b"{};", b"({});", b"({a: 1, });",
            b"({fun f() 1; a: 2});", b"({fun f() 1;, a: 2});", b"a[];", b"a[1, 2];", b"a[1][2] = 3;", b"f() = 1;", b"fun f(a = 1, b: int) a;", b"fun f(a: x = 1) a;", b"fun () 1;", b"fun f 1;", b"fun f(,) 1;", b"do a; while b;", b"do { break; } while 1;",
            b"while (break): 1;", b"if a b;", b"if a: else b;", b"if a: 1 else 2;", b"if a: 1; else 2; else 3;", b"{ ; }", b";", b"a = b = c;", b"a = b, c = f();", b"not a = 1;", b"-a;", b"?a | b;", b"a |;", b"import('x');", b"fun f() break;", b"while 1: fun f() break;",
            b"while 1: { fun f() { while 1: break; } }", b"({a: (1, 2)});", b"return (1, 2), 3;", b"return ((1, 2));", b"a.1;", b"a.if;", b"a.'x';", b"a . b;", b"a -> b (1);", b"'\\q';", b"a ? b;", b"a = fun f() 1;"]


def line_err(text, got, off):
    return got == [(NAME, nparse.line_of(text, min(off, len(text))))]


def judge(s, env, text, run=True, what="text"):
    """The one oracle of every phase, for one text."""
    return judge_all(s, env, [text], run, what)


def judge_all(s, env, texts, run=False, what="text"):
    want = []
    for t in texts:
        try: want.append(nparse.acceptance(t))
        except nparse.Limit: want.append(None)
    ops = []
    for t in texts:
        ops.append((COMPILE, NAME, t))
        if run: ops += [(SRC, NAME, t), (DIAG, NAME, t), (NEWRT, "", "")]
    r = env.server().run(ops, steps=60000, flags=runner.F_OUTPOS if False else 0)
    step = 4 if run else 1
    c = r.crash()
    if r.timed_out: raise Inconclusive("wall clock limit")
    if c:
        k = min(len(r.ops), len(ops) - 1)
        if len(texts) == 1: t = texts[0]
        else:                                # find the one
            t = texts[min(len(texts) - 1, max(0, len(r.ops) // step))]
            for u in texts:
                if env.server().run([(COMPILE, NAME, u)], steps=1000).crash():
                    t = u
                    break
        raise Violation("%s crashed or hung the interpreter: %s" % (what, c.splitlines()[0]), program=t, report=c)
    for i, (t, w) in enumerate(zip(texts, want)):
        op = r.ops[i * step]
        verdict(t, w, op, "compilation")
        if run:
            src, dia = r.ops[i * step + 1], r.ops[i * step + 2]
            if w is None or b"\0" in t: silent(t, src, "execution"); silent(t, dia, "the diagram")
            else:
                if w[0] != "ok": verdict(t, w, src, "execution", src.out)
                elif b"Internal Error" in (src.err or b"") or src.ok is None: pass
                else: meaning(t, w[1], src, env)
                verdict(t, ("ok", None) if w[0] == "semantic" else w, dia, "the diagram")
        env.count("beyond a limit" if w is None else {"ok": "accepted", "syntax": "rejected by the grammar", "semantic": "rejected for its meaning"}[w[0]])
    return want


def silent(t, op, by):
    if op.ok is False and not (op.err or b"").strip(): raise Violation("%s fails silently" % by, program=t)
    if op.ok and op.err_on_success: raise Violation("%s reports an error and succeeds" % by, program=t, error=op.err)


def verdict(t, w, op, by, out=b""):
    silent(t, op, by)
    if w is None or b"\0" in t: return
    if w[0] == "ok":
        if not op.ok: raise Violation("a well-formed program is rejected by %s" % by, program=t, error=op.err)
        return
    if op.ok: raise Violation("what isn't a program is accepted by %s" % by, program=t, expected="rejected (%s) at offset %d" % (w[2], w[1]))
    if out: raise Violation("part of what isn't a program is run", program=t, output=out)
    if op.trace is not None and by == "execution":
        got = parse_trace(op.trace)
        if not line_err(t, got, w[1]): raise Violation("the error of a rejected text doesn't name the offending line", program=t, expected=nparse.line_of(t, w[1]), got=got, error=op.err)


def meaning(t, tree, op, env):
    """An accepted text runs as the language says."""
    if max_need(tree) > 14: return
    try: o = ref_run(tree, fuel=4000)
    except Discard: return
    env.count("run and compared")
    compare(op, o, t)


# ---- generation ------------------------------------------------------------------------
def base(s):
    c = s.below(8)
    if c < 5: return tokens(Gen(s, budget=s.choice([12, 30]), wrong=s.choice([300, 40])).program(s.int(1, 6)))
    out = []
    for _ in range(s.int(1, 4)):
        t = s.choice(SNIPPETS)
        out += [t[k.off:k.end] for k in nparse.scan(t)[:-1]] if t.count(b"'") % 2 == 0 else [t]
    return out


def mutate_tokens(s, toks):
    toks = list(toks)
    for _ in range(s.weighted([(5, 1), (2, 2), (1, 5)])):
        c = s.below(7)
        i = s.below(len(toks) + 1)
        if c == 0 and toks: del toks[min(i, len(toks) - 1)]
        elif c == 1: toks[i:i] = [s.choice(TOKENS)]
        elif c == 2 and toks: toks[min(i, len(toks) - 1)] = s.choice(TOKENS)
        elif c == 3 and toks:
            j = s.below(len(toks))
            i = min(i, len(toks) - 1)
            toks[i], toks[j] = toks[j], toks[i]
        elif c == 4 and toks:
            j = min(len(toks), i + s.int(1, 8))
            toks[i:i] = toks[i:j]
        elif c == 5: del toks[i:i + s.int(1, 8)]
        else:
            t = s.choice(SNIPPETS)
            toks[i:i] = [t]
    return toks


def spread(s, toks):
    return layout(toks, lambda i, a, b: s.choice([b"\n", b" ", b"", b"#c\n"]) if s.chance(1, 6) else None)[0]


def run_tokens(s, env):
    toks = mutate_tokens(s, base(s))
    fmt = s.chance(1, 4)
    if fmt:
        # In the place of a token or just before it.
        toks = toks or [b";"]
        for _ in range(s.int(1, 3)):
            i = s.below(len(toks))
            toks[i:i + s.below(2)] = [FORMAT]
    t = spread(s, toks)
    judge(s, env, t)
    if fmt and FORMAT in t: quoted(env, t)
    env.nontrivial(t)
    env.sample("tokens", t.decode(errors="replace"))


def quoted(env, t):
    """What a text quotes is data: one that differs in the bytes of a literal is reported likewise."""
    plain = FORMAT.replace(b"%", b"@")
    if plain in t: return
    r = env.server().run([(COMPILE, NAME, t), (COMPILE, NAME, t.replace(FORMAT, plain))], steps=1000)
    if r.crash() or len(r.ops) < 2: raise Violation("the error of a rejected text crashed the interpreter", program=t, report=r.crash())
    a, b = r.ops
    if a.ok != b.ok or (a.err or b"").replace(FORMAT, plain) != (b.err or b""):
        raise Violation("the error of a rejected text doesn't quote the text as it is", program=t, error=a.err, expected=(b.err or b"").replace(plain, FORMAT))
    env.count("errors that quote a literal compared")


def run_bytes(s, env):
    t = bytearray(spread(s, base(s)) if s.chance(4, 5) else b"".join(s.choice(BYTES + TOKENS) for _ in range(s.int(0, 20))))
    for _ in range(s.weighted([(4, 1), (2, 3), (1, 12)])):
        c = s.below(6)
        i = s.below(len(t) + 1)
        if c == 0: t[i:i] = s.choice(BYTES)
        elif c == 1: del t[i:i + s.int(1, 6)]
        elif c == 2: t[i:i + 1] = bytes([s.int(0, 255)])
        elif c == 3: del t[i:]
        elif c == 4: t[i:i] = t[i:i + s.int(1, 30)]
        elif t:
            i = min(i, len(t) - 1)
            t[i] ^= 1 << s.below(8)
    t = bytes(t)
    judge(s, env, t)
    env.nontrivial(t)
    env.sample("bytes", t.decode(errors="replace"))


def run_prefixes(s, env):
    """Every prefix of a program, and every program with one token left out."""
    toks = base(s)[:120]
    t = spread(s, toks)
    if s.chance(1, 2): texts = [t[:i] for i in range(len(t) + 1)][-1200:]
    else: texts = [layout(toks[:i] + toks[i + 1:])[0] for i in range(len(toks))]
    judge_all(s, env, texts, what="a prefix or a program with a token left out")
    env.count("texts", len(texts))
    env.nontrivial(t)
    env.sample("prefixes", t.decode(errors="replace"))


def run_soup(s, env):
    """Tokens one after the other, of which most keep the text a possible beginning of a program."""
    toks = []
    n = s.int(1, 40)
    texts = []
    for _ in range(n):
        best = None
        for _ in range(3):
            k = s.choice(TOKENS)
            best = k
            t = b" ".join(toks + [k])
            try: nparse.acceptance(t)
            except nparse.Limit: break
            a = nparse.acceptance(t)
            if a[0] != "syntax" or a[1] >= len(t): break
        toks.append(best)
        texts.append(b" ".join(toks))
    judge_all(s, env, texts[:-1], what="a sequence of tokens")
    judge(s, env, texts[-1])
    env.nontrivial(texts[-1])
    env.sample("sequence of tokens", texts[-1].decode(errors="replace"))


def run_enum(s, env):
    """All sequences of up to three tokens (the first two are those of the case)."""
    n = len(TOKENS)
    a, b = TOKENS[s.index // n % n], TOKENS[s.index % n]
    texts = [a + b" " + b] + [a + b" " + b + b" " + c for c in TOKENS] + [a + b + c for c in TOKENS]
    judge_all(s, env, texts, what="a sequence of three tokens")
    env.count("texts", len(texts))
    env.nontrivial(s.index)


def run_enum4(s, env):
    """All sequences of four tokens with three of the case."""
    n = len(TOKENS)
    x = s.index
    a, b, c = TOKENS[x // n // n % n], TOKENS[x // n % n], TOKENS[x % n]
    texts = [b" ".join((a, b, c, d)) for d in TOKENS]
    judge_all(s, env, texts, what="a sequence of four tokens")
    env.count("texts", len(texts))
    env.nontrivial(x)


def run_two(s, env):
    """All texts of one and two bytes, alone and inside of a program."""
    a = bytes([s.index % 256])
    texts = [a] + [a + bytes([b]) for b in range(256)] + [b"x = " + a + bytes([b]) + b" 1;" for b in range(256)] + [b"x = 'a" + a + bytes([b]) + b"';" for b in range(256)]
    judge_all(s, env, texts, what="a short text")
    env.count("texts", len(texts))
    env.nontrivial(a)


def nest(s, n):
    c = s.below(22)
    k = b"%d" % n
    return [lambda: b"(" * n + b"1" + b")" * n + b";", lambda: b"[" * n + b"]" * n + b";", lambda: b"-" * n + b"1;", lambda: b"not " * n + b"1;", lambda: b"?" * n + b"int;", lambda: b"{" * n + b"}" * n,
            lambda: b"if 1: " * n + b"1;", lambda: b"while 0: " * n + b"1;", lambda: b"do " * n + b"1;" + b" while 0;" * n, lambda: b"fun f() " * n + b"1;", lambda: b"x" + b".a" * n + b";", lambda: b"x" + b"()" * n + b";",
            lambda: b"x" + b"[0]" * n + b";", lambda: b"1" + b"+1" * n + b";", lambda: b"a=" * n + b"1;", lambda: b"x = " + b"{a: " * n + b"1" + b"}" * n + b";", lambda: b"(" * n, lambda: b"{" * n, lambda: b"if 1: 1; else " * n + b"2;",
            lambda: b"1" + b" and 1" * n + b";", lambda: b"x = " + b"{fun f() " * n + b"1;" + b"}" * n + b";", lambda: b"return 1" + b", 1" * n + b";", lambda: b"f(" * n + b")" * n + b";"][c]()


def run_nesting(s, env):
    t = nest(s, s.choice([5, 40, 200, 1000, 2046, 2047, 2048, 4094, 4095, 4096, 5000, 20000, 100000]))
    judge(s, env, t, what="deep nesting")
    env.nontrivial(t[:100], len(t))


def run_long(s, env):
    """Long texts: many statements, long names, long literals, long comments, numbers with many digits."""
    n = s.choice([50, 62, 63, 64, 65, 255, 256, 1023, 1024, 4094, 4095, 4096, 5000, 70000])
    c = s.below(9)
    t = [lambda: b"x = 1;\n" * n, lambda: b"a" * n + b" = 1; print(" + b"a" * n + b");", lambda: b"x = '" + b"y" * n + b"'; print(count(x));" if n < 4000 else b"x = '" + b"y" * n + b"';", lambda: b"#" + b"c" * n + b"\nprint(1);", lambda: b"x = " + b"1" * n + b";",
         lambda: b"x = " + b"1" * (n // 2) + b"." + b"5" * (n - n // 2) + b";", lambda: b"x = '" + b"\\n" * n + b"';", lambda: b" \n" * n + b"print(2);", lambda: b"x = '" + b"z" * n][c]()
    judge(s, env, t, what="a long text")
    env.nontrivial(c, n)


def run_cli(s, env):
    """The command line says the same, by its exit status and messages."""
    t = spread(s, mutate_tokens(s, base(s)) if s.chance(3, 4) else base(s))
    if b"\0" in t: raise Discard("zero byte")
    try: w = nparse.acceptance(t)
    except nparse.Limit: raise Discard("limit")
    d = env.scratch()
    f = os.path.join(d, "p.noja")
    with open(f, "wb") as h: h.write(t)
    def bad(m, r, **k): raise Violation(m, program=t, status=r.rc, stdout=r.out, stderr=r.err, **k)
    if w[0] == "ok":
        # Its end is bounded by the harness first
        r0 = env.server().run([(SRC, NAME, t)], steps=20000)
        check_clean(r0, t)
        if r0.stopped or not r0.ops[0].ret is not None and r0.ops[0].ok is None: raise Discard("runs long")
    for args, what in (([f], "file"), (["-i", "--", t] if False else ["-i", t], "inline"), (["--diagram-ast", f], "diagram")):
        if what == "inline" and (not t or t[:1] == b"-"): continue
        r = cli.noja(args, cwd=d, stdin=b"", timeout=60)
        if r is None: raise Inconclusive("wall clock limit")
        if r.rc < 0: bad("noja was killed by a signal (%s)" % what, r)
        if what == "diagram": ok = w[0] != "syntax"
        else: ok = w[0] == "ok" and r0.ops[0].ok
        if ok != (r.rc == 0): bad("noja's status is wrong (%s)" % what, r, expected="success" if ok else "failure")
        if not ok and not r.err.strip(): bad("noja fails silently (%s)" % what, r)
        if what == "file" and w[0] != "ok" and r.out.strip(): bad("part of what isn't a program is run", r)
    env.nontrivial(t)
    env.count("accepted" if w[0] == "ok" else "rejected")
    env.sample("command line", t.decode(errors="replace"))


def run_fuzz(s, env):
    """A session of coverage-guided fuzzing; what reached new code is judged like any other text."""
    seeds = [spread(s, base(s))[:1200] for _ in range(25)] + [x for x in SNIPPETS if s.chance(1, 4)]
    runs = 6000 if env.tier == "quick" else 120000
    r = fuzzer.session(env.scratch(), seeds, TOKENS, s.below(1 << 30), runs)
    if r is None: raise Inconclusive("wall clock limit")
    if r.crash is not None:
        judge(s, env, r.crash, what="a text found by the fuzzer")
        raise Violation("a text found by the fuzzer crashes or hangs the compiler or the run, or fails silently", program=r.crash, report=r.report)
    for i in range(0, len(r.corpus), 150):
        part = r.corpus[i:i + 150]
        for t, w in zip(part, judge_all(s, env, part, what="a text found by the fuzzer")):
            if w is None or w[0] != "syntax": judge(s, env, t, what="a text found by the fuzzer")
    env.count("executions of the fuzzer", r.execs)
    env.count("texts that reached new code", len(r.corpus))
    env.nontrivial(seeds)
    if r.corpus: env.sample("fuzzer", r.corpus[-1].decode(errors="replace"))


PHASES = [Phase("tokens", run_tokens, 3000, 80000), Phase("bytes", run_bytes, 3000, 80000), Phase("prefixes", run_prefixes, 250, 4000), Phase("sequences", run_soup, 600, 15000),
          Phase("three tokens", run_enum, len(TOKENS) ** 2, len(TOKENS) ** 2, enum=True), Phase("four tokens", run_enum4, 0, len(TOKENS) ** 3, enum=True), Phase("two bytes", run_two, 256, 256, enum=True),
          Phase("nesting", run_nesting, 250, 3000), Phase("long", run_long, 150, 1000), Phase("command line", run_cli, 150, 2000), Phase("fuzzer", run_fuzz, 8, 64)]
TECHNIQUE = "property-based testing and fuzzing: mutational, grammar-based and exhaustive small-scope generation of texts, decided by an independent reader of the grammar and the reference interpreter, under sanitizers"
