from common import *
from wide import wide_source
import os, re, cli

TITLE = "Errors stop the program at once and are reported where they happened"
RULE = ("A case is a program that fails, laid out with random line breaks and comments: either a random program with many ill-typed operations, or a template "
        "placing one failure of a known kind at a chosen place of a call chain; the output before the failure, the message, and the name and line of every "
        "pending call are compared with the model, through the embedding interface and the real command line; compile errors are planted at known lines of "
        "otherwise valid programs. Non-trivial when the program fails inside a function, on a line greater than 1, or at compile time.")
ASSUME = ["the line of a failing expression is the one where its first token stands (for calls, the '(' of the call)",
          "lines are counted from 1 at each newline byte"]
VARIANTS = ["asan", "cli"]
SEPS = [b"\n", b" ", b"\n\n", b"\t", b" # note\n", b"\n  ", b"\r\n", b"#\n#\n"]


def scatter(s, den=4):
    def sep(i, a, t):
        if i == 0: return b"\n" * s.below(3) if s.chance(1, 3) else b""
        if s.chance(1, den): return s.choice(SEPS)
        return None
    return sep


def seen(o, text, env):
    if not o.ok:
        env.count("frames in the trace: %d" % len(o.trace))
        if len(o.trace) > 1 or (o.trace and (o.trace[0][1] or 1) > 1): env.nontrivial(text)


def case_random(s, env):
    g = Gen(s, budget=40, wrong=10)
    p = g.program(s.int(1, 10))
    if s.chance(2, 3): p.kids.insert(s.int(0, len(p.kids)), ExprS(Call(Var("error"), Str(s.choice(MSGS)))) if s.chance(1, 2) else ExprS(Call(Var("assert"), Bool(True), g.expr("bool", 2))))
    text, o, op = run_prog(p, env, sep=scatter(s), sample="random")
    seen(o, text, env)


MSGS = [b"boom", b"", b"100% sure", b"%s%n%d", b"two\nlines", b"\xc3\xa9\xe2\x82\xac", b"x" * 100, b"error", b"a: b"]


def failing(s):
    """(kind, expression that fails, user message)"""
    v = lambda: s.choice([Int(1), Str("a"), NoneE(), Bool(True), List(), Map(), Flt("1.5"), Var("int")])
    c = s.below(26)
    if c == 0: return "undefined", Var(s.choice(["nothere", "Print", "_"]))
    if c == 1: return "div0", Bin("/", Int(s.int(0, 9)), Int(0))
    if c == 2: return "mod0", Bin("%", Int(s.int(0, 9)), Int(0))
    if c == 3: return "overflow", Bin(s.choice("+*"), Int((1 << 63) - 1), Int(s.int(2, 9)))
    if c == 4: return "sub", Bin("-", Un("neg", Int((1 << 63) - 1)), Int(s.int(2, 9)))
    if c == 5: return "arith", Bin(s.choice("+-*/%"), s.choice([Str("a"), NoneE(), List(), Bool(True)]), Int(1))
    if c == 6: return "arith2", Bin(s.choice("+-*/%"), Int(1), s.choice([Str("a"), NoneE(), Map(), Bool(True)]))
    if c == 7: return "rel", Bin(s.choice(["<", ">", "<=", ">="]), s.choice([Int(1), Str("a")]), s.choice([Str("b"), NoneE(), List()]))
    if c == 8: return "eq", Bin(s.choice(["==", "!="]), Map(), Map())
    if c == 9: return "not", Un("not", s.choice([Int(1), NoneE(), Str("true")]))
    if c == 10: return "neg", Un("neg", s.choice([Str("1"), NoneE(), List(), Bool(True)]))
    if c == 11: return "and", Bin(s.choice(["and", "or"]), s.choice([Int(1), NoneE()]), Bool(True))
    if c == 12: return "and2", Bin("and", Bool(True), s.choice([Int(1), NoneE()]))
    if c == 13: return "call", Call(s.choice([Int(1), Str("f"), NoneE(), List(), Var("int")]), *[Int(1)] * s.int(0, 2))
    if c == 14: return "insert", Asn([Idx(List(Int(1)), s.choice([Int(5), Int(-1), Str("k"), NoneE()]))], Int(1))
    if c == 15: return "insertinto", Asn([s.choice([Dot, lambda a, b: Idx(a, Str(b))])(s.choice([Int(1), Str("s"), NoneE(), Bool(False)]), "k")], Int(1))
    if c == 16: return "mapkey", Map(("expr", s.choice([Map(), Var("print"), Var("int")]), Int(1)))
    if c == 17: return "error", Call(Var("error"), Str(s.choice(MSGS)))
    if c == 18: return "error arg", Call(Var("error"), s.choice([Int(1), NoneE()]))
    if c == 19: return "assert", Call(Var("assert"), Bool(True), Bool(False))
    if c == 20: return "assert arg", Call(Var("assert"), Int(1))
    if c == 21: return "builtin", Call(Var("count"), s.choice([Int(1), NoneE(), Bool(True)]))
    if c == 22: return "module", Call(Dot(Var("string"), s.choice(["ord", "trim", "slice", "cat"])), Int(1))
    if c == 23: return "none method", MCall(s.choice([Map(), Int(1), Str("x")]), "go")
    if c == 24: return "bigcall", Call(Dot(Var("buffer"), "sliceUp"), Call(Dot(Var("buffer"), "new"), Int(3)), Int(s.int(3, 9)), Int(s.int(1, 5)))
    return "prelude", Call(Var(s.choice(["abs", "integerFromDigit"])), s.choice([Str("z"), NoneE(), List()]))


def place(s, e):
    """Put the failing expression at some place of a statement."""
    m = lambda: Int(s.int(0, 9))
    c = s.below(24)
    if c == 0: return ExprS(e)
    if c == 19: return condition(s)
    if c == 20:
        # more results than a call can return: the return statement is named
        return Return(*[Int(i) for i in range(s.int(9, 14))])
    if c == 17: return ExprS(targets(s, e))
    if c == 18: return Print(Str("no"), targets(s, e))
    if c == 1: return Set("v", e)
    if c == 2: return Print(Str("no"), e)
    if c == 3: return Print(e, Call(Var("tick"), Int(1)))
    if c == 4: return Print(List(Int(1), e, Call(Var("tick"), Int(2))))
    if c == 5: return Print(Map(("id", "a", e), ("expr", Str("b"), Int(1))))
    if c == 6: return If(Bin("==", e, Int(1)), Print(Str("no")), Print(Str("no")))
    if c == 7: return While(Bin("==", e, Int(1)), Print(Str("no")))
    if c == 8: return DoWhile(Print(Str("once ")), Bin("==", e, Int(1)))
    if c == 9: return Block(Print(Str("in ")), Block(ExprS(e)), Print(Str("no")))
    if c == 10: return ExprS(Asn([Var("a"), Var("b")], Call(Var("tick"), e)))
    if c == 11: return ExprS(Asn([Idx(Var("L"), e)], Call(Var("tick"), Int(3))))
    if c == 12: return Print(Bin("+", Call(Var("tick"), Int(4)), e))
    if c == 13: return Print(Bin("and", Bool(True), Bin("==", Int(1), e)))
    if c == 14: return Print(Idx(Var("L"), e))
    if c == 15: return Print(MCall(Map(("fun", "m", [("self", None, None), ("x", None, None)], Return(Var("x")))), "m", e))
    if c == 16: return Block(Set("i", Int(0)), While(Bin("<", Var("i"), Int(3)), Block(Set("i", Bin("+", Var("i"), Int(1))), Print(Str("it "), Var("i"), Str(" ")), If(Bin("==", Var("i"), Int(2)), ExprS(e)))))
    return Return(Int(1), e) if s.chance(1, 2) else Return(e)


def condition(s):
    """A condition that isn't a boolean: the condition's own line is named."""
    x = s.choice([Int(5), NoneE(), Str("a"), List(), Bin("+", Int(1), Int(2)), Call(Var("tick"), Int(0)), Idx(Var("L"), Int(0)), Un("neg", Int(1)), Dot(Map(), "k")])
    body = Block(Print(Str("once ")), *[Set("w", Int(i)) for i in range(s.int(0, 3))])
    c = s.below(5)
    if c == 0: return If(x, body)
    if c == 1: return If(x, body, Print(Str("no")))
    if c == 2: return While(x, body)
    if c == 3: return DoWhile(body, x)
    return Block(Set("i", Int(0)), s.choice([While, lambda a, b: DoWhile(b, a)])(Bin("or", Bin("<", Var("i"), Int(2)), x), Block(Set("i", Bin("+", Var("i"), Int(1))), Print(Var("i")))))


def targets(s, e):
    """An assignment to several targets, one of which fails: its own line is named."""
    ts = [s.choice([lambda: Var("a"), lambda: Idx(Var("L"), Int(0)), lambda: Dot(Map(), "k"), lambda: Idx(Call(Var("tick"), Var("L")), Int(1))])() for _ in range(s.int(2, 5))]
    ts[s.below(len(ts))] = s.choice([lambda: Idx(Var("L"), s.choice([Int(7), Int(-1), Str("k")])), lambda: Idx(Var("L"), e), lambda: Dot(Int(3), "k"), lambda: Idx(e, Int(0)),
                                     lambda: Idx(Map(), Map()), lambda: Dot(e, "k"), lambda: Dot(Call(Var("tick"), NoneE()), "k")])()
    return Asn(ts, s.choice([Call(Var("tick"), Int(3)), Call(Var("pair"))]))


def template(s):
    kind, e = failing(s)
    st = place(s, e)
    depth = s.weighted([(2, 0), (4, s.int(1, 4)), (1, s.int(5, 12))])
    top = [Fun("tick", [("n", None, None)], Block(Print(Str("<"), Var("n"), Str(">")), Return(Var("n")))), Set("L", List(Int(1), Int(2))), Fun("pair", [], Return(Int(1), Int(2)))]
    how = s.below(4)
    if depth:
        # a chain of calls written one by one, or recursion
        if how < 3:
            for i in range(depth, 0, -1):
                inner = [st] if i == depth else [pending(s, "f%d" % (i + 1))]
                ps = []
                if i == depth and s.chance(1, 6):
                    # the failure is a parameter's default or annotation
                    ps = [("p", None, e)] if s.chance(1, 2) else [("p", Var(s.choice(["int", "String"])), None)]
                    inner = [Print(Str("no"))]
                top.append(Fun("f%d" % i, ps, Block(Print(Str("[%d" % i)), *inner, Print(Str("]")))))
            top.append(pending(s, "f1"))
        else:
            top.append(Fun("f", [("n", None, None)], Block(Print(Var("n"), Str(" ")), If(Bin("==", Var("n"), Int(depth)), Block(st)), ExprS(Call(Var("f"), Bin("+", Var("n"), Int(1)))), Print(Str("no")))))
            top.append(ExprS(Call(Var("f"), Int(1))))
    else: top.append(st)
    top.append(Print(Str("after")))
    top.insert(3, Print(Str("start\n")))
    return kind, Prog(*top), depth


def pending(s, f):
    c = s.below(8)
    call = Call(Var(f))
    if c < 3: return ExprS(call)
    if c == 3: return Print(Str("no"), call)
    if c == 4: return Set("v", Bin("+", Int(1), call))
    if c == 5: return Return(call)
    if c == 6: return If(Bin("==", call, Int(1)), Print(Str("no")))
    return ExprS(Asn([Var("x"), Var("y")], call))


def case_template(s, env):
    kind, p, depth = template(s)
    text, o, op = run_prog(p, env, sep=scatter(s, s.choice([3, 8, 1000])), sample="template " + kind)
    env.count("failure: " + kind)
    env.count("depth %d" % min(depth, 9))
    seen(o, text, env)


def cli_compare(r, o, name, text, args):
    def bad(m): raise Violation(m, program=text, args=args, status=r.rc, stdout=r.out, stderr=r.err, expected_output=o.out, expected_trace=o.trace)
    if r is None: raise Inconclusive("wall clock limit")
    if r.rc < 0: bad("noja was killed by a signal")
    if norm(r.out) != norm(o.out): bad("the output differs from what the language prescribes")
    if (r.rc == 0) != o.ok: bad("wrong exit status")
    if o.ok:
        if r.err: bad("a program that succeeds wrote on standard error")
        return
    if not r.err.strip(): bad("the failure isn't reported on standard error")
    if o.msg is not None and o.msg not in r.err: bad("the message given to error() isn't reported")
    i = r.err.find(b"Stack trace")
    if i < 0: bad("no stack trace on standard error")
    got = [(os.path.basename(n), l) for n, l in parse_trace(r.err[i:])]
    want = [(os.path.basename(n), l) for n, l in o.trace]
    if got != want: bad("the stack trace doesn't name the failing lines: %r" % got)


def case_cli(s, env):
    if s.chance(1, 2): kind, p, depth = template(s)
    else: p = Gen(s, budget=30, wrong=12).program(s.int(1, 8))
    if max_need(p) > 14: raise Discard("needs too many pending values")
    text = render(p, sep=scatter(s, 8))
    if b"\0" in text: raise Discard("nul")
    d = env.scratch()
    if s.chance(1, 2):
        base = s.choice(ODD_NAMES) if s.chance(1, 3) else "prog.noja"
        path = os.path.join(d, base)
        cli.write(path, text)
        name, args = path, [base if s.chance(1, 2) else path]
    else: name, args = NAME, ["-i", text]
    o = ref_run(p, name=name)
    r = cli.noja(args, d)
    cli_compare(r, o, name, text, args)
    env.count("command line, " + ("inline" if args[0] == "-i" else "file"))
    seen(o, text, env)


BAD = [("break outside of a loop", [b"break", b";"], 0), ("not assignable", [b"1", b"=", b"2", b";"], 0), ("not assignable call", [b"f", b"(", b")", b"=", b"2", b";"], 1),
       ("missing operand", [b"a", b"=", b"1", b"+", b";"], 4), ("stray operator", [b"a", b"=", b"*", b"2", b";"], 2), ("unclosed list", [b"[", b"1", b",", b"2", b";"], 4),
       ("unclosed paren", [b"(", b"1", b"+", b"2", b";"], 4), ("missing colon", [b"if", b"true", b"print", b"(", b"1", b")", b";"], 2),
       ("stray close", [b")"], 0), ("stray bracket", [b"]"], 0), ("else", [b"none", b";", b"else", b";"], 2), ("fun name", [b"fun", b"12", b"(", b")", b"{", b"}"], 1),
       ("fun params", [b"fun", b"g", b"(", b"1", b")", b"{", b"}"], 3), ("dot", [b"a", b"=", b"b", b".", b"1", b";"], 4), ("comma", [b"print", b"(", b"1", b",", b")", b";"], 4),
       ("missing semicolon", [b"a", b"=", b"1", b"b", b"=", b"2", b";"], 3), ("bad char", [b"a", b"=", b"$", b";"], 2), ("while colon", [b"while", b"true", b"{", b"}"], 2),
       ("do without while", [b"do", b"{", b"}", b"print", b"(", b"1", b")", b";"], 3), ("arrow", [b"a", b"->", b"1", b"(", b")", b";"], 2), ("bad key", [b"a", b"=", b"{", b"k", b"1", b"}", b";"], 4)]


def case_compile(s, env):
    """A mistake planted in a valid program: nothing runs, the line is named."""
    g = Gen(s, budget=20, wrong=0)
    a, b = g.program(s.int(0, 4)), g.program(s.int(0, 3))
    kind, toks, where = BAD[s.below(len(BAD))]
    pre, post = tokens(a), tokens(b)
    pre = [b"print", b"(", b'"never"', b")", b";"] + pre
    depth = 0
    if s.chance(1, 3):
        depth = s.int(1, 3)
        for i in range(depth): pre += [[b"{"], [b"fun", b"zz", b"(", b")", b"{"], [b"if", b"true", b":", b"{"]][s.below(3)]
    all_ = pre + toks + [b"}"] * depth + post
    text, lines = layout(all_, scatter(s, s.choice([3, 8])))
    line = lines[len(pre) + where]
    name = s.choice(ODD_NAMES) if s.chance(1, 3) else NAME
    res = env.server("asan").run([(SRC, name, text)])
    check_clean(res, text)
    op = res.ops[0]
    def bad(m, **k): raise Violation(m, program=text, mistake=kind, line=line, error=op.err, trace=op.trace, output=op.out, **k)
    if op.ok: bad("a program with a syntax error ran")
    if op.out: bad("part of a program that doesn't compile ran")
    if not op.err or not op.err.strip(): bad("the error isn't reported")
    got = parse_trace(op.trace or b"")
    if got != [(name, line)]: bad("the line of the compile error isn't named", got=got)
    if s.chance(1, 8):
        r = cli.noja(["-i", text], env.scratch())
        if r is None: raise Inconclusive("wall clock limit")
        if r.rc <= 0 or r.out or not r.err.strip(): bad("noja must fail with an error on standard error and no output", status=r.rc, stdout=r.out, stderr=r.err)
        i = r.err.find(b"Stack trace")
        if i < 0 or parse_trace(r.err[i:]) != [(NAME, line)]: bad("noja doesn't name the line", stderr=r.err)
    env.count("compile error: " + kind)
    env.sample("compile error", text.decode(errors="replace"))
    env.nontrivial(text)


PHASES = [Phase("random", case_random, 5000, 120000), Phase("template", case_template, 9000, 200000), Phase("cli", case_cli, 2500, 30000), Phase("compile", case_compile, 4000, 60000),
          Phase("wide", wide_source, 2000, 12000)]
