from common import *
import itertools

TITLE = "Operators group by one fixed precedence and associativity"
RULE = ("A case is an expression without parentheses (every pair and triple of binary operators with every unary operator enumerated, longer ones at random) whose compiled code must be "
        "that of the grouping obtained by an independent precedence-climbing reading of the documented table, or an expression whose operands announce their evaluation, compared with the "
        "reference interpreter; non-trivial when it has at least two operators.")
ASSUME = ["an expression is compared with its fully parenthesised reading through the instructions they compile to and through what they do when run"]

LEFT = {"|": 1, "or": 2, "and": 3, "<": 4, ">": 4, "<=": 4, ">=": 4, "==": 4, "!=": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6}
BIN = list(LEFT)
UN = {"-": "neg", "+": "pos", "?": "nlb", "not": "not"}


def climb(toks):
    """Reads operands (trees) and operators (strings) by the precedence table."""
    pos = [0]

    def unary():
        t = toks[pos[0]]
        if isinstance(t, str):
            pos[0] += 1
            return N(UN[t], None, [unary()])
        pos[0] += 1
        return t

    def binary(minp):
        l = unary()
        while pos[0] < len(toks) and LEFT[toks[pos[0]]] >= minp:
            op = toks[pos[0]]
            pos[0] += 1
            l = Bin(op, l, binary(LEFT[op] + 1))
        return l
    e = binary(1)
    assert pos[0] == len(toks)
    return e


def flat(toks):
    """Source text of the sequence, without parentheses."""
    out = []
    for t in toks:
        if isinstance(t, str): out.append(t.encode())
        else: out += tokens(Prog(ExprS(t)))[:-1]
    return b" ".join(out)




def full(e):
    """Every operation in parentheses, written without the renderer's table."""
    if e.k in LEFT: return b"(" + full(e.kids[0]) + b" " + e.k.encode() + b" " + full(e.kids[1]) + b")"
    if e.k in UNARY: return b"(" + UNARY[e.k].encode() + b" " + full(e.kids[0]) + b")"
    if e.k == "var": return e.v.encode()
    if e.k == "int": return str(e.v).encode()
    if e.k == "flt": return e.v.encode()
    if e.k in ("true", "false", "none"): return e.k.encode()
    if e.k == "dot": return full(e.kids[0]) + b"." + e.v.encode()
    if e.k == "idx": return full(e.kids[0]) + b"[" + full(e.kids[1]) + b"]"
    if e.k == "call": return full(e.kids[0]) + b"(" + b", ".join(full(x) for x in e.kids[1:]) + b")"
    if e.k == "mcall": return full(e.kids[0]) + b"->" + e.v.encode() + b"(" + b", ".join(full(x) for x in e.kids[1:]) + b")"
    if e.k == "str": return fmt_str(e.v, '"')
    raise AssertionError(e.k)


CONTEXT = [b"x = %s;", b"print(%s);", b"return %s;", b"if %s: print(1);", b"l = [%s];", b"m = {a: %s};", b"m[%s] = 1;", b"while %s: break;", b"do {} while %s;",
           b"fun f(a = %s) {}", b"x = y = %s;", b"%s;", b"print((%s));", b"m = {(%s): 2};", b"f(1, %s, 2);", b"m[1] = m.k = %s;", b"o->f(%s);"]


def same_code(pairs, env, what):
    """Each pair of texts must compile to the same instructions."""
    ops = []
    for a, b in pairs: ops += [(COMPILE, NAME, a), (COMPILE, NAME, b)]
    r = env.server().run(ops)
    check_clean(r, pairs[0][0], "compiling")
    for i, (a, b) in enumerate(pairs):
        x, y = r.ops[2 * i], r.ops[2 * i + 1]
        if not x.ok or not y.ok: raise Violation("a well-formed expression is rejected", program=a, parenthesised=b, error=(x.err, y.err))
        if x.listing != y.listing: raise Violation("an expression isn't grouped by the precedence table", program=a, parenthesised=b, instructions=x.listing, instructions_parenthesised=y.listing)
        env.nontrivial(a)
    env.sample(what, pairs[0][0].decode() + "\n" + pairs[0][1].decode(), limit=4)


V = lambda i: Var("abcdefgh"[i])
PAIRS = list(itertools.product(BIN, BIN))
UNS = ["", "-", "+", "?", "not"]


def run_pairs(s, env):
    """Every pair of binary operators, with every unary operator on every operand."""
    op1, op2 = PAIRS[s.index]
    pairs = []
    for us in itertools.product(UNS, repeat=3):
        ts = []
        for i, o in enumerate([op1, op2, None]):
            if us[i]: ts.append(us[i])
            ts.append(V(i))
            if o: ts.append(o)
        pairs.append((b"x = %s;" % flat(ts), b"x = %s;" % full(climb(ts))))
    same_code(pairs, env, "pairs")


def run_triples(s, env):
    op1, op2 = PAIRS[s.index]
    pairs = []
    for op3 in BIN:
        ts = [V(0), op1, V(1), op2, V(2), op3, V(3)]
        pairs.append((b"x = %s;" % flat(ts), b"x = %s;" % full(climb(ts))))
        c = CONTEXT[(s.index + len(pairs)) % len(CONTEXT)]
        pairs.append((c % flat(ts), c % full(climb(ts))))
    same_code(pairs, env, "triples")


def operand(s, d=2):
    c = s.below(9)
    if c < 3 or d <= 0: return V(s.below(8))
    if c == 3: return Int(s.int(0, 99))
    if c == 4: return s.choice([Bool(True), NoneE(), Flt("1.5"), Str("s")])
    if c == 5: return Dot(operand(s, d - 1), s.choice(["k", "x"]))
    if c == 6: return Idx(operand(s, d - 1), operand(s, 0))
    if c == 7: return Call(operand(s, 0) if s.chance(1, 2) else Dot(V(0), "k"), *[operand(s, d - 1) for _ in range(s.int(0, 3))])
    return MCall(operand(s, d - 1), "k", *[operand(s, 0) for _ in range(s.int(0, 2))])


def lit_ok(e):
    """A postfix operator on a literal number would be read with its dot."""
    return not any(n.k in ("dot", "idx", "call", "mcall") and n.kids[0].k not in ("var", "dot", "idx", "call", "mcall") for n in walk(e))


def run_random(s, env):
    pairs = []
    for _ in range(6):
        ts = []
        n = s.int(2, 9)
        for i in range(n):
            for _ in range(s.weighted([(5, 0), (3, 1), (1, 2), (1, 3)])): ts.append(s.choice(list(UN)))
            o = operand(s)
            while not lit_ok(o): o = operand(s, 0)
            ts.append(o)
            if i + 1 < n: ts.append(s.choice(BIN))
        c = s.choice(CONTEXT)
        pairs.append((c % flat(ts), c % full(climb(ts))))
    same_code(pairs, env, "random")


def run_assign(s, env):
    """Chains of assignments: right-associative and looser than everything."""
    pairs = []
    for _ in range(6):
        n = s.int(1, 4)
        tg = [s.choice([V(s.below(8)), Dot(V(s.below(8)), "k"), Idx(V(0), operand(s, 0)), Idx(Dot(V(1), "x"), V(2)), Dot(Idx(V(3), Int(1)), "k")]) for _ in range(n)]
        ts = []
        for i in range(s.int(1, 4)):
            if i: ts.append(s.choice(BIN))
            ts.append(V(s.below(8)))
        v, fv = flat(ts), full(climb(ts))
        a = b" = ".join([flat([t]) for t in tg] + [v])
        b = fv
        for t in reversed(tg): b = full(t) + b" = (" + b + b")"
        pairs.append((a + b";", b + b";"))
    same_code(pairs, env, "assignments")


# ---- what happens when run ---------------------------------------------------------
def run_values(s, env):
    """Random values: the result must be that of the grouping."""
    ss = []
    k = s.below(3)
    for _ in range(s.int(1, 5)):
        n = s.int(2, 7)
        ts = []
        for i in range(n):
            if k == 0:
                if s.chance(1, 4): ts.append(s.choice(["-", "+"]))
                ts.append(Int(s.int(0, 20)) if s.chance(3, 4) else Flt(s.choice(["0.5", "2.0", "7.25"])))
                if i + 1 < n: ts.append(s.choice(["+", "-", "*", "+", "-", "*", "/", "%"]))
            elif k == 1:
                # comparisons of sums, joined by and/or
                if s.chance(1, 5): ts.append("not"); ts.append(Bool(s.chance(1, 2)))
                else: ts += [Int(s.int(0, 9)), s.choice(["+", "-", "*"]), Int(s.int(0, 9)), s.choice(["<", ">", "<=", ">=", "==", "!="]), Int(s.int(0, 20)), s.choice(["+", "-"]), Int(s.int(0, 9))]
                if i + 1 < n: ts.append(s.choice(["and", "or"]))
            else:
                if s.chance(1, 3): ts.append("?")
                ts.append(Var(s.choice(["int", "float", "None", "String", "bool"])))
                if i + 1 < n: ts.append("|")
        e = climb(ts)
        if k == 2: ss.append(Print(Call(Var("istypeof"), e, s.choice([Int(1), Flt("1.5"), NoneE(), Str(""), Bool(True), List()])), Str("\n")))
        else: ss.append(Print(e, Str("\n")))
    p = Prog(*ss)
    run_prog(p, env, sample="values")
    env.nontrivial(render(p))


def run_order(s, env):
    """Operands announce when they're evaluated."""
    n = [0]

    def t(v):
        n[0] += 1
        return Call(Var("t"), Int(n[0]), v)

    def num(d):
        c = s.below(9)
        if d <= 0 or c == 0: return t(Int(s.int(1, 9)))
        if c < 4: return Bin(s.choice(["+", "-", "*"]), num(d - 1), num(d - 1))
        if c == 4: return Un(s.choice(["neg", "pos"]), num(d - 1))
        if c == 5: return Idx(t(List(num(d - 1), num(0))), t(Int(s.int(0, 1))))
        if c == 6: return Call(t(Var("add")), *[num(d - 1) for _ in range(s.int(2, 3))])
        if c == 7: return MCall(t(Var("obj")), "sum", num(d - 1), num(0))
        return Dot(t(Map(("id", "k", num(d - 1)), ("expr", t(Str("z")), num(0)))), "k")

    def boo(d):
        c = s.below(7)
        if d <= 0 or c == 0: return t(Bool(s.chance(1, 2)))
        if c < 4: return Bin(s.choice(["and", "or"]), boo(d - 1), boo(d - 1))
        if c == 4: return Un("not", boo(d - 1))
        return Bin(s.choice(["<", ">", "<=", ">=", "==", "!="]), num(d - 1), num(d - 1))

    ss = [Fun("t", [("k", None, None), ("v", None, None)], Block(Print(Var("k"), Str(" ")), Return(Var("v")))),
          Fun("add", [("a", None, None), ("b", None, None)], Return(Bin("+", Var("a"), Var("b")))),
          Set("obj", Map(("fun", "sum", [("self", None, None), ("a", None, None), ("b", None, None)], Return(Bin("-", Var("a"), Var("b")))))),
          Set("l", List(Int(0), Int(0), Int(0))), Set("m", Map())]
    for _ in range(s.int(1, 4)):
        c = s.below(5)
        if c == 0: ss.append(Print(num(3), Str(";")))
        elif c == 1: ss.append(Print(boo(3), Str(";")))
        elif c == 2: ss.append(ExprS(Asn([s.choice([Idx(t(Var("l")), t(Int(s.int(0, 2)))), Dot(t(Var("m")), "f"), Idx(t(Var("m")), num(1))])], num(2))))
        elif c == 3: ss.append(ExprS(Asn([Idx(t(Var("l")), t(Int(s.int(0, 2))))], Asn([Dot(t(Var("m")), "g")], num(2)))))
        else: ss.append(If(boo(3), Print(num(1)), Print(Str("else"))))
    ss.append(Print(Var("l"), Str("\n")))
    # a failing operand: nothing after it may be evaluated
    if s.chance(1, 4):
        ss.insert(s.int(5, len(ss)), Print(Bin(s.choice(["+", "<", "*"]), num(2), Bin("/", t(Int(1)), t(Int(0))))))
    text, o, op = run_prog(Prog(*ss), env, sample="evaluation order")
    if n[0] >= 3: env.nontrivial(text)


PHASES = [Phase("pairs", run_pairs, len(PAIRS), len(PAIRS), enum=True), Phase("triples", run_triples, len(PAIRS), len(PAIRS), enum=True),
          Phase("random", run_random, 4000, 100000), Phase("assign", run_assign, 1500, 30000), Phase("values", run_values, 5000, 100000), Phase("order", run_order, 6000, 150000)]
