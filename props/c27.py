from common import *
import os, cli, math, nast

TITLE = "The AST diagram is a well-formed picture of the program"
RULE = ("A case asks for the diagram of a generated program (or of a damaged one), reads it with an independent GraphViz reader and compares the tree with the one the program was "
        "rendered from; damaged texts must be refused exactly when compiling them gives a syntax error, with the same message; non-trivial when the tree has at least 8 nodes or the text is refused.")
ASSUME = ["arguments and parameters may be shown first to last or last to first", "the two children of a do-while and of a parameter may come in either order", "labels show floats with six significant digits"]
VARIANTS = ["asan", "cli"]


# ---- an independent reader of the DOT language (the subset of it that trees need) --------
def dot_tokens(b):
    i, n, out = 0, len(b), []
    while i < n:
        c = b[i:i + 1]
        if c.isspace(): i += 1
        elif c == b'"':
            j, v = i + 1, bytearray()
            while True:
                if j >= n: raise ValueError("the text ends inside a string")
                if b[j:j + 1] == b"\\":
                    v += b[j:j + 2]
                    j += 2
                elif b[j:j + 1] == b'"': break
                else:
                    v += b[j:j + 1]
                    j += 1
            out.append(("str", bytes(v)))
            i = j + 1
        elif b[i:i + 2] == b"->":
            out.append(("->", None))
            i += 2
        elif c in b"{}[]=;,":
            out.append((c.decode(), None))
            i += 1
        elif c.isalnum() or c == b"_":
            j = i
            while j < n and (b[j:j + 1].isalnum() or b[j:j + 1] == b"_"): j += 1
            out.append(("id", b[i:j]))
            i = j
        else: raise ValueError("unexpected byte %r" % c)
    return out


UNESC = {b"\\n": b"\n", b"\\t": b"\t", b'\\"': b'"', b"\\\\": b"\\"}


def unescape(v):
    out, i = bytearray(), 0
    while i < len(v):
        if v[i:i + 1] == b"\\":
            out += UNESC.get(v[i:i + 2], v[i + 1:i + 2])
            i += 2
        else:
            out.append(v[i])
            i += 1
    return bytes(out)


def read_dot(b):
    """(label, [children]) of the only root; ValueError when it isn't a tree."""
    t = dot_tokens(b)
    p = 0

    def take(k):
        nonlocal p
        if p >= len(t) or t[p][0] != k: raise ValueError("expected %s at token %d, not %r" % (k, p, t[p:p + 3]))
        p += 1
        return t[p - 1][1]
    if take("id") != b"digraph": raise ValueError("not a digraph")
    if t[p][0] == "id": take("id")
    take("{")
    labels, kids, parents, order = {}, {}, {}, []
    while p < len(t) and t[p][0] != "}":
        a = take("id")
        if p < len(t) and t[p][0] == "[":
            take("[")
            while t[p][0] != "]":
                k = take("id"); take("="); v = t[p][1]; p += 1
                if k == b"label":
                    if a not in labels: order.append(a)
                    labels[a] = unescape(v)
                if t[p][0] == ",": p += 1
            take("]")
        else:
            take("->")
            c = take("id")
            kids.setdefault(a, []).append(c)
            if c in parents: raise ValueError("node %r has two parents" % c)
            parents[c] = a
        if p < len(t) and t[p][0] == ";": p += 1
    take("}")
    if p != len(t): raise ValueError("text after the graph")
    for x in list(kids) + list(parents):
        if x not in labels: raise ValueError("node %r is used without being described" % x)
    roots = [x for x in order if x not in parents]
    if len(roots) != 1: raise ValueError("%d roots" % len(roots))
    seen = set()

    def build(x):
        # an explicit stack: diagrams can be deep
        root = [None, []]
        st = [(x, root)]
        while st:
            n, slot = st.pop()
            if n in seen: raise ValueError("a cycle")
            seen.add(n)
            slot[0] = labels[n]
            for c in kids.get(n, []):
                s = [None, []]
                slot[1].append(s)
                st.append((c, s))
        return root
    r = build(roots[0])
    if len(seen) != len(labels): raise ValueError("nodes that aren't connected")
    return r, len(labels)


# ---- the picture a program tree must have: (kind of label, label, how children are ordered, children)
LAB = {"neg": "-", "pos": "+", "not": "!", "nlb": "Nullable Type", "|": "Sum Type", "*": "&times;"}


def want(n):
    k = n.k
    b = lambda x: x.encode() if isinstance(x, str) else x
    if k == "int": return ("t", b(str(n.v)), "seq", [])
    if k == "flt": return ("f", float(n.v), "seq", [])
    if k == "str": return ("t", n.v, "seq", [])
    if k == "var": return ("t", b(n.v), "seq", [])
    if k in ("none", "true", "false"): return ("t", b(k), "seq", [])
    if k in UNARY or k in BINPREC: return ("t", b(LAB.get(k, k)), "seq", [want(x) for x in n.kids])
    if k == "=":
        ts, v = n.kids[:-1], n.kids[-1]
        l = want(ts[0]) if len(ts) == 1 else ("t", b"Tuple", "seq", [want(x) for x in ts])
        return ("t", b"=", "seq", [l, want(v)])
    if k == "dot": return ("t", b"Select", "seq", [want(n.kids[0]), ("t", b(n.v), "seq", [])])
    if k == "idx":
        ks = n.kids[1:]
        return ("t", b"Select", "seq", [want(n.kids[0]), want(ks[0]) if len(ks) == 1 else ("t", b"List", "seq", [want(x) for x in ks])])
    if k == "call": return ("t", b"Call", "head", [want(x) for x in n.kids])
    if k == "mcall":
        return ("t", b"Call", "head", [("t", b"->", "seq", [want(n.kids[0]), ("t", b(n.v), "seq", [])])] + [want(x) for x in n.kids[1:]])
    if k == "list": return ("t", b"List", "seq", [want(x) for x in n.kids])
    if k == "map":
        es = []
        for e in n.v:
            if e[0] == "id": es.append(("t", b"Entry", "seq", [("t", b(e[1]), "seq", []), want(e[2])]))
            elif e[0] == "expr": es.append(("t", b"Entry", "seq", [want(e[1]), want(e[2])]))
            else: es.append(("t", b"Entry", "seq", [("t", b(e[1]), "seq", []), fun(b"???", e[2], e[3])]))
        return ("t", b"Map", "seq", es)
    if k == "expr": return want(n.kids[0])
    if k in ("block", "prog"): return ("t", b"compound", "seq", [want(x) for x in n.kids])
    if k == "if":
        ks = [want(x) for x in n.kids]
        if len(ks) == 3 and nast.Renderer().open_if(n.kids[1]):      # rendered inside braces
            ks[1] = ("t", b"compound", "seq", [ks[1]])
        return ("t", b"if-else" if len(ks) == 3 else b"if", "seq", ks)
    if k == "while": return ("t", b"while", "seq", [want(x) for x in n.kids])
    if k == "dowhile": return ("t", b"do-while", "any", [want(x) for x in n.kids])
    if k == "break": return ("t", b"break", "seq", [])
    if k == "return": return ("t", b"return", "seq", [want(x) for x in n.kids])
    if k == "fun": return fun(n.v[0].encode(), n.v[1], n.kids[0])
    raise AssertionError(k)


def fun(name, params, body):
    ps = [("t", pn.encode(), "any", [want(x) for x in (pt, pd) if x is not None]) for pn, pt, pd in params]
    return ("t", name, "seq", [("t", b"args", "rev", ps), want(body)])


def match(g, w):
    """None, or what differs."""
    kind, lab, order, kids = w
    if kind == "f":
        try: v = float(g[0])
        except ValueError: return "label %r instead of the float %r" % (g[0], lab)
        if not (v == lab or abs(v - lab) <= abs(lab) * 1e-5): return "label %r instead of the float %r" % (g[0], lab)
    elif g[0] != lab: return "label %r instead of %r" % (g[0], lab)
    if len(g[1]) != len(kids): return "%r has %d children instead of %d" % (lab, len(g[1]), len(kids))
    orders = [kids]
    if order == "head" and len(kids) > 2: orders.append(kids[:1] + kids[:0:-1])
    if order in ("rev", "any") and len(kids) > 1: orders.append(kids[::-1])
    d = None
    for o in orders:
        d = None
        for a, b in zip(g[1], o):
            d = match(a, b)
            if d: break
        if not d: return None
    return d


def size(w): return 1 + sum(size(x) for x in w[3])


class Plain(Opts): pass


def diagram_of(text, env, kind=DIAG, name=""):
    res = env.server().run([(kind, name, text)])
    check_clean(res, text, "drawing the program")
    if res.out: raise Violation("drawing a program runs it", program=text, output=res.out)
    if res.live or res.fds: raise Violation("drawing a program leaves memory or descriptors behind", program=text, live=res.live, fds=res.fds)
    return res.ops[0]


def check_tree(dg, p, text):
    try: g, n = read_dot(dg)
    except (ValueError, IndexError) as e: raise Violation("the diagram isn't a well-formed tree: %s" % e, program=text, diagram=dg)
    w = want(p)
    d = match(g, w)
    if d: raise Violation("the diagram isn't that of the program: " + d, program=text, diagram=dg)
    return size(w)


def anything(s, d=4):
    """Any program of the grammar, meaningful or not."""
    names = ["a", "b", "foo", "_x1", "node_1", "label", "digraph", "x" * 60]
    if s.chance(1, 10): names.append("v" * s.choice([s.int(61, 4000), 511, 512, 1023, 1024, 1025]))

    def ex(d):
        c = s.below(22)
        if d <= 0 or c < 4: return s.choice([Var(s.choice(names)), N("int", s.choice([0, 7, 2**31, 2**32 + 1, 2**63 - 1, s.below(1000)])), Flt(s.choice(["0.5", "3.14159265358979", "100000000.0", "0.000001", "1.0"])), Str(st()), NoneE(), Bool(True), Bool(False)])
        if c < 7: return Bin(s.choice(list(BINPREC)), ex(d - 1), ex(d - 1))
        if c < 9: return Un(s.choice(list(UNARY)), ex(d - 1))
        if c == 9: return Dot(pf(d - 1), s.choice(names))
        if c == 10: return Idx(pf(d - 1), *[ex(d - 1) for _ in range(s.int(1, 3))])
        if c < 13: return Call(pf(d - 1), *[ex(d - 1) for _ in range(s.int(0, 4))])
        if c < 15: return MCall(pf(d - 1), s.choice(names), *[ex(d - 1) for _ in range(s.int(0, 3))])
        if c < 17: return List(*[ex(d - 1) for _ in range(s.int(0, 4))])
        if c < 20:
            es = []
            for _ in range(s.int(0, 3)):
                k = s.below(3)
                if k == 0: es.append(("id", s.choice(names), ex(d - 1)))
                elif k == 1: es.append(("expr", ex(d - 1), ex(d - 1)))
                else: es.append(("fun", s.choice(names), params(d - 1), stm(d - 1)))
            return Map(*es)
        return Asn([tg(d - 1) for _ in range(s.weighted([(4, 1), (2, 2), (1, 3), (1, 9)]))], ex(d - 1))

    def st():
        if s.chance(1, 12):     # any length a literal may have, plain or with characters that need escaping
            n = s.choice([s.int(0, 300), s.int(0, 4095), 4095, 1023, 1024, 1025, 2048, 4090])
            return (s.choice([b"z", b"w", b"long text ", b"q" * 1000 + b'"', b"\n\t", b"\\"]) * n)[:n]
        return s.choice([b"", b"x", b'"', b"\\", b'a"b\\n', b"two\nlines", b"\t", b"];", b'"];', b"\xc3\xa9", b"\r", b"%s%d", b"y" * 200, b"\\\\\"", b"->", b"\x01"])
    def pf(d):
        e = ex(d)
        return e if e.k in ("var", "dot", "idx", "call", "mcall") else Var(s.choice(names))
    def tg(d): return s.choice([Var(s.choice(names)), Dot(pf(d), s.choice(names)), Idx(pf(d), ex(d))])
    def params(d):
        ns = s.perm(names[:5])[:s.int(0, 4)]
        return [(n, tex(d) if s.chance(1, 3) else None, ex(d) if s.chance(1, 3) else None) for n in ns]
    def tex(d): return s.choice([Var("int"), Un("nlb", Var("int")), Bin("|", Var("int"), Var("None")), List(Var("int"))])

    def stm(d):
        c = s.below(13)
        if d <= 0 or c < 3: return ExprS(ex(max(d, 1)))
        if c == 3: return Block(*[stm(d - 1) for _ in range(s.int(0, 4))])
        if c < 6: return If(ex(d - 1), stm(d - 1), *([stm(d - 1)] if s.chance(1, 2) else []))
        if c == 6: return While(ex(d - 1), stm(d - 1))
        if c == 7: return DoWhile(stm(d - 1), ex(d - 1))
        if c == 8: return Break()
        if c < 11: return Return(*[ex(d - 1) for _ in range(s.weighted([(4, 1), (2, 2), (1, 4), (1, 40)]))])
        return Fun(s.choice(names), params(d - 1), stm(d - 1))
    return Prog(*[stm(d) for _ in range(s.int(0, 5))])


def run_whole(s, env):
    p = Gen(s, budget=40, wrong=60).program(s.int(1, 10))
    text = render(p)
    op = diagram_of(text, env)
    if not op.ok: raise Violation("no diagram for a well-formed program", program=text, error=op.err)
    if check_tree(op.diagram, p, text) >= 8: env.nontrivial(text)
    env.sample("program", text.decode(errors="replace"))


def run_any(s, env):
    p = anything(s)
    text = render(p)
    op = diagram_of(text, env)
    if not op.ok: raise Violation("no diagram for a program that parses", program=text, error=op.err)
    if op.err_on_success: raise Violation("a diagram together with an error", program=text)
    if check_tree(op.diagram, p, text) >= 8: env.nontrivial(text)
    env.sample("any statements", text.decode(errors="replace"))


# what's wrong with the meaning of a program whose grammar is right: drawing doesn't look at it
MEANING = [b"Assigning to ", b"Break not inside a loop", b"Operator -> out of a function call", b"Tuple outside of assignment"]


def run_damaged(s, env):
    """Texts that may not parse: the diagram must exist exactly when there's no syntax error."""
    p = anything(s, 3) if s.chance(1, 2) else Gen(s, budget=20, wrong=60).program(s.int(1, 4))
    toks = tokens(p)
    for _ in range(s.int(1, 2)):
        if not toks: break
        i = s.below(len(toks))
        c = s.below(5)
        if c == 0: del toks[i]
        elif c == 1: toks.insert(i, s.choice(toks))
        elif c == 2: toks[i] = s.choice(toks)
        elif c == 3: toks = toks[:i]
        else: toks.insert(i, s.choice([b"@", b"!", b"\"", b"99999999999999999999", b"else", b")", b"}", b"->", b",", b"."]))
    text = b" ".join(toks)
    res = env.server().run([(DIAG, "", text), (COMPILE, "(unnamed)", text)])
    check_clean(res, text, "drawing the text")
    if res.live: raise Violation("drawing a text leaves memory behind", program=text, live=res.live)
    a, b = res.ops
    if a.ok:
        try: g, n = read_dot(a.diagram)
        except (ValueError, IndexError) as e: raise Violation("the diagram isn't a well-formed tree: %s" % e, program=text, diagram=a.diagram)
        if not b.ok and b.err.startswith(b"Syntax") and not any(x in b.err for x in MEANING): raise Violation("a diagram of a text that doesn't parse", program=text, error=b.err, diagram=a.diagram)
        env.count("still parses")
    else:
        if b.ok: raise Violation("no diagram for a text that compiles", program=text, error=a.err)
        if a.err != b.err: raise Violation("drawing and compiling report different errors", program=text, drawing=a.err, compiling=b.err)
        if not a.err or not a.err.strip(): raise Violation("no diagram and no error", program=text)
        env.nontrivial(text)
        env.count("refused")
        env.sample("refused", text.decode(errors="replace"))


def run_cli(s, env):
    d = env.scratch()
    os.chmod(d, 0o777)
    bad = s.chance(1, 4)
    p = anything(s, 3)
    p.kids.insert(0, Print(Str("RUNS")))
    text = render(p)
    if bad: text += s.choice([b"(", b"x = ;", b"'open", b"}"])
    src, of = os.path.join(d, "p.noja"), os.path.join(d, "out.dot")
    for x in (src, of):
        if os.path.exists(x): os.unlink(x)
    if s.chance(1, 2): args = ["-i", text]
    else:
        cli.write(src, text)
        args = ["p.noja"]
    tofile = s.chance(1, 2)
    opts = [["--diagram-ast"]] + ([[s.choice(["-o", "--output"]), "out.dot"]] if tofile else [])
    opts = [x for o in s.perm(opts) for x in o]
    r = cli.noja(opts + args, d)
    if r is None: raise Inconclusive("wall clock limit")
    v = lambda m: (_ for _ in ()).throw(Violation(m, program=text, arguments=repr(opts), status=r.rc, output=r.out, errors=r.err))
    if bad:
        if r.rc == 0 or not r.err or r.out: v("a text that doesn't parse must be refused with an error")
        if tofile and os.path.exists(of) and os.path.getsize(of): v("a diagram file for a text that doesn't parse")
    else:
        if r.rc != 0 or r.err: v("drawing a program from the command line fails")
        dg = open(of, "rb").read() if tofile else r.out
        if tofile and r.out: v("output on the standard output although a file was asked for")
        check_tree(dg, p, text)
    env.nontrivial(text, bad, tofile)
    env.sample("command line", " ".join(opts) + "\n" + text.decode(errors="replace"))


PHASES = [Phase("whole", run_whole, 2500, 60000), Phase("any", run_any, 6000, 150000), Phase("damaged", run_damaged, 5000, 150000), Phase("cli", run_cli, 500, 8000)]
