from common import *
import os
import asmtext as A, aparse, cli
from vm import VM

TITLE = "Assembly runs instruction by instruction as the stack machine says"
RULE = ("A case is a listing written directly in assembly - functions, branches, loops, values left pending across jumps, code in any order, instructions the compiler never combines that way - run by "
        "the interpreter and by an independent model of the stack machine; output, returned values, success or failure and the trace must agree. Non-trivial when at least 8 instructions were executed.")
ASSUME = ["a RETURN names the number of values pending, calls ask for at least one result, counts aren't negative", "string operands without NUL bytes"]
TECHNIQUE = "property-based testing: generated assembly listings, run and compared with an independent model of the stack machine, with shrinking"
VARIANTS = ["asan"]

SIMPLE = [b"", b"a", b"text", b"two words\n", b"\xc3\xa9\xe2\x82\xac", b"x" * 40, b"k", b"name"]
INTS = [0, 1, 2, 3, -1, 7, 10, 255, 1000, -5]
BIG = [(1 << 63) - 1, -(1 << 63) + 1, 1 << 31, 1 << 32, (1 << 53) + 1]
TYPES = ["int", "float", "String", "bool", "List", "Map", "None", "any"]


class Fn:
    def __init__(self, label, argc): self.label, self.argc = label, argc


class Emit:
    """Generates one listing."""
    def __init__(self, s, wild):
        self.s, self.wild = s, wild
        self.bodies = []          # linear code of every function
        self.nl = 0
        self.nv = 0
        self.fns = []
        self.budget = 90

    def label(self):
        self.nl += 1
        return "L%d" % self.nl

    def op(self, name, *ops): self.code.append((name, list(ops)))
    def mark(self, l): self.code.append(l)

    # ---- a function
    def body(self, argc, main=False, prefix=()):
        s = self.s
        self.code = list(prefix)
        self.st = ["?"] * argc
        self.vars = {}
        self.floor = 0
        self.loops = 0
        if main:
            for i in range(s.int(0, 3)):
                self.literal(); self.op("ASS", ("s", b"g%d" % i)); self.vars["g%d" % i] = self.st[-1]; self.drop(1)
            for i, f in enumerate(self.fns):
                self.op("PUSHFUN", ("x", f.label), ("i", f.argc), ("s", b"fn%d" % i))
                self.op("ASS", ("s", b"f%d" % i)); self.st.append("F"); self.vars["f%d" % i] = "F%d" % i
                self.drop(1)
        else:
            for i in range(4):
                self.vars["g%d" % i] = "?g"
        self.steps(s.int(1, 10 if main else 6), 2)
        self.leave(main)
        self.bodies.append(self.code)

    def leave(self, main=False):
        s = self.s
        if s.chance(1, 4 if not main else 2):
            k = len(self.st) - s.choice([7, 7, 3, 0])
            if k > 0: self.drop(k)
            self.op("EXIT")
        else:
            k = len(self.st) - s.choice([8, 3, 1, 2, 0])
            if k > 0: self.drop(k)
            self.op("RETURN", ("i", len(self.st)))

    def drop(self, n):
        if n > 1 and self.s.chance(1, 3):
            for _ in range(n): self.op("POP", ("i", 1))
        else: self.op("POP", ("i", n))
        if n: del self.st[-n:]

    def literal(self):
        s = self.s
        c = s.below(9)
        if c < 2: self.op("PUSHINT", ("i", s.choice(INTS) if s.chance(9, 10) else s.choice(BIG))); k = "i"
        elif c == 2: self.op("PUSHFLT", ("f", s.choice([0.0, 1.5, 2.25, 10.0, 0.1, 1e10]))); k = "f"
        elif c == 3: self.op("PUSHSTR", ("s", s.choice(SIMPLE))); k = "s"
        elif c == 4: self.op(s.choice(["PUSHTRU", "PUSHFLS"])); k = "b"
        elif c == 5: self.op("PUSHNNE"); k = "n"
        elif c == 6: self.op("PUSHLST", ("i", s.choice([0, 1, 4, 8, 100]))); k = "l"
        elif c == 7: self.op("PUSHMAP", ("i", s.choice([0, 1, 4, 8, 100]))); k = "m"
        else: self.op("PUSHVAR", ("s", s.choice(TYPES).encode())); k = "t"
        self.st.append(k)

    def avail(self): return max(0, len(self.st) - self.floor)

    def steps(self, n, d):
        for _ in range(n): self.step(d)

    def step(self, d):
        s = self.s
        self.budget -= 1
        if self.budget < 0: return
        if len(self.st) > 13 and not s.chance(1, 30):
            k = self.avail()
            if k > 0: self.drop(s.int(1, k))
            else: return
        if self.wild and s.chance(1, 12): return self.anything()
        c = s.below(20)
        st = self.st
        if c < 4: self.literal()
        elif c < 6: self.operate()
        elif c < 8: self.operate()
        elif c == 8: self.variable()
        elif c == 9:
            if st:
                v = "v%d" % s.below(5)
                self.op("ASS", ("s", v.encode()))
                self.vars[v] = st[-1]
        elif c == 10 and self.avail(): self.drop(s.int(0, min(3, self.avail())))
        elif c < 13: self.show()
        elif c < 15: self.collection()
        elif c == 15: self.call()
        elif c == 16 and d: self.branch(d)
        elif c == 17 and d: self.loop(d)
        elif c == 18 and s.chance(1, 6):          # as many pending values as a call may have, or one more
            n = s.choice([16, 16, 16, 16, 17, 15])
            while len(st) < n: self.literal()
        elif c == 18: self.natives()
        else: self.types()

    def numbers(self):
        """Two numbers on the top."""
        st = self.st
        if self.avail() < 2 or st[-1] not in "if" or st[-2] not in "if":
            for _ in range(2):
                self.literal_of("i" if self.s.chance(2, 3) else "f")

    def literal_of(self, k):
        s = self.s
        if k == "i": self.op("PUSHINT", ("i", s.choice(INTS)))
        elif k == "f": self.op("PUSHFLT", ("f", s.choice([0.5, 1.0, 3.25])))
        elif k == "s": self.op("PUSHSTR", ("s", s.choice(SIMPLE)))
        elif k == "b": self.op(s.choice(["PUSHTRU", "PUSHFLS"]))
        elif k == "l": self.op("PUSHLST", ("i", s.choice([0, 2, 8])))
        elif k == "m": self.op("PUSHMAP", ("i", s.choice([0, 2, 8])))
        elif k == "n": self.op("PUSHNNE")
        else: self.op("PUSHVAR", ("s", s.choice(TYPES).encode()))
        self.st.append(k)

    def operate(self):
        s, st = self.s, self.st
        c = s.below(9)
        if c < 3:
            self.numbers()
            o = s.choice(["ADD", "SUB", "MUL", "DIV", "MOD"])
            if o == "MOD" and (st[-1] != "i" or st[-2] != "i"): o = "ADD"
            self.op(o); k = "i" if st[-1] == st[-2] == "i" else "f"
            del st[-2:]; st.append(k)
        elif c < 5:
            self.numbers()
            self.op(s.choice(["LSS", "GRT", "LEQ", "GEQ"])); del st[-2:]; st.append("b")
        elif c == 5:
            while self.avail() < 2: self.literal()
            self.op(s.choice(["EQL", "NQL"])); del st[-2:]; st.append("b")
        elif c == 6:
            if not self.avail() or st[-1] != "b": self.literal_of("b")
            self.op("NOT")
        elif c == 7:
            if not self.avail() or st[-1] not in "if": self.literal_of("i")
            self.op("NEG")
        else:
            if st: self.op("POS")
            self.op("NOPE")

    def variable(self):
        ks = sorted(self.vars)
        if not ks: return self.literal()
        v = self.s.choice(ks)
        if self.vars[v] == "?g" and self.s.chance(2, 3): return self.literal()
        self.op("PUSHVAR", ("s", v.encode()))
        self.st.append(self.vars[v] if self.vars[v] != "?g" else "?")

    def native(self, path, argc, retc):
        self.op("PUSHVAR", ("s", path[0].encode()))
        for p in path[1:]:
            self.op("PUSHSTR", ("s", p.encode())); self.op("SELECT")
        self.op("CALL", ("i", argc), ("i", retc))
        if argc: del self.st[-argc:]
        self.st += ["?"] * retc

    def show(self):
        s = self.s
        if not self.avail(): self.literal()
        n = s.int(1, min(4, self.avail()))
        if s.chance(1, 2): self.op("PUSHSTR", ("s", b"|")); self.st.append("s"); n += 1
        self.native(["print"], n, s.choice([1, 1, 2]))
        self.drop(1)

    def natives(self):
        s = self.s
        c = s.below(6)
        if c == 0: self.literal_of(s.choice("slm")); self.native(["count"], 1, 1); self.st[-1] = "i"
        elif c == 1:
            if not self.avail(): self.literal()
            self.native(["type"], 1, 1)
        elif c == 2:
            for _ in range(s.int(1, 3)): self.literal_of("s")
            self.native(["string", "cat"], 1, 1); self.st[-1] = "s"
        elif c == 3: self.literal_of("i"); self.native(["toString"], 1, s.int(1, 2))
        elif c == 4: self.literal_of("b" if s.chance(1, 3) else "i"); self.native(["assert"], 1, 1)
        else: self.literal_of("i"); self.native(["buffer", "new"], 1, 1)

    def collection(self):
        s, st = self.s, self.st
        c = s.below(5)
        if c == 0:          # SELECT: a collection and a key
            self.literal_of(s.choice("lms")); self.literal_of(s.choice("iis")); self.op("SELECT")
            del st[-2:]; st.append("?")
        elif c == 1:        # SELECT2 leaves the collection
            if not st or st[-1] not in "lms": self.literal_of(s.choice("lms"))
            self.literal_of(s.choice("is")); self.op("SELECT2"); st[-1] = "?"
        elif c == 2:        # INSERT leaves the collection
            if not self.avail() or st[-1] not in "lm": self.literal_of(s.choice("lm"))
            k = st[-1]
            for j in range(s.int(1, 3)):
                if k == "l": self.op("PUSHINT", ("i", 0))
                elif s.chance(1, 2): self.op("PUSHSTR", ("s", s.choice(SIMPLE)))
                else: self.op("PUSHINT", ("i", s.choice(INTS)))
                st.append("?")
                self.literal() if not self.vars or s.chance(1, 2) else self.variable()
                self.op("INSERT"); del st[-2:]
        elif c == 3:        # INSERT2 leaves the value
            if not self.avail(): self.literal()
            vs = [v for v in sorted(self.vars) if self.vars[v] in "lm"]
            if vs and s.chance(2, 3):
                v = s.choice(vs); self.op("PUSHVAR", ("s", v.encode())); k = self.vars[v]; st.append(k)
            else: k = s.choice("lm"); self.literal_of(k)
            self.op("PUSHINT", ("i", 0)); st.append("i")
            self.op("INSERT2"); del st[-2:]
        else: self.literal_of(s.choice("lm"))

    def types(self):
        s, st = self.s, self.st
        c = s.below(5)
        if c == 0:
            if not st: self.literal()
            self.op("PUSHTYP"); st.append("t")
        elif c == 1: self.op("PUSHNNETYP"); st.append("t")
        elif c == 2:
            if not self.avail() or st[-1] != "t": self.literal_of("t")
            self.op("NLB")
        elif c == 3:
            for _ in range(2): self.literal_of("t")
            self.op("STP"); del st[-2:]; st.append("t")
        else:
            if not st: self.literal()
            i, name = s.int(0, 5), s.choice([b"a", b"arg", b"x1"])
            if s.chance(3, 4): self.op("PUSHTYP"); st.append("t")
            else:
                self.literal_of("t")
                if s.chance(1, 2): self.op("NLB")
            self.op("CHECKTYPE", ("i", i), ("s", name)); del st[-1:]

    def call(self):
        s, st = self.s, self.st
        fs = [v for v in sorted(self.vars) if self.vars[v][:1] == "F" and len(self.vars[v]) > 1]
        if not fs: return self.literal()
        v = s.choice(fs)
        want = self.fns[int(self.vars[v][1:])].argc
        n = want if s.chance(3, 4) else s.int(0, 4)
        while self.avail() < n: self.literal()
        self.op("PUSHVAR", ("s", v.encode()))
        r = s.int(1, 3) if s.chance(3, 4) else s.int(1, 9)
        self.op("CALL", ("i", n), ("i", r))
        if n: del st[-n:]
        st += ["?"] * r

    # ---- jumps
    def block(self, n, d, depth, deep):
        """Code that ends with depth values pending."""
        f = self.floor
        if not deep: self.floor = len(self.st)
        v = dict(self.vars)
        self.steps(n, d)
        self.floor = f
        self.vars = {k: t for k, t in self.vars.items() if k in v and v[k] == t}
        if len(self.st) > depth: self.drop(len(self.st) - depth)
        while len(self.st) < depth: self.literal()

    def condition(self):
        s, st = self.s, self.st
        if self.avail() and st[-1] == "b": pass
        elif s.chance(1, 2): self.literal_of("b")
        else:
            for _ in range(2): self.literal_of("i")
            self.op(s.choice(["LSS", "EQL", "GEQ"])); del st[-2:]; st.append("b")

    def branch(self, d):
        s = self.s
        self.condition()
        l1, l2 = self.label(), self.label()
        self.op(s.choice(["JUMPIFANDPOP", "JUMPIFNOTANDPOP"]), ("x", l1))
        self.st.pop()
        depth, before, deep = len(self.st), list(self.st), s.chance(1, 2)
        if s.chance(1, 6):                     # leaves the function
            code = self.st[:]
            self.steps(1, 0)
            self.leave()
            self.st = code
            self.mark(l1)
            return
        if s.chance(1, 2):
            self.block(s.int(1, 3), d - 1, depth, deep)
            self.mark(l1)
            self.st = [a if a == b else "?" for a, b in zip(self.st, before)]
        else:
            depth += s.int(0, 2)
            self.block(s.int(1, 3), d - 1, depth, deep)
            one = self.st
            self.op("JUMP", ("x", l2)); self.mark(l1)
            self.st = before
            self.block(s.int(1, 3), d - 1, depth, deep)
            self.st = [a if a == b else "?" for a, b in zip(self.st, one)]
            self.mark(l2)

    def loop(self, d):
        s = self.s
        if self.loops >= 3: return
        self.loops += 1
        self.nv += 1
        c, n = b"c%d" % self.nv, s.int(1, 4)
        l, out = self.label(), self.label()
        if s.chance(1, 3):                     # the counter stays on the stack
            self.op("PUSHINT", ("i", n)); self.st.append("?")
            self.mark(l)
            self.block(s.int(1, 3), d - 1, len(self.st), False)
            self.op("PUSHINT", ("i", 1)); self.op("SUB")
            self.op("ASS", ("s", c)); self.op("PUSHVAR", ("s", c)); self.op("PUSHINT", ("i", 0)); self.op("GRT")
            self.op("JUMPIFANDPOP", ("x", l))
            self.st[-1] = "i"
            if self.avail(): self.drop(1)
        else:
            self.op("PUSHINT", ("i", n)); self.op("ASS", ("s", c)); self.op("POP", ("i", 1))
            self.mark(l)
            self.op("PUSHVAR", ("s", c)); self.op("PUSHINT", ("i", 0)); self.op("LEQ"); self.op("JUMPIFANDPOP", ("x", out))
            self.op("PUSHVAR", ("s", c)); self.op("PUSHINT", ("i", 1)); self.op("SUB"); self.op("ASS", ("s", c)); self.op("POP", ("i", 1))
            self.block(s.int(1, 3), d - 1, len(self.st), False)
            self.op("JUMP", ("x", l)); self.mark(out)
        self.loops -= 1

    def anything(self):
        """An instruction that may lack operands or have unsuitable ones."""
        s, st = self.s, self.st
        n = s.choice(["NEG", "NOT", "ADD", "SUB", "MUL", "DIV", "MOD", "EQL", "NQL", "LSS", "GRT", "LEQ", "GEQ", "NLB", "STP", "ASS", "POP", "CHECKTYPE", "CALL", "SELECT", "SELECT2",
                      "INSERT", "INSERT2", "PUSHVAR", "PUSHTYP", "JUMPIFANDPOP", "POS", "PUSHMANY", "PUSHMANY", "RESULTS", "MANY"])
        if n == "ASS": self.op(n, ("s", b"v0")); return
        if n == "PUSHVAR": self.op(n, ("s", s.choice([b"nowhere", b"v0", b"g0", b"print", b"c1"]))); st.append("?"); return
        if n == "PUSHMANY":
            for _ in range(s.int(10, 18)): self.literal()
            return
        if n == "RESULTS":
            while len(st) < s.choice([7, 8, 9]): self.literal()
            self.op("EXIT"); return
        if n == "MANY": self.op("CALL", ("i", s.choice([32, 33, 40, 17])), ("i", 1)); return
        if n == "POP":
            k = s.int(0, 17); self.op(n, ("i", k)); del st[max(0, len(st) - k):]; return
        if n == "CALL":
            k, r = s.int(0, 4), s.int(1, 9)
            self.op(n, ("i", k), ("i", r)); del st[max(0, len(st) - k - 1):]; st += ["?"] * r; return
        if n == "CHECKTYPE": self.op(n, ("i", 0), ("s", b"w")); del st[-1:]; return
        if n == "JUMPIFANDPOP":
            l = self.label(); self.op(n, ("x", l)); self.mark(l); del st[-1:]; return
        self.op(n)
        k, r = {"NEG": (1, 1), "NOT": (1, 1), "NLB": (1, 1), "POS": (0, 0), "PUSHTYP": (0, 1), "SELECT2": (1, 1), "INSERT": (2, 0), "INSERT2": (2, 0)}.get(n, (2, 1))
        if k: del st[max(0, len(st) - k):]
        st += ["?"] * r


def recursive(e):
    """A function that calls itself as often as its argument says, holding values meanwhile."""
    s = e.s
    e.code, e.st, e.vars, e.floor, e.loops = [], [], {}, 0, 0
    base = e.label()
    held = s.int(0, 5)
    l = e.label()
    e.mark(l)
    e.op("ASS", ("s", b"n")); e.op("PUSHINT", ("i", 0)); e.op("LEQ"); e.op("JUMPIFANDPOP", ("x", base))
    for i in range(held): e.op("PUSHINT", ("i", i))
    e.op("PUSHVAR", ("s", b"n")); e.op("PUSHINT", ("i", 1)); e.op("SUB")
    e.op("PUSHVAR", ("s", b"f%d" % len(e.fns))); e.op("CALL", ("i", 1), ("i", 2))
    e.op("PUSHVAR", ("s", b"n")); e.op("ADD")
    for i in range(held): e.op("ADD")
    e.op("PUSHVAR", ("s", b"n"))
    n = s.int(1, 3)
    e.op("POP", ("i", 1))
    e.op("RETURN", ("i", 2))
    e.mark(base)
    for i in range(n): e.op("PUSHINT", ("i", i + 1))
    e.op("RETURN", ("i", n))
    e.bodies.append(e.code)
    e.fns.append(Fn(l, 1))


def listing(s, wild):
    """[(name, operands)] with the targets resolved"""
    e = Emit(s, wild)
    for i in range(s.int(0, 3)):
        argc = s.int(0, 3)
        l = e.label()
        if s.chance(1, 4): recursive(e); continue
        if s.chance(1, 4) and argc:          # another way in, past the first parameter
            l2 = e.label()
            pre = [l, ("ASS", [("s", b"p0")]), ("POP", [("i", 1)]), l2]
            fs = [Fn(l, argc), Fn(l2, argc - 1)]
            e.body(argc - 1, prefix=pre)
            e.fns += fs
        else:
            pre = [l]
            fs = Fn(l, argc)
            e.body(argc, prefix=pre)
            e.fns.append(fs)
    e.body(0, main=True)
    bodies = e.bodies
    main = bodies.pop()
    if s.chance(1, 2): bodies = s.perm(bodies)
    pieces = [main] + bodies
    if s.chance(1, 3):                       # code cut into pieces, joined by jumps, in any order
        cut = []
        for b in pieces:
            cur = []
            for x in b:
                if cur and type(x) is tuple and s.chance(1, 5) and type(cur[-1]) is tuple:
                    l = e.label()
                    cut.append(cur + [("JUMP", [("x", l)])])
                    cur = [l]
                cur.append(x)
            cut.append(cur)
        pieces = [cut[0]] + s.perm(cut[1:])
    elif s.chance(1, 3) and bodies:          # functions first
        l = e.label()
        pieces = [[("JUMP", [("x", l)])]] + bodies + [[l] + main]
    flat, at = [], {}
    pend = []
    for p in pieces:
        for x in p:
            if type(x) is str: at[x] = len(flat)
            else: flat.append(x)
    if wild and s.chance(1, 8):             # runs past its end
        ends = [i for i, x in enumerate(flat) if x[0] in ("RETURN", "EXIT")]
        flat.append(("NOPE", []))
        if ends: flat[s.choice(ends)] = ("JUMP", [("x", ("abs", len(flat) - 1))])
    if any(v >= len(flat) for v in at.values()): flat.append(("EXIT", []))
    return [(n, [(k, (v[1] if type(v) is tuple else at[v]) if k == "x" else v) for k, v in o]) for n, o in flat]


def model(ins, text, **kw):
    w = aparse.read(text)
    if w is None or w[0] != "ok": raise AssertionError("listing")
    assert A.key([(n, o) for n, o, a in w[1]]) == A.key(ins)
    lines = [text.count(b"\n", 0, a) + 1 for n, o, a in w[1]]
    m = VM(ins, lines, **kw)
    try: o = m.run(None)
    except R.Skip as e: raise Discard("model: " + str(e))
    return m, o


def check(ins, s, env, kind):
    text = A.emit(ins, A.RandomStyle(s))
    m, o = model(ins, text)
    kw = {}
    c = s.below(4)
    if c == 2: kw = dict(gc_every=s.choice([1, 2, 3, 7]), heap=200000)
    flags = runner.F_EXACT
    ops = [(ASM, NAME, text)]
    r = env.server().run(ops, flags=flags, steps=100000, **kw)
    check_clean(r, text, "running the assembly")
    op = r.ops[-1]
    compare(op, o, text, trace="past-end" not in m.over)
    if o.ok:
        want = [R.exact(v).encode() for v in o.retvals]
        if want != op.exact: raise Violation("the returned values differ from the exact ones prescribed", program=text, expected=want, got=op.exact)
    if r.live or r.fds: raise Violation("memory or descriptors left over", program=text, live=r.live, fds=r.fds)
    env.count("ends well" if o.ok else "aborts")
    for x in m.over: env.count(x)
    if o.depth > 1: env.count("calls")
    if m.steps >= 8: env.nontrivial(text)
    env.sample(kind + (", runs" if o.ok else ", aborts"), text.decode(errors="replace"))


def run_good(s, env): check(listing(s, False), s, env, "well typed")
def run_wild(s, env): check(listing(s, True), s, env, "wild")


def run_cli(s, env):
    ins = listing(s, s.chance(1, 3))
    text = A.emit(ins, A.RandomStyle(s))
    m, o = model(ins, text)
    d = env.scratch()
    f = os.path.join(d, "p.asm")
    cli.write(f, text)
    inline = s.chance(1, 2) and text[:1] != b"-"
    r = cli.noja(["-a", "-i", text] if inline else ["-a", f], cwd=d)
    if r is None: raise Violation("the command doesn't end", program=text)
    rc, out, err = r.rc, r.out, r.err
    if norm(out) != norm(o.out): raise Violation("the output differs from what the machine prescribes", program=text, expected=o.out, output=out)
    if (rc == 0) != o.ok: raise Violation("the exit status doesn't tell whether the program ran to its end", program=text, status=rc, expected=o.ok)
    if not o.ok and not err.strip(): raise Violation("the failure isn't reported", program=text)
    env.count("ends well" if o.ok else "aborts")
    if m.steps >= 8: env.nontrivial(text)
    env.sample("command line", text.decode(errors="replace"))


PHASES = [Phase("well typed", run_good, 4000, 160000), Phase("wild", run_wild, 3500, 120000), Phase("command line", run_cli, 250, 5000)]
