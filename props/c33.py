from common import *
import os
import nparse

TITLE = "Built-ins plugged in by a host work like the language's own"
RULE = ("A case is a history of one runtime: the host plugs in built-ins (static tables of constants, types, native functions and nested tables; sources given as a string, a file or a named source; "
        "the default ones, at any moment; failing ones) and runs programs that use, call with any number of arguments, pass around, shadow and misuse what is plugged in. Every plug and every run must do "
        "what the reference model prescribes. Non-trivial when a program that uses something plugged in was run.")
ASSUME = ["names plugged in are distinct: which of two plugs of the same name wins isn't documented", "a plugged source returns a map, or fails"]
VARIANTS = ["asan"]
V = Var


class Layers:
    """Built-ins in the order they were plugged in."""
    def __init__(self, first): self.l = [first] if first is not None else []

    def find(self, name):
        for x in self.l:
            if type(x) is R.NMap:
                e = x.d.get(("bytes", name.encode()))
                if e is not None: return e
            elif name in x: return (None, x[name])
        return None

    def __contains__(self, name): return self.find(name) is not None
    def __getitem__(self, name): return self.find(name)[1]


# ---- what the native functions of the harness do
def h_echo(I, a): return a[:8]
def h_argc(I, a): return [len(a)]
def h_nothing(I, a): return []
def h_last(I, a): return a[-1:]


def h_fail(I, a):
    raise R.Fail(b"host: " + (a[0].split(b"\0")[0] if a and type(a[0]) is bytes else b"no reason"), user=True)


def h_call(I, a):
    if not a: raise R.Fail("nothing")
    return I.call(a[0], a[1:])


def h_list(I, a):
    I.alloc(8 * len(a) + 32)
    return [R.NList(list(a))]


def h_map(I, a):
    m = R.NMap()
    for i in range(0, len(a) - 1, 2): I.mapset(m, a[i], a[i + 1])
    return [m]


def h_select(I, a):
    if len(a) < 2: return []
    c, k = a[0], a[1]
    t = type(c)
    if t is R.NMap:
        if not R.hashable(k): raise R.Fail("unhashable")
    elif t is R.SMap: pass
    elif t is R.NList or t is bytes or t is R.NBuf:
        if I.select(c, k) is None and not (t is R.NList and type(k) is int and 0 <= k < len(c.items)): raise R.Fail("range")
        return [I.select(c, k)]
    else: raise R.Fail("select")
    if t is R.NMap:
        e = c.d.get(R.ckey(k))
        return [e[1]] if e is not None else []
    return [c.d[R.chars(k)]] if type(k) is bytes and R.chars(k) in c.d else []


def h_run(I, a):
    if not a or type(a[0]) is not bytes: raise R.Fail("nothing")
    tree = I.inner.get(a[0])
    if tree is None:
        text = a[0].split(b"\0")[0]
        got = nparse.acceptance(text)
        if got[0] != "ok":
            fr = R.Frame("inner", R.NMap(), None)
            I.push(fr)
            fr.line = nparse.line_of(text, got[1])
            raise R.Fail("compile")
        tree = got[1]
    return I.run_module(tree, "inner")


NATIVES = [h_echo, h_argc, h_fail, h_nothing, h_last, h_call, h_list, h_map, h_select, h_run]
BROKEN = b"x = ;"
TYPES = ["int", "float", "String", "List", "Map", "Buffer"]


class Case:
    def __init__(self, s, env):
        self.s, self.env = s, env
        self.names = []           # (path, kind) of everything plugged in
        self.n = 0
        self.ops, self.story = [], []
        self.inner = {}
        self.default = False
        self.used = 0

    def fresh(self):
        self.n += 1
        return self.s.choice(["h%d", "host_%d", "Cfg%d", "x%d", "_p%d", "long_name_of_something_%d", "a%db"]) % self.n

    # ---- tables
    def slot(self, d, path, tabs):
        """(line of the specification, model value); records the path"""
        s = self.s
        name = self.fresh() if not path else s.choice(["k", "f", "v", "name", "T", "sub"]) + str(s.below(100))
        p = path + (name,)
        c = s.below(12 if d > 0 else 11)
        h = name.encode().hex()
        if c == 0: v = s.chance(1, 2); line = "b %s %d" % (h, v); kind = "val"
        elif c == 1: v = s.choice([0, -1, 7, 255, (1 << 63) - 1, -(1 << 63), 1 << 31, s.below(1000)]); line = "i %s %d" % (h, v); kind = "int"
        elif c == 2: v = s.choice([0.0, 1.5, -2.25, 1e300, 0.1, float(s.below(100))]); line = "f %s %s" % (h, v.hex()); kind = "val"
        elif c == 3:
            v = s.choice([b"", b"text", b"\xc3\xa9\xe2\x82\xac", b"two words\n", b"x" * s.int(0, 300)])
            line = "s %s h%s %d" % (h, v.hex(), s.choice([len(v), -1])); kind = "val"
            if s.chance(1, 4) and len(v) > 4 and v.isascii():          # a shorter length than the text
                n = s.int(0, len(v))
                line = "s %s h%s %d" % (h, v.hex(), n); v = v[:n]
        elif c == 4: v = None; line = "n %s 0" % h; kind = "val"
        elif c == 5: k = s.below(6); v = R.T[TYPES[k]]; line = "t %s %d" % (h, k); kind = "type"
        elif c == 6: k = s.below(2); v = R.T["int" if k else "String"]; line = "o %s %d" % (h, k); kind = "type"
        elif c < 11:
            k = s.below(len(NATIVES))
            ar = s.choice([-1, -1, 0, 1, 2, 3, 5, 9])
            if k in (5, 9) and s.chance(2, 3): ar = s.choice([-1, 1, 3])
            v = R.Native(name, ar, NATIVES[k]); line = "F %s %d %d" % (h, k, ar); kind = "fn%d" % k
        else:
            i, m = self.table(d - 1, p, tabs)
            v = m; line = "m %s %d" % (h, i); kind = "map"
        return name, line, v, (p, kind)

    def table(self, d, path, tabs):
        out, m, recs = [], {}, []
        for _ in range(self.s.int(0 if path else 1, 7)):
            name, line, v, rec = self.slot(d, path, tabs)
            if name in m: continue
            m[name] = v
            out.append(line)
            self.names.append(rec)
        if len(tabs) >= 15: raise Discard("too many tables")
        tabs.append("T\n" + "\n".join(out))
        return len(tabs) - 1, R.SMap("table", m)

    # ---- expressions of programs
    def path(self, p):
        e = V(p[0])
        for k in p[1:]: e = Dot(e, k) if self.s.chance(2, 3) else Idx(e, Str(k))
        return e

    def plugged(self, want=None):
        c = [n for n in self.names if want is None or n[1].startswith(want)]
        if not c: return None
        self.used += 1
        return self.s.choice(c)

    def value(self, d=2):
        s = self.s
        c = s.below(14 if d > 0 else 9)
        if c < 2: return Int(s.below(20))
        if c == 2: return Str(s.choice(["a", "text", "k", ""]))
        if c == 3: return s.choice([NoneE(), Bool(True), Bool(False)])
        if c < 7:
            n = self.plugged()
            if n: return self.path(n[0])
            return Int(1)
        if c == 7: return V(s.choice(self.locals)) if self.locals else Int(2)
        if c == 8:
            n = self.plugged("map")
            return Dot(self.path(n[0]), s.choice(["nope", "k1", "f2"])) if n else Flt("1.5")
        if c < 12: return self.call(d - 1)
        if c == 12: return List(*[self.value(d - 1) for _ in range(s.int(0, 3))])
        return Map(*[("id", k, self.value(d - 1)) for k in ("a", "b")[:s.int(0, 2)]])

    def inner_text(self):
        s = self.s
        if s.chance(1, 8): return s.choice([BROKEN, b"\n\n)", b"a = 1\n;;\n+", b"return 5;", b"", b"# nothing", b"break;", b"x = 'open"])
        keep, self.locals = self.locals, []
        p = Prog(*([self.stmt(1) for _ in range(s.int(1, 2))] + ([Return(*[self.value(1) for _ in range(s.int(1, 3))])] if s.chance(2, 3) else [])))
        self.locals = keep
        if max_need(p) > 14: raise Discard("needs too many pending values")
        t = render(p)
        if b"\0" in t or len(t) > 3000: raise Discard("text")
        self.inner[t] = p
        return t

    def call(self, d=1):
        s = self.s
        n = self.plugged("fn") or self.plugged("noja")
        if n is None: return Int(3)
        f = self.path(n[0])
        k = n[1]
        if k == "fn2" and not s.chance(1, 6):                     # failing ones seldom
            m = self.plugged("fn1") or self.plugged("fn0")
            if m: f, k = self.path(m[0]), m[1]
        nargs = s.choice([0, 1, 2, 3, 4, s.int(0, 12)])
        if k == "fn9":
            return Call(f, Str(self.inner_text()) if s.chance(9, 10) else self.value(0), *[self.value(0) for _ in range(s.below(2))])
        if k == "fn5":
            g = self.plugged("fn") or self.plugged("noja")
            a = self.path(g[0]) if g and s.chance(1, 2) else V(s.choice(["loc", "loc2"]))
            if s.chance(1, 10): a = self.value(0)
            return Call(f, a, *[self.value(d - 1) for _ in range(min(nargs, 4))])
        if k == "fn7":
            return Call(f, *[x for i in range(nargs // 2) for x in (s.choice([Str("k%d" % i), Int(i), self.value(0)]) if s.chance(1, 6) else Str("k%d" % s.below(3)), self.value(d - 1))], *([Int(1)] if s.chance(1, 6) else []))
        if k == "fn8":
            t = self.plugged("map")
            c = s.below(4)
            if c == 0 and t: return Call(f, self.path(t[0]), Str(s.choice(["k1", "f2", "name3"])))
            if c == 1: return Call(f, Map(("id", "a", Int(1))), Str(s.choice(["a", "b"])))
            if c == 2: return Call(f, List(Int(4), Int(5)), Int(s.below(2)))
            return Call(f, self.value(0), self.value(0)) if s.chance(1, 4) else Call(f, Map(("id", "q", Str("v"))), Str("q"))
        if k == "noja" and s.chance(3, 4): nargs = s.int(0, 3)
        return Call(f, *[self.value(d - 1 if nargs < 5 else 0) for _ in range(nargs)])

    def show(self, *es):
        """Something observable of values, whether or not there is a print."""
        return Print(*es) if self.default else ExprS(Asn([V(self.s.choice(["r1", "r2", "r3"]))], List(*es)))

    def stmt(self, d=2):
        s = self.s
        c = s.below(20)
        if c < 6: return self.show(self.value(d), Str(" ")) if self.default else self.show(self.value(d))
        if c < 10:
            ts = s.choice([["p"], ["p", "q"], ["p", "q", "r"], ["p", "q", "r", "s", "t"]])
            for t in ts:
                if t not in self.locals: self.locals.append(t)
            r = self.call(d)
            return ExprS(Asn([V(t) for t in ts], r if r.k == 'call' else Call(V("loc"), Int(6), Int(7))))
        if c < 12: return ExprS(self.call(d))
        if c == 12: return Block(*[self.stmt(d - 1) for _ in range(s.int(1, 2))]) if d > 0 else ExprS(Int(1))
        if c == 13:
            x = "w%d" % s.below(3)
            if x in self.locals: return self.show(V(x))
            self.locals.append(x)
            return Set(x, self.value(d))
        if c == 14:                                              # shadow it for the rest of this run
            n = self.plugged()
            if not n or s.chance(1, 2): return self.show(self.value(0))
            v = s.choice([Int(1000 + s.below(9)), NoneE(), Str("mine"), List()])
            return Set(n[0][0], v)
        if c == 15 and s.chance(1, 3):
            n = self.plugged("map")
            if n: return ExprS(Asn([Dot(self.path(n[0]), s.choice(["k1", "neww"]))], Int(5)))
        if c == 16 and s.chance(1, 4): return ExprS(V(s.choice(["nowhere", "h999", "Cfg0"])))
        if c == 17:
            n = self.plugged("type")
            if n and self.default: return self.show(Call(V("istypeof"), self.path(n[0]), self.value(0)), Call(V("type"), self.value(0)))
            if n: return ExprS(Asn([V("r1")], Bin("==", self.path(n[0]), self.path((self.plugged("type") or n)[0]))))
        if c == 18:
            n = self.plugged("int")
            if n: return self.show(Bin(s.choice(["+", "-", "<", "=="]), self.path(n[0]), Int(s.below(5))))
        if c == 19 and d > 0: return If(Bin("==", self.value(0), self.value(0)) if s.chance(1, 4) else Bool(s.chance(1, 2)), self.stmt(d - 1), self.stmt(d - 1) if s.chance(1, 2) else None)
        return self.show(Int(s.below(9)))

    def program(self):
        s = self.s
        self.locals = []
        st = [Fun("loc", [("x", None, None), ("y", None, None)], Return(V("y"), V("x"))), Fun("loc2", [("z", None, Int(5) if s.chance(1, 2) else None)], Block(Set("u", self.value(0)), Return(V("z"), V("u"))))]
        st += [self.stmt() for _ in range(s.int(1, 6))]
        if not self.default or s.chance(1, 3):
            for r in ("r1", "r2", "r3"): st.insert(0, Set(r, NoneE()))
            st.append(Return(V("r1"), V("r2"), V("r3"), self.value(1)))
        return Prog(*st)

    # ---- sources plugged in
    def source(self):
        """A tree giving a map of new names."""
        s = self.s
        self.locals = []
        es, st, recs = [], [], []
        for _ in range(s.int(1, 4)):
            name = self.fresh()
            c = s.below(8)
            if c == 0: es.append(("id", name, self.value(1))); kind = "val"
            elif c == 1: es.append(("id", name, Int(s.below(50)))); kind = "int"
            elif c == 2:       # keeps state between runs
                st += [Set("state" + name, List(Int(0)))]
                es.append(("fun", name, [("by", None, Int(1))], Block(ExprS(Asn([Idx(V("state" + name), Int(0))], Bin("+", Idx(V("state" + name), Int(0)), V("by")))), Return(Idx(V("state" + name), Int(0)), V("by"))))); kind = "noja"
            elif c == 3: es.append(("fun", name, [("a", None, None), ("b", V("int") if s.chance(1, 3) and self.default else None, Int(4) if s.chance(1, 2) else None)], Return(V("b"), List(V("a"))))); kind = "noja"
            elif c == 4: es.append(("fun", name, [("a", None, None)], Block(Set("t", self.value(1)), Return(V("t"), V("a"))))); kind = "noja"
            elif c == 5:       # uses a name that may be plugged in only later
                es.append(("fun", name, [], Return(V("h%d" % (self.n + s.int(1, 4)))))); kind = "noja"
            elif c == 6: es.append(("id", name, Map(("id", "k1", Int(3)), ("fun", "f2", [("self", None, None)], Return(Dot(V("self"), "k1")))))); kind = "val"
            else:
                st += [Fun("g" + name, [("x", None, None)], Return(V("x"), Int(1)))]
                es.append(("id", name, V("g" + name))); kind = "noja"
            recs.append(((name,), kind))
        if s.chance(1, 4):     # what it defines is what it gives
            for e in es:
                if e[0] == "fun": st.append(Fun(e[1], e[2], e[3]))
                else: st.append(Set(e[1], e[2]))
            # its helpers are visible too, under names nobody else uses
            return Prog(*st), recs
        if s.chance(1, 5):     # built-ins that grow while programs run
            name = self.fresh()
            es.append(("fun", name, [("k", None, None), ("v", None, None)], ExprS(Asn([Idx(V("all"), V("k"))], V("v")))))
            return Prog(*st, Set("all", Map(*es)), Return(V("all"))), recs
        return Prog(*st, Return(Map(*es))), recs

    def failing(self):
        s = self.s
        bad = s.choice([ExprS(Call(V("undefined_one"))), ExprS(Bin("+", Int(1), Str("a"))), ExprS(Idx(V("undefined_two"), Int(0))), ExprS(Asn([Dot(Int(3), "x")], Int(1)))])
        return Prog(*[Set("q%d" % i, Int(i)) for i in range(s.int(0, 3))], bad, Return(Map(("id", self.fresh(), Int(1)))))


def history(s, env):
    c = Case(s, env)
    nob = s.chance(1, 3)
    I = R.Interp(fuel=40000)
    lay = Layers(None if nob else I.builtins)
    base = I.builtins
    I.builtins = lay
    I.inner = c.inner
    c.default = not nob
    d = env.scratch()
    os.chmod(d, 0o777)
    judge = []            # (outcome, text, is a plug, raw names)

    def model(tree, name):
        I.frames, I.out, I.fuel = [], [], 40000
        I.name = name
        try: o = I.run(tree)
        except R.Skip as e: raise Discard("model: " + str(e))
        except RecursionError: raise Discard("model: recursion")
        o.trace = [x for x in o.trace if x[0] != "<prelude>"]
        return o

    def fine(tree):
        if max_need(tree) > 14: raise Discard("needs too many pending values")
        return render(tree)
    nops = s.int(2, 8)
    for i in range(nops):
        k = s.below(10)
        if i == 0: k = s.below(4)
        if i == nops - 1: k = 9
        if k < 2 or (k == 2 and s.chance(1, 2)):
            keep = len(c.names)
            tabs = []
            _, m = c.table(2, (), tabs)
            spec = "\n".join(tabs)
            c.ops.append((PLUGMAP, "", spec))
            lay.l.append(m.d)
            c.story.append("-- plug the table\n" + spec)
            judge.append((None, spec.encode(), True, None))
            env.count("plug of a table")
        elif k < 4:
            if s.chance(1, 6):
                if s.chance(1, 3):
                    f = os.path.join(d, "missing.noja")
                    c.ops.append((PLUGFILE, f, ""))
                    c.story.append("-- plug a file that isn't there")
                    judge.append((False, b"", True, None))
                    continue
                broken = s.chance(1, 3)
                tree = c.failing()
                text = fine(tree) if not broken else b"\n" * s.below(4) + BROKEN
                recs = []
            else:
                broken = False
                tree, recs = c.source()
                text = fine(tree)
            w = s.below(3)
            if w == 0: c.ops.append((PLUGSTR, "", text)); name = "<prelude>"
            elif w == 1: name = "plug%d" % i; c.ops.append((PLUGSRC, name, text))
            else:
                name = os.path.join(d, "plug%d.noja" % i)
                with open(name, "wb") as h: h.write(text)
                os.chmod(name, 0o644)
                c.ops.append((PLUGFILE, name, ""))
            c.story.append("-- plug (%s)\n%s" % (["string", "source", "file"][w], text.decode(errors="replace")))
            if broken:
                o = R.Outcome()
                o.trace = [(name, 1 + text.count(b"\n"))]
            else:
                I.name = name
                o = model_raw(I, tree, name)
            if o.ok:
                if type(o.retvals[0]) is not R.NMap: raise Discard("not a map")
                lay.l.append(o.retvals[0])
                c.names += recs
            judge.append((o, text, True, name))
            env.count("plug of a source" if o.ok else "plug of a failing source")
        elif k == 4 and not c.default:
            c.ops.append((PLUGDEF, "", ""))
            lay.l.append(base)
            c.default = True
            c.story.append("-- plug the default ones")
            judge.append((None, b"", True, None))
            env.count("plug of the default ones")
        else:
            tree = c.program()
            text = fine(tree)
            nm = "run%d" % i
            c.ops.append((s.choice([SRC, SRC, CSTR]), nm, text))
            c.story.append("-- run\n" + text.decode(errors="replace"))
            o = model(tree, nm)
            judge.append((o, text, False, nm))
            env.count("run that " + ("ends well" if o.ok else "aborts"))
    gc = s.choice([0, 0, 1, 3, 7])
    res = env.server("asan").run(c.ops, flags=(runner.F_NOBUILTINS if nob else 0) | runner.F_EXACT, gc_every=gc, heap=s.choice([0, 0, 1 << 18]), steps=400000)
    story = "\n".join(c.story)
    check_clean(res, story, "the history")
    if res.live: raise Violation("a host's built-ins: memory isn't released", history=story, blocks=res.live)
    for i, ((o, text, plug, name), op) in enumerate(zip(judge, res.ops)):
        def bad(m, **k): raise Violation("step %d: %s" % (i, m), history=story, output=op.out, error=op.err, trace=op.trace, **k)
        if op.ret is None: bad("nothing happened")
        if o is None or o is False:
            if op.ok != (o is None): bad("the plug should %s" % ("work" if o is None else "fail"))
            if o is False and not (op.err or b"").strip(): bad("a plug fails without a message")
            if op.out: bad("a plug printed something")
            continue
        if plug:
            if norm(op.out) != norm(o.out): bad("the output of a plugged source differs", expected=o.out)
            if op.ok != o.ok: bad("the plug should %s" % ("work" if o.ok else "fail"))
            if not o.ok:
                if not (op.err or b"").strip(): bad("a plug fails without a message")
                want = b"%s:%d" % (str(o.trace[0][0]).encode(), o.trace[0][1])
                if want not in (op.trace or b""): bad("the stack trace of a failing plug doesn't name the failing line", expected=want)
            continue
        try: compare(op, o, text)
        except Violation as v:
            v.details["history"] = story
            raise
        if o.ok:
            want = [R.exact(v).encode() for v in o.retvals]
            if want != op.exact and not any(b"deep" in w for w in want): bad("the returned values differ from the exact ones prescribed", expected=want, got=op.exact)
    env.count("without the default ones" if nob else "with the default ones")
    if gc: env.count("collections forced")
    if c.used: env.nontrivial(story)
    env.sample("history", story)


def model_raw(I, tree, name):
    I.frames, I.out, I.fuel = [], [], 40000
    I.name = name
    try: return I.run(tree)
    except R.Skip as e: raise Discard("model: " + str(e))
    except RecursionError: raise Discard("model: recursion")


PHASES = [Phase("histories", history, 9000, 250000)]
