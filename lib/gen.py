"""Generator of whole programs (nast trees), biased towards programs that run to their end."""
from nast import *

INTS = [0, 1, 2, 3, 5, 7, 10, 12, 42, 100, 255, 256, 1000, 65535, 4294967295, 4294967296, 2147483647, 2147483648,
        9223372036854775806, 9223372036854775807]
FLTS = ["0.0", "1.0", "0.5", "1.5", "2.25", "3.14159", "10.75", "100.125", "0.001", "123456.789", "99.995", "1000000.0"]
STRS = [b"", b"a", b"b", b"ab", b"hello", b"x y", b"123", b"07", b" pad ", b"\xc3\xa9", b"\xe2\x82\xac5", b"\xf0\x9f\x98\x80!",
        b"it's", b'say "hi"', b"back\\slash", b"tab\there", b"line\nbreak", b"#no comment", b"name", b"k", b"{}", b"n\xc3\xb8ja"]
NAMES = ["a", "b", "c", "x", "y", "z", "foo", "bar_1", "_t", "Val", "iff", "nota", "ort", "none1", "trueish", "do_it", "fun2", "returned"]
FIELDS = ["k", "name", "v", "n", "next", "data", "x1"]
TYPES = ["int", "float", "bool", "str", "list", "ilist", "slist", "imap", "map", "none", "type", "buf"]
TYPE_EXPR = {"int": "int", "float": "float", "bool": "bool", "str": "String", "list": "List", "ilist": "List", "slist": "List",
             "imap": "Map", "map": "Map", "none": "None", "type": "Type", "buf": "Buffer", "fun": "Func"}


class Fn:
    """What is known of a function that can be called: parameter types and result types."""
    def __init__(self, params, rets, minargs, cost):
        self.params, self.rets, self.minargs, self.cost = params, rets, minargs, cost


class Gen:
    def __init__(self, s, budget=60, wrong=60, unicode=True):
        self.s = s
        self.budget = budget      # statements
        self.wrong = wrong        # one in this many choices is of the wrong type (0: never)
        self.scopes = [{}]
        self.protected = set()    # loop counters
        self.nid = 0
        self.loopdepth = 0
        self.infun = 0
        self.exprs = 0
        self.allow_calls = True
        self.callcost = 0

    # ---- names
    def fresh(self, base="v"):
        self.nid += 1
        return "%s%d" % (base, self.nid)

    def newname(self):
        s = self.s
        if s.chance(1, 3): return self.fresh()
        return s.choice(NAMES)

    def vars_of(self, ty, writable=False):
        out = []
        seen = set()
        scopes = [self.scopes[-1]] if writable else reversed(self.scopes)
        for sc in scopes:
            for n, t in sc.items():
                if n in seen: continue
                seen.add(n)
                if t == ty and not (writable and n in self.protected): out.append(n)
        return out

    def all_vars(self):
        out = {}
        for sc in self.scopes:
            out.update(sc)
        return out

    def set(self, name, ty): self.scopes[-1][name] = ty

    # ---- expressions
    def expr(self, ty, d=3):
        s = self.s
        self.exprs += 1
        if self.wrong and s.chance(1, self.wrong * 4): ty = s.choice(TYPES)
        if ty == "any": ty = s.weighted([(4, "int"), (3, "str"), (2, "bool"), (2, "float"), (2, "ilist"), (2, "list"), (2, "map"), (1, "imap"), (1, "none"), (1, "type"), (1, "slist"), (1, "buf")])
        if self.exprs > 400: d = 0
        vs = self.vars_of(ty)
        if vs and s.chance(2, 5 if d > 0 else 3): return Var(s.choice(vs))
        if d > 0:
            if s.chance(1, 16): return self.callexpr(ty, d)
            if s.chance(1, 14): return self.assign_expr(ty, d)
        return getattr(self, "x_" + ty)(d)

    def callexpr(self, ty, d):
        """A call of a known function, or of a built-in, giving ty."""
        s = self.s
        fs = [(n, t) for n, t in self.all_vars().items() if isinstance(t, Fn) and t.rets and t.rets[0] == ty and self.can_call(t)]
        if fs and self.allow_calls:
            n, f = s.choice(fs)
            return self.call(n, f, d - 1)
        return getattr(self, "x_" + ty)(d - 1)

    def can_call(self, f): return self.callcost + f.cost <= 40

    def call(self, n, f, d):
        s = self.s
        self.callcost += f.cost
        k = len(f.params)
        na = k
        if s.chance(1, 5): na = s.int(min(f.minargs, k), k)
        if s.chance(1, 10): na = k + s.int(1, 2)
        args = []
        for i in range(na):
            if i < k:
                t = f.params[i]
                if i >= f.minargs and s.chance(1, 4): args.append(NoneE())
                else: args.append(self.expr(t, min(d, 2)))
            else: args.append(self.expr("any", 1))
        return Call(Var(n), *args)

    def assign_expr(self, ty, d):
        vs = self.vars_of(ty, True)
        if not vs: return getattr(self, "x_" + ty)(d)
        return Asn([Var(self.s.choice(vs))], self.expr(ty, d - 1))

    def x_int(self, d):
        s = self.s
        if d <= 0: return Int(s.choice(INTS[:10]) if s.chance(7, 8) else s.choice(INTS))
        c = s.below(20)
        if c < 3: return self.x_int(0)
        if c < 10:
            op = s.weighted([(5, "+"), (4, "-"), (3, "*"), (2, "/"), (2, "%")])
            r = self.expr("int", d - 1)
            if op in "/%" and s.chance(7, 8): r = Int(s.int(1, 9))
            return Bin(op, self.expr("int", d - 1), r)
        if c == 10: return Un("neg", self.expr("int", d - 1))
        if c == 11: return Un("pos", self.expr("int", d - 1))
        if c == 12: return Call(Var("count"), self.expr(s.choice(["ilist", "str", "list", "map", "slist", "buf"]), d - 1))
        if c == 13:
            vs = self.vars_of("ilist")
            if vs: return Idx(Var(s.choice(vs)), Int(0))
            return Idx(List(*[self.expr("int", d - 1) for _ in range(s.int(1, 3))]), Int(0))
        if c == 14:
            return Idx(Map(("id", "k", self.expr("int", d - 1))), Str("k")) if s.chance(1, 2) else Dot(Map(("id", "n", self.expr("int", d - 1))), "n")
        if c == 15: return Call(Dot(Var("string"), "ord"), Str(s.choice([x for x in STRS if x])))
        if c == 16: return Call(Var(s.choice(["min", "max"])), self.expr("int", d - 1), self.expr("int", d - 1))
        if c == 17: return Call(Var("abs"), self.expr("int", d - 1))
        if c == 18: return Call(Dot(Var("string"), "toInt"), Str(str(s.int(0, 5000))))
        return Call(Dot(Var("math"), s.choice(["floor", "ceil"])), self.expr("float", d - 1))

    def x_float(self, d):
        s = self.s
        if d <= 0: return Flt(s.choice(FLTS))
        c = s.below(8)
        if c < 2: return Flt(s.choice(FLTS))
        if c < 6:
            op = s.choice(["+", "-", "*", "/"])
            r = self.expr("float", d - 1)
            if op == "/" and s.chance(7, 8): r = Flt("2.5")
            l = self.expr(s.choice(["float", "float", "int"]), d - 1)
            return Bin(op, l, r)
        if c == 6: return Un("neg", self.expr("float", d - 1))
        return Call(Var(s.choice(["abs", "min", "max"])), self.expr("float", d - 1), self.expr("float", d - 1))

    def x_bool(self, d):
        s = self.s
        if d <= 0: return Bool(s.chance(1, 2))
        c = s.below(14)
        if c < 1: return Bool(s.chance(1, 2))
        if c < 5: return Bin(s.choice(["<", ">", "<=", ">="]), self.expr(s.choice(["int", "int", "float"]), d - 1), self.expr(s.choice(["int", "int", "float"]), d - 1))
        if c < 8:
            t = s.choice(["int", "str", "bool", "float", "none", "type", "ilist", "slist"])
            return Bin(s.choice(["==", "!="]), self.expr(t, d - 1), self.expr(t if s.chance(4, 5) else s.choice(["int", "str", "float", "none"]), d - 1))
        if c < 11: return Bin(s.choice(["and", "or"]), self.expr("bool", d - 1), self.expr("bool", d - 1))
        if c == 11: return Un("not", self.expr("bool", d - 1))
        if c == 12: return Call(Var("istypeof"), self.typeexpr(d - 1), self.expr("any", d - 1))
        return Call(Var("isCallable"), Var("print") if s.chance(1, 2) else self.expr("any", d - 1))

    def x_str(self, d):
        s = self.s
        if d <= 0: return Str(s.choice(STRS))
        c = s.below(10)
        if c < 3: return Str(s.choice(STRS))
        if c < 6: return Call(Dot(Var("string"), "cat"), *[self.expr("str", d - 1) for _ in range(s.int(0, 3))])
        if c == 6: return Call(Dot(Var("string"), "trim"), self.expr("str", d - 1))
        if c == 7: return Call(Var("typename"), self.expr("any", d - 1))
        if c == 8: return Call(Dot(Var("string"), "chr"), Int(s.choice([65, 97, 233, 8364, 128512])))
        return Call(Var("toString"), self.expr(s.choice(["int", "float", "str", "ilist", "imap"]), d - 1))

    def items(self, ty, d, n=4): return [self.expr(ty, d - 1) for _ in range(self.s.int(0, n))]
    def x_ilist(self, d):
        if d > 0 and self.s.chance(1, 8): return Call(Var("keysof"), self.expr(self.s.choice(["list", "str", "ilist"]), d - 1))
        return List(*self.items("int", d, 5))
    def x_slist(self, d):
        if d > 0 and self.s.chance(1, 8): return Call(Var("keysof"), self.expr("imap", d - 1))
        return List(*self.items("str", d))
    def x_list(self, d): return List(*self.items("any", d))

    def mapkey(self, d):
        s = self.s
        c = s.below(8)
        if c < 4: return Str(s.choice(FIELDS))
        if c == 4: return Int(s.int(0, 9))
        if c == 5: return self.expr("str", d - 1)
        if c == 6: return self.expr("ilist", 0)
        return self.expr(s.choice(["bool", "float", "none", "int"]), d - 1)

    def entries(self, ty, d, strkeys):
        s = self.s
        out = []
        for _ in range(s.int(0, 4)):
            if strkeys or s.chance(1, 2): out.append(("id", s.choice(FIELDS), self.expr(ty, d - 1)))
            else: out.append(("expr", self.mapkey(d), self.expr(ty, d - 1)))
        return out

    def x_imap(self, d): return Map(*self.entries("int", d, True))
    def x_map(self, d):
        es = self.entries("any", d, False)
        if self.s.chance(1, 6) and d > 1 and self.infun < 2:
            es.append(("fun", self.s.choice(["get", "size", "toString", "step"]), [("self", None, None)],
                       Return(self.expr("str", 1))))
        return Map(*es)

    def x_none(self, d): return NoneE()
    def x_buf(self, d):
        s = self.s
        if s.chance(1, 2): return Call(Dot(Var("buffer"), "fromString"), self.expr("str", d - 1) if d > 0 else Str(s.choice(STRS)))
        return Call(Dot(Var("buffer"), "new"), Int(s.int(0, 9)))

    def x_type(self, d):
        s = self.s
        if d > 0 and s.chance(1, 3): return Call(Var("type"), self.expr("any", d - 1))
        return Var(s.choice(["int", "float", "bool", "String", "List", "Map", "None", "Type", "Buffer"]))

    def x_fun(self, d):
        fs = [n for n, t in self.all_vars().items() if isinstance(t, Fn)]
        return Var(self.s.choice(fs)) if fs else Var("print")

    def typeexpr(self, d=2, ty=None):
        """A type description; if ty is given, one that values of ty satisfy."""
        s = self.s
        base = Var(TYPE_EXPR[ty]) if ty in TYPE_EXPR else self.x_type(0) if ty is None else Var("any")
        if d <= 0: return base
        c = s.below(8)
        if c < 4: return base
        if c == 4: return Un("nlb", self.typeexpr(d - 1, ty))
        if c == 5: return Bin("|", self.typeexpr(d - 1, ty), self.typeexpr(d - 1))
        if c == 6: return Bin("|", self.typeexpr(d - 1), self.typeexpr(d - 1, ty))
        if ty is None:
            if s.chance(1, 2): return List(*[self.typeexpr(d - 1) for _ in range(s.int(0, 2))])
            return Map(*[("id", s.choice(FIELDS), self.typeexpr(d - 1)) for _ in range(s.int(0, 2))])
        return Var("any")

    # ---- statements
    def stmts(self, n):
        out = []
        for _ in range(n):
            if self.budget <= 0: break
            self.budget -= 1
            r = self.statement()
            out.extend(r if isinstance(r, list) else [r])
        return out

    def branch(self, n=3):
        """Statements that may not run: what they define is unknown afterwards."""
        before = dict(self.scopes[-1])
        b = self.stmts(self.s.int(0, n))
        after = self.scopes[-1]
        for k in list(after):
            if k not in before: del after[k]
            elif after[k] is not before[k] and after[k] != before[k]: after[k] = "any?"
        if len(b) == 1 and self.s.chance(1, 2): return b[0]
        return Block(*b)

    def statement(self):
        s = self.s
        c = s.below(30)
        if c < 8: return self.st_print()
        if c < 14: return self.st_assign()
        if c < 17: return self.st_if()
        if c < 20: return self.st_loop()
        if c < 23: return self.st_fun()
        if c < 26: return self.st_mutate()
        if c == 26: return ExprS(self.expr("any", 2))
        if c == 27: return self.st_call()
        if c == 28: return self.st_closure()
        return Block(*self.stmts(s.int(0, 3)))

    def st_print(self):
        s = self.s
        args = []
        for i in range(s.int(1, 3)):
            if i: args.append(Str(s.choice([" ", ",", "\n", "|"])))
            args.append(self.expr("any", s.int(0, 3)))
        args.append(Str("\n"))
        return Print(*args)

    def st_assign(self):
        s = self.s
        ty = s.choice(TYPES) if s.chance(4, 5) else "int"
        vs = [v for v in self.scopes[-1] if v not in self.protected and self.scopes[-1][v] in TYPES]
        if vs and s.chance(1, 3):
            name = s.choice(vs)
            if s.chance(4, 5): ty = self.scopes[-1][name]
        else:
            name = self.newname()
            while name in self.protected: name = self.fresh()
        e = self.expr(ty, s.int(0, 3))
        if s.chance(1, 12):
            n2 = self.fresh()
            e = Asn([Var(n2)], e)
            self.set(n2, ty)
        self.set(name, ty)
        return Set(name, e)

    def st_mutate(self):
        s = self.s
        c = s.below(8)
        if c < 3:
            vs = self.vars_of("ilist")
            if vs:
                v = s.choice(vs)
                if s.chance(1, 2): return ExprS(Call(Var("append"), Var(v), self.expr("int", 2)))
                if s.chance(1, 3): return ExprS(Asn([Idx(Var(v), Int(s.int(0, 2)))], self.expr("int", 2)))
                return ExprS(Asn([Idx(Var(v), Call(Var("count"), Var(v)))], self.expr("int", 2)))
        if c < 6:
            t = s.choice(["imap", "map"])
            vs = self.vars_of(t)
            if vs:
                v = s.choice(vs)
                vt = "int" if t == "imap" else "any"
                if s.chance(1, 2): return ExprS(Asn([Dot(Var(v), s.choice(FIELDS))], self.expr(vt, 2)))
                k = Str(s.choice(FIELDS)) if t == "imap" else self.mapkey(2)
                return ExprS(Asn([Idx(Var(v), k)], self.expr(vt, 2)))
        if c == 6:
            vs = self.vars_of("list")
            if vs: return ExprS(Call(Var("append"), Var(s.choice(vs)), self.expr("any", 2)))
        return self.st_assign()

    def st_if(self):
        c = self.expr("bool", 2)
        t = self.branch()
        if self.s.chance(1, 2): return If(c, t, self.branch())
        return If(c, t)

    def st_loop(self):
        s = self.s
        if self.loopdepth >= 2: return self.st_print()
        i = self.fresh("i")
        n = s.int(0, 4)
        self.set(i, "int")
        self.protected.add(i)
        self.loopdepth += 1
        cost = self.callcost
        inc = Set(i, Bin("+", Var(i), Int(1)))
        before = dict(self.scopes[-1])
        body = []
        if s.chance(1, 2): body.append(inc); early = True
        else: early = False
        body += self.stmts(s.int(1, 3))
        if s.chance(1, 4):
            body.append(If(self.expr("bool", 2), s.choice([Break(), Block(self.st_print(), Break())])))
            body += self.stmts(s.int(0, 1))
        if not early: body.append(inc)
        self.callcost = cost + (self.callcost - cost) * 4
        after = self.scopes[-1]
        for k in list(after):
            if k not in before: del after[k]
            elif after[k] is not before[k] and after[k] != before[k]: after[k] = "any?"
        self.loopdepth -= 1
        kind = s.below(3)
        init = Set(i, Int(0))
        if kind == 0: return [init, DoWhile(Block(*body), Bin("<", Var(i), Int(n)))]
        if kind == 1 and s.chance(1, 2):
            cond = Bin("and", Bin("<", Var(i), Int(n)), self.expr("bool", 1))
            return [init, While(cond, Block(*body))]
        return [init, While(Bin("<", Var(i), Int(n)), Block(*body))]

    def params(self):
        s = self.s
        ps, ts, minargs = [], [], 0
        for i in range(s.int(0, 4)):
            t = s.choice(["int", "int", "str", "bool", "ilist", "float", "imap", "any"])
            name = self.fresh("p") if s.chance(1, 2) else s.choice(NAMES)
            if name in [p[0] for p in ps]: name = self.fresh("p")
            d = None
            if s.chance(1, 3):
                d = self.expr(t, 1)
            else: minargs = i + 1
            ty = self.typeexpr(2, t) if s.chance(1, 3) and t != "any" else None
            ps.append((name, ty, d))
            ts.append(t)
        return ps, ts, minargs

    def st_fun(self):
        s = self.s
        if self.infun >= 3 or self.loopdepth > 1: return self.st_assign()
        ps, ts, minargs = self.params()
        name = self.fresh("f") if s.chance(2, 3) else s.choice(NAMES)
        while name in self.protected: name = self.fresh("f")
        rets = [s.choice(["int", "str", "bool", "ilist", "float", "any"]) for _ in range(s.weighted([(6, 1), (2, 2), (1, 3), (2, 0)]))]
        rec = s.chance(1, 6)
        sc = {}
        for (pn, _, _), t in zip(ps, ts): sc[pn] = t if t != "any" else "any?"
        prot, ld, cc = self.protected, self.loopdepth, self.callcost
        self.protected, self.loopdepth, self.callcost = set(), 0, 0
        self.scopes.append(sc)
        self.infun += 1
        body = self.stmts(s.int(0, 4))
        if s.chance(1, 5) and rets:
            body.insert(s.int(0, len(body)), If(self.expr("bool", 1), Return(*[self.expr(t, 1) for t in rets])))
        if rec and rets:
            # bounded recursion on a fresh counter parameter
            n = self.fresh("n")
            ps = ps + [(n, None, Int(2))]
            ts = ts + ["int"]
            body.append(If(Bin(">", Var(n), Int(0)),
                           Return(Call(Var(name), *([self.expr(t, 1) for t in ts[:-1]] + [Bin("-", Var(n), Int(1))])))))
            minargs = min(minargs, len(ps) - 1)
        if rets: body.append(Return(*[self.expr(t, 2) if len(rets) == 1 else self.expr(t, 1) for t in rets]))
        self.infun -= 1
        self.scopes.pop()
        cost = 1 + self.callcost * (3 if rec else 1)
        self.protected, self.loopdepth, self.callcost = prot, ld, cc
        b = Block(*body)
        if len(body) == 1 and s.chance(1, 2): b = body[0]
        self.set(name, Fn(ts, [r for r in rets], minargs, cost))
        return Fun(name, ps, b)

    def st_call(self):
        s = self.s
        fs = [(n, t) for n, t in self.all_vars().items() if isinstance(t, Fn) and self.can_call(t)]
        if not fs: return self.st_print()
        n, f = s.choice(fs)
        c = self.call(n, f, 2)
        k = s.int(0, 3)
        if k == 0: return ExprS(c)
        names = [self.fresh() for _ in range(k)]
        for i, x in enumerate(names):
            self.set(x, f.rets[i] if i < len(f.rets) and f.rets[i] != "any" else "any?")
        return ExprS(Asn([Var(x) for x in names], c))

    def st_closure(self):
        """A function that makes functions sharing a captured state, and uses of it."""
        s = self.s
        if self.infun >= 2: return self.st_print()
        mk, st, a, b = self.fresh("mk"), self.fresh("st"), self.fresh("g"), self.fresh("h")
        init = self.expr("int", 1)
        get = Fun("get", [], Return(Dot(Var(st), "n")))
        inc = Fun("inc", [("by", None, Int(1))], Block(ExprS(Asn([Dot(Var(st), "n")], Bin("+", Dot(Var(st), "n"), Var("by")))), Return(Dot(Var(st), "n"))))
        body = Block(Set(st, Map(("id", "n", Var("start")))), get, inc, Return(Var("inc"), Var("get")))
        out = [Fun(mk, [("start", None, init)], body)]
        k = s.int(1, 2)
        pairs = []
        for _ in range(k):
            g, h = self.fresh("g"), self.fresh("h")
            pairs.append((g, h))
            out.append(ExprS(Asn([Var(g), Var(h)], Call(Var(mk), *([self.expr("int", 1)] if s.chance(2, 3) else [])))))
        for _ in range(s.int(1, 4)):
            g, h = s.choice(pairs)
            out.append(ExprS(Call(Var(g), *([self.expr("int", 1)] if s.chance(1, 2) else []))) if s.chance(1, 2)
                       else Print(Call(Var(g)), Str(" "), Call(Var(h)), Str("\n")))
        return out

    def program(self, n=None):
        s = self.s
        return Prog(*self.stmts(n if n is not None else s.int(1, 14)))
