"""A reference interpreter of Noja, written from docs/Language.md.

It evaluates program trees (nast.N), not text, so it shares nothing with the parser,
code generator or instruction interpreter under test.  Only observable behaviour is
modelled: output, success or failure, returned values, messages given to error(),
and the lines a stack trace names.
"""
import math, struct
from nast import BINPREC

IMAX, IMIN = (1 << 63) - 1, -(1 << 63)
MAX_FRAMES = 16
MAX_RETS = 8
MAX_VALUE_DEPTH = 64


class Skip(Exception):
    """The program left the domain the model covers (too long, too big)."""


class Fail(Exception):
    """The program aborts."""

    def __init__(self, msg=None, user=False, hints=()):
        self.msg, self.user, self.hints = msg, user, hints


class Brk(Exception): pass


class Ret(Exception):
    def __init__(self, vals): self.vals = vals


class NList:
    __slots__ = ("items",)
    def __init__(self, items): self.items = items


class NMap:
    """Insertion ordered; d: canonical key -> [key, value]."""
    __slots__ = ("d",)
    def __init__(self): self.d = {}


class NBuf:
    __slots__ = ("base", "off", "len")
    def __init__(self, base, off, ln): self.base, self.off, self.len = base, off, ln


class TypeObj:
    def __init__(self, name): self.name = name


class Nullable:
    def __init__(self, t): self.t = t


class Sum:
    def __init__(self, a, b): self.a, self.b = a, b


class AnyT: pass


class SMap:
    def __init__(self, name, d): self.name, self.d = name, d


class Func:
    __slots__ = ("name", "params", "body", "closure", "src", "node", "calls")
    def __init__(self, name, params, body, closure, src, node=None):
        self.name, self.params, self.body, self.closure, self.src, self.node = name, params, body, closure, src, node
        self.calls = 0


class PFunc:
    """A prelude function; f(interp, args list padded to argc) -> list of results."""
    def __init__(self, name, argc, f): self.name, self.argc, self.f = name, argc, f


class Native:
    def __init__(self, name, argc, f): self.name, self.argc, self.f = name, argc, f


T = {n: TypeObj(n) for n in ("Type", "None", "int", "bool", "float", "String", "Buffer", "List", "Map", "File", "Directory",
                             "NullableType", "SumType", "AnyType", "function", "native function", "static map")}
ANY = AnyT()


class NFile:
    """A model file handle; see props/c20.py."""
    def __init__(self, **k): self.__dict__.update(k)


class NDir(NFile): pass


def typeof(v):
    if v is None: return T["None"]
    t = type(v)
    if t is int: return T["int"]
    if t is bool: return T["bool"]
    if t is float: return T["float"]
    if t is bytes: return T["String"]
    if t is NList: return T["List"]
    if t is NMap: return T["Map"]
    if t is NBuf: return T["Buffer"]
    if t is TypeObj: return T["Type"]
    if t is Nullable: return T["NullableType"]
    if t is Sum: return T["SumType"]
    if t is AnyT: return T["AnyType"]
    if t is Native: return T["native function"]
    if t is SMap: return T["static map"]
    if t is Func or t is PFunc: return T["function"]
    if t is NFile: return T["File"]
    if t is NDir: return T["Directory"]
    raise AssertionError(v)


def chars(s): return s.decode("utf-8")


def fmt(v, active=None):
    """What print writes for v."""
    out = []
    _fmt(v, out, set())
    return b"".join(out)


def _fmt(v, out, act):
    t = type(v)
    if v is None: out.append(b"none")
    elif t is bool: out.append(b"true" if v else b"false")
    elif t is int: out.append(b"%d" % v)
    elif t is float: out.append(fmt_float(v))
    elif t is bytes: out.append(v)
    elif t is NList:
        if id(v) in act: out.append(b"..."); return
        act.add(id(v))
        out.append(b"[")
        for i, x in enumerate(v.items):
            if i: out.append(b", ")
            _fmt(x, out, act)
        out.append(b"]")
        act.discard(id(v))
    elif t is NMap:
        if id(v) in act: out.append(b"..."); return
        act.add(id(v))
        out.append(b"{")
        for i, (k, x) in enumerate(v.d.values()):
            if i: out.append(b", ")
            _fmt(k, out, act)
            out.append(b": ")
            _fmt(x, out, act)
        out.append(b"}")
        act.discard(id(v))
    elif t is NBuf:
        out.append(b"[" + b", ".join(b"%02X" % c for c in v.base[v.off:v.off + v.len]) + b"]")
    elif t is TypeObj: out.append(v.name.encode())
    elif t is Nullable: out.append(b"?"); _fmt(v.t, out, act)
    elif t is Sum: _fmt(v.a, out, act); out.append(b" | "); _fmt(v.b, out, act)
    else: out.append(b"<" + typeof(v).name.encode() + b" is unprintable>")


def fmt_float(v):
    if math.isnan(v): return b"nan"
    return ("%2.2f" % v).encode()


COMPARABLE = (type(None), int, bool, float, bytes, TypeObj)


def comparable(v, depth=0):
    if depth == MAX_VALUE_DEPTH: return False
    if type(v) is NList: return all(comparable(x, depth + 1) for x in v.items)
    return type(v) in COMPARABLE


def hashable(v, depth=0):
    if depth == MAX_VALUE_DEPTH: return False
    if type(v) is NList: return all(hashable(x, depth + 1) for x in v.items)
    return type(v) in COMPARABLE and type(v) is not TypeObj


def ckey(v):
    t = type(v)
    if t is NList: return ("l", tuple(ckey(x) for x in v.items))
    if t is float and v != v: return ("nan", object())
    return (t.__name__, v)


def kcopy(v):
    return NList([kcopy(x) for x in v.items]) if type(v) is NList else v


def eql_deep(a, b):
    if type(a) is not type(b): return False
    if type(a) is NList:
        return len(a.items) == len(b.items) and all(eql_deep(x, y) for x, y in zip(a.items, b.items))
    if type(a) is TypeObj: return a is b
    return a == b


def eql(a, b):
    if typeof(a) is not typeof(b): return False
    if not comparable(a): raise Fail("not comparable")
    return eql_deep(a, b)


def istypeof(t, v, depth=0):
    if depth > 200: raise Skip("deep type")
    k = type(t)
    if k is TypeObj: return typeof(v) is t
    if k is AnyT: return True
    if k is Nullable: return v is None or istypeof(t.t, v, depth + 1)
    if k is Sum: return istypeof(t.a, v, depth + 1) or istypeof(t.b, v, depth + 1)
    if k is NList:
        return type(v) is NList and len(v.items) >= len(t.items) and \
            all(istypeof(x, y, depth + 1) for x, y in zip(t.items, v.items))
    if k is NMap:
        if type(v) is not NMap: return False
        for ck, (kk, tt) in t.d.items():
            e = v.d.get(ck)
            if e is None or not istypeof(tt, e[1], depth + 1): return False
        return True
    return False


def isnum(v): return type(v) is int or type(v) is float


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def arith(op, a, b):
    if op == "%":
        if type(a) is not int or type(b) is not int: raise Fail("modulo of non integers")
        if b == 0: raise Fail("zero")
        return a - b * cdiv(a, b)
    if not isnum(a) or not isnum(b): raise Fail("non numeric")
    if type(a) is int and type(b) is int:
        if op == "+": r = a + b
        elif op == "-": r = a - b
        elif op == "*": r = a * b
        else:
            if b == 0: raise Fail("zero")
            r = cdiv(a, b)
        if not IMIN <= r <= IMAX: raise Fail("overflow")
        return r
    a, b = float(a), float(b)
    try:
        if op == "+": return a + b
        if op == "-": return a - b
        if op == "*": return a * b
        if b == 0: raise Fail("zero")
        return a / b
    except OverflowError:
        raise AssertionError


def relop(op, a, b):
    if not isnum(a) or not isnum(b): raise Fail("relation of non numeric")
    if type(a) is not type(b): a, b = float(a), float(b)
    return a < b if op == "<" else a > b if op == ">" else a <= b if op == "<=" else a >= b


def valid_utf8(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def cfloat(v):
    """C's %a."""
    if v != v: return "nan"
    if math.isinf(v): return "inf" if v > 0 else "-inf"
    h = v.hex()
    m, e = h.split("p")
    if "." in m: m = m.rstrip("0").rstrip(".")
    return m + "p" + e


def exact(v, depth=0):
    """The exact value, as the harness writes it."""
    if depth > 24: return "<deep>"
    t = type(v)
    if v is None: return "N"
    if t is bool: return "T" if v else "F"
    if t is int: return "i%d" % v
    if t is float: return "f" + cfloat(v)
    if t is bytes: return "s" + v.hex()
    if t is NBuf: return "b" + bytes(v.base[v.off:v.off + v.len]).hex()
    if t is NList: return "[" + " ".join(exact(x, depth + 1) for x in v.items) + "]"
    if t is NMap: return "{" + " ".join(exact(k, depth + 1) + "=" + exact(x, depth + 1) for k, x in v.d.values()) + "}"
    return "<" + typeof(v).name + ">"


def to_string_int(n): return b"%d" % n


def to_string_float(f):
    neg = f < 0
    if neg: f = -f
    if f != f or math.isinf(f) or math.floor(f) > IMAX: raise Fail("out of range")
    i = math.floor(f)
    dec = math.floor((f - i) * 100 + 0.5)
    if dec == 100: i += 1; dec = 0
    s = b"%d." % i
    sc = 100
    while True:
        sc //= 10
        s += b"%d" % (dec // sc)
        dec %= sc
        if dec <= 0: break
    return b"-" + s if neg else s


class Frame:
    __slots__ = ("src", "line", "vars", "closure")
    def __init__(self, src, vars, closure):
        self.src, self.line, self.vars, self.closure = src, None, vars, closure


class Outcome:
    def __init__(self):
        self.out = b""
        self.ok = False
        self.vals = []
        self.msg = None       # only for messages the program chose itself
        self.hints = ()       # words any message about this failure contains
        self.trace = []
        self.fuel = 0
        self.retvals = []
        self.depth = 0
        self.classes = set()


class Interp:
    def __init__(self, fuel=6000, stdin=b"", name="(unnamed)", loader=None, maxbytes=200000, callback=None, hooks=None, cwd="/", extra=None):
        self.fuel0 = self.fuel = fuel
        self.name = name
        self.bytes_left = maxbytes
        self.frames = []
        self.out = []
        self.stdin = stdin
        self.inpos = 0
        self.cl = set()
        self.maxdepth = 0
        self.loader = loader
        self.cwd = cwd
        self.funcs = []       # in creation order, for profiling
        self.builtins = make_builtins(self)
        if extra: self.builtins.update(extra)
        self.D = {k: getattr(self, "e_" + m) for k, m in EXPR.items()}
        self.S = {k: getattr(self, "s_" + k) for k in ("expr", "block", "prog", "if", "while", "dowhile", "break", "return", "fun")}

    # ---- running
    def run(self, prog):
        o = Outcome()
        try:
            o.vals = self.run_module(prog, self.name)
            o.ok = True
        except Fail as e:
            o.msg = e.msg if e.user else None
            o.hints = e.hints
            o.trace = [(f.src, f.line) for f in reversed(self.frames) if f.src is not None]
        o.out = b"".join(self.out)
        o.retvals = o.vals
        o.vals = [fmt(v) for v in o.vals]
        o.fuel = self.fuel0 - self.fuel
        o.depth = self.maxdepth
        o.classes = self.cl
        return o

    def run_module(self, prog, name):
        self.push(Frame(name, NMap(), None))
        fr = self.frames[-1]
        try:
            self.stmt(prog)
            vals = [fr.vars]
        except Ret as r:
            vals = r.vals
        self.frames.pop()
        return vals

    def push(self, f):
        if len(self.frames) >= MAX_FRAMES: self.cl.add("call-limit"); raise Fail("nesting")
        self.frames.append(f)
        if len(self.frames) > self.maxdepth: self.maxdepth = len(self.frames)

    def burn(self, n=1):
        self.fuel -= n
        if self.fuel < 0: raise Skip("fuel")

    def alloc(self, n):
        self.bytes_left -= n
        if self.bytes_left < 0: raise Skip("bytes")

    def at(self, n): self.frames[-1].line = n.line

    # ---- variables
    def lookup(self, name):
        k = ("bytes", name.encode())
        f = self.frames[-1]
        e = f.vars.d.get(k)
        if e is not None: return e[1]
        c = f.closure
        while c is not None:
            e = c[0].d.get(k)
            if e is not None: self.cl.add("closure-read"); return e[1]
            c = c[1]
        if name in self.builtins: return self.builtins[name]
        raise Fail("undefined")

    def assign(self, name, v):
        self.mapset(self.frames[-1].vars, name.encode(), v)

    def mapset(self, m, k, v):
        if not hashable(k): raise Fail("unhashable")
        ck = ckey(k)
        e = m.d.get(ck)
        if e is not None: e[1] = v
        else:
            self.alloc(16)
            m.d[ck] = [kcopy(k), v]

    # ---- collections
    def select(self, c, k):
        t = type(c)
        if t is NMap:
            if not hashable(k): return None
            e = c.d.get(ckey(k))
            return e[1] if e is not None else None
        if t is NList:
            if type(k) is int and 0 <= k < len(c.items): return c.items[k]
            return None
        if t is bytes:
            if type(k) is not int: return None
            s = chars(c)
            return s[k].encode() if 0 <= k < len(s) else None
        if t is NBuf:
            return c.base[c.off + k] if type(k) is int and 0 <= k < c.len else None
        if t is SMap:
            return c.d.get(chars(k)) if type(k) is bytes else None
        return None

    def insert(self, c, k, v):
        t = type(c)
        if t is NMap: self.mapset(c, k, v)
        elif t is NList:
            if type(k) is not int or not 0 <= k <= len(c.items): raise Fail("range")
            if k == len(c.items): self.alloc(8); c.items.append(v)
            else: c.items[k] = v
        elif t is NBuf:
            if type(k) is not int or type(v) is not int or not 0 <= k < c.len or not 0 <= v <= 255: raise Fail("buffer")
            c.base[c.off + k] = v
        else: raise Fail("insert")

    # ---- expressions: ev returns one value
    def ev(self, n):
        self.fuel -= 1
        if self.fuel < 0: raise Skip("fuel")
        return self.D[n.k](n)

    def e_int(self, n): return n.v
    def e_flt(self, n): return float(n.v)
    def e_str(self, n):
        if not valid_utf8(n.v):
            self.at(n)
            raise Fail("utf8")
        return n.v
    def e_none(self, n): return None
    def e_true(self, n): return True
    def e_false(self, n): return False

    def e_var(self, n):
        self.at(n)
        return self.lookup(n.v)

    def e_neg(self, n):
        v = self.ev(n.kids[0])
        self.at(n)
        if type(v) is int:
            if v == IMIN: raise Fail("overflow")
            return -v
        if type(v) is float: return -v
        raise Fail("neg")

    def e_pos(self, n): return self.ev(n.kids[0])

    def e_nlb(self, n): return Nullable(self.ev(n.kids[0]))

    def e_not(self, n):
        v = self.ev(n.kids[0])
        self.at(n)
        if type(v) is not bool: raise Fail("not")
        return not v

    def e_stp(self, n):
        a = self.ev(n.kids[0]); b = self.ev(n.kids[1])
        return Sum(a, b)

    def e_arith(self, n):
        a = self.ev(n.kids[0]); b = self.ev(n.kids[1])
        self.at(n)
        return arith(n.k, a, b)

    def e_rel(self, n):
        a = self.ev(n.kids[0]); b = self.ev(n.kids[1])
        self.at(n)
        return relop(n.k, a, b)

    def e_eq(self, n):
        a = self.ev(n.kids[0]); b = self.ev(n.kids[1])
        self.at(n)
        r = eql(a, b)
        return r if n.k == "==" else not r

    def e_logic(self, n):
        a = self.ev(n.kids[0])
        self.at(n)
        if type(a) is not bool: raise Fail("bool")
        if a == (n.k == "or"):
            self.cl.add("short-circuit")
            return a
        b = self.ev(n.kids[1])
        self.at(n)
        if type(b) is not bool: raise Fail("bool")
        return b

    def key(self, n):
        if len(n.kids) == 2: return self.ev(n.kids[1])
        return NList([self.ev(x) for x in n.kids[1:]])

    def e_dot(self, n):
        c = self.ev(n.kids[0])
        return self.select(c, n.v.encode())

    def e_idx(self, n):
        c = self.ev(n.kids[0])
        k = self.key(n)
        return self.select(c, k)

    def e_call(self, n):
        r = self.ev_call(n)
        return r[0] if r else None

    def ev_call(self, n):
        args = [self.ev(x) for x in reversed(n.kids[1:])]
        args.reverse()
        if n.k == "call":
            f = self.ev(n.kids[0])
        else:
            recv = self.ev(n.kids[0])
            f = self.select(recv, n.v.encode())
            args.insert(0, recv)
        self.at(n)
        return self.call(f, args)

    def e_list(self, n):
        l = NList([])
        for x in n.kids:
            l.items.append(self.ev(x))
        self.alloc(8 * len(l.items) + 16)
        return l

    def e_map(self, n):
        m = NMap()
        self.alloc(32)
        for e in n.v:
            if e[0] == "id":
                v = self.ev(e[2])
                self.mapset(m, e[1].encode(), v)
            elif e[0] == "expr":
                k = self.ev(e[1])
                v = self.ev(e[2])
                self.at(e[2])
                self.mapset(m, k, v)
            else:
                self.mapset(m, e[1].encode(), self.mkfun("???", e[2], e[3]))
        return m

    def e_asn(self, n):
        ts, vn = n.kids[:-1], n.kids[-1]
        if vn.k in ("call", "mcall") and len(ts) > 1:
            self.fuel -= 1
            vs = list(self.ev_call(vn))[:len(ts)]
            vs += [None] * (len(ts) - len(vs))
            self.cl.add("tuple-assign")
        else:
            vs = [self.ev(vn)]
        for t, v in zip(reversed(ts), reversed(vs)):
            if t.k == "var": self.assign(t.v, v)
            elif t.k == "dot":
                c = self.ev(t.kids[0])
                self.at(t)
                self.insert(c, t.v.encode(), v)
            else:
                c = self.ev(t.kids[0])
                k = self.key(t)
                self.at(t)
                self.insert(c, k, v)
        return vs[0]

    # ---- calls
    def mkfun(self, name, params, body, node=None):
        f = self.frames[-1]
        fn = Func(name, params, body, (f.vars, f.closure), f.src, node)
        self.funcs.append(fn)
        self.alloc(64)
        if len(self.frames) > 1: self.cl.add("nested-function")
        return fn

    def call(self, f, args, extra=0):
        """Call f from the current frame; extra: prelude frames between."""
        t = type(f)
        if t is Func: return self.call_func(f, args)
        if t is Native or t is PFunc:
            if f.argc >= 0:
                args = args[:f.argc] + [None] * (f.argc - len(args))
            self.burn(5 if t is PFunc else 1)
            if len(self.frames) >= MAX_FRAMES: self.cl.add("call-limit"); raise Fail("nesting")
            self.frames.append(Frame(None, None, None))
            if len(self.frames) > self.maxdepth: self.maxdepth = len(self.frames)
            r = f.f(self, args)
            self.frames.pop()
            return r
        raise Fail("not callable")

    def need_depth(self, n):
        """n more frames needed inside the prelude function being modelled (itself pushed)."""
        if len(self.frames) + n > MAX_FRAMES: raise Skip("prelude depth")

    def call_func(self, f, args):
        f.calls += 1
        fr = Frame(f.src, NMap(), f.closure)
        self.push(fr)
        np = len(f.params)
        args = args[:np] + [None] * (np - len(args))
        for i in range(np - 1, -1, -1):
            pn, pt, pd = f.params[i]
            v = args[i]
            if pd is not None and v is None:
                self.at(pd)
                v = self.ev(pd)
                self.cl.add("default-used")
            if pt is not None:
                ty = self.ev(pt)
                self.at(pt)
                if not istypeof(ty, v): self.cl.add("type-refused"); raise Fail("type", hints=(b"%d" % (i + 1), pn.encode()))
            self.assign(pn, v)
        try:
            self.stmt(f.body)
            r = []
        except Ret as e:
            r = e.vals
        self.frames.pop()
        return r

    # ---- statements
    def stmt(self, n):
        self.fuel -= 1
        if self.fuel < 0: raise Skip("fuel")
        self.S[n.k](n)

    def s_expr(self, n):
        self.ev(n.kids[0])

    def s_block(self, n):
        for x in n.kids: self.stmt(x)

    s_prog = s_block

    def cond(self, c):
        v = self.ev(c)
        self.at(c)
        if type(v) is not bool: raise Fail("condition")
        return v

    def s_if(self, n):
        if self.cond(n.kids[0]): self.stmt(n.kids[1])
        elif len(n.kids) == 3: self.stmt(n.kids[2])

    def s_while(self, n):
        try:
            while self.cond(n.kids[0]):
                self.stmt(n.kids[1])
        except Brk: self.cl.add("break")

    def s_dowhile(self, n):
        try:
            while True:
                self.stmt(n.kids[0])
                if not self.cond(n.kids[1]): break
        except Brk: self.cl.add("break")

    def s_break(self, n): raise Brk()

    def s_return(self, n):
        vs = [self.ev(x) for x in n.kids]
        if len(vs) > MAX_RETS:
            self.at(n)
            raise Fail("returns")
        raise Ret(vs)

    def s_fun(self, n):
        self.assign(n.v[0], self.mkfun(n.v[0], n.v[1], n.kids[0], n))


EXPR = {"int": "int", "flt": "flt", "str": "str", "none": "none", "true": "true", "false": "false", "var": "var",
        "neg": "neg", "pos": "pos", "nlb": "nlb", "not": "not", "|": "stp", "+": "arith", "-": "arith", "*": "arith",
        "/": "arith", "%": "arith", "<": "rel", ">": "rel", "<=": "rel", ">=": "rel", "==": "eq", "!=": "eq",
        "and": "logic", "or": "logic", "dot": "dot", "idx": "idx", "call": "call", "mcall": "call", "list": "list",
        "map": "map", "=": "asn"}


# ---- built-ins -----------------------------------------------------------
def b_print(I, a):
    for v in a:
        s = fmt(v)
        I.alloc(len(s))
        I.out.append(s)
    return []


def b_type(I, a): return [typeof(a[0])]
def b_typename(I, a): return [typeof(a[0]).name.encode()]


def b_count(I, a):
    v = a[0]
    t = type(v)
    if t is NList: return [len(v.items)]
    if t is NMap: return [len(v.d)]
    if t is bytes: return [len(chars(v))]
    if t is NBuf: return [v.len]
    raise Fail("count")


def b_error(I, a):
    if type(a[0]) is not bytes: raise Fail("arg")
    raise Fail(a[0], True)


def b_assert(I, a):
    for v in a:
        if type(v) is not bool: raise Fail("assert arg")
        if not v: raise Fail("Assertion failed", False)
    return []


def b_istypeof(I, a): return [istypeof(a[0], a[1])]


def b_keysof(I, a):
    v = a[0]
    t = type(v)
    if t is NMap: r = [kcopy(k) for k, _ in v.d.values()]
    elif t is NList: r = list(range(len(v.items)))
    elif t is bytes: r = list(range(len(chars(v))))
    elif t is NBuf: r = list(range(v.len))
    else: return [None]
    I.alloc(8 * len(r) + 16)
    I.burn(len(r))
    return [NList(r)]


def b_input(I, a):
    i = I.stdin.find(b"\n", I.inpos)
    if i < 0:
        s = I.stdin[I.inpos:]
        I.inpos = len(I.stdin)
    else:
        s = I.stdin[I.inpos:i]
        I.inpos = i + 1
    if not valid_utf8(s): raise Fail("input")
    return [s]


def need_str(v):
    if type(v) is not bytes: raise Fail("string expected")
    return v


def b_ord(I, a):
    s = need_str(a[0])
    if not s: raise Fail("empty")
    return [ord(chars(s)[0])]


def b_chr(I, a):
    v = a[0]
    if type(v) is not int or not 0 <= v <= 0x10ffff or 0xd800 <= v <= 0xdfff: raise Fail("chr")
    return [chr(v).encode()]


def b_cat(I, a):
    for v in a: need_str(v)
    r = b"".join(a)
    I.alloc(len(r))
    return [r]


def opt_int(v, d):
    if v is None: return d
    if type(v) is not int: raise Fail("int expected")
    return v


def b_slice(I, a):
    s = need_str(a[0])
    off = opt_int(a[1], 0)
    ln = opt_int(a[2], None)
    if off < 0 or off > len(s): raise Fail("offset")
    if ln is None: ln = len(s) - off
    if ln < 0 or off + ln > len(s): raise Fail("length")
    r = s[off:off + ln]
    if not valid_utf8(r): raise Fail("utf8")
    return [r]


def b_trim(I, a): return [need_str(a[0]).strip(b" ")]


def b_toint(I, a):
    s = need_str(a[0])
    if not s or any(not 48 <= c <= 57 for c in s) or int(s) > IMAX: return [None, b"?"]
    return [int(s)]


def b_bnew(I, a):
    if type(a[0]) is not int or a[0] < 0 or a[0] > IMAX: raise Fail("size")
    if a[0] > 100000: raise Skip("big buffer")
    I.alloc(a[0] // 4)
    return [NBuf(bytearray(a[0]), 0, a[0])]


def b_bslice(I, a):
    v = a[0]
    if type(v) is not NBuf or type(a[1]) is not int or type(a[2]) is not int: raise Fail("arg")
    if a[1] < 0 or a[2] < 0 or a[1] >= v.len or a[2] > v.len - a[1]: raise Fail("range")
    return [NBuf(v.base, v.off + a[1], a[2])]


def b_bfrom(I, a):
    s = need_str(a[0])
    return [NBuf(bytearray(s), 0, len(s))]


def b_bto(I, a):
    v = a[0]
    if type(v) is not NBuf: raise Fail("arg")
    s = bytes(v.base[v.off:v.off + v.len])
    if not valid_utf8(s): return [None, b"?"]
    return [s]


def b_math1(f, dom=None):
    def g(I, a):
        if type(a[0]) is not float: raise Fail("float expected")
        return [f(a[0])]
    return g


def b_math2(f):
    def g(I, a):
        if type(a[0]) is not float or type(a[1]) is not float: raise Fail("float expected")
        return [f(a[0], a[1])]
    return g


def _round(fn):
    def g(v):
        if v != v or math.isinf(v): raise Fail("range")
        r = fn(v)
        if not IMIN <= r <= IMAX: raise Fail("range")
        return r
    return g


import ctypes, ctypes.util
_libm = ctypes.CDLL("libm.so.6")


def cm(name, n):
    f = getattr(_libm, name)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * n
    return f


# prelude
CALLABLE = Sum(T["function"], T["native function"])
NUMERIC = Sum(T["int"], T["float"])
COLLECTION = Sum(T["List"], T["Map"])


def check(t, v):
    if not istypeof(t, v): raise Fail("prelude type")


def p_append(I, a):
    check(T["List"], a[0])
    I.need_depth(1)
    I.alloc(8)
    a[0].items.append(a[1])
    return []


def p_abs(I, a):
    check(NUMERIC, a[0])
    if a[0] < 0:
        if a[0] == IMIN and type(a[0]) is int: raise Fail("overflow")
        return [-a[0]]
    return [a[0]]


def p_min(I, a): return [a[0] if relop("<", a[0], a[1]) else a[1]]
def p_max(I, a): return [a[0] if relop(">", a[0], a[1]) else a[1]]


def p_isc(I, a):
    I.need_depth(1)
    return [istypeof(CALLABLE, a[0])]


def p_ifd(I, a):
    check(T["String"], a[0])
    I.need_depth(1)
    if not a[0]: raise Fail("empty")
    r = ord(chars(a[0])[0]) - 48
    if r < 0 or r > 9: raise Fail("not a digit")
    return [r]


def p_tostring(I, a):
    # this frame is already counted in I.frames
    use = True if a[1] is None else a[1]
    return [to_string(I, a[0], use)]


def to_string(I, v, use=True):
    I.burn(20)
    t = type(v)
    if v is None: I.need_depth(1); return b"none"
    if t is bool: I.need_depth(2); raise Fail("toString")
    if t is int: I.need_depth(4); I.burn(300); return to_string_int(v)
    if t is float: I.need_depth(5); I.burn(400); return to_string_float(v)
    if t is bytes: I.need_depth(1); return v
    if t is NList:
        out = b"["
        i = 0
        while i < len(v.items):
            if i: out += b", "
            s = nested_to_string(I, v.items[i])
            out += s
            I.alloc(2 * len(out))
            i += 1
        I.need_depth(2)
        return out + b"]"
    if t is NMap:
        I.need_depth(3)
        e = v.d.get(("bytes", b"toString"))
        has = e is not None and istypeof(CALLABLE, e[1])
        if type(use) is not bool: raise Fail("and")
        if use and has:
            I.cl.add("toString-method")
            fr = Frame(None, None, None)
            I.frames.append(fr)
            r = I.call(e[1], [v])
            I.frames.pop()
            r = r[0] if r else None
            if r is not None and type(r) is not bytes: raise Skip("odd toString")
            if r is None: raise Skip("odd toString")
            return r
        out = b"{"
        ks = [(kcopy(k), v.d[c][1]) for c, (k, _) in v.d.items()]
        for i, (k, x) in enumerate(ks):
            if i: out += b", "
            # arguments are evaluated right to left
            xs = nested_to_string(I, I.select(v, k))
            k2 = nested_to_string(I, k)
            out += k2 + b": " + xs
            I.alloc(2 * len(out))
        return out + b"}"
    if t is TypeObj: I.need_depth(2); return b"Type"
    if t is Func or t is PFunc: return b"Func"
    if t is Native: return b"NFunc"
    I.need_depth(2)
    raise Fail("toString")


def nested_to_string(I, v):
    I.need_depth(2)
    I.frames.append(Frame(None, None, None))
    I.frames.append(Frame(None, None, None))
    r = to_string(I, v, True)
    if type(r) is not bytes: raise Skip("odd toString")
    I.frames.pop()
    I.frames.pop()
    return r


def p_iter(I, a):
    v = a[0]
    check(COLLECTION, v)
    I.need_depth(2)
    use = True if a[1] is None else a[1]
    if type(use) is not bool: raise Fail("and")
    if use and type(v) is NMap:
        e = v.d.get(("bytes", b"iter"))
        if e is not None and istypeof(CALLABLE, e[1]):
            r = I.call(e[1], [v])
            return [r[0] if r else None]
    m = NMap()
    keys = b_keysof(I, [v])[0]
    for k, x in (("set", v), ("keys", keys), ("index", None), ("next", PFunc("next", 1, p_next))):
        I.mapset(m, k.encode(), x)
    return [m]


def p_next(I, a):
    it = a[0]
    I.need_depth(3)
    I.burn(30)
    g = lambda k: it.d[("bytes", k)][1] if ("bytes", k) in it.d else None
    if type(it) is not NMap: raise Fail("iter")
    for k in (b"set", b"keys", b"index", b"next"):
        if ("bytes", k) not in it.d: raise Fail("iter")
    # 'set' must be of the type of the set the iterator was made for; programs that
    # replace it are outside of the model
    if type(g(b"set")) not in (NList, NMap): raise Skip("iterator tampered")
    if type(g(b"keys")) is not NList or not (g(b"index") is None or type(g(b"index")) is int): raise Fail("iter")
    idx = g(b"index")
    ks = g(b"keys").items
    if idx is None: idx = 0
    elif idx < len(ks): idx += 1
    if idx == len(ks): return [None]
    I.mapset(it, b"index", idx)
    key = ks[idx] if 0 <= idx < len(ks) else None
    return [I.select(g(b"set"), key), key, idx]


def nat(name, argc, f): return Native(name, argc, f)


def b_import(I, a):
    p = need_str(a[0])
    if I.loader is None: raise Skip("import")
    import posixpath
    cur = None
    for f in reversed(I.frames):
        if f.src is not None and f.src != "<prelude>":
            cur = f.src
            break
    path, prog = I.loader(p.decode(), cur)
    if prog is None: raise Fail("missing")
    return I.run_module(prog, path)


def make_builtins(I):
    B = {n: T[n] for n in ("Type", "None", "int", "bool", "float", "String", "Buffer", "List", "Map", "File", "Directory",
                           "NullableType", "SumType")}
    B["AnyType"] = T["AnyType"]
    del B["AnyType"]
    B["any"] = ANY
    for n, c, f in (("type", 1, b_type), ("print", -1, b_print), ("count", 1, b_count), ("error", 1, b_error),
                    ("assert", -1, b_assert), ("istypeof", 2, b_istypeof), ("typename", 1, b_typename),
                    ("keysof", 1, b_keysof), ("input", 0, b_input), ("import", 1, b_import)):
        B[n] = nat(n, c, f)
    B["string"] = SMap("string", {n: nat(n, c, f) for n, c, f in (
        ("ord", 1, b_ord), ("chr", 1, b_chr), ("cat", -1, b_cat), ("trim", 1, b_trim), ("slice", 3, b_slice),
        ("toInt", 1, b_toint))})
    B["buffer"] = SMap("buffer", {n: nat(n, c, f) for n, c, f in (
        ("new", 1, b_bnew), ("sliceUp", 3, b_bslice), ("toString", 1, b_bto), ("fromString", 1, b_bfrom))})
    md = {n: nat(n, 1, b_math1(cm(n, 1))) for n in ("sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "sqrt")}
    md["atan2"] = nat("atan2", 2, b_math2(cm("atan2", 2)))
    md["pow"] = nat("pow", 2, b_math2(cm("pow", 2)))
    md["floor"] = nat("floor", 1, b_math1(_round(math.floor)))
    md["ceil"] = nat("ceil", 1, b_math1(_round(math.ceil)))
    md["PI"] = math.pi
    md["E"] = math.e
    B["math"] = SMap("math", md)
    B["Func"], B["NFunc"], B["Numeric"], B["Callable"], B["Collection"] = T["function"], T["native function"], NUMERIC, CALLABLE, COLLECTION
    for n, c, f in (("makeIterator", 2, p_iter), ("toString", 2, p_tostring), ("integerFromDigit", 1, p_ifd),
                    ("isCallable", 1, p_isc), ("append", 2, p_append), ("abs", 1, p_abs), ("min", 2, p_min), ("max", 2, p_max)):
        B[n] = PFunc(n, c, f)
    return B
