"""Program trees of the Noja language and their rendering as source text.

Rendering embodies the documented grammar: it is the place where the precedence
table, the statement forms and the literal forms are written down independently of
the interpreter.
"""


class N:
    __slots__ = ("k", "v", "kids", "tok", "line")

    def __init__(self, k, v=None, kids=()):
        self.k, self.v, self.kids = k, v, list(kids)
        self.tok = self.line = None

    def __repr__(self):
        return "N(%r, %r, %r)" % (self.k, self.v, self.kids)


# ---- constructors -------------------------------------------------------
def Int(v):
    return N("int", v) if v >= 0 else N("neg", None, [N("int", -v)])


def Flt(text): return N("flt", text)
def Str(v): return N("str", v if isinstance(v, bytes) else v.encode())
def Var(n): return N("var", n)
def NoneE(): return N("none")
def Bool(b): return N("true" if b else "false")
def Un(op, e): return N(op, None, [e])
def Bin(op, l, r): return N(op, None, [l, r])
def Asn(targets, value): return N("=", None, list(targets) + [value])
def Dot(e, name): return N("dot", name, [e])
def Idx(e, *keys): return N("idx", None, [e] + list(keys))
def Call(f, *args): return N("call", None, [f] + list(args))
def MCall(recv, name, *args): return N("mcall", name, [recv] + list(args))
def List(*items): return N("list", None, items)
# entries: ("id", name, valueN) | ("expr", keyN, valueN) | ("fun", name, params, bodyN)
def Map(*entries): return N("map", [e for e in entries])
def ExprS(e): return N("expr", None, [e])
def Block(*ss): return N("block", None, ss)
def If(c, t, e=None): return N("if", None, [c, t] + ([e] if e else []))
def While(c, b): return N("while", None, [c, b])
def DoWhile(b, c): return N("dowhile", None, [b, c])
def Break(): return N("break")
def Return(*es): return N("return", None, es)
# params: list of (name, typeN|None, defaultN|None)
def Fun(name, params, body): return N("fun", (name, params), [body])
def Prog(*ss): return N("prog", None, ss)
def Print(*args): return ExprS(Call(Var("print"), *args))
def Set(name, e): return ExprS(Asn([Var(name)], e))


UNARY = {"neg": "-", "pos": "+", "nlb": "?", "not": "not"}
BINPREC = {"|": 1, "or": 2, "and": 3, "<": 4, ">": 4, "<=": 4, ">=": 4, "==": 4, "!=": 4,
           "+": 5, "-": 5, "*": 6, "/": 6, "%": 6}
P_ASN, P_TUPLE, P_PREFIX, P_POST, P_PRIM = 0, 7, 8, 9, 10
KEYWORDS = {"if", "fun", "not", "and", "or", "else", "none", "true", "false", "return", "while", "break", "do"}


def prec(n):
    k = n.k
    if k in BINPREC: return BINPREC[k]
    if k == "=": return P_ASN
    if k in UNARY: return P_PREFIX
    if k in ("dot", "idx", "call", "mcall"): return P_POST
    return P_PRIM


def fmt_str(v, quote):
    """A literal for the bytes v (no zero byte)."""
    q = quote
    out = bytearray(q.encode())
    for c in v:
        ch = bytes([c])
        if ch == q.encode() or ch == b"\\": out += b"\\" + ch
        elif ch == b"\n": out += b"\\n"
        elif ch == b"\t": out += b"\\t"
        elif ch == b"\r": out += b"\\r"
        else: out += ch
    out += q.encode()
    return bytes(out)


class Opts:
    """Rendering choices that must not matter."""

    def quote(self, n): return '"'
    def parens(self, n): return 0       # redundant parentheses around expression n
    def braces(self, n): return False   # braces around the single statement n


class Renderer:
    def __init__(self, opts=None, full_parens=False):
        self.toks = []
        self.o = opts or Opts()
        self.full = full_parens

    def t(self, s):
        self.toks.append(s if isinstance(s, bytes) else s.encode())
        return len(self.toks) - 1

    # -- expressions; minp: lowest precedence allowed here without parentheses
    def e(self, n, minp=P_ASN, noparen=False, top=False):
        np = 0 if noparen else self.o.parens(n)
        if (prec(n) < minp or (top is False and n.k == "=" and len(n.kids) > 2)) and not noparen:
            np = max(np, 1)
        elif self.full and not noparen and prec(n) < P_PRIM and minp > P_ASN:
            np = max(np, 1)
        for _ in range(np): self.t("(")
        self._e(n)
        for _ in range(np): self.t(")")

    def _e(self, n):
        k = n.k
        if k == "int": n.tok = self.t(str(n.v))
        elif k == "flt": n.tok = self.t(n.v)
        elif k == "str": n.tok = self.t(fmt_str(n.v, self.o.quote(n)))
        elif k == "var": n.tok = self.t(n.v)
        elif k in ("none", "true", "false"): n.tok = self.t(k)
        elif k in UNARY:
            n.tok = self.t(UNARY[k])
            self.e(n.kids[0], P_PREFIX)
        elif k in BINPREC:
            p = BINPREC[k]
            self.e(n.kids[0], p)
            self.t(k)
            self.e(n.kids[1], p + 1)
            n.tok = n.kids[0].tok
        elif k == "=":
            ts, v = n.kids[:-1], n.kids[-1]
            for i, x in enumerate(ts):
                if i: self.t(",")
                self.e(x, P_PREFIX)
            self.t("=")
            self.e(v, P_ASN)
            n.tok = ts[0].tok
        elif k == "dot":
            self.e(n.kids[0], P_POST)
            self.t("."); self.t(n.v)
            n.tok = n.kids[0].tok
        elif k == "idx":
            self.e(n.kids[0], P_POST)
            self.t("[")
            self.args(n.kids[1:])
            self.t("]")
            n.tok = n.kids[0].tok
        elif k == "call":
            self.e(n.kids[0], P_POST)
            n.tok = self.t("(")
            self.args(n.kids[1:])
            self.t(")")
        elif k == "mcall":
            self.e(n.kids[0], P_POST)
            self.t("->"); self.t(n.v)
            n.tok = self.t("(")
            self.args(n.kids[1:])
            self.t(")")
        elif k == "list":
            n.tok = self.t("[")
            self.args(n.kids)
            self.t("]")
        elif k == "map":
            n.tok = self.t("{")
            for i, en in enumerate(n.v):
                if en[0] == "id":
                    self.t(en[1]); self.t(":"); self.e(en[2])
                elif en[0] == "expr":
                    # a bare identifier before ':' would be a string key
                    self.e(en[1], P_PRIM + 1 if en[1].k == "var" else P_ASN)
                    self.t(":"); self.e(en[2])
                else:
                    self.fun(en[1], en[2], en[3])
                    continue
                if i + 1 < len(n.v): self.t(",")
            self.t("}")
        else:
            raise AssertionError(k)

    def args(self, es):
        for i, x in enumerate(es):
            if i: self.t(",")
            self.e(x)

    # -- statements
    def fun(self, name, params, body):
        r = self.t("fun"); self.t(name); self.t("(")
        for i, (pn, pt, pd) in enumerate(params):
            if i: self.t(",")
            self.t(pn)
            if pt is not None: self.t(":"); self.e(pt, 1)
            if pd is not None: self.t("="); self.e(pd)
        self.t(")")
        self.s(body)
        return r

    def leftmost_brace(self, n):
        """Would this expression statement begin with '{'?"""
        while True:
            if n.k == "map": return True
            if n.k == "=" or n.k in BINPREC or n.k in ("dot", "idx", "call", "mcall"):
                n = n.kids[0]
                continue
            return False

    def s(self, n, braces_ok=True):
        b = braces_ok and n.k != "prog" and self.o.braces(n)
        if b: self.t("{")
        self._s(n)
        if b: self.t("}")

    def _s(self, n):
        k = n.k
        if k == "expr":
            x = n.kids[0]
            if self.leftmost_brace(x) and len(self.toks) >= 0:
                start = len(self.toks)
                self.e(x, top=True)
                if self.toks[start] == b"{":
                    del self.toks[start:]
                    self.t("("); self.e(x, noparen=True); self.t(")")
            else:
                self.e(x, top=True)
            self.t(";")
            n.tok = x.tok
        elif k == "block":
            n.tok = self.t("{")
            for x in n.kids: self.s(x)
            self.t("}")
        elif k == "prog":
            for x in n.kids: self.s(x)
        elif k == "if":
            n.tok = self.t("if")
            self.e(n.kids[0]); self.t(":")
            if len(n.kids) == 3:
                if self.open_if(n.kids[1]):
                    self.t("{"); self.s(n.kids[1]); self.t("}")
                else:
                    self.s(n.kids[1])
                self.t("else")
                self.s(n.kids[2])
            else:
                self.s(n.kids[1])
        elif k == "while":
            n.tok = self.t("while")
            self.e(n.kids[0]); self.t(":")
            self.s(n.kids[1])
        elif k == "dowhile":
            n.tok = self.t("do")
            self.s(n.kids[0])
            self.t("while"); self.e(n.kids[1]); self.t(";")
        elif k == "break":
            n.tok = self.t("break"); self.t(";")
        elif k == "return":
            n.tok = self.t("return")
            if len(n.kids) == 1: self.e(n.kids[0])
            else:
                for i, x in enumerate(n.kids):
                    if i: self.t(",")
                    self.e(x, P_PREFIX)
            self.t(";")
        elif k == "fun":
            n.tok = self.fun(n.v[0], n.v[1], n.kids[0])
        else:
            raise AssertionError(k)

    def open_if(self, n):
        """Would a following 'else' attach inside statement n?"""
        while True:
            if n.k == "if":
                if len(n.kids) == 2: return True
                n = n.kids[2]
            elif n.k == "while": n = n.kids[1]
            elif n.k == "fun": n = n.kids[0]
            else: return False


def unshare(n, seen=None):
    """A node used in several places becomes several, as each place has a line of its own."""
    if seen is None: seen = set()
    if n is None: return None
    if id(n) in seen: n = N(n.k, n.v, n.kids)
    seen.add(id(n))
    n.kids = [unshare(x, seen) for x in n.kids]
    if n.k == "map":
        n.v = [(e[0], e[1], unshare(e[2], seen)) if e[0] == "id" else (e[0], unshare(e[1], seen), unshare(e[2], seen)) if e[0] == "expr" else
               (e[0], e[1], [(p[0], unshare(p[1], seen), unshare(p[2], seen)) for p in e[2]], unshare(e[3], seen)) for e in n.v]
    elif n.k == "fun":
        n.v = (n.v[0], [(p[0], unshare(p[1], seen), unshare(p[2], seen)) for p in n.v[1]]) + tuple(n.v[2:])
    return n


def tokens(prog, opts=None, full_parens=False):
    unshare(prog)
    r = Renderer(opts, full_parens)
    r.s(prog)
    return r.toks


OPS2 = {b"->", b"==", b"!=", b"<=", b">="}


def need_space(a, b):
    """Must tokens a and b be separated to stay two tokens?"""
    def word(c): return c == 95 or 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122
    x, y = a[-1], b[0]
    if word(x) and word(y): return True
    if 48 <= x <= 57 and y == 46: return True     # digit then dot
    if x == 46 and 48 <= y <= 57: return True
    if bytes([x, y]) in OPS2: return True
    return False


def layout(toks, sep=None, need=need_space):
    """Join the tokens; sep(i, a, b) gives the separator before token i (or None for the default).
    Returns (text, line of each token)."""
    out = bytearray()
    lines = []
    line = 1
    depth = 0
    for i, t in enumerate(toks):
        if i:
            s = sep(i, toks[i - 1], t) if sep else None
            if s is None:
                a = toks[i - 1]
                if a in (b";", b"{", b"}") or t == b"}":
                    s = b"\n"
                elif need_space(a, t) or a in (b",", b":") or (a not in (b"(", b"[", b".", b"->") and t not in (b")", b"]", b",", b";", b"(", b"[", b".", b"->", b":")):
                    s = b" "
                else:
                    s = b""
            elif not s and need(toks[i - 1], t):
                s = b" "
        else:
            s = (sep(0, b"", t) if sep else b"") or b""
        out += s
        line += s.count(b"\n")
        lines.append(line)
        out += t
        line += t.count(b"\n")
    if toks:
        out += b"\n"
    return bytes(out), lines


def walk(n):
    """All nodes below n (n included)."""
    st = [n]
    while st:
        x = st.pop()
        if x is None: continue
        yield x
        st.extend(x.kids)
        if x.k == "map":
            for e in x.v:
                if e[0] == "id": st.append(e[2])
                elif e[0] == "expr": st.extend((e[1], e[2]))
                else:
                    st.append(e[3])
                    for p in e[2]: st.extend((p[1], p[2]))
        elif x.k == "fun":
            for p in x.v[1]: st.extend((p[1], p[2]))


def render(prog, sep=None, opts=None, full_parens=False, need=need_space):
    """Source text of a program; every node's .line is set."""
    toks = tokens(prog, opts, full_parens)
    text, lines = layout(toks, sep, need)
    for n in walk(prog):
        if n.tok is not None and n.tok < len(lines):
            n.line = lines[n.tok]
    return text


# ---- values pending on a frame's stack while something is evaluated ------
def need(n):
    k = n.k
    if k in ("int", "flt", "str", "var", "none", "true", "false"): return 1
    if k in UNARY: return need(n.kids[0])
    if k in ("and", "or"): return max(need(n.kids[0]), need(n.kids[1]))
    if k in BINPREC: return max(need(n.kids[0]), 1 + need(n.kids[1]))
    if k == "dot": return max(need(n.kids[0]), 2)
    if k == "idx":
        key = need(n.kids[1]) if len(n.kids) == 2 else 2 + max(need(x) for x in n.kids[1:])
        return max(need(n.kids[0]), 1 + key)
    if k == "call":
        a = n.kids[1:]
        m = len(a) + need(n.kids[0])
        for i, x in enumerate(reversed(a)): m = max(m, i + need(x))
        return m
    if k == "mcall":
        a = n.kids[1:]
        m = len(a) + max(need(n.kids[0]), 2) + 1
        for i, x in enumerate(reversed(a)): m = max(m, i + need(x))
        return m
    if k == "list":
        return max([1] + [2 + need(x) for x in n.kids])
    if k == "map":
        m = 1
        for e in n.v:
            if e[0] == "id": m = max(m, 2 + need(e[2]))
            elif e[0] == "expr": m = max(m, 1 + need(e[1]), 2 + need(e[2]))
            else: m = max(m, 3)
        return m
    if k == "=":
        ts, v = n.kids[:-1], n.kids[-1]
        m = max(need(v), len(ts))
        for x in ts:
            base = len(ts)
            if x.k == "dot": m = max(m, base + need(x.kids[0]), base + 2)
            elif x.k == "idx":
                key = need(x.kids[1]) if len(x.kids) == 2 else 2 + max(need(y) for y in x.kids[1:])
                m = max(m, base + need(x.kids[0]), base + 1 + key)
        return m
    raise AssertionError(k)


def need_fun(params, body):
    m = len(params)
    for i in range(len(params) - 1, -1, -1):
        left = i + 1
        pn, pt, pd = params[i]
        if pd is not None: m = max(m, left + 2, left - 1 + need(pd))
        if pt is not None: m = max(m, left + need(pt))
    return max(m, need_stmt(body))


def need_stmt(n):
    """Highest use within one frame (functions inside checked on their own)."""
    k = n.k
    if k == "expr": return need(n.kids[0])
    if k in ("block", "prog"): return max([0] + [need_stmt(x) for x in n.kids])
    if k == "if": return max([need(n.kids[0])] + [need_stmt(x) for x in n.kids[1:]])
    if k == "while": return max(need(n.kids[0]), need_stmt(n.kids[1]))
    if k == "dowhile": return max(need_stmt(n.kids[0]), need(n.kids[1]))
    if k == "return": return max([0] + [i + need(x) for i, x in enumerate(n.kids)])
    if k == "fun": return 1
    return 0


def max_need(prog):
    """Highest stack use over the program and every function in it."""
    m = need_stmt(prog)
    for x in walk(prog):
        if x.k == "fun": m = max(m, need_fun(x.v[1], x.kids[0]))
        elif x.k == "map":
            for e in x.v:
                if e[0] == "fun": m = max(m, need_fun(e[2], e[3]))
    return m
