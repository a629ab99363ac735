"""A reader of Noja source text, written from the language's grammar and independent of the interpreter's.

read(text) gives a Prog tree (lib/nast.py) with the lines set, or raises Syntax/Semantic with the
offset of the offending token.  Texts over an implementation limit raise Limit.
"""
from nast import N, KEYWORDS

SPACE = b" \t\n\v\f\r"
DIGITS = b"0123456789"
WORD = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
OPER = b"+-*/<>!=,|%"
LONG = (b"==", b"!=", b"<=", b">=", b"->")
ESC = {ord("n"): 10, ord("t"): 9, ord("r"): 13, ord("\\"): 92, ord("'"): 39, ord('"'): 34}
MAXDEPTH = 300      # far below the interpreter's own limit
LEVEL = {"=": 0, "|": 1, "or": 2, "and": 3, "<": 4, ">": 4, "<=": 4, ">=": 4, "==": 4, "!=": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6, ",": 7}


class Reject(Exception):
    def __init__(self, off, why):
        Exception.__init__(self, why)
        self.off, self.why = off, why


class Syntax(Reject): pass
class Semantic(Reject): pass
class Limit(Exception): pass


class Tok:
    __slots__ = ("k", "off", "end", "text")

    def __init__(self, k, off, end, text): self.k, self.off, self.end, self.text = k, off, end, text


def scan(t):
    """Tokens: kind 'int' 'flt' 'str' 'id', the keyword, the operator or the single byte; last one 'end'."""
    out, i, n = [], 0, len(t)
    while True:
        while i < n and (t[i] in SPACE or t[i] == 35):
            if t[i] == 35:
                while i < n and t[i] != 10: i += 1
            else: i += 1
        if i >= n: break
        a, c = i, t[i]
        if c in WORD:
            while i < n and (t[i] in WORD or t[i] in DIGITS): i += 1
            w = t[a:i].decode()
            k = w if w in KEYWORDS else "id"
        elif c in DIGITS:
            k = "int"
            while i < n and t[i] in DIGITS: i += 1
            if i + 1 < n and t[i] == 46 and t[i + 1] in DIGITS:
                k = "flt"
                i += 1
                while i < n and t[i] in DIGITS: i += 1
        elif c in b"'\"":
            k = "str"
            i += 1
            while i < n and t[i] != c: i += 2 if t[i] == 92 and i + 1 < n and t[i + 1] in b"'\"\\" else 1
            if i >= n: raise Syntax(n, "unterminated string")
            i += 1
        elif t[i:i + 2] in LONG:
            i += 2
            k = t[a:i].decode()
        else:
            i += 1
            k = chr(c)
        out.append(Tok(k, a, i, t[a:i]))
    out.append(Tok("end", n, n, b""))
    return out


class Parser:
    def __init__(self, text):
        self.t = text
        self.toks = scan(text)
        self.i = 0
        self.depth = 0
        self.limit = None

    def k(self): return self.toks[self.i].k

    def fail(self, why, tok=None):
        raise Syntax((tok or self.toks[self.i]).off, why)

    def take(self):
        self.i += 1
        return self.toks[self.i - 1]

    def want(self, k, at=None):
        if self.k() != k: self.fail("%s expected" % k, at)
        return self.take()

    def down(self, n=1):
        self.depth += n
        if self.depth > MAXDEPTH: raise Limit("nested deeply")

    # ---- statements
    def program(self):
        ss = []
        while self.k() != "end": ss.append(self.stmt())
        return N("prog", None, ss)

    def stmt(self):
        d = self.depth
        self.down()
        s = self.stmt_()
        self.depth = d
        return s

    def mk(self, tok, k, v=None, kids=()):
        n = N(k, v, kids)
        n.tok = tok
        return n

    def stmt_(self):
        t = self.toks[self.i]
        k = t.k
        if k == "if":
            self.take()
            c = self.expr(True)
            self.want(":")
            a = self.stmt()
            if self.k() == "else":
                self.take()
                return self.mk(t, "if", None, [c, a, self.stmt()])
            return self.mk(t, "if", None, [c, a])
        if k == "while":
            self.take()
            c = self.expr(True)
            self.want(":")
            return self.mk(t, "while", None, [c, self.stmt()])
        if k == "do":
            self.take()
            b = self.stmt()
            self.want("while")
            c = self.expr(True)
            self.want(";")
            return self.mk(t, "dowhile", None, [b, c])
        if k == "{":
            self.take()
            ss = []
            while self.k() not in ("}", "end"): ss.append(self.stmt())
            self.want("}")
            return self.mk(t, "block", None, ss)
        if k == "break":
            self.take()
            self.want(";", t)
            return self.mk(t, "break")
        if k == "return":
            self.take()
            e = self.expr(True)
            self.want(";")
            return self.mk(t, "return", None, [e])
        if k == "fun":
            name, ps, b = self.fun()
            return self.mk(t, "fun", (name, ps), [b])
        if k in ("(", "[", "+", "-", "?", "int", "flt", "str", "id", "not", "none", "true", "false"):
            e = self.expr(True)
            self.want(";")
            return self.mk(e.tok, "expr", None, [e])
        self.fail("statement expected")

    def fun(self):
        self.take()
        name = self.want("id").text.decode()
        self.want("(")
        ps = []
        if self.k() != ")":
            while True:
                p = self.want("id").text.decode()
                ty = de = None
                if self.k() == ":":
                    self.take()
                    ty = self.expr(False, False)
                if self.k() == "=":
                    self.take()
                    de = self.expr(False)
                ps.append((p, ty, de))
                if self.k() == ")": break
                self.want(",")
        self.take()
        return name, ps, self.stmt()

    # ---- expressions: one level of precedence after the other
    def expr(self, tuples, assign=True):
        d = self.depth
        self.down()
        e = self.level(0, tuples, assign)
        self.depth = d
        return e

    def level(self, lv, tuples, assign):
        if lv > 7: return self.prefix()
        if lv == 0 and not assign: return self.level(1, tuples, assign)
        if lv == 7 and not tuples: return self.prefix()
        left = self.level(lv + 1, tuples, assign)
        d = self.depth
        while LEVEL.get(self.k(), -1) == lv:
            op = self.take().k
            self.down()
            right = self.level(0 if lv == 0 else lv + 1, tuples, assign)
            left = self.mk(left.tok, "pair" if op == "," else op, None, [left, right])
            if lv == 0: break
        self.depth = d
        return left

    def prefix(self):
        t = self.toks[self.i]
        if t.k in ("+", "-", "?", "not"):
            self.take()
            self.down()
            e = self.prefix()
            self.depth -= 1
            return self.mk(t, {"+": "pos", "-": "neg", "?": "nlb", "not": "not"}[t.k], None, [e])
        return self.postfix()

    def items(self, end):
        """Expressions up to the closing token."""
        es = []
        if self.k() != end:
            while True:
                es.append(self.expr(False))
                if self.k() == end: break
                self.want(",")
        self.take()
        return es

    def postfix(self):
        e = self.primary()
        d = self.depth
        while True:
            t = self.toks[self.i]
            if t.k in (".", "->"):
                self.down()
                self.take()
                w = self.want("id").text.decode()
                e = self.mk(e.tok, "dot" if t.k == "." else "arw", w, [e])
            elif t.k == "[":
                self.down()
                self.take()
                ks = self.items("]")
                if not ks: raise Syntax(self.toks[self.i].off, "no index")
                e = self.mk(e.tok, "idx", None, [e] + ks)
            elif t.k == "(":
                self.down()
                self.take()
                a = self.items(")")
                if e.k == "arw": e = self.mk(t, "mcall", e.v, [e.kids[0]] + a)
                else: e = self.mk(t, "call", None, [e] + a)
            else: break
        self.depth = d
        return e

    def primary(self):
        t = self.toks[self.i]
        k = t.k
        if k == "(":
            self.take()
            e = self.expr(True)
            self.want(")")
            return e
        if k == "[":
            self.take()
            return self.mk(t, "list", None, self.items("]"))
        if k == "{":
            self.take()
            es = []
            if self.k() != "}":
                while True:
                    if self.k() == "fun":
                        name, ps, b = self.fun()
                        es.append(("fun", name, ps, b))
                        if self.k() == "}": break
                        continue
                    if self.k() == "id" and self.toks[self.i + 1].k == ":":
                        n = self.take().text.decode()
                        self.take()
                        es.append(("id", n, self.expr(False)))
                    else:
                        key = self.expr(False)
                        self.want(":")
                        es.append(("expr", key, self.expr(False)))
                    if self.k() == "}": break
                    self.want(",")
            self.take()
            return self.mk(t, "map", es)
        if k in ("int", "flt"):
            if len(t.text) >= 64: raise Limit("number of %d digits" % len(t.text))
            if k == "int" and int(t.text) > 2**63 - 1: self.fail("integer out of range")
            self.take()
            return self.mk(t, k, int(t.text) if k == "int" else t.text.decode())
        if k == "str":
            raw, v, i = t.text[1:-1], bytearray(), 0
            while i < len(raw):
                if len(v) >= 4000: raise Limit("long literal")
                if raw[i] == 92:
                    if raw[i + 1] not in ESC: self.fail("invalid escape")
                    v.append(ESC[raw[i + 1]])
                    i += 2
                else:
                    v.append(raw[i])
                    i += 1
            self.take()
            return self.mk(t, "str", bytes(v))
        if k in ("none", "true", "false"):
            self.take()
            return self.mk(t, k)
        if k == "id":
            self.take()
            return self.mk(t, "var", t.text.decode())
        self.fail("expression expected")


def flat(n, out):
    if n.k == "pair":
        flat(n.kids[0], out)
        flat(n.kids[1], out)
    else: out.append(n)
    return out


class Meaning:
    """What the grammar lets through and isn't a program: in the order in which the compiler visits the tree."""

    def bad(self, n, why): raise Semantic(n.tok.off, why)

    def tuple_of(self, n):
        out = flat(n, [])
        if len(out) > 32: raise Limit("tuple of %d" % len(out))
        return out

    def e(self, n, loop):
        k = n.k
        if k == "pair": self.bad(n, "tuple")
        if k == "arw": self.bad(n, "-> out of a call")
        if k == "=":
            ts = self.tuple_of(n.kids[0])
            v = n.kids[1]
            if len(ts) > 1 and v.k not in ("call", "mcall"): self.bad(v, "one value for many targets")
            self.e(v, loop)
            for x in reversed(ts):
                if x.k == "var": pass
                elif x.k in ("dot", "idx"):
                    for y in x.kids: self.e(y, loop)
                else: self.bad(x, "not a target")
            n.kids = ts + [v]
        elif k in ("call", "mcall"):
            for x in reversed(n.kids[1:]): self.e(x, loop)
            self.e(n.kids[0], loop)
        elif k == "map":
            for en in n.v:
                if en[0] == "id": self.e(en[2], loop)
                elif en[0] == "expr":
                    self.e(en[1], loop)
                    self.e(en[2], loop)
                else: self.fun(en[2], en[3])
        else:
            for x in n.kids: self.e(x, loop)

    def fun(self, ps, body):
        for p, ty, de in reversed(ps):
            if de is not None: self.e(de, False)
            if ty is not None: self.e(ty, False)
        self.s(body, False)

    def s(self, n, loop):
        k = n.k
        if k in ("prog", "block"):
            for x in n.kids: self.s(x, loop)
        elif k == "expr": self.e(n.kids[0], loop)
        elif k == "if":
            self.e(n.kids[0], loop)
            for x in n.kids[1:]: self.s(x, loop)
        elif k == "while":
            self.e(n.kids[0], loop)
            self.s(n.kids[1], True)
        elif k == "dowhile":
            self.s(n.kids[0], True)
            self.e(n.kids[1], loop)
        elif k == "break":
            if not loop: self.bad(n, "break out of a loop")
        elif k == "return":
            n.kids = self.tuple_of(n.kids[0])
            for x in n.kids: self.e(x, loop)
        elif k == "fun": self.fun(n.v[1], n.kids[0])


def line_of(text, off): return text.count(b"\n", 0, off) + 1


def parse(text):
    """The tree, if the grammar accepts the text."""
    try: return Parser(text).program()
    except RecursionError: raise Limit("nested deeply")


def read(text):
    """The program, with the lines set."""
    from nast import walk
    p = parse(text)
    Meaning().s(p, False)
    starts = [0]
    for i, c in enumerate(text):
        if c == 10: starts.append(i + 1)
    import bisect
    for n in walk(p):
        if n.tok is not None: n.line = bisect.bisect_right(starts, n.tok.off)
    return p


def acceptance(text):
    """('ok', tree) | ('syntax'|'semantic', offset, why)"""
    try: return ("ok", read(text))
    except Syntax as e: return ("syntax", e.off, e.why)
    except Semantic as e: return ("semantic", e.off, e.why)
