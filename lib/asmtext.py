"""Instruction listings and their assembly text."""
import struct
from decimal import Decimal

# the instruction set: operand kinds of every mnemonic (s string, i integer, x instruction index, f float)
OPS = {"NOPE": "", "POS": "", "NEG": "", "NOT": "", "ADD": "", "SUB": "", "MUL": "", "DIV": "", "MOD": "", "EQL": "", "NQL": "", "LSS": "",
       "GRT": "", "LEQ": "", "GEQ": "", "NLB": "", "STP": "", "ASS": "s", "POP": "i", "CHECKTYPE": "is", "CALL": "ii", "SELECT": "",
       "SELECT2": "", "INSERT": "", "INSERT2": "", "PUSHINT": "i", "PUSHFLT": "f", "PUSHSTR": "s", "PUSHVAR": "s", "PUSHTRU": "",
       "PUSHFLS": "", "PUSHNNE": "", "PUSHFUN": "xis", "PUSHLST": "i", "PUSHMAP": "i", "PUSHTYP": "", "PUSHNNETYP": "", "RETURN": "i",
       "EXIT": "", "JUMPIFANDPOP": "x", "JUMPIFNOTANDPOP": "x", "JUMP": "x"}


def parse(listing):
    """[(name, [operand])]; operands are ("x"|"i", int), ("f", float), ("s", bytes)."""
    out = []
    for l in listing.decode().split("\n"):
        if not l: continue
        f = l.split("\t")
        ops = []
        for o in f[1:]:
            if o[0] == "@": continue
            if o[0] == "X": ops.append(("x", int(o[1:])))
            elif o[0] == "I": ops.append(("i", int(o[1:])))
            elif o[0] == "F": ops.append(("f", float.fromhex(o[1:])))
            elif o[0] == "S": ops.append(("s", bytes.fromhex(o[1:])))
            else: raise AssertionError(l)
        out.append((f[0], ops))
    return out


def key(ins):
    """Comparable form (floats by their bits)."""
    return [(n, [(k, struct.pack("<d", v) if k == "f" else v) for k, v in ops]) for n, ops in ins]


def fmt_float(v):
    t = format(Decimal(v), "f")
    return t if "." in t else t + ".0"


ESC = {10: b"\\n", 9: b"\\t", 13: b"\\r", 34: b'\\"', 92: b"\\\\"}


def fmt_str(v, raw=None):
    """raw(c): may the byte c, of \\n \\t \\r, stand for itself?"""
    out = bytearray(b'"')
    for c in v:
        if c in (34, 92): out += ESC[c]
        elif c in ESC and not (raw and raw(c)): out += ESC[c]
        else: out.append(c)
    return bytes(out + b'"')


class Style:
    """Choices that don't matter."""
    def gap(self): return b""           # between any two symbols, when they stay apart
    def space(self): return b" "        # where a separation is needed
    def raw(self, c): return False
    def name(self, i): return "l%d" % i
    def plus(self): return False
    def zeros(self): return 0
    def last(self): return b";\n"
    def extra(self, i): return False      # an unused label on instruction i
    def literal(self, i): return False


def emit(ins, st=None):
    """Assembly text of a listing."""
    st = st or Style()
    targets = sorted({v for n, ops in ins for k, v in ops if k == "x"})
    for t in targets:
        if not 0 <= t < len(ins): raise ValueError("target outside of the program")
    names = {}
    for i in range(len(ins)):
        if i in targets or st.extra(i): names[i] = st.name(i)
    if len(set(names.values())) != len(names): raise ValueError("labels")
    out = bytearray(st.gap())
    for i, (n, ops) in enumerate(ins):
        if i in names: out += names[i].encode() + st.gap() + b":" + st.gap()
        out += n.encode()
        for j, (k, v) in enumerate(ops):
            if j: out += st.gap() + b"," + st.gap()
            if k == "x": o = names[v].encode()
            elif k == "i":
                t = "%s%s%d" % ("-" if v < 0 else "+" if st.plus() else "", "0" * st.zeros(), abs(v))
                o = t.encode()
            elif k == "f":
                t = fmt_float(v)
                if not t.startswith("-") and st.plus(): t = "+" + t
                o = t.encode()
            else: o = fmt_str(v, st.raw)
            if j == 0:
                g = st.gap() if o[:1] in (b'"', b"+", b"-") else b""
                out += g or (st.space() if o[:1] not in (b'"', b"+", b"-") else b"")
            out += o
        out += st.gap()
        out += b";" if i + 1 < len(ins) else st.last()
        out += st.gap()
    return bytes(out)


class RandomStyle(Style):
    def __init__(self, s):
        self.s = s
        self.mode = s.below(4)
        self.names = {}

    def gap(self):
        if self.mode == 0: return b""
        if self.mode == 1: return b"" if not self.s.chance(1, 6) else b"\n"
        return self.s.choice([b"", b" ", b"\n", b"\t", b"  ", b" \r\n", b"\v", b"\f"])
    def space(self): return b" " if self.mode < 2 else self.s.choice([b" ", b"\n", b"\t", b" \n "])
    def raw(self, c): return self.mode > 1 and self.s.chance(1, 2)

    def name(self, i):
        if i in self.names: return self.names[i]
        c = self.s.below(7)
        n = ["l%d" % i, "label_%d" % i, "_%d" % i, "PUSHINT_%d" % i, "L" + "x" * 40 + "%d" % i, "a%db" % i, "%s%d" % (self.s.choice(["ADD", "JUMP", "then", "__"]), i)][c]
        if n in self.names.values(): n = "l%d" % i
        self.names[i] = n
        return n
    def plus(self): return self.mode == 3 and self.s.chance(1, 3)
    def zeros(self): return self.s.int(1, 5) if self.mode == 3 and self.s.chance(1, 6) else 0
    def last(self): return self.s.choice([b";\n", b";", b"", b"\n", b" ; "])
    def extra(self, i): return self.mode > 0 and self.s.chance(1, 10)
