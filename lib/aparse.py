"""A reader of Noja assembly text, written from its grammar and independent of the interpreter's assembler.

read(text) -> ("ok", [(name, operands, offset of the mnemonic)]) | ("bad", why, range of the offsets of the refused statement or None) | None when the outcome isn't specified.
"""
import re
from asmtext import OPS

SPACE = b" \t\n\v\f\r"
ID = re.compile(rb"[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(rb"[+-]?[0-9]+(\.[0-9]+)?")
ESC = {110: 10, 116: 9, 114: 13, 34: 34, 92: 92}


class Bad(Exception): pass
class Open(Exception): pass


class Reader:
    def __init__(self, t): self.t, self.i = t, 0

    def sp(self):
        while self.i < len(self.t) and self.t[self.i] in SPACE: self.i += 1

    def at(self): return self.t[self.i:self.i + 1]

    def string(self):
        self.i += 1
        v = bytearray()
        while True:
            c = self.at()
            if not c: raise Bad("string without an end")
            self.i += 1
            if c == b'"': break
            if c == b"\\":
                e = self.at()
                if not e or e[0] not in ESC: raise Bad("escape")
                v.append(ESC[e[0]])
                self.i += 1
            else:
                if c == b"\0": self.open = True
                v += c
        if len(v) > 1024: raise Bad("string of %d bytes" % len(v))
        return ("s", bytes(v))

    def number(self):
        m = NUM.match(self.t, self.i)
        if not m: raise Bad("number")
        self.i = m.end()
        x = m.group().decode()
        if m.group(1):
            v = float(x)
            if len(x) >= 512: self.open = True
            if v in (float("inf"), float("-inf")): raise Bad("floating point number out of range")
            if abs(v) < 2.3e-308 and re.search("[1-9]", x): self.open = True
            return ("f", v)
        sg, digits = (-1 if x[0] == "-" else 1), x.lstrip("+-").lstrip("0")
        if len(digits) > 25: raise Bad("integer out of range")
        v = sg * int(digits or "0")
        if v == -2**63: self.open = True
        if not -2**63 <= v < 2**63: raise Bad("integer out of range")
        return ("i", v)

    def read(self):
        self.open = False
        out, labels = [], {}
        while True:
            self.sp()
            if self.i == len(self.t): break
            self.start = self.i
            m = ID.match(self.t, self.i)
            if not m: raise Bad("no mnemonic")
            a, w = self.i, m.group()
            self.i = m.end()
            self.sp()
            if self.at() == b":":
                if w in labels: raise Bad("repeated label")
                labels[w] = len(out)
                self.i += 1
                self.sp()
                m = ID.match(self.t, self.i)
                if not m: raise Bad("label without an instruction")
                a, w = self.i, m.group()
                self.i = m.end()
                self.sp()
            if w.decode() not in OPS: raise Bad("mnemonic")
            ops = []
            if self.at() not in (b"", b";"):
                while True:
                    c = self.at()
                    if c == b'"': ops.append(self.string())
                    elif c and c in b"+-0123456789": ops.append(self.number())
                    else:
                        m = ID.match(self.t, self.i)
                        if not m: raise Bad("operand")
                        self.i = m.end()
                        ops.append(("l", m.group()))
                    self.sp()
                    if self.at() in (b"", b";"): break
                    if self.at() != b",": raise Bad("comma or semicolon")
                    self.i += 1
                    self.sp()
            if self.at(): self.i += 1
            want = OPS[w.decode()]
            if len(want) != len(ops): raise Bad("operand count")
            for k, (t, _) in zip(want, ops):
                if t != k and not (t == "l" and k in "xi"): raise Bad("operand type")
            out.append((w.decode(), ops, a))
        self.start = None
        res = []
        for w, ops, a in out:
            o2 = []
            for k, (t, v) in zip(OPS[w], ops):
                if t == "l":
                    if v not in labels: raise Bad("unknown label")
                    o2.append((k, labels[v]))
                else: o2.append((t, v))
            res.append((w, o2, a))
        return res


def read(text):
    r = Reader(text)
    try: x = ("ok", r.read())
    except Bad as e:
        k = text.find(b";", r.i)
        x = ("bad", str(e), None if r.start is None else (r.start, k if k >= 0 else len(text)))
    return None if r.open else x
