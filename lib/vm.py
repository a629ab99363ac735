"""The stack machine of docs/Implementation.md, executing instruction listings over the values of the reference model."""
import noja_ref as R
from noja_ref import Fail, Skip, Frame, NMap, Func

STACK = 16      # values a function can have pending
RETS = 8


class VM(R.Interp):
    """ins: [(name, [(kind, value)])]; lines: the line of each instruction."""
    def __init__(self, ins, lines, **k):
        super().__init__(**k)
        self.ins, self.lines = ins, lines
        self.steps = 0
        self.over = set()         # things this run came across

    def run_module(self, prog, name):
        self.push(Frame(name, NMap(), None))
        v = self.loop(0, [])
        self.frames.pop()
        return v

    def call_func(self, f, args):
        f.calls += 1
        self.push(Frame(f.src, NMap(), f.closure))
        np = len(f.params)
        args = args[:np] + [None] * (np - len(args))
        r = self.loop(f.body, args)
        self.frames.pop()
        return r

    def loop(self, pc, args):
        fr = self.frames[-1]
        st = []

        def push(v):
            if len(st) >= STACK: self.over.add("stack-full"); raise Fail("stack")
            st.append(v)

        def need(n):
            if len(st) < n: self.over.add("stack-short"); raise Fail("operands")

        def pop():
            need(1)
            return st.pop()

        for a in args: push(a)
        while True:
            self.burn()
            self.steps += 1
            if pc >= len(self.ins): self.over.add("past-end"); raise Fail("past the end")
            op, o = self.ins[pc]
            o = [v for k, v in o]
            fr.line = self.lines[pc]
            self.over.add(op)
            pc += 1
            if op == "NOPE": pass
            elif op == "POS": need(1)
            elif op == "NEG":
                v = pop()
                if type(v) is int:
                    if v == R.IMIN: raise Fail("overflow")
                elif type(v) is not float: raise Fail("negation")
                push(-v)
            elif op == "NOT":
                v = pop()
                if type(v) is not bool: raise Fail("not")
                push(not v)
            elif op == "NLB": push(R.Nullable(pop()))
            elif op == "STP":
                need(2); b = st.pop(); a = st.pop()
                push(R.Sum(a, b))
            elif op in ARITH:
                need(2); b = st.pop(); a = st.pop()
                push(R.arith(ARITH[op], a, b))
            elif op in REL:
                need(2); b = st.pop(); a = st.pop()
                push(R.relop(REL[op], a, b))
            elif op in ("EQL", "NQL"):
                need(2); b = st.pop(); a = st.pop()
                r = R.eql(a, b)
                push(r if op == "EQL" else not r)
            elif op == "ASS":
                need(1)
                self.assign(o[0].decode(), st[-1])
            elif op == "POP":
                need(o[0])
                if o[0]: del st[-o[0]:]
            elif op == "CHECKTYPE":
                need(2)
                t = st.pop()
                if not R.istypeof(t, st[-1]): raise Fail("type", hints=(b"%d" % (o[0] + 1), o[1]))
            elif op == "CALL":
                f = pop()
                if o[0] > 32: raise Fail("arguments")
                need(o[0])
                a = [st.pop() for _ in range(o[0])]
                r = list(self.call(f, a))[:o[1]]
                for v in r + [None] * (o[1] - len(r)): push(v)
            elif op == "SELECT":
                need(2); k = st.pop(); c = st.pop()
                push(self.select(c, k))
            elif op == "SELECT2":
                need(2); k = st.pop()
                push(self.select(st[-1], k))
            elif op == "INSERT":
                need(3); v = st.pop(); k = st.pop()
                self.insert(st[-1], k, v)
            elif op == "INSERT2":
                need(3); k = st.pop(); c = st.pop()
                self.insert(c, k, st[-1])
            elif op in ("PUSHINT", "PUSHFLT", "PUSHSTR"): self.alloc(len(o[0]) if op == "PUSHSTR" else 8); push(o[0])
            elif op == "PUSHVAR": push(self.lookup(o[0].decode()))
            elif op == "PUSHTRU": push(True)
            elif op == "PUSHFLS": push(False)
            elif op == "PUSHNNE": push(None)
            elif op == "PUSHFUN":
                f = Func(o[2].decode(), [(None, None, None)] * o[1], o[0], (fr.vars, fr.closure), fr.src)
                self.funcs.append(f)
                self.alloc(64)
                push(f)
            elif op == "PUSHLST": self.alloc(16); push(R.NList([]))
            elif op == "PUSHMAP": self.alloc(32); push(NMap())
            elif op == "PUSHTYP":
                need(1)
                push(R.typeof(st[-1]))
            elif op == "PUSHNNETYP": push(R.T["None"])
            elif op in ("RETURN", "EXIT"):
                if op == "EXIT": push(fr.vars)
                elif len(st) != o[0]: raise Skip("badly formed listing")
                if len(st) > RETS: self.over.add("too-many-results"); raise Fail("results")
                return st
            elif op == "JUMP": pc = o[0]
            elif op in ("JUMPIFANDPOP", "JUMPIFNOTANDPOP"):
                v = pop()
                if type(v) is not bool: raise Fail("bool")
                if v == (op == "JUMPIFANDPOP"): pc = o[0]
            else: raise AssertionError(op)


ARITH = {"ADD": "+", "SUB": "-", "MUL": "*", "DIV": "/", "MOD": "%"}
REL = {"LSS": "<", "GRT": ">", "LEQ": "<=", "GEQ": ">="}
