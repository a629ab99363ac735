from common import *
import os, cli

TITLE = "Exceeding a limit is a reported error, staying within it always works"
RULE = ("A case takes a family of programs growing with one size (call nesting, pending values, parameters, arguments, returned values, lengths of literals, names, files and paths, nesting of every "
        "construct, values nested in each other, sizes given to built-ins, heap) and runs it at sizes around the limit, in the embedded interpreter and as the real command: each must do exactly what it "
        "should or fail with a message, a failing status and no output beyond what comes before; or it runs generated programs that need more than fits against the reference model. "
        "Non-trivial when a size beyond a limit was judged, or both a success and a reported error.")
ASSUME = ["the real command runs with the default 8 MB stack", "which message is given is not prescribed"]
VARIANTS = ["asan", "cli", "rel"]

BEGIN = "print('begin\\n');\n"
CANARY = b"fun f(n) { if n == 0: return [1, 'a']; return f(n - 1); } x = {'k': f(9), 'l': 2 * (3 + (4 - 1))}; print(x['k'], x['l'], string.cat('a', 'b'));"
CANARY_OUT = b"[1, a]12ab"


class Shape:
    """text(n) and what it prints (after 'begin' for run-time limits); sizes tried in order; floor: sizes that must work."""
    def __init__(self, name, text, out, sizes, floor, mono=True, files=None, args=None, asan=True, real=True, asm=False, heap=0, cost=None):
        self.name, self.text, self.out, self.sizes, self.floor, self.mono, self.files, self.args = name, text, out, sizes, floor, mono, files, args
        self.asan, self.real, self.asm, self.heap = asan, real, asm, heap


def seq(f, n, sep=", "): return sep.join(f(i) for i in range(n))


def nest(a, x, b, n): return a * n + x + b * n


def intlist(n): return "[" + seq(str, n) + "]"


SMALL = list(range(0, 41))
LEN = [1, 2, 62, 63, 64, 65, 126, 127, 128, 255, 256, 257, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 4093, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 65535, 65536, 200000]
DEEP = [1, 2, 3, 10, 100, 500, 1000, 1022, 1023, 1024, 1025, 1300, 2000, 2046, 2047, 2048, 2049, 4000, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 8200, 20000, 100000]
MANY = [0, 1, 2, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4097, 20000]

S = []
def shape(name, text, out, sizes, floor, **kw): S.append(Shape(name, text, out, sizes, floor, **kw))

# ---- call nesting
shape("recursion", lambda n: BEGIN + "fun f(n) { if n == 0: return 0; return 1 + f(n - 1); }\nprint(f(%d));" % n, lambda n: "begin\n%d" % n, SMALL + [100, 1000, 100000], 12)
shape("mutual recursion", lambda n: BEGIN + "fun f(n) { if n == 0: return 'f'; return g(n - 1); }\nfun g(n) { if n == 0: return 'g'; return f(n - 1); } x = f(%d); print(x);" % n, lambda n: "begin\n" + "fg"[n % 2], SMALL + [5000], 12)
shape("method recursion", lambda n: BEGIN + "o = {k: 1, fun down(self, n) { if n == 0: return 0; return self.k + self->down(n - 1); }}; print(o->down(%d));" % n, lambda n: "begin\n%d" % n, SMALL + [777], 12)
shape("recursion ending in a native", lambda n: BEGIN + "fun f(n) { if n == 0: { print('deep'); return 0; } return 1 + f(n - 1); }\nprint(f(%d));" % n, lambda n: "begin\ndeep%d" % n, SMALL, 12)
shape("recursion in arguments", lambda n: BEGIN + "fun f(n) { if n == 0: return 0; return max(n, f(n - 1)); }\nprint(f(%d));" % n, lambda n: "begin\n%d" % n, SMALL, 10)
shape("recursion in a loop", lambda n: BEGIN + "fun f(n) { i = 0; while i < 1: { i = i + 1; if n > 0: f(n - 1); } print(n, ' '); }\nf(%d);" % n, lambda n: "begin\n" + "".join("%d " % i for i in range(n + 1)), SMALL, 12)
shape("chain of functions", lambda n: BEGIN + "".join("fun f%d(x) return f%d(x) + 1;\n" % (i, i + 1) for i in range(n)) + "fun f%d(x) return x;\nprint(f0(5));" % n, lambda n: "begin\n%d" % (5 + n), SMALL, 12)
shape("callbacks", lambda n: BEGIN + "fun call(f, n) { if n == 0: return 'end'; return f(f, n - 1); } print(call(call, %d));" % n, lambda n: "begin\nend", SMALL, 12)
shape("closures", lambda n: BEGIN + "".join("fun f%d() { x%d = %d;\n" % (i, i, i) for i in range(n)) + "return 7;\n" + "".join("} return f%d();" % i for i in range(n - 1, -1, -1)),
      lambda n: "begin\n", SMALL + [100, 300, 1000, 2030, 2047, 2048, 2049, 4100], 1)
S[-1].text = lambda n: BEGIN + "".join("fun f%d() { x%d = %d;\n" % (i, i, i) for i in range(n)) + "print('in');" + "".join("} %sf%d();" % ("return " if i else "", i) for i in range(n - 1, -1, -1))
S[-1].out = lambda n: "begin\nin"
shape("functions in functions", lambda n: BEGIN + "".join("fun f%d() {" % i for i in range(n)) + "}" * n + "print('end');", lambda n: "begin\nend", DEEP, 100)
shape("unbounded recursion", lambda n: BEGIN + "fun f(%s) { print('x'); f(%s); } f();" % (seq(lambda i: "a%d" % i, n), seq(lambda i: str(i), n)), lambda n: "begin\n" + "x" * 64, [0, 1, 2, 5, 10, 13, 14], -1, mono=False)

# ---- values pending in one function
shape("right operands", lambda n: BEGIN + "print(" + "1 + (" * n + "1" + ")" * n + ");", lambda n: "begin\n%d" % (n + 1), SMALL + [100, 1000, 4000], 12)
shape("left operands", lambda n: BEGIN + "print(" + "(" * n + "1" + " + 1)" * n + ");", lambda n: "begin\n%d" % (n + 1), SMALL + [100, 1000, 2000, 4000, 5000], 400)
shape("operator chain", lambda n: BEGIN + "print(0" + " + 1" * n + ");", lambda n: "begin\n%d" % n, MANY + [100000], 2000)
shape("comparison chain", lambda n: BEGIN + "print(true" + " == true" * n + ");", lambda n: "begin\ntrue", MANY, 2000)
shape("and chain", lambda n: BEGIN + "print(true" + " and true" * n + ");", lambda n: "begin\ntrue", MANY, 2000)
shape("or chain, right", lambda n: BEGIN + "print(" + "false or (" * n + "true" + ")" * n + ");", lambda n: "begin\ntrue", DEEP, 400)
shape("nested lists, last", lambda n: BEGIN + "x = " + "[1, " * n + "2" + "]" * n + "; print(x);", lambda n: "begin\n" + "[1, " * n + "2" + "]" * n, SMALL, 6)
shape("nested lists, first", lambda n: BEGIN + "x = " + "[" * n + "2" + ", 1]" * n + "; print(x);", lambda n: "begin\n" + "[" * n + "2" + ", 1]" * n, SMALL + [1000, 4000, 5000], 6)
shape("nested maps", lambda n: BEGIN + "x = " + "{'k': " * n + "2" + "}" * n + "; print(x);", lambda n: "begin\n" + "{k: " * n + "2" + "}" * n, SMALL + [1000, 4000], 6)
shape("nested calls", lambda n: BEGIN + "fun f(x) return x; print(" + "f(" * n + "9" + ")" * n + ");", lambda n: "begin\n9", SMALL + [1000, 4000, 5000], 40)
shape("nested calls, last argument", lambda n: BEGIN + "fun f(x, y) return y; print(" + "f(1, " * n + "9" + ")" * n + ");", lambda n: "begin\n9", SMALL + [1000], 30)
shape("nested calls, first argument", lambda n: BEGIN + "fun f(x, y) return x; print(" + "f(" * n + "9" + ", 1)" * n + ");", lambda n: "begin\n9", SMALL + [1000], 12)
shape("nested methods", lambda n: BEGIN + "o = {fun f(self, x) return x;}; print(" + "o->f(" * n + "9" + ")" * n + ");", lambda n: "begin\n9", SMALL, 10)
shape("method chain", lambda n: BEGIN + "o = {v: 3, fun f(self) return self;}; print(o" + "->f()" * n + ".v);", lambda n: "begin\n3", MANY, 300)
shape("nested selects", lambda n: BEGIN + "l = [0]; print(" + "l[" * n + "0" + "]" * n + ");", lambda n: "begin\n0", SMALL + [1000], 12)
shape("select chain", lambda n: BEGIN + "m = {}; m.k = m; m.v = 3; print(m" + ".k" * n + ".v);", lambda n: "begin\n3", MANY, 2000)
shape("index chain", lambda n: BEGIN + "m = {}; m['k'] = m; m.v = 3; print(m" + "['k']" * n + ".v);", lambda n: "begin\n3", MANY, 1000)
shape("call chain", lambda n: BEGIN + "fun f() return f; x = f" + "()" * n + "; print('end');", lambda n: "begin\nend", MANY, 1000)
shape("multiple keys", lambda n: BEGIN + "m = {}; m[%s] = 1; print(count(m));" % intlist(n)[1:-1] if n else BEGIN + "print(1);", lambda n: "begin\n1", MANY, 32)
shape("list literal", lambda n: BEGIN + "print(%s);" % intlist(n), lambda n: "begin\n" + intlist(n), MANY, 4000)
shape("map literal", lambda n: BEGIN + "print(count({%s}));" % seq(lambda i: "'k%d': %d" % (i, i), n), lambda n: "begin\n%d" % n, MANY, 2000)
shape("map literal of functions", lambda n: BEGIN + "m = {%s}; print(count(m));" % seq(lambda i: "fun f%d() {}" % i, n, " "), lambda n: "begin\n%d" % n, MANY, 2000)

# ---- arguments, parameters, returned values
shape("arguments", lambda n: BEGIN + "fun f(a) return a; print(f(%s));" % seq(str, n), lambda n: "begin\n" + ("0" if n else "none"), MANY, 13)
shape("arguments to a native", lambda n: BEGIN + "print(%s);" % seq(str, n), lambda n: "begin\n" + seq(str, n, ""), MANY, 14)
shape("arguments to string.cat", lambda n: BEGIN + "print(string.cat(%s));" % seq(lambda i: "'%d'" % i, n), lambda n: "begin\n" + seq(str, n, ""), MANY, 12)
shape("method arguments", lambda n: BEGIN + "o = {fun f(self, a) return a;}; print(o->f(%s));" % seq(str, n), lambda n: "begin\n" + ("0" if n else "none"), MANY, 10)
shape("parameters", lambda n: BEGIN + "fun f(%s) return p%d; print(f());" % (seq(lambda i: "p%d" % i, n), n - 1) if n else BEGIN + "print(none);", lambda n: "begin\nnone", MANY, 14)
shape("parameters with arguments", lambda n: BEGIN + "fun f(%s) return p0 + p%d; print(f(%s));" % (seq(lambda i: "p%d" % i, n), n - 1, seq(str, n)) if n else BEGIN + "print(0);", lambda n: "begin\n%d" % max(0, n - 1), MANY, 13)
shape("parameters with defaults", lambda n: BEGIN + "fun f(%s) return p%d; print(f());" % (seq(lambda i: "p%d = %d" % (i, i), n), n - 1) if n else BEGIN + "print('-1');", lambda n: "begin\n%d" % (n - 1), MANY, 12)
shape("parameters with types", lambda n: BEGIN + "fun f(%s) return p0; print(f(%s));" % (seq(lambda i: "p%d: int" % i, n), seq(str, n)) if n else BEGIN + "print(0);", lambda n: "begin\n0", MANY, 12)
shape("returned values", lambda n: BEGIN + "fun f() return %s; %s = f(); print(a%d);" % (seq(str, n), seq(lambda i: "a%d" % i, n), n - 1) if n else BEGIN + "print('-1');", lambda n: "begin\n%d" % (n - 1), MANY, 8)
shape("returned values kept in part", lambda n: BEGIN + "fun f() return %s; a = f(); print(a);" % seq(str, max(1, n)), lambda n: "begin\n0", MANY, 8)
shape("returned values dropped", lambda n: BEGIN + "fun f() return %s; f(); print('end');" % seq(str, max(1, n)), lambda n: "begin\nend", MANY, 8)
shape("targets", lambda n: BEGIN + "fun f() return 1, 2; %s = f(); print(a0);" % seq(lambda i: "a%d" % i, max(1, n)), lambda n: "begin\n1", MANY, 8)
shape("values of the program", lambda n: BEGIN + "return %s;" % seq(str, max(1, n)), lambda n: "begin\n", MANY, 8)

# ---- lengths
for q in "'\"":
    shape("string literal " + q, lambda n, q=q: BEGIN + "print(%s);" % (q + "x" * n + q), lambda n: "begin\n" + "x" * n, LEN, 4095)
    shape("string literal with escapes " + q, lambda n, q=q: BEGIN + "print(%s);" % (q + "\\n" * n + q), lambda n: "begin\n" + "\n" * n, LEN, 4095)
    shape("string literal ending in an escape " + q, lambda n, q=q: BEGIN + "print(%s);" % (q + "x" * n + "\\\\" + q), lambda n: "begin\n" + "x" * n + "\\", LEN, 4094)
    shape("string literal of wide characters " + q, lambda n, q=q: BEGIN + "print(%s);" % (q + "\u20ac" * n + q), lambda n: "begin\n" + "\u20ac" * n, LEN, 1365)
shape("string literal as key", lambda n: BEGIN + "m = {'%s': 3}; print(m['%s']);" % ("k" * n, "k" * n), lambda n: "begin\n3", LEN, 4095)
shape("integer digits", lambda n: BEGIN + "print(%s);" % ("0" * (n - 1) + "7"), lambda n: "begin\n7", LEN, 60)
shape("integer value", lambda n: BEGIN + "print(%s);" % ("1" + "0" * (n - 1)), lambda n: "begin\n" + "1" + "0" * (n - 1), list(range(1, 80)), 18)
shape("float digits", lambda n: BEGIN + "print(1.%s5 > 1.0);" % ("0" * n), lambda n: "begin\n" + ("true" if n < 15 else "false"), list(range(0, 15)), 14)
shape("float digits, long", lambda n: BEGIN + "print(1.%s > 1.2);" % ("5" * n), lambda n: "begin\ntrue", LEN, 50)
shape("float digits, whole part", lambda n: BEGIN + "print(%s.0 > 0.0);" % ("1" * n), lambda n: "begin\ntrue", LEN, 50)
shape("name", lambda n: BEGIN + "%s = 4; print(%s);" % ("a" * n, "a" * n), lambda n: "begin\n4", LEN + [1000000], 3000)
shape("undefined name", lambda n: BEGIN + "print(%s);" % ("u" * n), lambda n: "begin\n", LEN, -1, mono=False)
shape("parameter name", lambda n: BEGIN + "fun f(%s) return %s; print(f(3));" % ("a" * n + "_", "a" * n + "_"), lambda n: "begin\n3", LEN, 3000)
shape("function name", lambda n: BEGIN + "fun %s() return 3; print(%s());" % ("a" * n + "_", "a" * n + "_"), lambda n: "begin\n3", LEN, 3000)
shape("member name", lambda n: BEGIN + "m = {}; m.%s = 3; print(m.%s);" % ("a" * n, "a" * n), lambda n: "begin\n3", LEN, 3000)
shape("method name", lambda n: BEGIN + "m = {fun %s(self) return 3;}; print(m->%s());" % ("a" * n + "_", "a" * n + "_"), lambda n: "begin\n3", LEN, 3000)
shape("comment", lambda n: BEGIN + "#" + "c" * n + "\nprint(3);", lambda n: "begin\n3", LEN + [3000000], 10 ** 9)
shape("blank space", lambda n: BEGIN + " \t\n" * n + "print(3);", lambda n: "begin\n3", LEN + [1000000], 10 ** 9)
shape("statements", lambda n: BEGIN + "x = 0;" + "x = x + 1;" * n + "print(x);", lambda n: "begin\n%d" % n, LEN, 20000)
shape("variables", lambda n: BEGIN + "".join("v%d = %d;" % (i, i) for i in range(n)) + "print(v%d);" % (n - 1), lambda n: "begin\n%d" % (n - 1), [1, 2, 10, 100, 1000, 5000], 1000)
shape("functions", lambda n: BEGIN + "".join("fun f%d() return %d;" % (i, i) for i in range(n)) + "print(f%d());" % (n - 1), lambda n: "begin\n%d" % (n - 1), [1, 2, 10, 100, 1000, 5000], 1000)
shape("syntax error far away", lambda n: BEGIN + "x = 1;\n" * n + "x = = ;", lambda n: "", LEN, -1, mono=False)
shape("message", lambda n: BEGIN + "error('%s');" % ("e" * n), lambda n: "begin\n", [1, 100, 1000, 4000, 4095, 4096], -1, mono=False)
shape("message, big", lambda n: BEGIN + "s = 'xxxxxxxxxx'; i = 0; while i < %d: { s = string.cat(s, s); i = i + 1; } error(s);" % n, lambda n: "begin\n", list(range(0, 14)), -1, mono=False)

# ---- nesting of constructs
for nm, a, x, b, o in (("parentheses", "(", "3", ")", "3"), ("negations", "- ", "3", "", None), ("nots", "not ", "true", "", None), ("empty lists in lists", "[", "", "]", None)):
    shape("nested " + nm, lambda n, a=a, x=x, b=b: BEGIN + "x = " + nest(a, x, b, n) + "; print('end');", lambda n: "begin\nend", DEEP, 7 if "lists" in nm else 2000)
for nm, a, x, b in (("blocks", "{", "print('in');", "}"), ("ifs", "if true: ", "print('in');", ""), ("ifs with blocks", "if true: {", "print('in');", "}"), ("else chain", "if false: x = 1; else ", "print('in');", ""),
                    ("if else in if", "if true: ", "print('in');", " else x = 1;")):
    shape("nested " + nm, lambda n, a=a, x=x, b=b: BEGIN + nest(a, x, b, n), lambda n: "begin\nin", DEEP, 1000)
shape("nested whiles, unentered", lambda n: BEGIN + "while false: " * n + "x = 1; print('end');", lambda n: "begin\nend", DEEP, 1000)
shape("nested do whiles", lambda n: BEGIN + "do " * n + "x = 1;" + " while false;" * n + " print('end');", lambda n: "begin\nend", DEEP, 1000)
shape("assignment chain", lambda n: BEGIN + seq(lambda i: "a%d = " % (i % 50), n, "") + "3; print('end');", lambda n: "begin\nend", DEEP, 1000)
shape("type operators", lambda n: BEGIN + "fun f(x: " + "?" * n + "int) return x; print(f(3));", lambda n: "begin\n3", DEEP, 500)
shape("sum of types", lambda n: BEGIN + "fun f(x: int" + " | none" * n + ") return x; print(f(3));", lambda n: "begin\n3", MANY, 500)
shape("sum of types, right", lambda n: BEGIN + "t = int; i = 0; while i < %d: { t = t | none; i = i + 1; } fun f(x: t) return x; print(f(3));" % n, lambda n: "begin\n3", DEEP, 500)
shape("nullable types, made", lambda n: BEGIN + "t = int; i = 0; while i < %d: { t = ?t; i = i + 1; } fun f(x: t) return x; print(f(3));" % n, lambda n: "begin\n3", DEEP, 500)
shape("nullable types, refused", lambda n: BEGIN + "t = int; i = 0; while i < %d: { t = ?t; i = i + 1; } fun f(x: t) return x; print(f('3'));" % n, lambda n: "begin\n", DEEP, -1, mono=False)
shape("map in map, literal depth", lambda n: BEGIN + "print(" + "{a: " * n + "1" + "}" * n + ");", lambda n: "begin\n" + "{a: " * n + "1" + "}" * n, SMALL, 6)
shape("methods in methods", lambda n: BEGIN + "m = " + "{fun f() return " * n + "1" + ";}" * n + "; print('end');", lambda n: "begin\nend", DEEP[:-1], 500)

# ---- values nested in each other
BUILD = BEGIN + "x = []; i = 0; while i < %d: { x = [x]; i = i + 1; }"
BUILDM = BEGIN + "x = {}; i = 0; while i < %d: { x = {'k': x}; i = i + 1; }"
D2 = [0, 1, 2, 10, 62, 63, 64, 65, 66, 100, 1000, 4000, 10000, 20000]
shape("deep list, printed", lambda n: BUILD % n + "print(x);", lambda n: "begin\n" + "[" * (n + 1) + "]" * (n + 1), D2, 5000, heap=1 << 24)
shape("deep map, printed", lambda n: BUILDM % n + "print(x);", lambda n: "begin\n" + "{k: " * n + "{}" + "}" * n, D2, 2000, heap=1 << 26)
shape("deep list, kept", lambda n: BUILD % n + "i = 0; while i < 300: { y = buffer.new(20000); i = i + 1; } n = 0; while count(x) > 0: { x = x[0]; n = n + 1; } print(n);", lambda n: "begin\n%d" % n, D2, 10000, heap=1 << 24)
shape("deep map, kept", lambda n: BUILDM % n + "i = 0; while i < 300: { y = buffer.new(20000); i = i + 1; } n = 0; while count(x) > 0: { x = x['k']; n = n + 1; } print(n);", lambda n: "begin\n%d" % n, D2, 2000, heap=1 << 26)
shape("deep list, compared", lambda n: BUILD % n + "y = []; i = 0; while i < %d: { y = [y]; i = i + 1; } print(x == y);" % n, lambda n: "begin\ntrue", D2, 60, heap=1 << 25)
shape("deep map, compared", lambda n: BUILDM % n + "y = {}; i = 0; while i < %d: { y = {'k': y}; i = i + 1; } print(x == y);" % n, lambda n: "begin\ntrue", D2, -1, heap=1 << 26, mono=False)
shape("deep list, compared with itself", lambda n: BUILD % n + "print(x == x);", lambda n: "begin\ntrue", D2, 60, heap=1 << 25)
shape("deep list, key", lambda n: BUILD % n + "m = {}; m[x] = 3; print(m[x]);", lambda n: "begin\n3", D2, 60, heap=1 << 25)
shape("deep list, in a map with others", lambda n: BUILD % n + "m = {'a': 1}; m[[1]] = 2; m[x] = 3; print(m['a'], m[[1]], m[x]);", lambda n: "begin\n123", D2, 60, heap=1 << 25)
shape("deep list, returned", lambda n: BUILD % n + "return x;", lambda n: "begin\n", D2, 5000, heap=1 << 24)
for i, e in enumerate(["print(x)", "x == y", "m = {}; m[x] = 1", "print(string.cat('a', x))", "print(m)", "m == {'m': m}", "z = [x, y, m]; print(z == [y, x, m])", "assert(x == y)"]):
    shape("values inside themselves %d" % i, lambda n, e=e: BEGIN + "x = []; append(x, x); y = []; append(y, [y]); m = {}; m.m = m; " + "x = [x]; " * n + e + ";", lambda n: None, [0, 1, 2], -1, mono=False)
shape("list growth", lambda n: BEGIN + "l = []; i = 0; while i < %d: { append(l, i); i = i + 1; } print(count(l), l[%d - 1]);" % (n, n), lambda n: "begin\n%d%d" % (n, n - 1), [1, 7, 8, 9, 100, 1000, 5000, 20000, 100000], 5000)
shape("map growth", lambda n: BEGIN + "l = {}; i = 0; while i < %d: { l[i] = i; i = i + 1; } print(count(l), l[%d - 1]);" % (n, n), lambda n: "begin\n%d%d" % (n, n - 1), [1, 7, 8, 9, 100, 1000, 3000, 20000, 100000], 1000)
shape("string growth", lambda n: BEGIN + "s = 'x'; i = 0; while i < %d: { s = string.cat(s, s); i = i + 1; } print(count(s));" % n, lambda n: "begin\n%d" % (1 << n), list(range(0, 40)), 16)
shape("variables in one function", lambda n: BEGIN + "fun f() {" + "".join("v%d = %d;" % (i, i) for i in range(n)) + "return v0; } print(f());", lambda n: "begin\n0", [1, 5, 10, 100, 1000, 5000, 20000], 1000)

# ---- sizes given to built-ins
HUGE = [0, 1, 2, 10, 1000, 100000, 900000, 1 << 20, 1 << 24, 1 << 28, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 48, (1 << 62), (1 << 63) - 17, (1 << 63) - 9, (1 << 63) - 8, (1 << 63) - 1]
shape("buffer", lambda n: BEGIN + "fun f() { b = buffer.new(%d); return count(b); } print(f());" % n, lambda n: "begin\n%d" % n, HUGE, 100000)
shape("negative buffer", lambda n: BEGIN + "b = buffer.new(-%d); print(count(b));" % max(1, n), lambda n: "begin\n", HUGE, -1, mono=False)
shape("buffer, used", lambda n: BEGIN + "fun f() { b = buffer.new(%d); b[%d] = 7; return b[%d]; } print(f());" % (n, n - 1, n - 1) if n else BEGIN + "print(7);", lambda n: "begin\n7", HUGE, 100000)
shape("buffer index beyond", lambda n: BEGIN + "b = buffer.new(5); print(b[%d]);" % (n + 5), lambda n: "begin\nnone", HUGE[:-4], 10 ** 30, mono=False)
shape("buffer store beyond", lambda n: BEGIN + "b = buffer.new(5); b[%d] = 1; print('no');" % (n + 5), lambda n: "begin\n", HUGE[:-4], -1, mono=False)
shape("slice size", lambda n: BEGIN + "b = buffer.new(50); print(count(buffer.sliceUp(b, 10, %d)));" % n, lambda n: "begin\n%d" % n, [1, 2, 39, 40, 41, 50] + HUGE[4:], 40)
shape("slice offset", lambda n: BEGIN + "b = buffer.new(50); print(count(buffer.sliceUp(b, %d, 1)));" % n, lambda n: "begin\n1", [0, 1, 2, 48, 49, 50, 51] + HUGE[4:], 49)
shape("list index beyond", lambda n: BEGIN + "l = [1]; print(l[%d]);" % (n + 1), lambda n: "begin\nnone", HUGE[:-1], 10 ** 30)
shape("list store beyond", lambda n: BEGIN + "l = []; l[%d] = 1; print('no');" % (n + 1), lambda n: "begin\n", HUGE[:-1], -1, mono=False)
shape("list negative store", lambda n: BEGIN + "l = [1]; l[-%d] = 1; print('no');" % (n + 1), lambda n: "begin\n", HUGE[:-1], -1, mono=False)
shape("string.buf size", lambda n: BEGIN + "print(count(string.cat('%s', '%s')));" % ("a" * (n // 2), "b" * (n - n // 2)), lambda n: "begin\n%d" % n, [1, 2, 100, 4000, 8000, 8190], 8190)

# ---- assembly
def asm(body): return "PUSHSTR \"begin\\n\";\nPUSHVAR \"print\"; CALL 1, 1; POP 1;\n" + body
shape("pushes", lambda n: asm("PUSHINT 1;\n" * n + ("POP %d;\n" % n if n else "") + "PUSHNNE; RETURN 1;"), lambda n: "begin\n", list(range(0, 40)) + [1000], 14, asm=True)
shape("pops", lambda n: asm("PUSHINT 1; PUSHINT 2; POP %d; RETURN 0;" % n), lambda n: "begin\n", [0, 1, 2, 3, 4, 10, 17, 100, 1000, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 63) - 1], 2, asm=True)
shape("call arguments", lambda n: asm("PUSHINT 1;\n" * min(n, 20) + "PUSHVAR \"type\"; CALL %d, 1; POP 1; RETURN 0;" % n), lambda n: "begin\n", [1, 2, 12, 13, 14, 15, 16, 17, 31, 32, 33, 1000, (1 << 31) - 1, 1 << 31, 1 << 32, 1 << 62], 12, asm=True)
shape("call results", lambda n: asm("PUSHINT 1;\nPUSHVAR \"type\"; CALL 1, %d; POP %d; RETURN 0;" % (n, n)), lambda n: "begin\n", list(range(0, 20)) + [32, 33, 1000, 1 << 31, 1 << 32], 8, asm=True)
shape("results", lambda n: asm("PUSHINT 1;\n" * min(n, 20) + "RETURN %d;" % n), lambda n: "begin\n", list(range(0, 20)) + [1000, 1 << 31, 1 << 32, 1 << 62], 8, asm=True)
shape("assembly string", lambda n: asm("PUSHSTR \"%s\"; PUSHVAR \"print\"; CALL 1, 0; RETURN 0;" % ("s" * n)), lambda n: "begin\n" + "s" * n, LEN, 1000, asm=True)
shape("assembly names", lambda n: asm("PUSHINT 4; ASS \"%s\"; PUSHVAR \"%s\"; PUSHVAR \"print\"; CALL 1, 0; POP 1; RETURN 0;" % ("s" * n, "s" * n)), lambda n: "begin\n4", LEN, 1000, asm=True)
shape("assembly label", lambda n: asm("JUMP %s;\nPUSHINT 1;\n%s: PUSHNNE; RETURN 1;" % ("l" * n, "l" * n)), lambda n: "begin\n", LEN, 1000, asm=True)
shape("jump beyond", lambda n: asm("JUMP end; PUSHINT 1; POP 1;\nPUSHNNE; POP 1;\n" + "PUSHINT 1; POP 1;\n" * n + "end: RETURN 0;"), lambda n: "begin\n", MANY, 20000, asm=True)
shape("list capacity", lambda n: asm("PUSHLST %d; POP 1; RETURN 0;" % n), lambda n: "begin\n", HUGE, 1000, asm=True)
shape("map capacity", lambda n: asm("PUSHMAP %d; POP 1; RETURN 0;" % n), lambda n: "begin\n", HUGE, 1000, asm=True)


# What the documented limits (16 values, 16 calls, 64 digits, 4096 characters) leave to each family.
EXACT = {'recursion': 14, 'mutual recursion': 14, 'method recursion': 14, 'recursion ending in a native': 13, 'recursion in arguments': 14, 'recursion in a loop': 13, 'chain of functions': 14, 'callbacks': 14, 'closures': 14, 'right operands': 15, 'nested lists, last': 7, 'nested lists, first': 7, 'nested maps': 7, 'nested calls, first argument': 14, 'nested selects': 15, 'arguments': 15, 'arguments to a native': 15, 'arguments to string.cat': 14, 'method arguments': 14, 'parameters': 16, 'parameters with arguments': 15, 'parameters with defaults': 14, 'parameters with types': 15, 'targets': 16, 'integer digits': 63, 'integer value': 19, 'float digits, long': 61, 'float digits, whole part': 61, 'nested empty lists in lists': 8, 'map in map, literal depth': 7, 'pushes': 16, 'call arguments': 15, 'call results': 16, 'assembly string': 1024, 'assembly names': 1024}
for _s in S: _s.floor = EXACT.get(_s.name, _s.floor)

FAIL_ALWAYS = {"unbounded recursion", "undefined name", "syntax error far away", "message", "message, big", "nullable types, refused", "negative buffer", "buffer store beyond", "list store beyond",
               "list negative store", "deep map, compared"}


def judge(sh, n, who, ok, out, err, text, fails):
    """One size of a shape; gives whether it failed."""
    def bad(m, **k): raise Violation("%s at size %d, %s: %s" % (sh.name, n, who, m), program=text[:3000], output=out[-2000:], error=err[:2000], size=n, **k)
    want = sh.out(n)
    want = None if want is None else want.encode()
    if ok:
        if want is not None and out != want or sh.name in FAIL_ALWAYS: bad("ends well without having done what it should", expected=want[-2000:])
        if fails and sh.mono: bad("works although a smaller one fails", fails_at=fails)
        return False
    if not err.strip(): bad("fails without a message")
    if want is not None and not want.startswith(out): bad("what was printed before the failure is wrong", expected=want[-2000:])
    if want is None and not out.startswith(b"begin\n"): bad("what was printed before the failure is wrong")
    if n <= sh.floor: bad("fails although it is within the limits")
    return True


def asm_canary(sh): return (SRC, NAME, CANARY)


def try_shape(sh, sizes, env, real=True, embedded=True):
    """Runs the sizes in order."""
    if embedded:
        fails = None
        seen = set()
        for n in sizes:
            text = sh.text(n).encode()
            kind = ASM if text.startswith(b"PUSHSTR") else SRC
            res = env.server("asan").run([(kind, NAME, text), (SRC, NAME, CANARY)], heap=sh.heap, steps=20000000, wall=400)
            c = res.crash()
            if res.timed_out: raise Inconclusive("wall clock limit")
            if c: raise Violation("%s at size %d crashed or hung the interpreter: %s" % (sh.name, n, c.splitlines()[0] if c else c), program=text[:3000], report=c, size=n)
            op, after = res.ops
            if judge(sh, n, "embedded", op.ok, op.out, op.err or b"", text, fails): fails = n if fails is None else fails
            if not after.ok or after.out != CANARY_OUT: raise Violation("%s at size %d: the program run next in the same runtime goes wrong" % (sh.name, n), program=text[:3000], output=after.out, error=after.err)
            if res.live: raise Violation("%s at size %d leaves memory behind" % (sh.name, n), program=text[:3000], live=res.live)
            seen.add(op.ok)
            env.count("fits" if op.ok else "reported")
            env.nontrivial("%s %d" % (sh.name, n))
        env.sample(sh.name, "sizes %s, fails from %s on: %s" % (sizes if len(sizes) < 30 else "%d..%d" % (sizes[0], sizes[-1]), fails, sh.text(sizes[0])[:400]))
    if real:
        d = env.scratch()
        os.chmod(d, 0o755)
        fails = None
        for n in sizes:
            text = sh.text(n).encode()
            f = os.path.join(d, "p.noja")
            cli.write(f, text)
            r = cli.noja((["-H", str(sh.heap)] if sh.heap else []) + (["-a"] if text.startswith(b"PUSHSTR") else []) + [f], d)
            if r is None: raise Inconclusive("wall clock limit")
            if r.rc < 0: raise Violation("%s at size %d: the command is killed by signal %d" % (sh.name, n, -r.rc), program=text[:3000], output=r.out[-2000:], error=r.err[:2000], size=n)
            if judge(sh, n, "the command", r.rc == 0, r.out, r.err, text, fails): fails = n if fails is None else fails
            env.count("fits, command" if r.rc == 0 else "reported, command")


def run_shapes(s, env):
    sh = S[s.index // 2]
    if s.index % 2: try_shape(sh, sh.sizes, env, embedded=False)
    else: try_shape(sh, sh.sizes, env, real=False)


def run_sizes(s, env):
    """Random sizes of a random family, some near the ones tried."""
    sh = s.choice([x for x in S if len(x.sizes) > 3])
    lo, hi = sh.sizes[0], sh.sizes[-1]
    hi = min(hi, 30000) if hi < 10 ** 6 else hi
    out = set()
    for _ in range(s.int(2, 6)):
        b = s.choice(sh.sizes)
        n = s.choice([b - 1, b + 1, b + s.int(0, 40), s.int(lo, min(hi, 5000)), s.int(lo, min(hi, 100)), s.int(lo, hi)])
        if lo <= n <= hi: out.add(n)
    if not out: raise Discard("no sizes")
    try_shape(sh, sorted(out), env, real=s.chance(1, 6))


# ---- generated programs made bigger
def deepen(s, p):
    """Makes values wait while random expressions are evaluated; adds calls."""
    slots = []
    for n in walk(p):
        if n.k == "call": slots += [(n, i) for i in range(1, len(n.kids))]
        elif n.k in ("list", "+", "-", "*", "==", "!=", "<", ">", "<=", ">=", "and", "or", "return"): slots += [(n, i) for i in range(len(n.kids))]
    if not slots: return
    for _ in range(s.int(1, 5)):
        n, i = s.choice(slots)
        e = n.kids[i]
        c = s.below(4)
        if c == 0: n.kids[i] = Call(Var("pk"), e, *[Int(j) for j in range(s.int(1, 14))])
        elif c == 1:
            for _ in range(s.int(1, 14)): e = Idx(List(e), Int(0)) if s.chance(1, 3) else Call(Var("pk"), e, Int(1))
            n.kids[i] = e
        elif c == 2:
            for _ in range(s.int(1, 9)): e = List(Int(0), e)
            n.kids[i] = e
        else: n.kids[i] = Call(Var("dp"), Int(s.int(0, 16)), e)


def run_programs(s, env):
    p = Gen(s, budget=s.choice([15, 30, 60]), wrong=s.choice([1000, 60])).program(s.int(1, 6))
    if s.chance(4, 5): deepen(s, p)
    p = Prog(Fun("pk", [("a", None, None)], Block(Return(Var("a")))),
             Fun("dp", [("n", None, None), ("v", None, None)], Block(If(Bin("<=", Var("n"), Int(0)), Return(Var("v"))), Return(Call(Var("dp"), Bin("-", Var("n"), Int(1)), Var("v"))))), *p.kids)
    text = render(p)
    m = max_need(p)
    o = ref_run(p)
    heap = s.choice([0, 0, 0, 1 << 14, 1 << 15, 1 << 17])
    res = env.server().run([(SRC, NAME, text), (SRC, NAME, CANARY)], heap=heap)
    check_clean(res, text)
    op, after = res.ops
    def bad(msg, **k): raise Violation(msg, program=text, expected_output=o.out, output=op.out, expected="success" if o.ok else "failure (trace %r)" % (o.trace,), got="success" if op.ok else "failure: %r %r" % (op.err, op.trace), pending=m, **k)
    heapish = heap and not op.ok and heap < (1 << 17)
    if m <= 14 and not heapish: compare(op, o, text)
    elif op.ok:
        if not o.ok: bad("a program that should abort runs to its end")
        compare(op, o, text)
    else:
        if not (op.err or b"").strip(): bad("the failure isn't reported")
        if not norm(o.out).startswith(norm(op.out)): bad("what was printed before the failure is wrong")
    if after.ok and after.out != CANARY_OUT or not after.ok and not heapish: raise Violation("the program run next in the same runtime goes wrong", program=text, output=after.out, error=after.err)
    if res.live: raise Violation("memory is left behind", program=text, live=res.live)
    env.count("needs up to 14" if m <= 14 else "needs 15 or 16" if m <= 16 else "needs more than 16")
    same = op.ok == o.ok and norm(op.out) == norm(o.out)
    env.count("as prescribed" if same else "stopped by a limit")
    if m > 14 or not same or o.depth > 8: env.nontrivial(text)
    env.sample("needs more" if m > 14 else "fits", text.decode(errors="replace")[:2500])


# ---- paths
LENS = [20, 100, 250, 255, 256, 500, 511, 512, 513, 900, 1000] + list(range(1010, 1032)) + [1100, 2000, 2047, 2048, 3000, 4080] + list(range(4090, 4100)) + [5000, 9000]


def deep_dir(base, length):
    """A directory below base whose path has about that length (components of at most 200 bytes)."""
    p = base
    while len(p) < length - 1:
        k = min(200, length - len(p) - 1)
        p += "/" + "d" * max(1, k)
        try: os.mkdir(p)
        except FileExistsError: pass
        except OSError: return None
        os.chmod(p, 0o755)
    return p


def run_paths(s, env):
    k = s.below(6)
    n = s.choice(LENS) if s.chance(3, 4) else s.int(10, 4200)
    base = env.scratch()
    os.chmod(base, 0o755)
    mod = b"v = 'module'; fun w() return v;"
    if k < 5 and s.chance(1, 2):
        # around the size of a path buffer, once the directory is put before it
        n = s.choice([256, 512, 1024, 1024, 1024, 2048, 4096]) + s.int(-8, 3) - s.choice([0, len(base) + 1])
    dots = "./" * (n // 2) + ("m.noja" if n % 2 == 0 else ".//m.noja"[1:])
    args, cwd, want = [], base, b"begin\nmodule"
    must = n <= 900
    if k == 0:      # long name given to import
        cli.write(base + "/m.noja", mod)
        cli.write(base + "/p.noja", (BEGIN + "x = import('%s'); print(x.v);" % dots).encode())
        args = [s.choice(["p.noja", "./p.noja", base + "/p.noja"])]
    elif k == 1:    # the same for files
        cli.write(base + "/m.noja", b"module")
        os.chmod(base, 0o777)
        body = ["f = files.openFile('%s', files.READ); b = buffer.new(6); files.read(f, b, 6); print(buffer.toString(b));", "d = files.openDir('%s'); if type(d) == None: print('module'); else print('module');",
                "f = files.openFile('%s', files.READ); print('module');"][s.below(3)]
        cli.write(base + "/p.noja", (BEGIN + body % dots).encode())
        args = ["p.noja"]
    elif k == 2:    # long path of the program
        cli.write(base + "/m.noja", mod)
        cli.write(base + "/p.noja", (BEGIN + "x = import('m.noja'); print(x.v);").encode())
        args = ["./" * (n // 2) + "p.noja"]
        if n >= 4000: must = False
    elif k in (3, 4):    # deep directories
        d = deep_dir(base, n)
        if d is None: raise Discard("no such directory")
        try:
            here = os.getcwd()
            fd = os.open(d, os.O_RDONLY)
            for name, data in (("m.noja", mod), ("p.noja", (BEGIN + "x = import('m.noja'); print(x.v);").encode())):
                h = os.open(name, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644, dir_fd=fd)
                os.write(h, data)
                os.close(h)
            os.close(fd)
        except OSError: raise Discard("no such directory")
        if k == 3:
            args = [d + "/p.noja"]
            if s.chance(1, 3):
                cli.write(base + "/p.noja", (BEGIN + "x = import('%s/m.noja'); print(x.v);" % d).encode())
                args = ["p.noja"]
            if len(d) > 3900: must = False
        else:
            cwd, args = d, [s.choice(["p.noja", "./p.noja"])]
            if len(d) > 4000: raise Discard("can't be the working directory")
    else:           # long program text on the command line, long names of profiles
        os.chmod(base, 0o777)
        cli.write(base + "/p.noja", (BEGIN + "print('module');").encode())
        args = ["-p", "-o", "./" * (n // 2) + "prof", "p.noja"]
        must = n < 4000
    if k != 5 and s.chance(1, 2):
        # the same in a process that watches every memory access
        os.chmod(base, 0o777)
        res = env.server("asan").run([(FILE, args[0], "")], cwd=cwd)
        check_clean(res, "long path %s %d %r" % (k, n, args[0][:100]))
        if res.live or res.fds: raise Violation("a long path: something isn't released", kind=k, length=n, arguments=args[0][:300], blocks=res.live, descriptors=res.fds)
        op = res.ops[0]
        r = cli.Run(0 if op.ok else 255, op.out, op.err or b"")
        env.count("watched")
    else: r = cli.noja(args, cwd)
    if r is None: raise Inconclusive("wall clock limit")
    show = dict(arguments=[a[:300] for a in args], length=n, output=r.out[-500:], error=r.err[:500], kind=k)
    if r.rc < 0: raise Violation("a long path: killed by signal %d" % -r.rc, **show)
    if k == 5:
        # the program itself is not affected
        if r.rc == 0 and r.out != want: raise Violation("a long path: ends well without having done what it should", **show)
        if r.rc == 0 and not os.path.exists(base + "/prof"): raise Violation("a long path: the profile is silently missing", **show)
    if r.rc == 0:
        if r.out != want: raise Violation("a long path: ends well without having done what it should", **show)
    else:
        if not r.err.strip(): raise Violation("a long path: fails without a message", **show)
        if not want.startswith(r.out): raise Violation("a long path: what was printed before the failure is wrong", **show)
        if must: raise Violation("a path within the limits fails", **show)
    env.count("fits" if r.rc == 0 else "reported")
    env.nontrivial("%d %d %s" % (k, n, args))
    env.sample("path kind %d" % k, "length %d: status %d %r" % (n, r.rc, r.err[:200]))


# ---- sizes around 2^31 and 2^32: files (sparse) and strings
HUGE = [("file", 2 ** 32, 0), ("file", 2 ** 32, 3), ("file", 2 ** 32, -1), ("file", 2 ** 33, 0), ("file", 2 ** 31, 0), ("file", 2 ** 31 + 2 ** 32, 0), ("import", 2 ** 32, 0), ("import", 3 * 2 ** 32, 1),
        ("assembly", 2 ** 32, 0), ("cat", 15, 0), ("cat", 8, 0), ("cat", 7, 0)]


def run_huge(s, env):
    kind, n, extra = HUGE[s.index]
    base = env.scratch()
    want = None
    if kind == "cat":
        # strings of 2^28 + 2^25 bytes; 7 of them don't reach 2^31 but still don't fit in the heap
        text = ("s = 'xxxxxxxx'; i = 0; while i < 25: { s = string.cat(s, s); i = i + 1; if i == 22: r = s; } s = string.cat(s, r); print(count(s), '\\n'); cat = string.cat; t = cat(%s); print(count(t));"
                % ", ".join(["s"] * n))
        r = cli.noja(["-H", "1900000000", "-i", text], base)
        before = b"301989888\n"
    else:
        # a program followed by NUL bytes up to a size that is small when cut to 32 bits
        text = b"print('ran\n');" if kind != "assembly" else b'PUSHSTR "ran"; PUSHVAR "print"; CALL 1, 1; POP 1; EXIT;'
        path = base + "/p.noja"
        cli.write(path, text)
        os.truncate(path, n + len(text) + extra)
        args, before = ["p.noja"], b""
        if kind == "assembly": args = ["-a", "p.noja"]
        if kind == "import":
            cli.write(base + "/main.noja", (BEGIN + "import('p.noja'); print('after');").encode())
            args, before = ["main.noja"], b"begin\n"
        r = cli.noja(args, base)
        os.unlink(path)
    if r is None: raise Inconclusive("wall clock limit")
    show = dict(kind=kind, size=n, extra=extra, output=r.out[-500:], error=r.err[:500])
    if r.rc < 0: raise Violation("a huge %s: killed by signal %d" % (kind, -r.rc), **show)
    if r.rc == 0: raise Violation("a huge %s: ends well without having done what it should" % kind, **show)
    if not r.err.strip(): raise Violation("a huge %s: fails without a message" % kind, **show)
    if r.out != before: raise Violation("a huge %s: what was printed before the failure is wrong" % kind, **show)
    env.nontrivial(kind, n, extra)
    env.sample("huge " + kind, "%d+%d: status %d %r" % (n, extra, r.rc, r.err[:200]))


PHASES = [Phase("shapes", run_shapes, 2 * len(S), 2 * len(S), enum=True), Phase("sizes", run_sizes, 1500, 40000), Phase("programs", run_programs, 8000, 200000), Phase("paths", run_paths, 2500, 40000), Phase("huge", run_huge, len(HUGE), len(HUGE), enum=True)]


def pin_print_deep(env):
    r = cli.noja(["-H", "400000000", "-i", "x = []; i = 0; while i < 400000: { x = [x]; i = i + 1; } print(x);"], env.scratch())
    return r is not None and r.rc == -11


PINS = {"print-deep": pin_print_deep}
