from common import *
import os, subprocess

TITLE = "The utility modules keep the contracts of their headers"
RULE = ("A case is a script of operations on the modules of src/lib/utils - the UTF-8 functions (every code point, every sequence of two bytes, generated strings with every kind of mistake, at every "
        "index), the arena (three ways to make one, sizes around the chunk's, requests that fail), the bucket list, promises, the label list, the stack, errors, sources and paths - run by a harness "
        "that gives them memory of exact sizes under the address and undefined behaviour sanitizers; every result is compared with a model written in Python. Non-trivial when the script has five or more operations.")
ASSUME = ["the preconditions that the modules assert are respected: no negative sizes, indices within the string, a promise resolved once with its own size, a label set once",
          "what a bucket list holds after a failed allocation isn't compared", "utf8_prev at index 0 is only required to return 0"]
TECHNIQUE = "property-based testing: generated scripts of operations on the library's modules (and every code point, exhaustively) against reference models, under sanitizers, with shrinking"
VARIANTS = ["util"]


def harness(script, d, variant="util"):
    e = dict(os.environ)
    e.update(runner.ASAN_ENV)
    e["LC_ALL"] = "C"
    text = "\n".join(script).encode() + b"\n"
    try: r = subprocess.run([build.build(variant)] if variant not in EXE else [EXE[variant]], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=e, timeout=120)
    except subprocess.TimeoutExpired: raise Violation("an operation doesn't end", script=script[:400])
    EXE[variant] = r.args[0]
    return r


EXE = {}


def check(ops, env, what):
    """ops: (operation, expected line or a function telling whether a line is right, or None)."""
    ops = ops + [("", "left 0")]      # at the end, no memory is left
    r = harness([o for o, _ in ops], env.scratch())
    got = r.stdout.decode("latin-1").split("\n")[:-1]
    for k, (o, want) in enumerate(ops):
        g = got[k] if k < len(got) else None
        if g is None: break
        if want is None and "!" not in g: continue
        ok = want(g) if callable(want) else g.strip() == str(want)
        if not ok: raise Violation("an operation doesn't do what its header says", operation=o, expected=None if callable(want) else want, got=g, script=[x for x, _ in ops[max(0, k - 60):k + 1]])
    if r.returncode != 0: raise Violation("an operation crashed or touched memory it must not", status=r.returncode, script=[x for x, _ in ops[:len(got) + 1]][-80:], report=r.stderr[-3000:])
    if len(got) != len(ops): raise Violation("operations are missing", script=[x for x, _ in ops])
    env.count("operations: " + what, len(ops))
    if len(ops) >= 5: env.nontrivial(what, *[o for o, _ in ops])
    env.sample(what, "\n".join("%s => %s" % (o[:200], g[:200]) for (o, _), g in list(zip(ops, got))[:40]))


# ---- UTF-8
def dec(b):
    """(length, code point) of the sequence b starts with, or None."""
    if not b: return None
    c = b[0]
    n = 1 if c < 0x80 else 2 if 0xc2 <= c < 0xe0 else 3 if 0xe0 <= c < 0xf0 else 4 if 0xf0 <= c < 0xf5 else 0
    if n == 0 or len(b) < n: return None
    try: return n, ord(b[:n].decode("utf-8"))
    except UnicodeDecodeError: return None


def enc(c):
    if c > 0x10ffff or 0xd800 <= c <= 0xdfff: return None
    return chr(c).encode("utf-8")


def op_enc(c, n):
    e = enc(c)
    if e is None or len(e) > n: return "enc %d %d" % (n, c), "-1 " + hx(b"\xaa" * n)
    return "enc %d %d" % (n, c), "%d %s" % (len(e), hx(e + b"\xaa" * (n - len(e))))


def op_dec(b):
    d = dec(b)
    return "dec " + hx(b), "-1" if d is None else "%d %d" % d


def strlen(b):
    i = n = 0
    while i < len(b):
        d = dec(b[i:])
        if d is None: return -1
        i, n = i + d[0], n + 1
    return n


def op_prev(b, i):
    o = "prev %s %d" % (hx(b), i)
    if i == 0: return o, "0"
    h = i - 1
    while h >= 0 and b[h] & 0xc0 == 0x80: h -= 1
    d = dec(b[h:i]) if h >= 0 else None
    return o, "-1" if d is None or d[0] != i - h else "%d %d" % (h, d[1])


def op_next(b, i):
    d = dec(b[i:])
    e = dec(b[i + d[0]:]) if d else None
    return "next %s %d" % (hx(b), i), "-1" if e is None else "%d %d" % (i + d[0], e[1])


def op_curr(b, i):
    d = dec(b[i:])
    return "curr %s %d" % (hx(b), i), "-1" if d is None else "0 %d" % d[1]


def hx(b): return b.hex() or "-"


def utf8_points(s, env):
    """Every code point, and what follows the last."""
    ops = []
    for c in range(s.index * 8192, s.index * 8192 + 8192):
        ops.append(op_enc(c, 4))
        if c % 16 == 0 or c < 0x900 or c & 0xfff in (0, 0xfff): ops += [op_enc(c, n) for n in (0, 1, 2, 3, 6)]
        e = enc(c)
        if e is None and c < 0x10000: e = bytes([0xe0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63])
        if e is None: e = bytes([(0xf0 | c >> 18) & 0xff, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63])
        ops.append(op_dec(e))
        if c % 64 == 7: ops += [op_dec(e[:k]) for k in range(len(e))] + [op_dec(e + b"\xbf")]
    check(ops, env, "code points")


def utf8_pairs(s, env):
    """Every sequence of two bytes, alone and in front of others."""
    ops = []
    for a in range(s.index * 8, s.index * 8 + 8):
        for b in range(256):
            ops.append(op_dec(bytes([a, b])))
            for rest in (b"\x80", b"\xbf\x80", b"\x80A"): ops.append(op_dec(bytes([a, b]) + rest))
    check(ops, env, "pairs")


PIECES = [b"A", b"z", b"\x00", b"\x7f", b"\xc3\xa9", b"\xc2\x80", b"\xdf\xbf", b"\xe2\x82\xac", b"\xe0\xa0\x80", b"\xef\xbf\xbf", b"\xed\x9f\xbf", b"\xee\x80\x80", b"\xf0\x9f\x98\x80", b"\xf0\x90\x80\x80", b"\xf4\x8f\xbf\xbf"]
WRONG = [b"\x80", b"\xbf\xbf", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xff", b"\xfe"]


def utf8_strings(s, env):
    ops = []
    for _ in range(s.int(1, 4)):
        n = s.weighted([(6, s.int(0, 8)), (1, s.int(9, 60))])
        b = b"".join(s.weighted([(8, s.choice(PIECES)), (2, enc(s.below(0xd800))), (1, s.choice(WRONG)), (1, s.bytes(2))]) for _ in range(n))
        if s.chance(1, 3): b = b"".join(x for x in [s.choice(PIECES) for _ in range(n)])
        if s.chance(1, 6) and b: b = b[:-1]
        ops.append(("len " + hx(b), strlen(b)))
        ops.append(op_dec(b))
        for i in range(len(b) + 1):
            ops.append(op_prev(b, i))
            if i < len(b): ops += [op_next(b, i), op_curr(b, i)]
    if s.chance(1, 10):
        n = s.int(1000, 20000)
        b = s.choice(PIECES) * n + s.choice([b"", b"", b"\xc3"])
        ops += [("len " + hx(b), strlen(b)), op_prev(b, len(b))]
    check(ops, env, "strings")


# ---- arena and what is made in it
def arena(s):
    """(operation, may fail)"""
    fail = s.int(0, 6) if s.chance(1, 5) else -1
    k = s.choice("ffxd")
    chunk = s.choice([-1, 0, 1, 7, 8, 64, 100, s.int(0, 300), 5000])
    first = s.choice([-1, 0, 1, 8, 50, 4096, s.int(0, 300)])
    size = s.choice([0, 8, 60, 64, 72, 80, 88, 96, 104, 200, 1000, s.int(0, 600)])
    if k == "d": fail = -1
    def want(g):
        if "!" in g: return False
        if g == "ok 0": return not (k == "f" and fail == 0)
        return (g == "null 1" and k == "f" and fail == 0) or (g == "null 0" and k == "x" and size < 160)
    return ("A %s %d %d %d %d" % (k, first, chunk, size, fail), want), fail >= 0, k, size, fail


def run_arena(s, env):
    """Blocks of any size: aligned, apart from each other, as large as asked for; all of the memory is given back."""
    ops = []
    for _ in range(s.int(1, 3)):
        a, mayfail, k, size, fail = arena(s)
        if k == "x" and size < 160 or k == "f" and fail == 0:
            if k == "f": ops.append(a); continue
            w = a[0].split()
            w[4] = str(size + 160)
            a = (" ".join(w), "ok 0")
        ops.append(a)
        for _ in range(s.int(1, 14)):
            n = s.weighted([(4, s.int(0, 70)), (2, s.int(0, 5000)), (1, s.choice([4080, 4088, 4089, 4096, 4097, 8192, 100000]))])
            times = s.int(1, 60) if s.chance(1, 6) else 1
            ops.append(("mm %d %d" % (times, n), (lambda g, t=times, mf=mayfail: "!" not in g and (g == "%d 0" % t or mf and g.split()[1] == "1"))))
        ops.append(("f", "0 0"))
        if s.chance(1, 3):
            n = s.int(0, 140)
            ops.append(("Ax %d %d" % (n, s.int(0, 80)), lambda g, n=n: g == "null 0" and n < 160 or g == "ok 0" and n > 16))
    check(ops, env, "arena")


def data(s):
    n = s.weighted([(6, s.int(0, 20)), (2, s.int(0, 300)), (1, s.choice([4095, 4096, 4097, 4000, 8192, 8193, 10000]))])
    if s.chance(1, 5): return "z%d" % n, bytes(n)
    a = s.below(256)
    b = bytes((a + 7 * i) & 255 for i in range(n))
    return hx(b), b


def run_bucket(s, env):
    """What was appended is there, in order, whatever the sizes; parts that were handed out can still be written."""
    ops = [("A d -1 %d 0 -1" % s.choice([-1, 0, 8, 100, 5000]), "ok 0")]
    for _ in range(s.int(1, 2)):
        ops.append(("B", "ok 0 1"))
        m, cells = bytearray(), []
        for _ in range(s.int(1, 25)):
            c = s.below(9)
            if c < 6:
                h, b = data(s)
                times = s.int(1, 40) if s.chance(1, 5) and len(b) < 400 else 1
                two = s.chance(1, 2)
                for _ in range(times):
                    if two and len(cells) < 4000: cells.append((len(m), len(b)))
                    m += b
                ops.append(("%s %s %d" % ("b2" if two else "ba", h, times), "%d %d" % (times, len(m))))
            elif c == 6 and cells:
                i = s.below(len(cells))
                at, n = cells[i]
                if n:
                    o, v = s.below(n), s.below(256)
                    ops.append(("bp %d %d %d" % (i, o, v), "ok"))
                    m[at + o] = v
            else:
                n = s.choice([-1, len(m), s.int(0, len(m))])
                ops.append(("bc %d" % n, hx(bytes(m if n < 0 else m[:n]))))
        ops.append(("bc -1", hx(bytes(m))))
    ops.append(("f", "0 0"))
    check(ops, env, "bucket list")


def run_promise(s, env):
    ops = [("A d -1 %d 0 -1" % s.choice([-1, 0, 8, 100]), "ok 0")]
    for _ in range(s.int(1, 3)):
        n = s.choice([8, 8, 4, 1, 0, s.int(1, 100)])
        ops.append(("P %d" % n, "ok"))
        val, ds = None, []
        v = s.bytes(n)
        when = s.int(0, 9)
        for k in range(s.int(1, 12)):
            if k == when:
                ops.append(("pr " + hx(v), "ok"))
                val = v
            elif s.chance(1, 4): pass
            else:
                cb = s.below(2)
                ds.append(cb)
                ops.append(("ps %d" % cb, "1"))
            if s.chance(1, 3) or k == when:
                ops.append(("pd", " ".join(["%d %d" % (val is not None, n)] + ["%s:%d" % (hx(val if val is not None else b"\xee" * n), cb if val is not None else 0) for cb in ds])))
        ops.append(("pf", "ok"))
    # names of any bytes, some of them the beginning of others
    ops.append(("L", "ok"))
    names = [s.choice([b"a", b"ab", b"abc", b"b", b"", b"loop", b"loop1", b"Loop", b"x" * 300, b"_", s.bytes(2).replace(b"\0", b"q")]) for _ in range(s.int(1, 6))]
    if s.chance(1, 2):
        # alike but for one byte, at any place
        a = bytes(97 + (i * i) % 26 for i in range(s.choice([1, 2, 8, 16, 17, 32, 33, 64, 65, s.int(1, 300)])))
        names = [a, b"_" + a, a + b"_"]
        for _ in range(s.int(1, 4)):
            i = s.below(len(a))
            names.append(a[:i] + s.choice([b"0", b"A", b"", b"\xff"]) + a[i + 1:])
    vals, ids = {}, {}
    known = set()
    for _ in range(s.int(2, 20)):
        nm = s.choice(names)
        if s.chance(1, 3) and nm not in vals:
            vals[nm] = s.choice([0, 1, -1, (1 << 63) - 1, -1 << 63, s.int(0, 1000)])
            known.add(nm)
            ops.append(("ls %s %d" % (hx(nm), vals[nm]), "1"))
        elif s.chance(1, 4): ops.append(("lu", len(known - set(vals))))
        else:
            known.add(nm)
            i = ids.setdefault(nm, len(ids))
            ops.append(("lg " + hx(nm), "%d %d 8 %d" % (i, nm in vals, vals.get(nm, -77))))
    ops += [("lu", len(known - set(vals))), ("lf", "ok"), ("f", "0 0")]
    check(ops, env, "promises and labels")


def run_stack(s, env):
    n = s.choice([0, 1, 2, 5, 16, -1, s.int(0, 40)])
    cap = 1024 if n < 0 else n
    ops, m, refs = [("S %d" % n, "ok")], [], 1
    for _ in range(s.int(1, 60)):
        c = s.below(10)
        if c < 4:
            for _ in range(s.int(1, 600) if n < 0 and s.chance(1, 8) else 1):
                v = s.int(1, 1000)
                ops.append(("su %d" % v, int(len(m) < cap)))
                if len(m) < cap: m.append(v)
        elif c == 4:
            k = s.choice([0, 1, 1, 2, len(m), len(m) + 1, s.int(0, 50)])
            ops.append(("so %d" % k, int(k <= len(m))))
            if 0 < k <= len(m): del m[-k:]
        elif c < 7:
            k = s.choice([0, -1, -2, 1 - len(m), -len(m), -len(m) - 1, -s.int(0, 50)])
            k = min(k, 0)
            ok = -k < len(m)
            if s.chance(1, 2): ops.append(("st %d" % k, m[k - 1] if ok else 0))
            else:
                v = s.int(1, 1000)
                ops.append(("sr %d %d" % (k, v), m[k - 1] if ok else "null"))
                if ok: m[k - 1] = v
        elif c == 7:
            ops.append(("sc", 1))
            refs += 1
        elif c == 8 and refs > 1:
            ops.append(("sf", "ok"))
            refs -= 1
        else: ops.append(("sz", "%d %d" % (len(m), cap)))
    ops += [("sf", "ok")] * refs
    check(ops, env, "stack")


KINDS = ["Error", "Syntax_Error", "Semantic_Error", "Runtime_Error", "Internal_Error"]


def run_error(s, env):
    """Messages of any length are reported whole and printed with their kind."""
    ops = []
    for _ in range(s.int(3, 12)):
        n = s.weighted([(2, s.int(0, 20)), (4, s.int(495, 515)), (1, s.choice([100, 600, 1023, 1024, 5000, 70000]))])
        cb, k = s.below(2), s.below(5)
        ops.append(("err %d %d %d" % (n, cb, k), "1 1 1 1 0 %d 1 %s 0 1" % (cb, " ".join(KINDS[k or d] for d in range(5)))))
    for _ in range(s.int(0, 5)):
        b = s.bytes(s.int(0, 40))
        ops.append(("hash " + hx(b), lambda g: "!" not in g))
        ops.append(("hash " + hx(b), lambda g: "!" not in g))
    check(ops, env, "errors")
    hs = {}
    got = harness([o for o, _ in ops if o.startswith("hash")], env.scratch()).stdout.split(b"\n")
    for o, g in zip([o for o, _ in ops if o.startswith("hash")], got):
        if hs.setdefault(o, g) != g: raise Violation("the same bytes have two hashes", operation=o, got=(g, hs[o]))


def run_source(s, env):
    d = env.scratch()
    sub = os.path.join(d, s.choice(["a", "deep/er", "with space"]))
    os.makedirs(sub, exist_ok=True)
    cwd = s.choice([d, sub, "/"])
    ops = [("cd " + hx(cwd.encode()), "0")]
    for _ in range(s.int(1, 8)):
        c = s.below(4)
        if c == 0:
            path = s.choice([b"x.noja", b"a/b.noja", b"../x", b"/abs/x", b"/", b".", b"", b"p" * s.int(1, 200), b"\xc3\xa9 b"])
            full = path if path[:1] == b"/" else (b"" if cwd == "/" else cwd.encode()) + b"/" + path
            need = len(full) + 1
            k = s.weighted([(3, s.int(max(0, need - 4), need + 4)), (1, s.int(1, 1100)), (1, len(cwd)), (1, len(cwd) + 1), (1, len(cwd) + 2)])
            ok = path[:1] == b"/" or k >= need
            ops.append(("pm %s %d" % (hx(path), k), "%d %s" % (path[:1] == b"/", hx(full) if ok else "null")))
            continue
        body = s.choice([b"", b"x = 1;\n", s.bytes(s.int(0, 50)), b"q" * s.choice([4095, 4096, 4097, 70000])])
        if c == 1:
            name = s.choice([None, b"name", b"", b"n" * s.int(1, 300), b"/looks/like/a/file"])
            z = s.below(2)
            if z: body = body.replace(b"\0", b"0")
            ops.append(("T %s %s %d" % ("." if name is None else hx(name), hx(body), z), "ok 0 0"))
            info = "%s . %d %s 0" % ("." if name is None else hx(name) if name else "-", len(body), hx(body))
        else:
            f = os.path.join(s.choice([d, sub]), "f%d" % s.below(3))
            if s.chance(1, 4):
                miss = s.choice([f + ".missing", "", d, sub + "/no/way", "m" * 1100])
                ops.append(("F " + hx(miss.encode()), "null 1 1"))
                continue
            if any(o == "F " + hx(f.encode()) for o, _ in ops): continue
            if os.path.exists(f) and any(f.encode().hex() in o or os.path.relpath(f, cwd).encode().hex() in o for o, _ in ops): continue
            with open(f, "wb") as fp: fp.write(body)
            name = f if s.chance(1, 2) else os.path.relpath(f, cwd)
            full = name if name[0] == "/" else ("" if cwd == "/" else cwd) + "/" + name
            ops.append(("F " + hx(name.encode()), "ok 0 0"))
            info = "%s %s %d %s 0" % (hx(full.encode()), hx(full.encode()), len(body), hx(body))
        refs = 1
        ops.append(("si", info))
        for _ in range(s.int(0, 4)):
            if s.chance(1, 2) or refs == 1: ops.append(("s+", "1")); refs += 1
            else: ops.append(("s-", "ok")); refs -= 1
            ops.append(("si", info))
        ops += [("s-", "ok")] * refs
    check(ops, env, "sources and paths")


PHASES = [Phase("points", utf8_points, 137, 137, enum=True), Phase("pairs", utf8_pairs, 32, 32, enum=True), Phase("strings", utf8_strings, 1200, 30000), Phase("arena", run_arena, 600, 15000),
          Phase("bucket", run_bucket, 600, 15000), Phase("promise", run_promise, 600, 15000), Phase("stack", run_stack, 500, 12000), Phase("error", run_error, 300, 6000),
          Phase("source", run_source, 600, 12000)]
