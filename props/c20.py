from common import *
import os, shutil, socket, cli

TITLE = "File and directory operations match the file system and leak nothing"
RULE = ("A case builds a scratch directory (files of many sizes, empty ones, subdirectories, links, unreadable entries) and runs one to three programs over it, each a generated "
        "history of opens in every mode, reads and writes through buffers and slices with every count, and directory listings; return values, buffers and afterwards the bytes on disk are "
        "compared with a model of the file system, and no descriptor may be left; non-trivial when bytes are moved or an open is refused.")
ASSUME = ["opening modes: READ reads, READ+WRITE truncates and writes, READ+APPEND and READ+WRITE+APPEND append without being able to read",
          "a file being written isn't opened a second time by the same program before it is closed", "paths contain no NUL byte"]
VARIANTS = ["asan", "cli"]
MODES = {0: "r", 1: "w", 2: "a", 3: "a"}


class Fs:
    """Model of the scratch directory: path -> bytes | 'dir' | 'none' (inaccessible)."""
    def __init__(self): self.f = {}


def setup(s, d):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            os.chmod(p, 0o777)
            shutil.rmtree(p)
        else: os.unlink(p)
    fs = Fs()
    for n in ["a.txt", "b.bin", "c"]:
        if s.chance(3, 4):
            sz = s.choice([0, 1, 5, 31, 32, 100, 255, 256, 4095, 4096, 4097, 8192, 10000]) if s.chance(1, 2) else s.int(0, 40)
            data = bytes((i * 7 + sz) % 256 for i in range(sz))
            fs.f[n] = data
            p = os.path.join(d, n)
            with open(p, "wb") as f: f.write(data)
            os.chmod(p, 0o666)
    os.mkdir(os.path.join(d, "sub"))
    os.chmod(os.path.join(d, "sub"), 0o777)
    fs.f["sub"] = "dir"
    with open(os.path.join(d, "locked"), "wb") as f: f.write(b"secret")
    os.chmod(os.path.join(d, "locked"), 0o000)
    fs.f["locked"] = "none"
    with open(os.path.join(d, "rdonly"), "wb") as f: f.write(b"read me")
    os.chmod(os.path.join(d, "rdonly"), 0o444)
    fs.f["rdonly"] = "ro"
    os.symlink("loop", os.path.join(d, "loop"))
    fs.f["loop"] = "none"
    return fs


def resolve(path, d):
    """Model path of what a program named, or None if it can't exist."""
    p = path
    if p.startswith(d + "/"): p = p[len(d) + 1:]
    if p.startswith("./"): p = p[2:]
    if p.startswith("sub/../"): p = p[7:]
    return p


def m_open(fs, d):
    def f(I, a):
        if type(a[0]) is not bytes or type(a[1]) is not int: raise R.Fail("args")
        if a[1] not in MODES: raise R.Fail("mode")
        mode = MODES[a[1]]
        p = resolve(a[0].decode(), d)
        e = fs.f.get(p)
        bad = [None, b"?"]
        if e == "none" or len(p) > 255 or p == "" or p.startswith("missing/") or p.startswith("a.txt/"): return bad
        if e == "dir" or p in (".", "..", "sub/"):
            if mode == "r": return [R.NFile(path=None, mode="r", pos=0)]
            return bad
        if e == "ro":
            if mode != "r": return bad
            return [R.NFile(path=p, mode="r", pos=0)]
        if mode == "r":
            if e is None: return bad
            return [R.NFile(path=p, mode="r", pos=0)]
        if mode == "w" or e is None: fs.f[p] = b""
        fs.writers.add(p)
        return [R.NFile(path=p, mode=mode, pos=0)]
    return f


def count_of(a):
    buf = a[1]
    if type(a[0]) is not R.NFile or type(buf) is not R.NBuf: raise R.Fail("args")
    if a[2] is None: return buf.len
    if type(a[2]) is not int or a[2] < 0: raise R.Fail("count")
    return min(a[2], buf.len)


def content(fs, p): return b"read me" if fs.f.get(p) == "ro" else fs.f.get(p, b"")


def m_read(fs):
    def f(I, a):
        n = count_of(a)
        h = a[0]
        if h.mode != "r" or h.path is None: return [0]
        data = content(fs, h.path)[h.pos:h.pos + n]
        a[1].base[a[1].off:a[1].off + len(data)] = data
        h.pos += len(data)
        return [len(data)]
    return f


def m_write(fs):
    def f(I, a):
        n = count_of(a)
        h = a[0]
        if h.mode == "r": return [0]
        fs.f[h.path] += bytes(a[1].base[a[1].off:a[1].off + n])
        return [n]
    return f


def m_opendir(fs, d):
    def f(I, a):
        if type(a[0]) is not bytes: raise R.Fail("args")
        p = resolve(a[0].decode(), d)
        if p in ("sub", ".", "..", d): return [R.NDir()]
        return []
    return f


def model(fs, d):
    fs.writers = set()
    N = R.Native
    return {"files": R.SMap("files", {"READ": 0, "WRITE": 1, "APPEND": 2, "openFile": N("openFile", 2, m_open(fs, d)), "read": N("read", 3, m_read(fs)),
                                      "write": N("write", 3, m_write(fs)), "openDir": N("openDir", 1, m_opendir(fs, d))})}


F = lambda n: Dot(Var("files"), n)


def wrongv(s): return s.choice([NoneE(), Int(3), Str("f"), Bool(True), List(), Flt("1.0"), Map()])


def history(s, fs, d, g):
    """Statements of one program.  Handles and buffers are g's."""
    st = []
    bufs = []
    handles = []
    busy = set()     # paths being written in this program
    nb = s.int(1, 3)
    for i in range(nb):
        n = s.choice([0, 1, 7, 16, 64, 300, 5000]) if s.chance(1, 2) else s.int(1, 40)
        st.append(Set("b%d" % i, Call(Dot(Var("buffer"), "new"), Int(n))))
        bufs.append(("b%d" % i, n))
        k = s.below(3)
        if k and n:
            st += [Set("i", Int(0)), While(Bin("<", Var("i"), Int(min(n, 150))), Block(ExprS(Asn([Idx(Var("b%d" % i), Var("i"))], Bin("%", Bin("+", Bin("*", Var("i"), Int(s.choice([1, 3, 13]))), Int(s.below(256))), Int(256)))), Set("i", Bin("+", Var("i"), Int(1)))))]
        if n > 1 and s.chance(1, 3):
            off = s.below(n)
            ln = s.int(0, n - off)
            st.append(Set("s%d" % i, Call(Dot(Var("buffer"), "sliceUp"), Var("b%d" % i), Int(off), Int(ln))))
            bufs.append(("s%d" % i, ln))
    for k in range(s.int(2, 14)):
        c = s.below(12)
        if c < 4 or not handles:
            p = s.choice(["a.txt", "b.bin", "c", "new1", "new2", "sub/x", "a.txt", "b.bin", "sub", "locked", "rdonly", "loop", "missing/x", "a.txt/x", "nope", ".", "", "n" * 300, "sub/../c", "\xc3\xa9".encode("latin1").decode()])
            mode = s.choice([0, 0, 1, 1, 2, 3])
            key = resolve(p, d)
            if key in busy: continue
            if mode != 0:
                if any(h[1] == key for h in handles): continue
                busy.add(key)
            h = "f%d" % len(handles)
            handles.append((h, key, mode))
            me = [F("READ"), Bin("+", F("READ"), F("WRITE")), Bin("+", F("READ"), F("APPEND")), Bin("+", F("WRITE"), F("APPEND"))][mode] if s.chance(3, 4) else Int(mode)
            pp = p
            if s.chance(1, 4) and p: pp = s.choice(["./" + p, d + "/" + p])
            st.append(ExprS(Asn([Var(h), Var("e")], Call(F("openFile"), Str(pp), me))))
            st.append(Print(Call(Var("type"), Var(h)), Str(" "), Bin("!=", Var("e"), NoneE()), Str("\n")))
            if s.chance(1, 2): st.append(If(Bin("==", Call(Var("type"), Var(h)), Var("None")), Print(Str("refused "), Call(Var("typename"), Var("e")), Str("\n"))))
        elif c < 10:
            h, key, mode = s.choice(handles)
            b, n = s.choice(bufs)
            fn = s.choice(["read", "write"]) if s.chance(1, 5) else ("read" if mode == 0 else "write")
            cnt = s.below(8)
            args = [Var(h), Var(b)]
            if cnt < 4: args.append(Int(s.int(0, max(1, n))))
            elif cnt == 4: args.append(Int(s.choice([n + 1, n * 2, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 63) - 1])))
            elif cnt == 5 and s.chance(1, 8): args.append(s.choice([Int(-1), Int(-(1 << 63) + 1), Int(-(1 << 32)), Str("1"), Flt("1.0")]))
            elif cnt == 6: args.append(NoneE())
            if s.chance(1, 60): args[s.below(2)] = wrongv(s)
            call = Call(F(fn), *args)
            st.append(If(Bin("!=", Call(Var("type"), Var(h)), Var("None")), Block(Print(Str(fn[0]), call, Str("\n"))) if s.chance(3, 4) else Block(Set("k", call), Print(Var("k"), Str(" "), Var(b) if n < 70 else Str("."), Str("\n")))))
        elif c == 10:
            w = s.below(6)
            if w == 0: st.append(ExprS(Call(F("openFile"), s.choice([wrongv(s), Str("zz")]), s.choice([wrongv(s), Int(4), Int(-1), Int(1 << 32), Int(7)]))) if s.chance(1, 4) else Print(Str("-")))
            else: st.append(Print(Call(Var("type"), Call(F("openDir"), Str(s.choice(["sub", ".", "a.txt", "nope", "locked", "loop", d])))), Str("\n")))
        else:
            st.append(Print(Var(s.choice(bufs)[0]), Str("\n")) if max(n for _, n in bufs) < 400 else Print(Call(Var("count"), Var(bufs[0][0]))))
    st.append(Return(*[Var(b) for b, _ in bufs[:6]]))
    return st


def on_disk(fs, d, text):
    for p, v in fs.f.items():
        if isinstance(v, bytes):
            try:
                with open(os.path.join(d, p), "rb") as f: got = f.read()
            except OSError as e: raise Violation("a file the program wrote is missing: %s" % p, program=text)
            if got != v: raise Violation("the file %s doesn't contain what was written" % p, program=text, expected=v, got=got)
    for r, ds, fls in os.walk(d):
        for n in fls:
            k = os.path.relpath(os.path.join(r, n), d)
            if k not in fs.f: raise Violation("the file %s shouldn't exist" % k, program=text)


def case_history(s, env):
    d = env.scratch()
    fs = setup(s, d)
    nprog = s.int(1, 3)
    ops, outs, texts = [], [], []
    real = None
    # the model's changes apply in order: programs run one after the other on the same tree
    for k in range(nprog):
        st = history(s, fs, d, None)
        p = Prog(*st)
        if max_need(p) > 14: raise Discard("needs too many pending values")
        texts.append(render(p))
        outs.append(ref_run(p, fuel=200000, extra=model(fs, d)))
        if k: ops.append((NEWRT, "", ""))
        ops.append((SRC, NAME, texts[-1]))
    text = b"\n----\n".join(texts)
    res = env.server("asan").run(ops, cwd=d, flags=runner.F_EXACT, heap=1 << 21, gc_every=s.choice([0, 0, 0, 19]))
    check_clean(res, text)
    rs = [o for o in res.ops if o.kind == SRC]
    for o, op, t in zip(outs, rs, texts):
        compare(op, o, t, vals=False)
        if o.ok:
            want = [R.exact(v).encode() for v in o.retvals]
            if want != op.exact: raise Violation("the buffers don't hold the bytes transferred", program=text, expected=want, got=op.exact)
    on_disk(fs, d, text)
    if res.fds: raise Violation("%d descriptors are left open" % res.fds, program=text)
    if res.live: raise Violation("%d allocations are left (%d bytes)" % (res.live, res.live_bytes), program=text)
    env.sample("history", text.decode(errors="replace"))
    env.count("programs", nprog)
    env.nontrivial(text)


def case_cli(s, env):
    d = env.scratch()
    fs = setup(s, d)
    p = Prog(*history(s, fs, d, None)[:-1])
    if max_need(p) > 14: raise Discard("needs too many pending values")
    text = render(p)
    o = ref_run(p, fuel=200000, extra=model(fs, d))
    r = cli.noja(["-i", text], d)
    if r is None: raise Inconclusive("wall clock limit")
    if r.out != o.out or (r.rc == 0) != o.ok or r.rc < 0: raise Violation("noja behaves differently from the file system", program=text, expected=o.out, output=r.out, status=r.rc, stderr=r.err)
    on_disk(fs, d, text)
    env.nontrivial(text)


def case_dir(s, env):
    """Listing: every entry once, any number of directories interleaved."""
    d = env.scratch()
    setup(s, d)
    dirs = {".": d, "sub": os.path.join(d, "sub")}
    for i in range(s.choice([0, 1, 2, 5, 30, 200])):
        n = s.choice(["f%d" % i, "\u00e9%d" % i, "with space %d" % i, "." + "h%d" % i, "x" * 200 + "%d" % i, "..%d" % i, "..." + "." * i, "a\nb%d" % i, "~%d" % i, "%d" % i + "y" * (255 - len(str(i))),
                      "f%d.noja~" % i, "#%d#" % i, '"%d"' % i, "\\%d" % i, "%%s%d" % i])[:255]
        p = os.path.join(dirs["sub"], n)
        k = s.below(14)
        if k < 2: os.mkdir(p)
        elif k == 2: os.mkfifo(p)
        elif k == 3: os.symlink(s.choice(["nowhere", n, ".", "../a.txt", "/dev/null"]), p)
        elif k == 4 and not os.path.exists(os.path.join(d, "sock")):
            with socket.socket(socket.AF_UNIX) as u:
                old = os.open(".", os.O_RDONLY)
                try:
                    os.chdir(d); u.bind("sock"); os.rename("sock", p)
                finally:
                    os.fchdir(old); os.close(old)
        elif k == 5: os.link(os.path.join(d, "rdonly"), p)
        elif k == 6: open(p, "w").close(); os.chmod(p, 0)
        else: open(p, "w").close()
    nd = s.int(1, 3)
    names = [s.choice([".", "sub", "sub", d, "sub/", "./sub/.."]) for _ in range(nd)]
    st = []
    st.append(Set("wb", Call(Dot(Var("buffer"), "new"), Int(3))))
    for i, n in enumerate(names): st += [Set("d%d" % i, Call(F("openDir"), Str(n))), Set("l%d" % i, List())]
    # things that fail in between: they don't end a listing
    def failing():
        k = s.below(4)
        if k == 0: return [Set("w", Call(F("openFile"), Str(s.choice(["nope", "missing/x", "loop"])), Int(0)))]
        if k == 1: return [Set("w", Call(F("openDir"), Str(s.choice(["nope", "a.txt", "loop"]))))]
        if k == 2: return [ExprS(Asn([Var("r"), Var("e")], Call(F("openFile"), Str("rdonly"), Int(0)))), If(Bin("!=", Var("r"), NoneE()), ExprS(Call(F("write"), Var("r"), Var("wb"))))]
        return []
    st += failing()
    loop = []
    for i in range(nd):
        loop += failing() if s.chance(1, 2) else []
        loop += [Set("x", Call(F("nextDirItem"), Var("d%d" % i))), If(Bin("!=", Var("x"), NoneE()), Block(ExprS(Call(Var("append"), Var("l%d" % i), Var("x"))), Set("more", Bool(True))))]
    st += [Set("more", Bool(True)), While(Var("more"), Block(Set("more", Bool(False)), *loop))]
    st += [Print(Call(Var("type"), Call(F("nextDirItem"), Var("d0")))), Return(*[Var("l%d" % i) for i in range(nd)])]
    text = render(Prog(*st))
    res = env.server("asan").run([(SRC, NAME, text)], cwd=d, flags=runner.F_EXACT, heap=1 << 21, gc_every=s.choice([0, 0, 9]))
    check_clean(res, text)
    op = res.ops[0]
    if not op.ok: raise Violation("listing a directory failed", program=text, error=op.err)
    if op.out != b"None": raise Violation("an exhausted directory gives more items", program=text, output=op.out)
    for n, got in zip(names, op.exact):
        real = os.path.normpath(os.path.join(d, n))
        want = sorted(["s" + os.fsencode(x).hex() for x in os.listdir(real) + [".", ".."]])
        g = sorted(got.decode().strip("[]").split())
        if g != want: raise Violation("the listing of %s isn't its entries" % n, program=text, expected=want, got=g)
    if res.fds: raise Violation("%d descriptors are left open" % res.fds, program=text)
    env.count("entries", sum(len(x.split()) for x in op.exact))
    env.sample("listing", text.decode(errors="replace"))
    env.nontrivial(text, len(os.listdir(dirs["sub"])))


def case_many(s, env):
    """Hundreds of opens, kept or dropped, up to the descriptor limit: none stops the program and all are closed."""
    d = env.scratch()
    fs = setup(s, d)
    open(os.path.join(d, "file"), "w").write("data")
    os.chmod(os.path.join(d, "file"), 0o666)
    keep = s.chance(1, 2)
    n = s.int(200, 400)
    what = s.choice(['files.openFile("file", 0)', 'files.openFile("file", 2)', 'files.openDir("sub")', 'files.openFile("out", 1)'])
    tail = s.choice(["", "error(\"x\");", "nothere;", "while true: {}"])
    text = ('l = []; i = 0; ok = 0; while i < %d: { f = %s; if type(f) != None: ok = ok + 1; %s i = i + 1; } print(ok > 100, " ", i); %s'
            % (n, what, "append(l, f);" if keep else "", tail)).encode()
    res = env.server("asan").run([(SRC, NAME, text)], cwd=d, heap=1 << 20, steps=100000)
    check_clean(res, text)
    op = res.ops[0]
    if op.out != b"true %d" % n: raise Violation("opening many files stopped the program or failed", program=text, output=op.out, error=op.err)
    if res.fds: raise Violation("%d descriptors are left open" % res.fds, program=text)
    if res.live: raise Violation("%d allocations are left" % res.live, program=text)
    env.nontrivial(text)


def case_bad(s, env):
    """Arguments of the wrong kind abort."""
    fn = s.choice(["openFile", "read", "write", "openDir", "nextDirItem"])
    d = env.scratch()
    setup(s, d)
    good = {"openFile": [Str("rdonly"), Int(0)], "read": [Var("f"), Var("b"), Int(1)], "write": [Var("f"), Var("b"), Int(1)], "openDir": [Str("sub")], "nextDirItem": [Var("d")]}[fn]
    i = s.below(len(good))
    if s.chance(1, 4): good[i] = s.choice([Var("f"), Var("d"), Var("b"), Int(0), Str("x")])
    else: good[i] = wrongv(s)
    # what it is replaced by may be of the right kind
    k = good[i].k
    right = {"openFile": [("str",), ("int",)], "read": [("f",), ("b",), ("int", "none")], "write": [("f",), ("b",), ("int", "none")], "openDir": [("str",)], "nextDirItem": [("d",)]}[fn][i]
    kind = good[i].v if k == "var" else k
    if kind in right and not (fn == "openFile" and kind == "int" and good[i].v > 3): raise Discard("valid")
    st = [Set("f", Call(F("openFile"), Str("rdonly"), Int(0))), Set("d", Call(F("openDir"), Str("sub"))), Set("b", Call(Dot(Var("buffer"), "new"), Int(4))), Print(Str("x")), ExprS(Call(F(fn), *good)), Print(Str("no"))]
    text = render(Prog(*st))
    res = env.server("asan").run([(SRC, NAME, text)], cwd=d)
    check_clean(res, text)
    op = res.ops[0]
    if op.ok or op.out != b"x" or not op.err.strip(): raise Violation("a wrong argument isn't refused", program=text, output=op.out)
    if res.fds: raise Violation("%d descriptors are left open" % res.fds, program=text)
    env.nontrivial(text)


def case_large(s, env):
    """Files of up to a few megabytes, moved through buffers and slices of any size."""
    d = os.path.join(env.scratch(), "large")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    os.chmod(d, 0o777)
    def size(top):
        p = 1 << s.int(4, 21)
        return max(1, min(top, s.choice([p + s.int(-2, 2), s.int(1, top), s.int(1, 5000)])))
    n = size(1 << 21)
    data = (bytes(range(256)) * (n // 256 + 1))[s.below(7):][:n]
    with open(os.path.join(d, "in"), "wb") as f: f.write(data)
    n = len(data)
    k = size(1 << 21)
    o = s.choice([0, min(k - 1, s.int(0, 70000))])
    l = s.choice([k - o, s.int(1, k - o)])
    B = lambda f, *a: Call(Dot(Var("buffer"), f), *a)
    c = s.choice([NoneE(), Int(l), Int(s.int(0, l)), Int(min(l, size(1 << 21)))])
    cv = l if c.k == "none" else c.v if c.k == "int" else 0
    st = [Set("b", B("new", Int(k))), Set("v", B("sliceUp", Var("b"), Int(o), Int(l))), Set("f", Call(F("openFile"), Str("in"), Int(0)))]
    out, pos, file = [], 0, b""
    buf = bytearray(k)
    if s.chance(1, 2): st.append(Set("g", Call(F("openFile"), Str("out"), Int(1))))
    else: st.append(Set("g", Call(F("openFile"), Str("out"), Int(2))))
    for _ in range(s.int(1, 6)):
        got = data[pos:pos + cv]
        buf[o:o + len(got)] = got
        pos += len(got)
        st.append(Print(Call(F("read"), Var("f"), Var("v"), c), Str(" ")))
        out.append(len(got))
        if s.chance(1, 3):
            j = s.choice([0, k - 1, s.int(0, k - 1), min(k - 1, o + max(0, len(got) - 1)), min(k - 1, o + len(got))])
            st.append(Print(Idx(Var("b"), Int(j)), Str(" ")))
            out.append(buf[j])
        if s.chance(2, 3):
            w = s.choice([None, s.int(0, k), k, k + 5])
            m = k if w is None else min(w, k)
            whole = s.chance(1, 2)
            if not whole: m = l if w is None else min(w, l)
            st.append(Print(Call(F("write"), Var("g"), Var("b" if whole else "v"), NoneE() if w is None else Int(w)), Str(" ")))
            out.append(m)
            file += bytes(buf[:m] if whole else buf[o:o + m])
    text = render(Prog(*st))
    res = env.server("asan").run([(SRC, NAME, text)], cwd=d, heap=1 << 20, gc_every=s.choice([0, 0, 5]))
    check_clean(res, text)
    op = res.ops[0]
    if not op.ok: raise Violation("moving the bytes of a large file failed", program=text, error=op.err)
    want = b"".join(b"%d " % x for x in out)
    if op.out != want: raise Violation("counts or bytes read from a large file differ", program=text, expected=want, output=op.out, size=n)
    with open(os.path.join(d, "out"), "rb") as f: now = f.read()
    if now != file: raise Violation("the bytes written to a large file differ", program=text, expected_size=len(file), size=len(now))
    if res.fds: raise Violation("%d descriptors are left open" % res.fds, program=text)
    env.count("large file")
    env.count("megabytes moved", (sum(out) >> 20) + 1)
    env.nontrivial(text)


REASONS = {"nope": "exist", "missing/x": "exist", "": "exist", "a.txt/x": "not a directory", "rdonly/x": "not a directory", "sub": "is a directory", ".": "is a directory",
           "loop": "link", "loop/x": "link", "n" * 256: "long", "sub/" + "n" * 300: "long", "locked": "access"}


def case_reason(s, env):
    """The message of a refused open names the reason, and no two reasons share one."""
    d = env.scratch()
    fs = setup(s, d)
    with open(os.path.join(d, "a.txt"), "w") as f: f.write("x")
    os.chmod(os.path.join(d, "a.txt"), 0o444)
    tries = []
    for _ in range(s.int(2, 10)):
        p, m = s.choice(sorted(REASONS)), s.choice([0, 1, 2, 3])
        if REASONS[p] == "exist" and m and "/" not in p and p: continue
        if p in ("sub", ".") and m == 0: continue
        tries.append((p, m, REASONS[p]))
    if s.chance(1, 2): tries.append((s.choice(["rdonly", "a.txt"]), s.int(1, 3), "access"))
    if not tries: raise Discard("nothing")
    st = [Set("l", List())]
    for p, m, _ in tries:
        st.append(ExprS(Asn([Var("f"), Var("e")], Call(F("openFile"), Str(p if s.chance(2, 3) or not p else d + "/" + p), Int(m)))))
        st.append(ExprS(Call(Var("append"), Var("l"), List(Bin("==", Var("f"), NoneE()), Var("e")))))
    text = render(Prog(*(st + [Return(Var("l"))])))
    r = cli.noja(["-i", "\n".join(["%s" % text.decode().replace("return l;", "i = 0; while i < count(l): { print(l[i][0], \" \", l[i][1], \"\\n\"); i = i + 1; }")])], d)
    if r is None: raise Inconclusive("wall clock limit")
    lines = r.out.decode(errors="replace").split("\n")[:-1]
    if r.rc != 0 or len(lines) != len(tries): raise Violation("a file that can't be opened stopped the program", program=text, output=r.out, stderr=r.err)
    seen = {}
    for (p, m, why), l in zip(tries, lines):
        ok, _, msg = l.partition(" ")
        if ok != "true" or not msg: raise Violation("opening %s in mode %d isn't refused" % (p[:40], m), program=text, output=r.out)
        if why == "access":
            if "access" not in msg.lower() and "permission" not in msg.lower() and "denied" not in msg.lower(): raise Violation("the message for %s doesn't name the reason" % p[:40], program=text, message=msg)
        elif why not in msg.lower(): raise Violation("the message for %s doesn't name the reason" % p[:40], program=text, message=msg)
        seen.setdefault(msg, set()).add(why)
    for msg, w in seen.items():
        if len(w) > 1: raise Violation("different reasons share a message", program=text, message=msg, reasons=sorted(w))
    env.count("refusals", len(tries))
    env.nontrivial(text)


PHASES = [Phase("histories", case_history, 4000, 80000), Phase("listing", case_dir, 600, 8000), Phase("many", case_many, 120, 1500), Phase("bad", case_bad, 400, 3000), Phase("cli", case_cli, 700, 8000),
          Phase("large", case_large, 500, 8000), Phase("reasons", case_reason, 500, 4000)]
