from common import *
import os, shutil, posixpath, cli

TITLE = "import runs a script relative to the importer and returns its globals"
RULE = ("A case lays out a generated tree of directories and scripts (links included) that import each other by relative ('./', '../', through links) and absolute paths, from module level, from "
        "functions called later by other scripts and from callbacks; started inline, as a file or through the command line, from any working directory, some in places whose path is up to 600 bytes long; output, traces, returned values and "
        "reported script locations are compared with the model; non-trivial when at least one import succeeds or fails in a nested script.")
ASSUME = ["a script reached through a link resolves its own imports from the directory it was named in", "an inline program resolves paths from the working directory", "each import runs the script again"]
VARIANTS = ["asan", "cli"]


class W:
    """The world: real path -> Prog | 'bad' (doesn't compile) | 'dir' | 'locked'."""
    def __init__(self): self.files, self.line = {}, {}


def b_import(w, cwd):
    def f(I, a):
        p = R.need_str(a[0]).decode()
        cur = None
        for fr in reversed(I.frames):
            if fr.src is not None:
                cur = fr.src
                break
        base = cwd if cur == NAME else os.path.dirname(cur)
        real = os.path.realpath(os.path.join(base, p))
        # the kernel walks every component: a directory that is missing on the way is an error
        raw = os.path.join(base, p)
        x = w.files.get(real) if os.path.exists(raw) else None
        if x is None or x == "locked": raise R.Fail("missing")
        if x == "bad":
            fr = R.Frame(raw, R.NMap(), None)
            I.push(fr)
            fr.line = w.line[real]
            raise R.Fail("compile")
        return I.run_module(x, raw)
    return f


def b_dir(w, loc):
    def f(I, a):
        cur = None
        for fr in reversed(I.frames):
            if fr.src is not None:
                cur = fr.src
                break
        if cur == NAME: return [None]
        return [cur.encode() if loc else os.path.dirname(cur).encode() + b"/"]
    return f


def build_world(s, d):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        os.unlink(p) if os.path.islink(p) or not os.path.isdir(p) else shutil.rmtree(p)
    d = os.path.realpath(d)
    w = W()
    if s.chance(1, 8):
        # a deep place: paths of up to some 700 bytes, well within the limit of 1024
        top = s.choice([255, 256, 300, 400, 511, 512, 520, 600])
        while len(os.fsencode(d)) + 1 < top:
            d = os.path.join(d, "y" * min(200, top - len(os.fsencode(d)) - 1))
            os.mkdir(d)
            os.chmod(d, 0o755)
    dirs = [d]
    for i in range(s.int(0, 3)):
        b = s.choice(dirs)
        n = os.path.join(b, s.choice(["lib", "sub dir", "\u00e9", "x.noja", "a", "%s%n%d"]) + str(i))
        os.mkdir(n)
        os.chmod(n, 0o755)
        dirs.append(n)
    names = []
    nf = s.int(1, 5)
    for i in range(nf):
        names.append(os.path.join(s.choice(dirs), s.choice(["m%d.noja", "m%d", "mod %d.noja", ".m%d.noja", "100%% %%s%%n %d.noja"]) % i))
    if s.chance(1, 3):
        l = os.path.join(s.choice(dirs), "lnk")
        os.symlink(s.choice(dirs), l)
        w.links = [(l, os.path.realpath(l))]
    else: w.links = []
    if s.chance(1, 3):
        t = s.choice(names)
        l = os.path.join(s.choice(dirs), "flnk")
        os.symlink(t, l)
        w.flinks = [(l, t)]
    else: w.flinks = []
    return d, w, dirs, names


def spell(s, w, base, target):
    """A way of naming target from directory base."""
    for l, t in w.flinks:
        if t == target and s.chance(1, 2): target = l
    c = s.below(6)
    rel = os.path.relpath(target, base)
    # a script may also be reached through a link: '..' may then lead elsewhere, in the model too
    if c == 0: return target
    if c == 1: return "./" + rel
    if c == 2: return "../" + os.path.relpath(target, os.path.dirname(base))
    if c == 3:
        for l, t in w.links:
            if target.startswith(t + "/"):
                q = l + target[len(t):]
                return q if s.chance(1, 2) else os.path.relpath(q, base)
    if c == 4: return rel.replace("/", "//") if not rel.startswith("/") else rel
    return rel


def module(s, w, i, names, path, cwd, inline):
    """The program of script number i: it may import those with a higher number."""
    base = cwd if inline else os.path.dirname(path)
    tag = "main" if i < 0 else "m%d" % i
    st = [Print(Str("<%s" % tag))]
    g = Gen(s, budget=6, wrong=0)
    st.append(Set("g", s.choice([Int(i + 10), Str("g" + tag), List(Int(i), Str("x"))])))
    st.append(Set("st", Map(("id", "n", Int(0)))))
    st.append(Fun("get", [], Return(Var("g"))))
    st.append(Fun("inc", [], Block(ExprS(Asn([Dot(Var("st"), "n")], Bin("+", Dot(Var("st"), "n"), Int(1)))), Return(Dot(Var("st"), "n"), Var("g")))))
    if s.chance(1, 3): st += g.stmts(s.int(1, 3))
    if s.chance(1, 4): st.append(Fun("extra", [], Return(Var("added"))))
    later = [j for j in range(len(names)) if j > i]
    def target():
        c = s.below(12)
        if later and c < 9: return spell(s, w, base, names[s.choice(later)])
        if later and c < 10: return None
        return s.choice(["%s%s%s%s%n%n%s.noja", "nothere.noja", "nodir/x.noja", ".", "../nothere", "", "/nonexistent/x", "bad.noja", "locked.noja"])
    for k in range(s.int(0 if i >= 0 else 1, 2)):
        t = target()
        if t is None: continue
        if t in ("bad.noja", "locked.noja"): t = spell(s, w, base, os.path.join(w.root, t))
        te = Str(t)
        if not t.startswith("/") and s.chance(1, 6) and not inline: te = Call(Dot(Var("string"), "cat"), Call(Var("getCurrentScriptDirectory")), Str(t))
        imp = Call(Var("import"), te)
        m = "q%d" % k
        c = s.below(6)
        if c < 3: st.append(Set(m, imp))
        elif c == 3: st.append(ExprS(Asn([Var(m), Var("r2")], imp)))
        elif c == 4:
            st.append(Fun("load%d" % k, [], Block(Print(Str("(load)")), Return(imp))))
            if s.chance(1, 2): st.append(Set(m, Call(Var("load%d" % k))))
            else: continue
        else:
            st.append(ExprS(imp))
            continue
        st.append(If(Bin("==", Call(Var("type"), Var(m)), Var("Map")), Block(*uses(s, m))))
        if s.chance(1, 3): st.append(Print(Call(Var("keysof"), Var(m)), Str("\n")))
    c = s.below(10)
    if c == 0: st.append(ExprS(Call(Var("error"), Str("fail in " + tag))))
    elif c == 1 and i >= 0: st.append(Return(Int(i), Str("second")))
    elif c == 2 and i >= 0: st.append(Return(Map(("id", "inc", Var("inc")), ("id", "get", Var("get")))))
    elif c == 3 and i >= 0: st.append(Return(Var("inc")))
    elif c == 4 and i >= 0: st.append(Return(NoneE()))
    if s.chance(1, 3): st.insert(s.int(1, len(st)), Print(Call(Var("type"), Call(Var("getCurrentScriptDirectory"))), Str(" "), Call(Var("type"), Call(Var("getCurrentScriptLocation"))), Str("\n")))
    if s.chance(1, 4): st.insert(1, Print(Call(Var("getCurrentWorkingDirectory"))))
    if st[-1].k != "return": st.append(Print(Str("%s>" % tag)))
    return Prog(*st)


def uses(s, m):
    st = []
    for _ in range(s.int(1, 4)):
        c = s.below(9)
        has = lambda n, *b: If(Call(Var("isCallable"), Dot(Var(m), n)), Block(*b))
        if c < 3: st.append(has("inc", ExprS(Asn([Var("a"), Var("b")], Call(Dot(Var(m), "inc")))), Print(Var("a"), Var("b"), Str("\n"))))
        elif c == 3: st.append(has("get", Print(MCall(Var(m), "get"))))
        elif c == 4: st.append(ExprS(Asn([Dot(Var(m), "g")], Str("changed"))))
        elif c == 5: st.append(has("extra", ExprS(Asn([Dot(Var(m), "added")], Int(77))), Print(Call(Dot(Var(m), "extra")))))
        elif c == 6: st.append(has("load0", Set("z", Call(Dot(Var(m), "load0"))), Print(Call(Var("type"), Var("z")))))
        elif c == 7: st.append(Print(Call(Var("count"), Var(m)), Dot(Var(m), "g"), Str(" ")))
        else: st.append(Print(Dot(Dot(Var(m), "st"), "n"), Var("g")))
    return st


def make(s, env):
    d, w, dirs, names = build_world(s, env.scratch())
    w.root = d
    cwd = s.choice(dirs)
    inline = s.chance(1, 3)
    main = os.path.join(s.choice(dirs), "main.noja")
    progs = {}
    for i in range(len(names) - 1, -1, -1): progs[names[i]] = module(s, w, i, names, names[i], cwd, False)
    mp = module(s, w, -1, names, main, cwd, inline)
    sep = None
    if s.chance(1, 2):
        def sep(i, a, t): return b"\n" if i and s.chance(1, 12) else None
    texts = {}
    for p, x in progs.items():
        if max_need(x) > 14: raise Discard("needs too many pending values")
        texts[p] = render(x, sep=sep)
        w.files[p] = x
    if max_need(mp) > 14: raise Discard("needs too many pending values")
    texts[main] = render(mp, sep=sep)
    bad = os.path.join(d, "bad.noja")
    texts[bad] = b"print(\"never\");\n\nx = ;\n"
    w.files[bad] = "bad"
    w.line[bad] = 3
    locked = os.path.join(d, "locked.noja")
    texts[locked] = b"print(1);"
    w.files[locked] = "locked"
    for p, t in texts.items():
        with open(p, "wb") as f: f.write(t)
        os.chmod(p, 0o644)
    os.chmod(locked, 0)
    if inline: os.unlink(main)
    N = R.Native
    extra = {"import": N("import", 1, b_import(w, cwd)), "getCurrentScriptDirectory": N("d", 0, b_dir(w, False)), "getCurrentScriptLocation": N("l", 0, b_dir(w, True)),
             "getCurrentWorkingDirectory": N("w", 0, lambda I, a: [os.path.realpath(cwd).encode()])}
    o = R_run(mp, NAME if inline else main, extra)
    text = b"".join(b"### %s\n%s\n" % (os.fsencode(os.path.relpath(p, d)), t) for p, t in sorted(texts.items()))
    text = b"### cwd %s, main %s\n" % (os.fsencode(os.path.relpath(cwd, d)), b"inline" if inline else os.fsencode(os.path.relpath(main, d))) + text
    return d, w, cwd, inline, main, texts[main], o, text


def R_run(p, name, extra): return ref_run(p, fuel=60000, name=name, extra=extra)


def real_trace(t, cwd): return [(n if n == NAME else os.path.realpath(os.path.join(cwd, n)), l) for n, l in t]


def case_tree(s, env):
    d, w, cwd, inline, main, mtext, o, text = make(s, env)
    if inline: ops = [(SRC, NAME, mtext)]
    else: ops = [(FILE, s.choice([main, os.path.relpath(main, cwd), "./" + os.path.relpath(main, cwd)]), "")]
    res = env.server("asan").run(ops, cwd=cwd, heap=1 << 21, gc_every=s.choice([0, 0, 0, 7]))
    check_clean(res, text)
    op = res.ops[0]
    compare(op, o, text, trace=False)
    if not o.ok:
        got = real_trace(parse_trace(op.trace or b""), cwd)
        if got != real_trace(o.trace, cwd): raise Violation("the stack trace doesn't name the failing scripts and lines", program=text, expected=o.trace, got=got)
    if res.fds or res.live: raise Violation("%d descriptors and %d allocations are left" % (res.fds, res.live), program=text)
    finish(env, o, text)


def finish(env, o, text):
    env.count("ends well" if o.ok else "aborts")
    env.count("scripts run: %d" % min(9, o.out.count(b"<m")))
    env.sample("tree", text.decode(errors="replace"))
    if b"<m" in o.out.replace(b"<main", b""): env.nontrivial(text)


def case_cli(s, env):
    d, w, cwd, inline, main, mtext, o, text = make(s, env)
    args = ["-i", mtext] if inline else [s.choice([main, os.path.relpath(main, cwd)])]
    r = cli.noja(args, cwd)
    if r is None: raise Inconclusive("wall clock limit")
    def bad(m): raise Violation(m, program=text, expected=o.out, output=r.out, status=r.rc, stderr=r.err, trace=o.trace)
    if norm(r.out) != norm(o.out) or (r.rc == 0) != o.ok or r.rc < 0: bad("noja runs the scripts differently")
    if not o.ok:
        i = r.err.find(b"Stack trace")
        if i < 0 or real_trace(parse_trace(r.err[i:]), cwd) != real_trace(o.trace, cwd): bad("the stack trace doesn't name the failing scripts and lines")
    finish(env, o, text)


PHASES = [Phase("trees", case_tree, 8000, 100000), Phase("cli", case_cli, 800, 10000)]
