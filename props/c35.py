from common import *
import os, cli
import asmtext as A, aparse, nparse
import c26, c34

TITLE = "The command line does what its options say"
RULE = ("A case is a command line: documented options in their short or long spelling, in any order and number, then an input - a generated program or assembly listing (good, failing or not even "
        "well formed), given inline or as a file, a missing, empty, unreadable or unsuitable file, or none - and its output, exit status, messages and files must be the ones the chosen options "
        "call for, with the reference models telling what a program prints. Non-trivial when two or more options were given or the command had to be refused.")
ASSUME = ["--diagram-ast with -a, -h with other modes, -p with a diagram, -o without -p or a diagram, -o or -H given twice and arguments after the input are left out"]
TECHNIQUE = "property-based testing: generated command lines run against the real binary, compared with the reference models and the documented meaning of the options, with shrinking"
VARIANTS = ["cli"]
V = Var
SP = {"inline": [b"-i", b"--inline"], "assembly": [b"-a", b"--assembly"], "profile": [b"-p", b"--profile"], "output": [b"-o", b"--output"], "heap": [b"-H", b"--heap"],
      "diagram": [b"--diagram-ast"], "help": [b"-h", b"--help"]}
DOCUMENTED = [b"-h", b"--help", b"-i", b"--inline", b"-a", b"--assembly", b"-p", b"--profile", b"-o", b"--output", b"-H", b"--heap", b"--diagram-ast"]
BROKEN = [b"print('never'); x = ;", b"print('never') print('x');", b"fun f( { }", b"x = 'open", b"print('never'); }", b"x = @;", b"break;", b"1 = 2;", b"print('never'); x = [1, ;"]
BADASM = [b"PUSHINT 1; POP 1; FOO; EXIT;", b"PUSHSTR 1; EXIT;", b"a: a: EXIT;", b"JUMP nowhere;", b"EXIT EXIT;", b"PUSHINT;", b"print('noja code');"]


def opt(s, k): return s.choice(SP[k])


def scratch(env):
    d = env.scratch()
    os.chmod(d, 0o777)
    return d


def run(args, d, stdin=b""):
    r = cli.noja(args, d, stdin=stdin)
    if r is None: raise Inconclusive("wall clock limit")
    return r


def shown(args, **k): return dict(command=b" ".join(a if a and not set(a) & set(b" \n\t'\"\\;$") else b"'" + a + b"'" for a in args), **k)


def bad(m, args, r, **k): raise Violation(m, **shown(args, status=r.rc, output=r.out, error=r.err, **k))


def refused(args, r, what, use=True):
    """The command does nothing but say why."""
    if r.rc == 0: bad("%s is accepted" % what, args, r)
    if r.rc < 0 or r.rc > 255: bad("%s ends in a crash" % what, args, r)
    if r.out: bad("%s prints something on the standard output" % what, args, r)
    if not r.err.strip(): bad("%s isn't reported" % what, args, r)
    if use and b"usage" not in r.err.lower(): bad("%s: the message doesn't show how to use the command" % what, args, r)


# ---- inputs
class In:
    """A program: text, how it must go."""
    def __init__(self, text, kind, out=b"", ok=True, trace=None, err=None, profile=None):
        self.text, self.kind, self.out, self.ok, self.trace, self.err, self.profile = text, kind, out, ok, trace, err, profile


def noja_input(s, name):
    c = s.below(8)
    if c == 0: return In(s.choice(BROKEN), "not well formed", ok=False, trace=[(name, 1)])
    if c == 1: return In(s.choice([b"", b" ", b"\n", b"# nothing\n", b"\n\n# a\n#b"]), "empty", profile=[])
    p = c26.calls(s) if c < 4 else Gen(s, budget=30, wrong=s.choice([60, 20])).program(s.int(1, 7))
    if max_need(p) > 14: raise Discard("needs too many pending values")
    text = render(p)
    I, o = c26.model(p)
    if "call-limit" in o.classes: raise Discard("call limit")
    t = [(name if n == NAME else n, l) for n, l in (o.trace or [])]
    return In(text, "runs" if o.ok else "aborts", o.out, o.ok, trace=t if not o.ok else None, profile=sorted((f, n) for f, _, n in c26.model_profile(I)))


def asm_input(s, name):
    c = s.below(8)
    if c == 0: return In(s.choice(BADASM), "not well formed", ok=False, trace=[(name, 1)])
    ins = c34.listing(s, s.chance(1, 4))
    text = A.emit(ins, A.RandomStyle(s))
    m, o = c34.model(ins, text)
    return In(text, "runs" if o.ok else "aborts", o.out, o.ok)


def options(s, d, want):
    """Arguments for the wanted flags, in any order, some repeated."""
    gs = []
    for k, v in want:
        if v is None:
            for _ in range(2 if s.chance(1, 6) else 1): gs.append([opt(s, k)])
        else: gs.append([opt(s, k), v])
    out = []
    for g in s.perm(gs): out += g
    return out


def path_for(s, d, text, n=b"p"):
    """A file with the text, and the way to name it."""
    f = os.path.join(d.encode(), n + s.choice([b".noja", b".asm", b"", b".txt", b" x.noja"]))
    sub = s.below(4)
    if sub == 3:
        os.makedirs(os.path.join(d, "sub"), exist_ok=True)
        os.chmod(os.path.join(d, "sub"), 0o777)
        f = os.path.join(d.encode(), b"sub", os.path.basename(f))
    if os.path.exists(f): os.unlink(f)
    cli.write(f, text)
    if sub == 0: return f
    rel = os.path.relpath(f, d.encode())
    return rel if sub != 1 else b"./" + rel


def run_modes(s, env):
    """A program or listing, with the options in any order."""
    d = scratch(env)
    asm = s.chance(1, 3)
    inline = s.chance(1, 2)
    prof = s.chance(1, 3)
    of = prof and s.chance(1, 2)
    heap = s.chance(1, 3)
    where = None
    inp = (asm_input if asm else noja_input)(s, "(unnamed)")
    if b"\0" in inp.text and inline: inline = False
    if inline and inp.text[:1] == b"-": raise Discard("an option")
    if inline: arg = inp.text
    else: arg = where = path_for(s, d, inp.text)
    want = [(k, None) for k, on in (("inline", inline), ("assembly", asm), ("profile", prof)) if on]
    if of:
        name = s.choice([b"out.txt", b"profile", os.path.join(d.encode(), b"o")])
        full = os.path.join(d.encode(), name)
        if os.path.exists(full): os.unlink(full)
        if s.chance(1, 3):
            cli.write(full, b"what was here before\n" * 300); os.chmod(full, 0o666)
        want.append(("output", name))
    if heap: want.append(("heap", s.choice([b"1048576", b"4000000", b"20000000", b"2000000", b"100000000"])))
    args = options(s, d, want) + [arg]
    r = run(args, d)
    out = r.out
    if r.rc < 0: bad("the command crashes", args, r)
    if inp.ok != (r.rc == 0): bad("the exit status doesn't tell whether the program ran to its end", args, r, program=inp.text)
    rest = b""
    if not norm(out).startswith(norm(inp.out)): bad("the program prints something else", args, r, expected=inp.out, program=inp.text)
    if inp.ok:
        if prof and not of:
            # the program's output, then the profile
            k = len(out) - len(norm(out))
            if norm(out) != out or norm(inp.out) != inp.out: rest = None          # addresses: lengths can't be told apart
            else: rest = out[len(inp.out):]
        elif norm(out) != norm(inp.out): bad("the command prints more than the program", args, r, expected=inp.out, program=inp.text)
        if r.err.strip(): bad("messages about a program that ran to its end", args, r, program=inp.text)
        if of:
            if not os.path.exists(full): bad("the output file isn't written", args, r, program=inp.text)
            rest = open(full, "rb").read()
            os.unlink(full)
        if prof and rest is not None:
            got = sorted((f, n) for f, _, n in c26.parse_profile(rest))
            if inp.profile is not None and got != inp.profile: bad("the profile isn't the program's", args, r, expected=inp.profile, got=got, profile=rest, program=inp.text)
    else:
        if norm(out) != norm(inp.out): bad("the program prints something else", args, r, expected=inp.out, program=inp.text)
        if not r.err.strip(): bad("the failure isn't reported", args, r, program=inp.text)
        if inp.trace:
            i = r.err.find(b"Stack trace")
            got = {n for n, _ in parse_trace(r.err[i:])} if i >= 0 else set()
            mine = "(unnamed)" if inline else os.path.realpath(os.path.join(d.encode(), where)).decode()
            got = {n if inline else os.path.realpath(os.path.join(d, n)) for n in got}
            exp = {mine if n == "(unnamed)" else n for n, _ in inp.trace}
            if exp <= {mine} and got != exp: bad("the trace names something else than the input", args, r, expected=sorted(exp), got=sorted(got), program=inp.text)
    n = sum(len(x) > 0 for x in want)
    if n > 1: env.nontrivial(*args)
    env.count(("assembly " if asm else "program ") + inp.kind)
    if prof: env.count("profile in a file" if of else "profile")
    if heap: env.count("heap size")
    env.sample("inline" if inline else "file", shown(args)["command"].decode(errors="replace"))


def run_diagram(s, env):
    """--diagram-ast with or without -o, inline or not: the same picture; the program doesn't run."""
    d = scratch(env)
    inp = noja_input(s, "(unnamed)")
    text = b"print('ran');\n" + inp.text
    if b"\0" in text: raise Discard("NUL")
    inline = s.chance(1, 2)
    of = s.chance(1, 2)
    base = run([b"--diagram-ast", b"-i", text], d)
    arg = text if inline else path_for(s, d, text)
    want = [("diagram", None)] + ([("inline", None)] if inline else [])
    if s.chance(1, 4): want.append(("heap", b"2000000"))
    if of:
        full = os.path.join(d.encode(), b"g.dot")
        if os.path.exists(full): os.unlink(full)
        if s.chance(1, 3): cli.write(full, b"digraph old {}\n" * 400); os.chmod(full, 0o666)
        want.append(("output", s.choice([b"g.dot", full, b"./g.dot"])))
    args = options(s, d, want) + [arg]
    r = run(args, d)
    if nparse.acceptance(text)[0] == "syntax":
        if r.rc == 0 or r.rc < 0 or r.out or not r.err.strip(): bad("the picture of a program that isn't well formed isn't refused", args, r)
    else:
        if r.rc or r.err: bad("no picture of a well-formed program", args, r)
        got = r.out
        if of:
            if r.out: bad("the picture goes to the standard output too", args, r)
            if not os.path.exists(full): bad("the output file isn't written", args, r)
            got = open(full, "rb").read()
        if got != base.out or base.rc: bad("the picture depends on how it was asked for", args, r, got=got, expected=base.out)
        if not got.strip().startswith(b"digraph") and b"{" not in got: bad("not a picture", args, r, got=got)
    if of and os.path.exists(full): os.unlink(full)
    env.nontrivial(*args)
    env.count("to a file" if of else "to the standard output")
    env.sample("diagram", shown(args)["command"].decode(errors="replace"))


def prefix(s, d):
    """Options that don't matter before a refusal, nor make one."""
    want = [(k, None) for k in ("inline", "assembly", "profile") if s.chance(1, 4)]
    return options(s, d, want)


PROG = b"print('ran');"


def run_refused(s, env):
    d = scratch(env)
    c = s.below(9)
    pre = prefix(s, d)
    cli.write(os.path.join(d, "p.noja"), PROG)
    marker = os.path.join(d, "made")
    if os.path.exists(marker): os.unlink(marker)
    if c == 0:
        args = pre + ([opt(s, "output"), b"made"] if s.chance(1, 2) else []) + ([opt(s, "heap"), b"3000000"] if s.chance(1, 3) else [])
        r = run(args, d); refused(args, r, "a command without an input")
    elif c == 1:
        args = pre + [opt(s, "output")]
        r = run(args, d); refused(args, r, "an option without its file")
    elif c == 2:
        args = pre + [opt(s, "heap")]
        r = run(args, d); refused(args, r, "an option without its size")
    elif c == 3:
        args = pre + [opt(s, s.choice(["output", "heap"])), opt(s, s.choice(["inline", "profile", "assembly", "diagram", "help"])), s.choice([b"p.noja", PROG])]
        r = run(args, d); refused(args, r, "an option followed by another instead of its operand")
    elif c == 4:
        args = pre + [opt(s, "heap"), s.choice([b"0", b"abc", b"00", b"x1", b"", b"MB"]), s.choice([b"p.noja", PROG])]
        r = run(args, d); refused(args, r, "a heap size that isn't a positive number")
    elif c == 5:
        args = [opt(s, "heap"), s.choice([b"-5", b"-1", b"-100000"]), b"p.noja"]
        r = run(args, d); refused(args, r, "a negative heap size")
    elif c == 6:
        mode = s.choice([[], [], ["diagram"], ["assembly"], ["profile"]])
        k = s.below(5)
        if k == 0: name = s.choice([b"missing.noja", b"no/such/file", b"p.noja/x", b"x" * 300, os.path.join(d.encode(), b"missing"), b"-x", b"--inlin", b"-ia", b"-"])
        elif k == 1: name = s.choice([b".", b"./", d.encode(), b".."])
        elif k == 2:
            cli.write(os.path.join(d, "secret.noja"), PROG); os.chmod(os.path.join(d, "secret.noja"), 0)
            name = b"secret.noja"
        elif k == 3:
            ln = os.path.join(d, "dangling")
            if not os.path.lexists(ln): os.symlink("nowhere", ln)
            name = b"dangling"
        else: name = b""
        args = [opt(s, m) for m in mode] + [name]
        r = run(args, d); refused(args, r, "an input that can't be read", use=False)
    elif c == 7:
        args = [opt(s, "help")] if s.chance(1, 2) else pre + [opt(s, "help")]
        r = run(args, d)
        if r.rc or r.err: bad("asking for help fails", args, r)
        for o in DOCUMENTED:
            if o not in r.out: bad("the help doesn't mention %s" % o.decode(), args, r)
        if b"usage" not in r.out.lower(): bad("the help doesn't show how to use the command", args, r)
        env.count("help")
    else:
        # an output that can't be written: the program's result stands but the command fails
        m = s.choice(["profile", "diagram"])
        args = options(s, d, [(m, None), ("inline", None), ("output", s.choice([b"no/such/dir/o", b".", b"p.noja/o", b"/dev/null/o"]))]) + [PROG]
        r = run(args, d)
        if r.rc <= 0 or not r.err.strip(): bad("an output file that can't be written isn't reported", args, r)
        if r.out != (b"ran" if m == "profile" else b""): bad("an output file that can't be written changes the rest", args, r)
    if os.path.exists(marker): bad("a refused command makes its output file", args, r)
    env.nontrivial(*args)
    env.count("form %d" % c)
    env.sample("refused", shown(args)["command"].decode(errors="replace"))


def run_heap(s, env):
    """The heap's size decides how much a program can keep."""
    d = scratch(env)
    keep = s.choice([60000, 100000, 150000])
    kind = s.below(3)
    # at least `low` bytes must be live at once
    if kind == 0: text, low, out = b"l = []; i = 0; while i < %d: { append(l, i + 0.5); i = i + 1; } print(count(l));" % keep, keep * 16, b"%d" % keep
    elif kind == 1: text, low, out = b"l = []; i = 0; while i < %d: { l = [l]; i = i + 1; } print('built');" % keep, keep * 24, b"built"
    else: text, low, out = b"m = {}; i = 0; while i < %d: { m[i] = [i]; i = i + 1; } print(count(m));" % (keep // 4), (keep // 4) * 48, b"%d" % (keep // 4)
    inline = s.chance(1, 2)
    arg = text if inline else path_for(s, d, text)
    c = s.below(4)
    want = [("inline", None)] if inline else []
    if s.chance(1, 4): want.append(("profile", None))
    if c == 0:
        size = b"%d" % max(100000, low // s.choice([2, 3, 5, 8]))
        want.append(("heap", size)); fits = False
    elif c == 1 and low > 1 << 20: fits = False; size = b"default"
    else:
        size = b"%d" % s.choice([300000000, 400000000, 1000000000])
        want.append(("heap", size)); fits = True
    args = options(s, d, want) + [arg]
    r = run(args, d)
    if r.rc < 0: bad("the command crashes", args, r)
    if fits and (r.rc or not r.out.startswith(out) or r.err): bad("a program that fits the heap given fails", args, r, expected=out)
    if not fits and (r.rc == 0 or r.out or not r.err.strip()): bad("a program keeps more than the heap holds", args, r, at_least=low)
    env.nontrivial(*args)
    env.count("fits" if fits else "default heap too small" if size == b"default" else "too small")
    env.sample("heap", shown(args)["command"].decode(errors="replace"))


PHASES = [Phase("modes", run_modes, 3000, 60000), Phase("diagram", run_diagram, 600, 10000), Phase("refused", run_refused, 1500, 15000), Phase("heap", run_heap, 120, 1500)]
