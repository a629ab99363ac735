"""Helpers shared by the checks."""
import os, re, sys
from pbt import *
from nast import *
import runner, noja_ref as R
import math, struct, random
from runner import SRC, FILE, ASM, ASMFILE, DIAG, DIAGFILE, COMPILE, NEWRT_ONLY, NEWRT, ASSEMBLE, EQUIV, PROFILE, CSTR, ASMCSTR, SLOT, PLUGMAP, PLUGSTR, PLUGFILE, PLUGSRC, PLUGDEF
from gen import Gen

NAME = "(unnamed)"
# Names of scripts: what a name holds is never interpreted.
ODD_NAMES = ["prog.noja", "%s%n%s.noja", "100% done %d%s%n%9$s", "a b.noja", "a:7.noja", "%%.noja", "q'\"`.noja", "back\\n.noja", "#1 x"]


def norm(b):
    """-nan and nan are the same value."""
    return b.replace(b"-nan", b"nan")


TRACE_RE = re.compile(rb"^\t#(\d+) (.*?)(?::(\d+))?$")


def parse_trace(t):
    """[(name, line)] of the program's own frames, innermost first."""
    out = []
    lines = t.split(b"\n")
    for l in lines[1:]:
        m = TRACE_RE.match(l)
        if not m: continue
        name = m.group(2).decode(errors="replace")
        if name in ("(no source)", "<prelude>"): continue
        out.append((name, int(m.group(3)) if m.group(3) else None))
    return out


def check_clean(res, text, what="the program"):
    c = res.crash()
    if res.timed_out: raise Inconclusive("wall clock limit")
    if c: raise Violation("%s crashed or hung the interpreter: %s" % (what, c.splitlines()[0] if c else c), program=text, report=c)


def ref_run(prog, env=None, **kw):
    try:
        return R.Interp(**kw).run(prog)
    except R.Skip as e:
        raise Discard("model: " + str(e))
    except RecursionError:
        raise Discard("model: recursion")


def compare(op, o, text, trace=True, vals=True):
    """Compare what the interpreter did (op) with what the model says (o)."""
    def bad(msg, **k):
        raise Violation(msg, program=text, expected_output=o.out, output=op.out, expected="success" if o.ok else "failure (user message %r, trace %r)" % (o.msg, o.trace),
                        got="success" if op.ok else "failure: %r %r" % (op.err, op.trace), **k)
    if norm(op.out) != norm(o.out): bad("the output differs from what the language prescribes")
    if op.ok != o.ok: bad("the program should %s" % ("run to its end" if o.ok else "abort"))
    if not o.ok:
        if not op.err or not op.err.strip(): bad("the failure isn't reported")
        if o.msg is not None and o.msg not in op.err: bad("the message given to error() isn't reported")
        for h in o.hints:
            if not re.search(rb"(?<!\w)" + re.escape(h) + rb"(?!\w)", op.err): bad("the message doesn't name the refused argument by its position and name", error=op.err, word=h)
        if trace:
            got = parse_trace(op.trace or b"")
            if got != o.trace: bad("the stack trace doesn't name the failing lines", expected_trace=o.trace, got_trace=got)
    else:
        if op.err_on_success: bad("success together with a reported error")
        if vals and [norm(v) for v in op.vals] != [norm(v) for v in o.vals]:
            bad("the returned values differ", expected_values=o.vals, values=op.vals)


def run_prog(prog, env, exact=False, trace=True, vals=True, stdin=b"", variant="asan", key=None, sample="case", model=None, full_parens=False,
             opts=None, sep=None, flags=0, **kw):
    """Render a tree, run it, compare with the model.  Gives (text, outcome, operation)."""
    if max_need(prog) > 14: raise Discard("needs too many pending values")
    text = render(prog, sep=sep, opts=opts, full_parens=full_parens)
    o = ref_run(prog, stdin=stdin, **(model or {}))
    res = env.server(variant).run([(SRC, NAME, text)], stdin=stdin, flags=flags | (runner.F_EXACT if exact else 0), **kw)
    check_clean(res, text)
    op = res.ops[0]
    compare(op, o, text, trace=trace, vals=vals)
    if exact and o.ok:
        want = [R.exact(v).encode() for v in o.retvals]
        if want != op.exact: raise Violation("the returned values differ from the exact ones prescribed", program=text, expected=want, got=op.exact)
    env.count("ends well" if o.ok else "aborts")
    for c in o.classes: env.count("exercises " + c)
    env.sample(sample + (", runs" if o.ok else ", aborts"), text.decode(errors="replace"))
    return text, o, op


def run_text(text, env, flags=0, variant="asan", **kw):
    res = env.server(variant).run([(SRC, NAME, text)], flags=flags, **kw)
    check_clean(res, text)
    return res.ops[0]


def feature_classes(prog):
    """Kinds of construct in a program."""
    return sorted({n.k for n in walk(prog)})
