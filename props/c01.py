from common import *

TITLE = "Whole programs do what the language documentation says"
RULE = ("A case is a random whole program (functions, closures, loops, collections, built-ins, assertions, errors) run through the "
        "interpreter and through an independent reference interpreter of the documented language; it is non-trivial when the model "
        "covers it, it has at least 3 statements and it printed something or failed.")
ASSUME = ["the reference interpreter in lib/noja_ref.py states the documented semantics", "programs stay below the documented resource limits"]


def gen(src, wrong=60, budget=60):
    g = Gen(src, budget=budget, wrong=wrong)
    p = g.program(src.int(1, 14))
    if max_need(p) > 14: raise Discard("needs too many pending values")
    return p


def one(src, env, wrong, budget=60):
    p = gen(src, wrong, budget)
    text = render(p)
    o = ref_run(p)
    res = env.server("asan").run([(SRC, NAME, text)])
    check_clean(res, text)
    op = res.ops[0]
    compare(op, o, text)
    env.count("ends well" if o.ok else "aborts")
    for c in o.classes: env.count("exercises " + c)
    for k in feature_classes(p): env.count("construct " + k)
    if len(p.kids) >= 3 and (o.out or not o.ok): env.nontrivial(text)
    env.sample("ok" if o.ok else "fails", text.decode(errors="replace"))


def run_mixed(src, env): one(src, env, 60)
def run_wild(src, env): one(src, env, 8)
def run_long(src, env): one(src, env, 300, 200)


def run_stretched(src, env):
    """Programs with string literals of every length, up to the longest allowed, and programs of many statements."""
    p = gen(src, 300, src.choice([40, 40, 600]))
    strs = [n for n in walk(p) if n.k == "str"]
    if not strs:
        n = Str("s")
        p.kids.append(Print(n))
        strs = [n]
    left = 12000
    for _ in range(src.int(1, 4)):
        n = src.choice(strs)
        k = src.choice([src.int(0, 4095), src.int(0, 300), 4095 - src.below(40), (1 << src.int(4, 11)) - src.below(12)])
        if k > left: continue
        left -= k
        unit = src.choice([b"x", b"ab ", b"0123456789"])
        n.v = (unit * (k // len(unit) + 1))[:k]
    text = render(p)
    o = ref_run(p)
    res = env.server("asan").run([(SRC, NAME, text)])
    check_clean(res, text)
    compare(res.ops[0], o, text)
    env.nontrivial(text)
    env.count("stretched")


def run_twice(src, env):
    """The same program twice gives the same behaviour."""
    p = gen(src)
    text = render(p)
    ref_run(p)
    a = env.server("asan").run([(SRC, NAME, text)])
    b = env.server("asan").run([(SRC, NAME, text)])
    check_clean(a, text)
    x, y = a.ops[0], b.ops[0]
    if (x.out, x.ret, x.err, x.trace, x.vals) != (y.out, y.ret, y.err, y.trace, y.vals):
        raise Violation("two runs of the same program differ", program=text, first=x.out, second=y.out)
    if a.live: pass
    env.nontrivial(text)


PHASES = [Phase("programs", run_mixed, 18000, 400000), Phase("wild", run_wild, 6000, 150000),
          Phase("long", run_long, 2000, 60000), Phase("twice", run_twice, 1000, 10000), Phase("stretched", run_stretched, 1500, 40000)]
