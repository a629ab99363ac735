"""Property-based testing engine: choice sequences, parallel search, shrinking, replay, evidence."""
import os, sys, struct, json, bisect, time, random, hashlib, traceback, multiprocessing as mp, shutil, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, runner

VERIF = build.VERIF
WORKERS = int(os.environ.get("NOJA_WORKERS", "0")) or min(8, os.cpu_count() or 8)


class Violation(Exception):
    def __init__(self, msg, **details):
        Exception.__init__(self, msg)
        self.msg, self.details = msg, details


class Inconclusive(Exception):
    pass


class Discard(Exception):
    """The generated case is outside of the domain."""


class Src:
    """Source of generator choices.  0 is always the simplest choice."""
    __slots__ = ("rec", "rng", "ch", "index")

    def __init__(self, rng=None, ch=None, index=0):
        self.rec, self.rng, self.ch, self.index = [], rng, ch, index

    def below(self, n):
        if n <= 1: return 0
        if self.ch is not None:
            i = len(self.rec)
            v = self.ch[i] if i < len(self.ch) else 0
            if v >= n: v = n - 1
        else:
            v = int(self.rng.random() * n) if n < (1 << 40) else self.rng.randrange(n)
        self.rec.append(v)
        return v

    def int(self, lo, hi): return lo + self.below(hi - lo + 1)
    def choice(self, seq): return seq[self.below(len(seq))]

    def chance(self, num, den):
        """True with probability num/den; False is the simple choice."""
        return self.below(den) >= den - num

    def weighted(self, pairs):
        """pairs: (weight, value); the first is the simplest."""
        t = self.below(sum(w for w, _ in pairs))
        for w, v in pairs:
            if t < w: return v
            t -= w

    def perm(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1):
            j = i + self.below(len(xs) - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def bytes(self, n): return bytes(self.below(256) for _ in range(n))


class Phase:
    def __init__(self, name, run, quick, thorough, enum=False, seeded=True):
        self.name, self.run, self.quick, self.thorough, self.enum = name, run, quick, thorough, enum


class Env:
    """What a case may use: servers, counters, samples."""

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.servers = {}
        self.reset()
        self.dir = None
        self.keep = False

    def reset(self):
        self.counts = {}
        self.keys = set()
        self.case = []
        self.samples = []
        self.evals = 0
        self.sampled = {}

    def server(self, variant="asan"):
        s = self.servers.get(variant)
        if s is None:
            s = self.servers[variant] = runner.Server(build.build(variant))
        return s

    def scratch(self):
        if self.dir is None:
            self.dir = runner.scratch("noja-case")
        return self.dir

    def close(self):
        for s in self.servers.values(): s.close()
        self.servers = {}
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n

    def nontrivial(self, *key):
        """The current case is non-trivial; cases with the same keys count once."""
        self.case.append(repr(key))

    def end_case(self):
        if self.case:
            self.keys.add(hashlib.blake2b("|".join(self.case).encode(), digest_size=8).digest())
            self.case = []

    def sample(self, kind, text, limit=2):
        n = self.sampled.get(kind, 0)
        if n < limit:
            self.sampled[kind] = n + 1
            self.samples.append({"kind": kind, "case": text if len(text) < 3000 else text[:3000] + "..."})


def case_rng(seed, prop, phase, index):
    h = hashlib.sha256(("%s/%s/%s/%s" % (seed, prop, phase, index)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def run_case(phase, src, env):
    """None, or the Violation."""
    try:
        phase.run(src, env)
        return None
    except Violation as v:
        return v
    except Inconclusive as e:
        env.case = []
        env.count("inconclusive: " + str(e)[:60])
        return None
    except Discard as e:
        env.case = []
        env.count("discarded: " + (str(e)[:40] or "outside of the domain"))
        return None
    except (AttributeError, TypeError, LookupError, ValueError, AssertionError, struct.error):
        # generation depends on the seed alone: on code where the property holds no case gets here
        return Violation("what was observed isn't of the form every run gives", judge=traceback.format_exc())


def _worker(prop, phases, tier, seed, w, q, counter, stop, plan, deadline, only):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    env = Env(tier, seed)
    errors = []
    found = None
    done = {}
    try:
        total = sum(n for _, _, n in plan)
        starts = [0]
        for _, _, n in plan: starts.append(starts[-1] + n)
        while not stop.value and time.time() < deadline:
            with counter.get_lock():
                a = counter.value
                step = 8
                counter.value = a + step
            if a >= total: break
            for g in range(a, min(a + step, total)):
                if stop.value or time.time() >= deadline: break
                j = bisect.bisect_right(starts, g) - 1
                pi, first, _ = plan[j]
                k = first + g - starts[j]
                ph = phases[pi]
                src = Src(rng=case_rng(seed, prop, ph.name, k), index=k)
                env.evals += 1
                env.case = []
                try:
                    v = run_case(ph, src, env)
                except Exception:
                    errors.append("%s #%d: %s" % (ph.name, k, traceback.format_exc()))
                    if len(errors) > 3: raise
                    continue
                env.end_case()
                done[ph.name] = done.get(ph.name, 0) + 1
                if v is not None:
                    found = (g, ph.name, k, src.rec, v.msg, v.details)
                    stop.value = 1
                    break
    except Exception:
        errors.append(traceback.format_exc())
    finally:
        env.close()
        q.put((w, done, env.evals, env.counts, env.keys, env.samples, found, errors[:5]))
        q.close()
        q.join_thread()


class _Late(BaseException): pass


def _late(sig, frame): raise _Late()


def shrink(phase, rec, index, env, budget=60.0, maxruns=1500):
    """A smaller choice sequence with which the phase still reports a violation."""
    t0 = time.time()
    best = list(rec)
    runs = 0
    last = None

    def ok(ch):
        nonlocal runs, last
        if time.time() - t0 > budget or runs >= maxruns: return False
        runs += 1
        s = Src(ch=ch, index=index)
        signal.signal(signal.SIGALRM, _late)
        signal.alarm(30)
        try:
            v = run_case(phase, s, env)
        except _Late:
            env.close()          # the server may be in the middle of an answer
            return False
        except Exception:
            return False
        finally:
            signal.alarm(0)
        if v is not None:
            last = v
            r = s.rec
            while r and r[-1] == 0: r = r[:-1]
            if (len(r), r) < (len(best), best):
                best[:] = r
                return True
        return False

    ok(list(best))
    improved = True
    while improved and time.time() - t0 < budget and runs < maxruns:
        improved = False
        n = len(best) // 2
        while n >= 1:
            i = 0
            while i < len(best):
                if ok(best[:i] + best[i + n:]): improved = True
                else: i += n
                if time.time() - t0 > budget or runs >= maxruns: break
            n //= 2
        i = 0
        while i < len(best):
            v = best[i]
            if v:
                if ok(best[:i] + [0] + best[i + 1:]): improved = True
                else:
                    lo, hi = 0, v
                    while hi - lo > 1 and time.time() - t0 < budget:
                        m = (lo + hi) // 2
                        if i < len(best) and ok(best[:i] + [m] + best[i + 1:]): hi = m; improved = True
                        else: lo = m
                        if i >= len(best): break
            i += 1
    return best, runs


def confirm(phase, rec, index, env, times=3):
    n = 0
    v = None
    t0 = time.time()
    for _ in range(times):
        if n >= 2: return 3, v                   # as good as all
        if n and time.time() - t0 > 10: return 2, v   # slow cases (hangs) are repeated once
        try:
            r = run_case(phase, Src(ch=list(rec), index=index), env)
        except Exception:
            r = None
        if r is not None:
            n += 1
            v = r
    return n, v


def jsonable(x):
    if isinstance(x, bytes): return x.decode("utf-8", "backslashreplace")
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)): return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None: return x
    return repr(x)


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:") and ("property=%s " % prop) in l:
                out.append(l)
    return out


def main(mod, prop, tier, seed, replay=None, only=None, scale=1.0):
    t0 = time.time()
    phases = mod.PHASES
    for v in getattr(mod, "VARIANTS", ["asan"]): build.build(v)
    if replay:
        d = json.load(open(replay))
        ph = [p for p in phases if p.name == d["phase"]][0]
        env = Env(tier, d.get("seed", seed))
        try:
            v = run_case(ph, Src(ch=d["choices"], index=d["index"]), env)
        finally:
            env.close()
        if v is None:
            print("replay: the property holds on this case")
            return 0
        print(v.msg)
        for k, x in v.details.items(): print("--- %s\n%s" % (k, jsonable(x) if not isinstance(x, (bytes, str)) else jsonable(x)))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    plan = []
    for i, p in enumerate(phases):
        if only and p.name not in only: continue
        n = p.thorough if tier == "thorough" else p.quick
        if not p.enum: n = int(n * scale)
        if n > 0: plan.append((i, n))
    # interleave the phases so that a budget never starves one of them
    budget = float(os.environ.get("NOJA_BUDGET", "0")) or (420 if tier == "quick" else getattr(mod, "THOROUGH_BUDGET", 3600))
    plan = interleave(plan)
    deadline = t0 + budget
    ctx = mp.get_context("fork")
    counter, stop, q = ctx.Value("q", 0), ctx.Value("i", 0), ctx.Queue()
    ws = [ctx.Process(target=_worker, args=(prop, phases, tier, seed, w, q, counter, stop, plan, deadline, only)) for w in range(WORKERS)]
    for w in ws: w.start()
    res = []
    while len(res) < len(ws):
        try:
            res.append(q.get(timeout=5))
        except Exception:
            if not any(w.is_alive() for w in ws) and q.empty(): break
    for w in ws: w.join(5)
    done, evals, counts, keys, samples, found, errors = {}, 0, {}, set(), {}, [], []
    for _, d, e, c, k, s, f, er in sorted(res, key=lambda x: x[0]):
        for a, n in d.items(): done[a] = done.get(a, 0) + n
        evals += e
        for a, n in c.items(): counts[a] = counts.get(a, 0) + n
        keys |= k
        for x in s:
            l = samples.setdefault(x["kind"], [])
            if len(l) < 2: l.append(x)
        if f: found.append(f)
        errors += er
    if len(res) < len(ws): errors.append("%d worker(s) were lost" % (len(ws) - len(res)))
    env = Env(tier, seed)
    rc = 0
    violations = 0
    unstable = 0
    try:
        for fnd in sorted(found, key=lambda f: f[0]):
            g, phname, k, rec, msg, det = fnd
            ph = [p for p in phases if p.name == phname][0]
            tc = time.time()
            n, v = confirm(ph, rec, k, env)
            slow = time.time() - tc > 20
            if n < 2:
                unstable += 1
                print("note: a case of phase %s failed once but %d/3 times when repeated: %s" % (phname, n, msg), file=sys.stderr)
                continue
            best, runs = shrink(ph, rec, k, env) if not ph.enum and not slow else (rec, 0)
            n2, v2 = (2, v) if slow else confirm(ph, best, k, env)
            if n2 < 2: best, v2 = rec, v
            violations += 1
            path = os.path.join(build.OUT, "replay")
            os.makedirs(path, exist_ok=True)
            path = os.path.join(path, "%s-%s-%d-%d.json" % (prop, phname, seed, k))
            with open(path, "w") as f:
                json.dump({"property": prop, "phase": phname, "index": k, "seed": seed, "choices": best,
                           "message": v2.msg, "details": jsonable(v2.details)}, f, indent=1)
            print(v2.msg)
            for a, x in v2.details.items():
                print("--- %s:\n%s" % (a, str(jsonable(x))[:4000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            rc = 1
            break
        # known findings are demonstrated again on every run
        for l in known_findings(prop):
            pin = l.split("pin=")[1].split()[0]
            what = l.split("pin=")[1].split(None, 1)[1]
            f = mod.PINS[pin]
            still = f(env)
            counts["known finding %s %s" % (pin, "still fails" if still else "does not fail any more")] = 1
            if still: print("KNOWN-FINDING: property=%s %s" % (prop, what))
    finally:
        env.close()
    total = sum(n for _, _, n in plan)
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(keys), "rule": mod.RULE,
                       "samples": [x for l in samples.values() for x in l][:24],
                       "phases": done, "planned": total, "classes": dict(sorted(counts.items())),
                       "unstable": unstable, "budget_hit": evals < total and not violations,
                       "exhaustive": False},
          "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)
    print("%s %s: %d/%d cases, %d distinct non-trivial, %.1fs" % (prop, tier, evals, total, len(keys), wall))
    if errors:
        for e in errors[:3]: print("harness error: " + e, file=sys.stderr)
        if rc == 0: return 2
    if rc == 0 and not keys:
        print("nothing non-trivial was explored", file=sys.stderr)
        return 2
    return rc


def interleave(plan, parts=40):
    """Cut each phase in slices, so that all of them advance together: (phase, first case, count)."""
    out = []
    for s in range(parts):
        for i, n in plan:
            a, b = n * s // parts, n * (s + 1) // parts
            if b > a: out.append((i, a, b - a))
    return out
