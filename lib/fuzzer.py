"""A bounded session of coverage-guided fuzzing (libFuzzer) of the compiler or the assembler."""
import os, re, shutil, subprocess, build


class Session:
    def __init__(self, crash, report, corpus, execs, cov): self.crash, self.report, self.corpus, self.execs, self.cov = crash, report, corpus, execs, cov


def _dict(words):
    out = []
    for w in words:
        out.append('"' + "".join("\\x%02x" % c for c in w) + '"')
    return "\n".join(out) + "\n"


def session(d, seeds, words, seed, runs, asm=False, max_len=1200, wall=600):
    exe = build.build("fuzz")
    for n in ("seeds", "corpus", "crash"):
        shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        os.makedirs(os.path.join(d, n))
        os.chmod(os.path.join(d, n), 0o777)
    os.chmod(d, 0o755)
    for i, t in enumerate(seeds):
        with open(os.path.join(d, "seeds", "%04d" % i), "wb") as f: f.write(t)
    with open(os.path.join(d, "words"), "w") as f: f.write(_dict(words))
    args = [exe, "-seed=%d" % (seed + 1), "-runs=%d" % runs, "-max_len=%d" % max_len, "-timeout=25", "-rss_limit_mb=3000", "-artifact_prefix=%s/crash/" % d, "-dict=%s/words" % d, "-print_final_stats=1",
            "-reload=0", "-detect_leaks=0", "-len_control=0", "-use_value_profile=1", d + "/corpus", d + "/seeds"]
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1"}
    if asm: env["FUZZ_ASM"] = "1"
    kw = {"user": 65534, "group": 65534, "extra_groups": []} if os.geteuid() == 0 else {}
    p = subprocess.Popen(args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, **kw)
    try: _, err = p.communicate(timeout=wall)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None
    crash = None
    for n in sorted(os.listdir(d + "/crash")):
        if n.startswith("slow-unit"): continue
        with open(os.path.join(d, "crash", n), "rb") as f: crash = f.read()
        break
    if p.returncode and crash is None: crash = b""
    corpus = []
    for n in sorted(os.listdir(d + "/corpus")):
        with open(os.path.join(d, "corpus", n), "rb") as f: corpus.append(f.read())
    t = err.decode(errors="replace")
    m = re.search(r"number_of_executed_units:\s*(\d+)", t)
    c = re.findall(r"cov: (\d+)", t)
    return Session(crash, t[-6000:] if crash is not None else "", corpus, int(m.group(1)) if m else 0, int(c[-1]) if c else 0)
