"""Builds cozis/Noja from /repo's current working tree, out of tree.

build(variant) returns the path of the directory with the requested artefact.
Objects are cached by the hash of everything under /repo/src and /repo/misc plus
the harness sources and the flags, so a changed tree is always rebuilt.
"""
import os, sys, hashlib, subprocess, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NOJA_REPO", "/repo")
OUT = os.environ.get("NOJA_OUT", os.path.join(VERIF, "out"))

# The project's own release build defines NDEBUG; we keep it, so that what is
# exercised is the code users run (assertions compiled out), and add sanitizers.
BASE = ["-DNDEBUG", "-w", "-g", "-std=gnu17"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,shift,function,vptr,unsigned-integer-overflow,pointer-overflow,nonnull-attribute,float-divide-by-zero",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free",
        "-Wl,--wrap=strdup", "-Wl,--wrap=realpath"]
VARIANTS = {
    # name: (cc, cflags, ldflags, main source, extra)
    "asan": ("clang", BASE + ["-O1"] + [s for s in SAN], WRAP, "harness/nrun.c"),
    "rel":  ("gcc", BASE + ["-O2"], WRAP, "harness/nrun.c"),
    "cli":  ("gcc", ["-DNDEBUG", "-O3", "-w"], [], "repo:src/cli/main.c"),
    "util": ("clang", BASE + ["-O1"] + SAN, [], "harness/util.c"),
    "fuzz": ("clang", BASE + ["-O1", "-fsanitize=fuzzer-no-link"] + SAN, ["-fsanitize=fuzzer"], "harness/fuzz.c"),
}


def _files(root, exts):
    r = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts) and not f.endswith("_n.c"):
                r.append(os.path.join(d, f))
    return r


def tree_hash(extra=b""):
    h = hashlib.sha256()
    for f in _files(os.path.join(REPO, "src"), (".c", ".h", ".noja")) + _files(os.path.join(REPO, "misc"), (".c",)):
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    h.update(extra)
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))


def build(variant):
    cc, cflags, ldflags, main = VARIANTS[variant]
    harness = os.path.join(VERIF, "harness")
    extra = (variant + cc + " ".join(cflags) + " ".join(ldflags)).encode()
    for f in _files(harness, (".c", ".h")):
        extra += open(f, "rb").read()
    hsh = tree_hash(extra)
    os.makedirs(OUT, exist_ok=True)
    dest = os.path.join(OUT, variant)
    lock = open(os.path.join(OUT, "." + variant + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        stamp = os.path.join(dest, "stamp")
        exe = os.path.join(dest, variant)
        if os.path.exists(stamp) and open(stamp).read() == hsh and os.path.exists(exe):
            return exe
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        # Embed the prelude exactly as the makefile does, but outside of the tree.
        emb = os.path.join(dest, "embedder")
        _run(["gcc", os.path.join(REPO, "misc/embedder.c"), "-o", emb, "-w"])
        jobs = []
        lib = os.path.join(REPO, "src/lib")
        for n in _files(lib, (".noja",)):
            c = os.path.join(dest, os.path.basename(n)[:-5] + "_n.c")
            _run([emb, n, "start_noja", c])
            jobs.append((c, os.path.join(dest, os.path.basename(c)[:-2] + ".o"), []))
        for c in _files(lib, (".c",)):
            o = os.path.join(dest, os.path.relpath(c, lib).replace("/", "__")[:-2] + ".o")
            jobs.append((c, o, []))
        if main.startswith("repo:"):
            m = os.path.join(REPO, main[5:])
        else:
            m = os.path.join(VERIF, main)
        jobs.append((m, os.path.join(dest, "main.o"), ["-I" + lib, "-I" + harness]))

        def comp(j):
            _run([cc] + cflags + j[2] + ["-c", j[0], "-o", j[1]])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, jobs))
        link_flags = [f for f in cflags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
        link_flags = [f for f in link_flags if f != "-fsanitize=fuzzer-no-link"]
        _run([cc] + link_flags + [j[1] for j in jobs] + ["-o", exe] + ldflags + ["-lm"])
        for j in jobs:
            os.unlink(j[1])
        open(stamp, "w").write(hsh)
        return exe
    finally:
        lock.close()


if __name__ == "__main__":
    for v in sys.argv[1:]:
        t = time.time()
        print(v, build(v), "%.1fs" % (time.time() - t))
