"""Client of the fork server in harness/nrun.c."""
import os, struct, subprocess, tempfile, shutil

F_PROFILE, F_NOCALLBACK, F_PRIVS, F_LISTOFFS, F_NOBUILTINS, F_EXACT, F_OUTPOS = 1, 2, 4, 8, 64, 128, 256
SRC, FILE, ASM, ASMFILE, DIAG, DIAGFILE, COMPILE, NEWRT_ONLY, NEWRT, ASSEMBLE, EQUIV, PROFILE, CSTR, ASMCSTR, SLOT, PLUGMAP, PLUGSTR, PLUGFILE, PLUGSRC, PLUGDEF = 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 18, 19, 20, 21

ASAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=3:quarantine_size_mb=16:max_malloc_fill_size=262144",
    "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1",
}


def b(x):
    return x if isinstance(x, bytes) else x.encode("utf-8", "surrogateescape")


class Op:
    """What one operation of a request did."""
    __slots__ = ("kind", "ret", "err", "errflags", "off", "trace", "vals", "listing", "diagram", "allocs", "instrs",
                 "failed", "outpos", "newrt", "equiv", "equivlog", "profile", "exact", "err_on_success", "out", "errout", "complete")

    def __init__(self, kind):
        self.kind = kind
        self.vals = []
        self.exact = []
        self.equiv = []
        for k in ("ret", "err", "errflags", "off", "trace", "listing", "diagram", "allocs", "instrs", "outpos", "newrt",
                  "equivlog", "profile", "out", "errout"):
            setattr(self, k, None)
        self.failed = 0
        self.err_on_success = False
        self.complete = False

    @property
    def ok(self):
        return self.ret is not None and self.ret >= 0


class Result:
    """Everything observed of one request."""

    def __init__(self, status, timed_out, cpu, rss, fd1, fd2, out, errs, res):
        self.status, self.timed_out, self.cpu_ms, self.rss_kb = status, timed_out, cpu, rss
        self.fd1, self.fd2, self.out, self.errs = fd1, fd2, out, errs
        self.ops = []
        self.pre = Op(0)
        self.live = self.live_bytes = self.peak = self.fds = self.first_leak = self.setup_allocs = None
        self.gcs = self.over = self.icount = self.stopped = None
        self.complete = False
        self.nrt_ok = None
        self._parse(res)
        p = 0
        for o in self.ops:
            if o.outpos is not None:
                o.out = out[p:o.outpos]
                p = o.outpos

    def _parse(self, r):
        p = 0
        cur = self.pre
        while p + 5 <= len(r):
            tag = chr(r[p])
            n = struct.unpack_from("<I", r, p + 1)[0]
            v = r[p + 5:p + 5 + n]
            p += 5 + n
            if tag == "B":
                cur = Op(v[0] - 65)
                self.ops.append(cur)
                continue
            if tag in "rnfoaipFqSLMKDNGOIX!":
                v = struct.unpack("<q", v)[0] if len(v) == 8 else None
            if tag == "r": cur.ret = v
            elif tag == "n": cur.newrt = v
            elif tag == "e": cur.err = v
            elif tag == "f": cur.errflags = v
            elif tag == "o": cur.off = v
            elif tag == "t": cur.trace = v
            elif tag == "v": cur.vals.append(v)
            elif tag == "w": cur.exact.append(v)
            elif tag == "l": cur.listing = v
            elif tag == "d": cur.diagram = v
            elif tag == "a": cur.allocs = v
            elif tag == "i": cur.instrs = v; cur.complete = True
            elif tag == "p": cur.outpos = v
            elif tag == "F": cur.failed = v
            elif tag == "q": cur.equiv.append(v)
            elif tag == "g": cur.equivlog = v
            elif tag == "u": cur.out = v
            elif tag == "y": cur.errout = v
            elif tag == "U": self.outpos = struct.unpack("<%dI" % (len(v) // 4), v)
            elif tag == "P": cur.profile = v
            elif tag == "!": cur.err_on_success = True
            elif tag == "S": self.setup_allocs = v
            elif tag == "L": self.live = v
            elif tag == "M": self.live_bytes = v
            elif tag == "K": self.peak = v
            elif tag == "D": self.fds = v
            elif tag == "N": self.first_leak = v
            elif tag == "G": self.gcs = v
            elif tag == "O": self.over = v
            elif tag == "I": self.icount = v
            elif tag == "X": self.stopped = v
            elif tag == "Z": self.complete = True

    @property
    def clean(self):
        """The process ended by itself, in an orderly way."""
        return os.WIFEXITED(self.status) and os.WEXITSTATUS(self.status) == 0 and self.complete

    @property
    def hung(self):
        return os.WIFSIGNALED(self.status) and os.WTERMSIG(self.status) in (24, 9) and not self.timed_out

    def crash(self):
        """A description of a crash or hang, or None."""
        if self.clean:
            if self.fd1 or self.fd2:
                return "wrote on the process-wide streams: %r %r" % (self.fd1[:200], self.fd2[:200])
            return None
        if os.WIFSIGNALED(self.status):
            s = os.WTERMSIG(self.status)
            if s in (24, 9):
                return "hang (killed by the CPU limit)"
            return "killed by signal %d: %s" % (s, self.fd2[:1500].decode(errors="replace"))
        return "exit status %d: %s" % (os.WEXITSTATUS(self.status), self.fd2[:3000].decode(errors="replace"))


class Server:
    def __init__(self, exe):
        self.exe = exe
        self.p = None
        self.start()

    def start(self):
        env = dict(os.environ)
        env.update(ASAN_ENV)
        env["LC_ALL"] = "C"
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=env, bufsize=0)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.stdout.close()
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None

    def _read(self, n):
        out = bytearray()
        while len(out) < n:
            k = self.p.stdout.read(n - len(out))
            if not k:
                raise EOFError
            out += k
        return bytes(out)

    def run(self, ops, stdin=b"", cwd="", flags=0, heap=0, stack=0, steps=2000000, stop_at=-1, stop_mode=1, fail_at=-1,
            fail_from=0, gc_every=0, cpu=20, wall=300):
        """ops: list of (kind, name, body)."""
        def s(x):
            x = b(x)
            return struct.pack("<I", len(x)) + x + b"\0"
        m = [struct.pack("<IqqqqIqIqq", flags, heap, stack, steps, stop_at, stop_mode, fail_at, fail_from, gc_every, cpu),
             s(cwd), s(stdin), struct.pack("<I", len(ops))]
        for k, name, body in ops:
            m.append(struct.pack("<I", k) + s(name) + s(body))
        m = b"".join(m)
        m = struct.pack("<II", len(m), wall) + m
        for attempt in (0, 1):
            try:
                mv = memoryview(m)
                while mv:
                    k = self.p.stdin.write(mv)
                    mv = mv[k:]
                st, to, cpu_, rss = struct.unpack("<iIII", self._read(16))
                parts = []
                for _ in range(5):
                    n = struct.unpack("<I", self._read(4))[0]
                    parts.append(self._read(n))
                return Result(st, to, cpu_, rss, *parts)
            except (EOFError, BrokenPipeError):
                self.close()
                self.start()
                if attempt:
                    raise


def scratch(prefix="noja"):
    d = tempfile.mkdtemp(prefix=prefix + "-", dir="/tmp")
    os.chmod(d, 0o777)
    return d
