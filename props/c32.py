from common import *
import os, socket, struct, threading, time, itertools, errno, signal

TITLE = "Sockets transfer exactly the bytes given"
RULE = ("A case generates a server program (listening socket, accepted connections, datagram sockets, buffers and slices) with a history of recv/send/close calls and failing calls, "
        "while a peer written in Python connects over the loopback network, sends generated bytes and records what it receives; a model predicts every returned value, message "
        "and buffer content and every byte the peer must see; non-trivial when bytes were moved or a failing call was judged.")
ASSUME = ["the loopback network delivers what is sent to a connection before the next connection is accepted (the peer opens a last 'gate' connection only after its data is sent)",
          "error descriptions are those of the operating system, obtained from Python for the same calls"]
counter = itertools.count()


def address():
    """A loopback address and port no other worker uses."""
    k = next(counter)
    p = os.getpid()
    return "127.%d.%d.%d" % (1 + p % 251, 1 + (p // 251) % 251, 1 + k % 251), 20000 + (p * 7 + k * 13) % 12000


class Peer(threading.Thread):
    """Connects len(data) times (sending each one's data, maybe closing that direction), then once more as the gate."""
    def __init__(self, addr, conns, dgrams, patience):
        super().__init__(daemon=True)
        self.addr, self.conns, self.dgrams, self.patience = addr, conns, dgrams, patience
        self.got = [None] * len(conns)
        self.names = []
        self.problem = None
        self.stop = False

    def connect(self, src=None, rcvbuf=None):
        end = time.time() + self.patience
        while not self.stop:
            c = socket.socket()
            if src: c.bind((src, 0))
            c.settimeout(self.patience)
            try:
                c.connect(self.addr)
                return c
            except OSError as e:
                c.close()
                if time.time() > end:
                    self.problem = "can't connect to %s:%d: %s" % (self.addr + (e,))
                    return None
                time.sleep(0.002)

    def run(self):
        cs = []
        try:
            for data, mode, src in self.conns:
                c = self.connect(src)
                if c is None: return
                self.names.append(c.getsockname())
                c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                if len(data) > 60000:
                    threading.Thread(target=self.feed, args=(c, data, mode), daemon=True).start()
                else:
                    c.sendall(data)
                    if mode == "shut": c.shutdown(socket.SHUT_WR)
                    elif mode == "gone":
                        c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                        c.close(); c = None
                cs.append(c)
            u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            for to, data in self.dgrams: u.sendto(data, to)
            u.close()
            g = self.connect()
            if g is None: return
            ts = []
            for i, c in enumerate(cs):
                if c is None: continue
                t = threading.Thread(target=self.drain, args=(i, c), daemon=True)
                t.start(); ts.append(t)
            for t in ts: t.join()
            g.close()
        except OSError as e:
            self.problem = "peer: %s" % e
        finally:
            for c in cs:
                if c is not None: c.close()

    def feed(self, c, data, mode):
        try:
            c.sendall(data)
            if mode == "shut": c.shutdown(socket.SHUT_WR)
        except OSError: pass

    def drain(self, i, c):
        out = bytearray()
        try:
            while True:
                k = c.recv(1 << 16)
                if not k: break
                out += k
        except OSError: pass          # unread data at close resets the connection: what was read stays
        self.got[i] = bytes(out)


def SetT(ts, e): return Asn(ts, e)
def true(): return Bool(True)
def V(x): return Var(x)
def N(f, *a): return Call(Dot(Var("net"), f), *a)
def B(f, *a): return Call(Dot(Var("buffer"), f), *a)


DUMP = Fun("dump", [("b", None, None)], Block(
    Set("i", Int(0)), Set("l", List()),
    While(Bin("<", V("i"), Call(V("count"), V("b"))), Block(ExprS(Call(V("append"), V("l"), Idx(V("b"), V("i")))), Set("i", Bin("+", V("i"), Int(1))))),
    Print(V("l"), Str("\n"))))

SIZES = [0, 1, 2, 3, 5, 8, 16, 100]


class Model:
    """The program under construction and what it must print."""
    def __init__(self, s):
        self.s = s
        self.st = [DUMP]
        self.out = bytearray()
        self.roots = []          # (name, bytearray)
        self.refs = []           # (name, root index, off, len)
        self.n = 0
        self.aborted = False
        self.moved = False

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def say(self, e, text):
        """print(e..., newline)"""
        if self.aborted: return
        self.st.append(Print(*(e + [Str("\n")])))
        self.out += text.encode() + b"\n"

    def call(self, e, vals):
        """Checks the values of a call (a tuple of Python values; missing ones are none)."""
        if self.aborted: return
        k = max(len(vals), 1) + (1 if self.s.chance(1, 4) else 0)
        names = [self.name("r") for _ in range(k)]
        self.st.append(ExprS(SetT([V(x) for x in names], e)) if k > 1 else Set(names[0], e))
        vs = list(vals) + [None] * (k - len(vals))
        args = []
        for x in names: args += [V(x), Str(" ")]
        self.say(args, "".join((str(v) if v is not None else "none") + " " for v in vs))

    def new(self, n):
        nm = self.name("b")
        self.st.append(Set(nm, B("new", Int(n))))
        self.roots.append(bytearray(n))
        self.refs.append((nm, len(self.roots) - 1, 0, n))
        # contents
        if n and self.s.chance(2, 3):
            data = [self.s.below(256) for _ in range(min(n, 8))]
            for i, v in enumerate(data):
                self.st.append(ExprS(SetT([Idx(V(nm), Int(i))], Int(v))))
                self.roots[-1][i] = v
        return len(self.refs) - 1

    def slice(self):
        nm, r, off, n = self.s.choice(self.refs)
        if n == 0: return
        a = self.s.int(0, n - 1)
        l = self.s.int(0, n - a)
        x = self.name("s")
        self.st.append(Set(x, B("sliceUp", V(nm), Int(a), Int(l))))
        self.refs.append((x, r, off + a, l))

    def view(self, i):
        nm, r, off, n = self.refs[i]
        return memoryview(self.roots[r])[off:off + n]

    def dump(self, i):
        if self.aborted: return
        self.st.append(ExprS(Call(V("dump"), V(self.refs[i][0]))))
        self.out += ("[" + ", ".join(str(x) for x in self.view(i)) + "]\n").encode()


def count_arg(s, n):
    """(extra arguments, count moved at most) or a negative count"""
    c = s.below(8)
    if c < 3: return [], n
    if c == 3: return [NoneE()], n
    if c == 4: k = s.int(0, n)
    elif c == 5: k = n
    elif c == 6: k = s.choice([n + 1, n + 100, 1 << 31, (1 << 32) + 1, (1 << 62), 1 << 32])
    else: k = s.choice([-1, -2, -(1 << 31), -(1 << 32), -(1 << 62)])
    return [Int(k)], (min(k, n) if k >= 0 else None)


NEG = (None, "Invalid negative count")
BADFD = [9999, -1, 100000, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, 1 << 31, -(1 << 32), 1 << 62]
E = lambda e: os.strerror(e)


def bad_call(m, s, fds):
    """A failing call and what it must give."""
    if not m.refs: m.new(3)
    ref = s.choice(m.refs)
    buf = V(ref[0])
    c = s.below(15)
    fd = Int(s.choice(BADFD))
    bad = (None, E(errno.EBADF))
    if c == 0: m.call(N("recv", fd, buf), bad)
    elif c == 1: m.call(N("send", fd, buf), bad)
    elif c == 2: m.call(N("accept", fd), bad)
    elif c == 3: m.call(N("listen", fd, Int(s.int(0, 9))), (E(errno.EBADF),))
    elif c == 4: m.call(N("close", fd), (-1,))
    elif c == 5: m.call(N("bind", fd, Dot(V("net"), "AF_INET"), Int(s.int(20000, 30000)), Str("127.0.0.1")), (E(errno.EBADF),))
    elif c == 6: m.call(N("socket", Int(s.choice([999, -1, 1 << 32, (1 << 32) + 2])), Dot(V("net"), "SOCK_STREAM"), Int(0)), (None, E(errno.EAFNOSUPPORT)))
    elif c == 7: m.call(N("socket", Dot(V("net"), "AF_INET"), Int(s.choice([13, -1, (1 << 32) + 1])), Int(0)), (None, E(errno.EINVAL)))
    elif c == 8: m.call(N("bind", V("ls"), Int(s.choice([10, 1, 0, 99, -1, (1 << 32) + 2])), Int(8080)), (None, "Invalid family (only AF_INET is supported at the moment)"))
    elif c == 9: m.call(N("bind", V("ls"), Dot(V("net"), "AF_INET"), Int(8080), Str(s.choice(["", "300.1.1.1", "abc", "127.0.0", "127.0.0.1 ", " 127.0.0.1", "localhost", "1.2.3.4.5", "::1", "127.0.0.01x"]))), (None, "Invalid address"))
    elif c == 10: m.call(N("bind", V("ls"), Dot(V("net"), "AF_INET"), Int(s.choice([65536, -1, 70000, 1 << 32, (1 << 32) + 80, -(1 << 63) + 1]))), (None, "Invalid port"))
    elif c == 11: m.call(N("bind", V("ls"), Dot(V("net"), "AF_INET"), Int(s.int(20000, 30000)), Str("127.0.0.1")), (E(errno.EINVAL),))
    elif c == 12: m.call(N("recv", V("ls"), buf), (None, E(errno.ENOTCONN)))
    elif c == 13: m.call(N("send", V("ls"), buf), (None, E(errno.EPIPE)))
    else:
        x = m.name("u")
        dg = s.chance(1, 2)
        m.st.append(Set(x, N("socket", Dot(V("net"), "AF_INET"), Dot(V("net"), "SOCK_DGRAM" if dg else "SOCK_STREAM"), Int(0))))
        k = s.below(4)
        if k == 0: m.call(N("accept", V(x)), (None, E(errno.EOPNOTSUPP if dg else errno.EINVAL)))
        elif k == 1: m.call(N("send", V(x), buf), (None, E((errno.EMSGSIZE if ref[3] > 65507 else errno.EDESTADDRREQ) if dg else errno.EPIPE)))
        elif k == 2 and not dg: m.call(N("recv", V(x), buf), (None, E(errno.ENOTCONN)))
        elif k == 2: m.call(N("listen", V(x), Int(3)), (E(errno.EOPNOTSUPP),))
        else: m.call(N("bind", V(x), Dot(V("net"), "AF_INET"), Int(s.int(20000, 30000)), Str(s.choice(["8.8.8.8", "1.2.3.4"]))), (E(errno.EADDRNOTAVAIL),))
        m.call(N("close", V(x)), (0,))
        if s.chance(1, 2): m.call(N("recv", V(x), buf), bad)


WRONG = [lambda: Str("x"), lambda: List(), lambda: NoneE(), lambda: Flt("1.0"), lambda: Map()]


def wrong_type(m, s):
    buf = V(s.choice(m.refs)[0]) if m.refs else List()
    w = s.choice(WRONG)()
    AF = Dot(V("net"), "AF_INET")
    e = s.choice([
        lambda: N("recv", w, buf), lambda: N("send", w, buf), lambda: N("accept", w), lambda: N("close", w), lambda: N("listen", w, Int(1)),
        lambda: N("listen", V("ls"), w), lambda: N("recv", V("ls"), Str("text")), lambda: N("send", V("ls"), Str("text")), lambda: N("send", V("ls"), List(Int(1))),
        lambda: N("recv", V("ls")), lambda: N("send", V("ls")), lambda: N("send"), lambda: N("socket"), lambda: N("socket", AF, w, Int(0)), lambda: N("socket", w, Int(1), Int(0)),
        lambda: N("socket", AF, Int(1)), lambda: N("socket", AF, Int(1), Int(0), Int(1)), lambda: N("bind", V("ls"), AF, w), lambda: N("bind", V("ls"), AF, Int(8080), Int(1)),
        lambda: N("bind", w, AF, Int(8080)), lambda: N("send", V("ls"), buf, Str("1")), lambda: N("recv", V("ls"), buf, Flt("1.0"))])()
    m.st.append(ExprS(e))
    m.aborted = True


def open_server(m, s, addr, default_addr):
    AF, ST = Dot(V("net"), "AF_INET"), Dot(V("net"), "SOCK_STREAM")
    m.st.append(Set("ls", N("socket", AF, ST, Int(0), true())))
    m.say([Bin(">=", V("ls"), Int(3))], "true")
    m.call(N("bind", V("ls"), AF, Int(addr[1]), *([] if default_addr else [Str(addr[0])])), ())
    m.call(N("listen", V("ls"), Int(s.int(4, 50))), ())


def scenario(s, addr, big=False):
    """Generates everything from the choices: (model, conns, dgrams, expected bytes per connection)."""
    m = Model(s)
    default_addr = s.chance(1, 4)
    # datagram sockets first: the peer comes when the server listens
    dgrams, us = [], []
    if not big and s.chance(1, 3):
        for i in range(s.int(1, 2)):
            x = "u_%d" % i
            port = 20000 + (addr[1] + 50 * (i + 1)) % 12000
            m.st.append(Set(x, N("socket", Dot(V("net"), "AF_INET"), Dot(V("net"), "SOCK_DGRAM"), Int(0))))
            m.call(N("bind", V(x), Dot(V("net"), "AF_INET"), Int(port), Str(addr[0])), ())
            q = [bytes(s.below(256) for _ in range(s.int(0, 30))) for _ in range(s.int(0, 4))]
            for d in q: dgrams.append(((addr[0], port), d))
            us.append([x, q])
    open_server(m, s, addr, default_addr)
    conns = []
    for i in range(s.int(1, 3) if not big else 1):
        n = s.int(0, 60) if not big else s.choice([65536, 200000, 70001])
        if big: data = bytes((j * 7 + j // 256) & 255 for j in range(n))
        else: data = bytes(s.below(256) for _ in range(n))
        mode = s.weighted([(4, "open"), (3, "shut"), (2, "gone")]) if not big else s.choice(["open", "shut"])
        src = s.choice([None, "127.0.0.1", "127.9.8.7", "127.255.255.254"])
        conns.append((data, mode, src))
    fds = []
    for i, (data, mode, src) in enumerate(conns):
        x, a, p = "c%d" % i, "a%d" % i, "p%d" % i
        m.st.append(ExprS(SetT([V(x), V(a), V(p)], N("accept", V("ls")))))
        m.st.append(Print(Bin(">", V(x), V("ls")), Str(" "), V(a), Str(" "), V(p), Str("\n")))
        m.out += b"@%d@\n" % i                  # filled in when the peer's address is known
        fds.append(x)
    m.st.append(Set("gate", N("accept", V("ls"))))
    m.say([Bin(">", V("gate"), V("ls"))], "true")
    rest = [bytearray(c[0]) for c in conns]
    expect = [bytearray() for _ in conns]
    closed = [False] * len(conns)
    reset = [c[1] == "gone" for c in conns]
    hist = s.int(1, 14) if not big else s.int(1, 3)
    for _ in range(hist):
        if m.aborted: break
        if not m.refs or s.chance(1, 5): m.new(s.choice(SIZES) if not big else s.choice([1000, 65536, 150000]))
        if s.chance(1, 5): m.slice()
        i = s.below(len(conns))
        j = s.below(len(m.refs))
        nm, r, off, n = m.refs[j]
        c = s.below(12)
        if c < 4:                                          # recv
            extra, k = count_arg(s, n)
            e = N("recv", V(fds[i]), V(nm), *extra)
            if closed[i]: 
                m.call(e, (None, E(errno.EBADF)) if k is not None else NEG)
            elif k is None: m.call(e, NEG)
            elif reset[i]: continue
            elif not rest[i] and conns[i][1] != "shut": continue          # would wait for ever
            elif big:
                # whatever arrives: read until the request is full
                k = min(k, len(rest[i]))
                x = m.name("n")
                if k == 0 or k > 100000: continue
                m.st += [Set("got", Int(0)), While(Bin("<", V("got"), Int(k)), Block(
                    Set("n", N("recv", V(fds[i]), B("sliceUp", V(nm), V("got"), Bin("-", Int(k), V("got"))))),
                    If(Bin("<=", V("n"), Int(0)), Break()), Set("got", Bin("+", V("got"), V("n")))))]
                m.view(j)[:k] = rest[i][:k]
                del rest[i][:k]
                m.say([V("got")], str(k))
                m.moved = True
                continue
            else:
                k = min(k, len(rest[i]))
                m.view(j)[:k] = rest[i][:k]
                del rest[i][:k]
                if k: m.moved = True
                m.call(e, (k,))
                if s.chance(2, 3): m.dump(j)
        elif c < 8:                                        # send
            extra, k = count_arg(s, n)
            e = N("send", V(fds[i]), V(nm), *extra)
            if closed[i]: m.call(e, (None, E(errno.EBADF)) if k is not None else NEG)
            elif k is None: m.call(e, NEG)
            elif reset[i]:
                # the peer is gone: a message, and the program goes on
                m.st.append(ExprS(SetT([V("r"), V("msg")], e)))
                m.say([V("r"), Str(" "), Bin("or", Bin("==", V("msg"), Str(E(errno.EPIPE))), Bin("==", V("msg"), Str(E(errno.ECONNRESET))))], "none true" if k else "none true")
                m.moved = True
            else:
                expect[i] += bytes(m.view(j)[:k])
                m.call(e, (k,))
                if k: m.moved = True
        elif c == 8:                                       # datagrams
            if not us: continue
            u = s.choice(us)
            if not u[1]: continue
            extra, k = count_arg(s, n)
            e = N("recv", V(u[0]), V(nm), *extra)
            if k is None: m.call(e, NEG); continue
            d = u[1].pop(0)
            k = min(k, len(d))
            m.view(j)[:k] = d[:k]
            m.call(e, (k,))
            m.dump(j)
            m.moved = True
        elif c == 9:
            m.call(N("close", V(fds[i])), (-1,) if closed[i] else (0,))
            closed[i] = True
        elif c == 10:
            bad_call(m, s, fds)
            m.moved = True
        else:
            if s.chance(1, 3): wrong_type(m, s)
            elif not big: m.dump(j)
    if not m.aborted and s.chance(3, 4):
        for i in range(len(conns)):
            m.call(N("close", V(fds[i])), (-1,) if closed[i] else (0,))
    return m, conns, dgrams, expect, rest


def case(s, env, big=False):
    gc = s.choice([0, 0, 0, 7]) if not big else 0
    start = len(s.rec)
    for attempt in (0, 1):
        src = s if attempt == 0 else Src(ch=s.rec[start:])
        addr = address()
        m, conns, dgrams, expect, rest = scenario(src, addr, big)
        peer = Peer(addr, conns, dgrams, 6 if attempt == 0 else 20)
        text = render(Prog(*m.st))
        peer.start()
        res = env.server().run([(SRC, NAME, text)], heap=1 << 20, gc_every=gc, cpu=60, wall=peer.patience + 4)
        peer.stop = True
        peer.join(peer.patience + 10)
        if res.timed_out: why = "the program waits for ever" + (" (%s)" % peer.problem if peer.problem else " although everything it reads has been sent")
        elif peer.problem and res.clean and b"Address already in use" not in res.out: why = "the peer failed: %s" % peer.problem
        else: why = None
        if why is None and b"Address already in use" not in res.out: break
    if not res.timed_out: check_clean(res, text)
    finish(s, env, m, conns, expect, rest, peer, text, res, why)


def finish(s, env, m, conns, expect, rest, peer, text, res, why):
    if b"Address already in use" in res.out and b"Address already in use" not in m.out: raise Inconclusive("address taken")
    if why: raise Violation(why, program=text, output=res.out)
    want = bytes(m.out)
    for i, (a, p) in enumerate(peer.names):
        n = struct.unpack("=I", socket.inet_aton(a))[0]
        want = want.replace(b"@%d@" % i, b"true %d %d" % (n, socket.htons(p)))
    op = res.ops[0]
    if m.aborted:
        if op.ok: raise Violation("invalid arguments must abort the program", program=text, output=res.out)
        if not op.err.strip(): raise Violation("an abort without a message", program=text)
    elif not op.ok: raise Violation("the program must go on after failing calls", program=text, error=op.err, output=res.out, expected=want)
    if res.out != want: raise Violation("socket operations give something else", program=text, expected=want, output=res.out, error=op.err)
    for i, (data, mode, src) in enumerate(conns):
        if mode == "gone" or peer.got[i] is None: continue
        got = peer.got[i]
        # data left unread makes the kernel reset the connection at close: a prefix may be all that arrives
        if got != bytes(expect[i]) and not (rest[i] and bytes(expect[i]).startswith(got)):
            raise Violation("the peer received other bytes than those sent", program=text, connection=i, expected=bytes(expect[i])[:500], received=got[:500])
    if m.moved or m.aborted: env.nontrivial(text)
    env.count("aborted" if m.aborted else "ran through")
    env.sample("history", text.decode(errors="replace")[:3000])


def case_big(s, env): case(s, env, True)


def case_reuse(s, env):
    """Addresses in use: by a server that runs, or by connections that are still winding down."""
    addr = address()
    l = socket.socket()
    l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    try: l.bind(addr)
    except OSError: raise Inconclusive("address taken")
    l.listen(4)
    live = s.chance(1, 3)
    if not live:
        c = socket.create_connection(addr, timeout=20)
        a, _ = l.accept()
        a.close()                       # the server's side closes first
        c.recv(1)
        c.close()
        l.close()
    reuse = s.choice([[], [Bool(True)], [Bool(False)], [NoneE()]])
    ok = not live and reuse and reuse[0].k == "true"
    m = Model(s)
    AF = Dot(V("net"), "AF_INET")
    m.st.append(Set("ls", N("socket", AF, Dot(V("net"), "SOCK_STREAM"), Int(0), *reuse)))
    m.say([Bin(">=", V("ls"), Int(3))], "true")
    m.call(N("bind", V("ls"), AF, Int(addr[1]), *([Str(addr[0])] if s.chance(2, 3) else [])), () if ok else (E(errno.EADDRINUSE),))
    if ok: m.call(N("listen", V("ls"), Int(1)), ())
    m.call(N("close", V("ls")), (0,))
    text = render(Prog(*m.st))
    res = env.server().run([(SRC, NAME, text)])
    l.close()
    check_clean(res, text)
    if res.out != bytes(m.out) or not res.ops[0].ok:
        # the winding-down connection may have gone in the meantime: judge again only what can't change
        raise Violation("binding to a used address gives something else", program=text, expected=bytes(m.out), output=res.out, reuse=repr(reuse), live=live)
    env.nontrivial(text)
    env.sample("reuse", text.decode())


PHASES = [Phase("history", case, 6000, 60000), Phase("big", case_big, 300, 3000), Phase("reuse", case_reuse, 800, 6000)]
