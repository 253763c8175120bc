"""The server's event loop: start() against a scripted kernel, poller and clock (C14, C16, C17, C18, C20, C27).

Descriptors, registrations and the clock are tracked by the abstract machine, connections are the real objects with
only process() replaced by every outcome it can have; the loop is judged each time it waits."""
from .util import *
from ..models import Exc, throw, construct
from .poll import backends, POLLER
from .conn import Enums, CONN

SERVER = "ion::Http2Server"
NS = 1000000000
O_NONBLOCK = 0o4000
SOCK_NONBLOCK = 0o4000
F_GETFL, F_SETFL = 3, 4
EAGAIN, EINTR, EMFILE, ECONNABORTED, ENOBUFS, EPERM = 11, 4, 24, 103, 105, 1
LISTENER, POLLFD, FIRST = 3, 77, 10


class Pass:
    """What happens during one wait: events, and what the calls that follow give."""

    def __init__(self, events=(), accepts=(), faults=(), results=None, now=None, stop=False, error=False, raises=None, signal=None,
                 broken=()):
        self.events = list(events)          # ("listen", names) or (k-th connection, names)
        self.accepts = accepts              # "ok" or an errno, then EAGAIN
        self.faults = tuple(faults)         # names of calls that fail from here to the next wait
        self.results = results or {}        # k-th connection -> result of process()
        self.now = now
        self.stop = stop
        self.error = error
        self.signal = signal                # a signal is delivered during the wait
        self.broken = broken                # of 1 and 2, the descriptors whose reader is gone
        self.raises = raises or {}          # k-th connection -> type thrown by process()


class World:
    def __init__(self, D, rep, cleartext=True, budget=3000000):
        self.D = D
        self.rep = rep
        self.E = Enums(D)
        self.cleartext = cleartext
        eng = self.eng = Engine(D, peel=3, budget=budget)
        eng.run_dtors = True
        eng.maxstates = 2000
        self.all_faults = False
        h = eng.hooks
        self.listen_fd, self.poll_fd = LISTENER, POLLFD
        h["socket"] = lambda e, c: [(self.open(c.st, self.listen_fd), L(self.listen_fd))]
        h["accept"] = h["accept4"] = self.accept
        h["close"] = h["::close"] = self.close
        h["fcntl"] = self.fcntl
        h["ioctl"] = lambda e, c: [(c.st, ZERO)]
        for q in ("setsockopt", "getpeername", "shutdown", "bind", "listen"):
            h[q] = self.plain
        h["epoll_create1"] = h["epoll_create"] = lambda e, c: [(self.open(c.st, self.poll_fd), L(self.poll_fd))]
        h["epoll_ctl"] = lambda e, c: [(c.st, ZERO)]
        h["__errno_location"] = self.errno
        for cls in backends(D):
            h[cls + "::set"] = self.p_set
            h[cls + "::remove"] = self.p_remove
            h[cls + "::poll"] = self.p_poll
        h[CONN + "::process"] = self.process
        self.ctor_hook(CONN)
        h["std::chrono::steady_clock::now"] = lambda e, c: [(c.st, Opaque("tp", L(c.st.ghost.get("now", 0))))]
        for q in ("ion::HeaderBlockDecoder", "ion::HeaderBlockEncoder"):
            h[q + "::" + q.split("::")[-1]] = lambda e, c: [(c.st, Struct(clean(c.f["cls"]), (), None, c.f.get("clst")))]
        h["ion::TlsContext::TlsContext"] = lambda e, c: [(c.st, Struct("ion::TlsContext", (), ("tlsctx",), c.f.get("clst")))]
        h["ion::TlsContext::~TlsContext"] = lambda e, c: [(c.st, VOID)]
        h["SSL_new"] = self.ssl_new
        h["SSL_free"] = self.ssl_free
        h["SSL_set_fd"] = self.ssl_set_fd
        for q in (SERVER + "::start", SERVER + "::stop", CONN + "::process"):
            eng.fn(q)
        self.result = lambda n: self.E.get("ion::Http2ProcessResult", n)
        self.results = dict(self.E.E.get("ion::Http2ProcessResult", {}))
        self.event = dict(self.E.E.get("ion::PollEventType", {}))
        if not self.results or not {"Read", "Write", "Hangup", "Error"} <= set(self.event):
            raise AnalysisBroken("the result or event enumerations have changed")

    # ---- descriptors
    def log(self, st, *ev):
        st.ghost["log"] = st.ghost["log"] + (ev,)

    def bad(self, st, rid, e, c, what):
        st.ghost["bad"] = st.ghost["bad"] + ((rid, e.where(c.n, c.fr), what, self.fname(c.fr)),)

    def fname(self, fr):
        while fr is not None and (fr.fn is None or not clean(fr.fn["q"]).startswith("ion::")):
            fr = fr.parent
        return clean(fr.fn["q"]) if fr is not None else SERVER + "::start"

    def open(self, st, fd, nb=False):
        d = dict(st.ghost["open"])
        d[fd] = nb
        st.ghost["open"] = tuple(sorted(d.items()))
        return st

    def accept(self, e, c):
        st = c.st
        fd = num(c, 0)
        d = dict(st.ghost["open"])
        if fd != LISTENER:
            raise Giveup("accept from an unknown descriptor")
        if d.get(fd) is not True:
            self.bad(st, "nonblocking", e, c, "accept is called on a listening socket that is in blocking mode")
        q = st.ghost["accepts"]
        what, st.ghost["accepts"] = (q[0], q[1:]) if q else (EAGAIN, ())
        if what != "ok":
            self.log(st, "accept", -1)
            st.ghost["errno"] = what
            return [(st, L(-1))]
        k = FIRST
        while k in d:
            k += 1
        nb = False
        if c.q == "accept4":
            v = num(c, 3)
            nb = bool(v is not None and v & SOCK_NONBLOCK)
        n = st.ghost["nconn"]
        st.ghost["nconn"] = n + 1
        st.ghost["who"] = st.ghost["who"] + ((k, n),)
        self.open(st, k, nb)
        self.log(st, "accept", k)
        return [(st, L(k))]

    def close(self, e, c):
        st = c.st
        fd = num(c, 0)
        d = dict(st.ghost["open"])
        if fd is None:
            raise Giveup("close of an unknown descriptor")
        if fd not in d:
            self.bad(st, "once", e, c, "descriptor %d is closed although it is not open" % fd)
        d.pop(fd, None)
        st.ghost["open"] = tuple(sorted(d.items()))
        self.log(st, "close", fd)
        return [(st, ZERO)]

    def fcntl(self, e, c):
        st = c.st
        fd, op = num(c, 0), num(c, 1)
        d = dict(st.ghost["open"])
        if fd not in d:
            raise Giveup("fcntl on an unknown descriptor")
        name = {F_GETFL: "F_GETFL", F_SETFL: "F_SETFL"}.get(op, "fcntl")
        if name in st.ghost["faults"] and self.hits(fd):
            st.ghost["errno"] = EPERM
            return [(st, L(-1))]
        if op == F_GETFL:
            return [(st, L(2 | (O_NONBLOCK if d[fd] else 0)))]
        if op == F_SETFL:
            v = num(c, 2)
            if v is None:
                raise Giveup("fcntl(F_SETFL) with unknown flags")
            self.open(st, fd, bool(v & O_NONBLOCK))
        return [(st, ZERO)]

    def hits(self, fd):
        return fd != LISTENER or self.all_faults

    def plain(self, e, c):
        fd = num(c, 0)
        if c.q in c.st.ghost["faults"] and self.hits(fd):
            c.st.ghost["errno"] = EPERM
            return [(c.st, L(-1))]
        return [(c.st, ZERO)]

    def errno(self, e, c):
        root = ("v", 0, "errno")
        c.st.store[root] = L(c.st.ghost["errno"])
        return [(c.st, Ptr((root,), False))]

    # ---- TLS objects
    def ssl_new(self, e, c):
        if "SSL_new" in c.st.ghost["faults"]:
            return [(c.st, Ptr(None, True))]
        root = ("ssl", c.st.ghost["nssl"])
        c.st.ghost["nssl"] += 1
        c.st.ghost["ssl"] = c.st.ghost["ssl"] + (root,)
        c.st.store[root] = Opaque("ssl", root[1])
        return [(c.st, Ptr((root,), False))]

    def ssl_free(self, e, c):
        p = c.args[0]
        if not isinstance(p, Ptr):
            raise Giveup("SSL_free of an unknown object")
        if p.path is None:
            return [(c.st, VOID)]
        live = list(c.st.ghost["ssl"])
        if p.path[0] not in live:
            self.bad(c.st, "once", e, c, "an SSL object is freed twice")
        else:
            live.remove(p.path[0])
        c.st.ghost["ssl"] = tuple(live)
        return [(c.st, VOID)]

    def ssl_set_fd(self, e, c):
        return [(c.st, ZERO if "SSL_set_fd" in c.st.ghost["faults"] else ONE)]

    # ---- the poller
    def p_set(self, e, c):
        for s, fd in c.val(0):
            for s1, ev in c.val(1, s):
                fd, ev = cst(fd), cst(ev)
                if fd is None or ev is None:
                    raise Giveup("set() of an unknown descriptor")
                reg = dict(s1.ghost["reg"])
                if fd not in dict(s1.ghost["open"]):
                    self.bad(s1, "registered", e, c, "descriptor %d is registered although it is closed" % fd)
                reg[fd] = ev
                s1.ghost["reg"] = tuple(sorted(reg.items()))
                return [(s1, VOID)]

    def p_remove(self, e, c):
        for s, fd in c.val(0):
            fd = cst(fd)
            if fd is None:
                raise Giveup("remove() of an unknown descriptor")
            reg = dict(s.ghost["reg"])
            reg.pop(fd, None)
            s.ghost["reg"] = tuple(sorted(reg.items()))
            return [(s, VOID)]

    def p_poll(self, e, c):
        st = c.st
        tmo = c.val(0)[0][1]
        k = st.ghost["pass"]
        st.ghost["pass"] = k + 1
        st.ghost["faults"] = ()
        self.wait(e, c, st, k, tmo)
        if k >= len(self.script):
            self.ends.append(st)
            return []
        p = self.script[k]
        st.ghost["accepts"] = tuple(p.accepts)
        st.ghost["faults"] = p.faults
        if p.now is not None:
            st.ghost["now"] = p.now
        self.log(st, "pass", k)
        if p.stop:
            st = self.invoke(e, c, st, SERVER + "::stop", self.this, [L(self.E.get("ion::StopReason", "Signal"))])
            st.ghost["stopped"] = True
        t = c.n.get("t", c.f.get("r"))
        if p.error:
            err = sorted(self.E.E.get("ion::PollError", {"": 0}).values())[0]
            return [(st, Opt(False, VOID, L(err), "exp", t))]
        et = e.find_type("ion::PollEvent")
        names = list(e.field_types("ion::PollEvent"))
        ft = e.field_types("ion::PollEvent")
        evn = [n for n in names if e.T(ft[n])["k"] == "enum"]
        fdn = [n for n in names if n not in evn]
        if len(evn) != 1 or len(fdn) != 1:
            raise AnalysisBroken("ion::PollEvent is not a descriptor with its events")
        who = {n: fd for fd, n in st.ghost["who"]}
        opened = dict(st.ghost["open"])
        ps = []
        got = []
        for x, names in p.events:
            fd = LISTENER if x == "listen" else who.get(x)
            if fd is None or fd not in opened or (x != "listen" and dict((f, n) for f, n in st.ghost["who"]).get(fd) != x):
                continue
            ps.append(("v", Struct("ion::PollEvent", tuple(sorted([(evn[0], L(sum(self.event[n] for n in names))), (fdn[0], L(fd))])), None, et)))
            got.append(fd)
        st.ghost["got"] = tuple(got)
        return [(st, Opt(True, Seq("vec", L(len(ps)), tuple(ps), et, None), None, "exp", t))]

    def invoke(self, e, c, st, name, this, args):
        f, u = e.fn(name)
        f2 = {"q": f["q"], "u": u, "p": [p["t"] for p in f["params"]], "r": f["ret"], "body": True, "cls": f.get("cls"), "m": True}
        r = e.dispatch(Call(e, {"k": "MCall", "l": c.n.get("l"), "t": f["ret"], "f": f2}, f2, clean(f["q"]), this, args, [None] * len(args),
                            st, c.fr, None, False))
        return r[0][0]

    # ---- connections
    def ctor_hook(self, cls):
        def pre(e, c):
            if not c.ctor or not c.args:
                return NotImplemented
            p = c.args[0]
            v = p
            while isinstance(v, Ptr) and v.path is not None:
                x = e.read(c.st, v.path)[0][1]
                if isinstance(x, Struct):
                    c.st.ghost["kinds"] = c.st.ghost["kinds"] + ((x.cls, e.where(c.n, c.fr), self.fname(c.fr)),)
                    break
                if x == v or not isinstance(x, Ptr):
                    break
                v = x
            return NotImplemented
        self.eng.hooks[cls + "::" + cls.split("::")[-1]] = pre

    def fd_of(self, e, st, v, seen=None):
        """The descriptor a connection owns."""
        seen = set() if seen is None else seen
        if isinstance(v, Ptr):
            if v.path is None or v.path in seen:
                return None
            seen.add(v.path)
            if v.path[0] not in st.store:
                return None
            return self.fd_of(e, st, e.read(st, v.path)[0][1], seen)
        if isinstance(v, RefV):
            return self.fd_of(e, st, v.loc, seen)
        if isinstance(v, Struct):
            if v.cls == "ion::SocketFd":
                for _, x in v.fields:
                    if isinstance(x, Lin):
                        return x.c
                return None
            for n, x in v.fields:
                if isinstance(x, (Ptr, Struct, RefV)) and n != "router_":
                    r = self.fd_of(e, st, x, seen)
                    if r is not None:
                        return r
        return None

    def process(self, e, c):
        st = c.st
        fd = self.fd_of(e, st, c.this)
        if fd is None or fd not in dict(st.ghost["open"]):
            self.bad(st, "use", e, c, "a connection is processed after it was removed")
            return [(st, L(self.result("DiscardConnection")))]
        k = dict(st.ghost["who"]).get(fd)
        p = self.script[min(st.ghost["pass"], len(self.script)) - 1]
        self.log(st, "process", fd)
        if k in p.raises:
            e.raise_(st, Exc(p.raises[k], Top("exc"), e.where(c.n, c.fr)))
            return []
        r = p.results.get(k, "WantRead")
        w = dict(st.ghost["last"])
        w[fd] = r
        st.ghost["last"] = tuple(sorted(w.items()))
        return [(st, L(self.result(r)))]

    # ---- the judgement at each wait
    def wait(self, e, c, st, k, tmo):
        at = e.where(c.n, c.fr)
        opened = dict(st.ghost["open"])
        conns = {fd for fd in opened if fd not in (LISTENER, POLLFD)}
        reg = dict(st.ghost["reg"])
        st.ghost["waits"] = st.ghost["waits"] + ((tmo, at, frozenset(conns), tuple(sorted(reg.items())), st.ghost["now"],
                                                 tuple(sorted(opened.items())), st.ghost["last"], st.ghost.get("stopped", False),
                                                 frozenset(dict(st.ghost["who"]).get(f) for f in conns)),)

    # ---- running
    def blank(self):
        st = St()
        st.ghost.update(open=(), reg=(), log=(), bad=(), accepts=(), nconn=0, who=(), errno=0, now=0, faults=(), ssl=(), nssl=0,
                        kinds=(), last=(), waits=(), got=(), nctx=0)
        st.ghost["pass"] = 0
        return st

    def start(self, script):
        """Runs the server over the script: (states at its end or that returned, exception states)."""
        e = self.eng
        e.steps = 0
        self.script = script
        self.ends = []
        st = self.blank()
        e.gone_uses = []
        t = e.find_type("ion::ServerConfiguration")
        cfg, _ = make(e, st, "config", "ion::ServerConfiguration")
        st, cp = cfg[0]
        v = e.read(st, cp.path)[0][1]
        ft = e.field_types("ion::ServerConfiguration")
        bools = [n for n in ft if e.T(ft[n])["k"] == "bool"]
        if len(bools) != 1:
            raise AnalysisBroken("no single cleartext option in ion::ServerConfiguration")
        v = v.with_(bools[0], self.cleartext)
        for n in ft:
            if e.tname(ft[n]) == "std::optional":
                v = v.with_(n, Opt(True, Opaque("std::filesystem::path", ("given", n)) if "path" in e.tname(e.targ(ft[n], 0)) else
                                   Seq("str", ONE, (("c", b"x"),), None, None), None, "opt", ft[n]))
        st.store[cp.path[0]] = v
        live, exc = make(e, st, "server", SERVER, (cp,))
        if len(live) != 1:
            raise AnalysisBroken("the server cannot be constructed")
        st, self.this = live[0]
        f, _ = e.fn(SERVER + "::start")
        res, exc = e.run(SERVER + "::start", st, self.this, [L(8443)] * len(f["params"]), len(f["params"]))
        return [s for s, _ in res], self.ends, exc


def cst(v):
    return v.c if isinstance(v, Lin) and not v.t else None


def num(c, i):
    return cst(c.val(i)[0][1]) if i < len(c.args) else None


R, W, H, X = "Read", "Write", "Hangup", "Error"
SUBSETS = [tuple(n for i, n in enumerate((R, W, H, X)) if m >> i & 1) for m in range(16)]


def ns(d):
    return d.data.c if isinstance(d, Opaque) and d.cls == "dur" and isinstance(d.data, Lin) and not d.data.t else None


class Run:
    """One script, judged."""

    def __init__(self, w, rep, what, script):
        self.w, self.rep, self.what = w, rep, what
        self.done, self.ends, self.exc = w.start(script)
        self.script = script
        rep.count("scripts")
        rep.count("waits", sum(len(s.ghost["waits"]) for s in self.done + self.ends))
        self.at = where_fn(w.eng, SERVER + "::start")
        self.states = self.done + self.ends
        if not self.states and not self.exc:
            rep.undecided("script", "no path reaches the end of the script '%s'" % what)

    def judge(self, rid, st, ok, text, fn=None, at=None):
        self.rep.judge(rid, self.w.eng, st, ok, fn or SERVER + "::start", at or self.at, "%s: %s" % (self.what, text))

    def bads(self, st, rid, name=None):
        hit = False
        for r, at, text, fn in st.ghost["bad"]:
            if r == rid:
                hit = True
                self.judge(name or rid, st, False, text, fn, at)
        if not hit:
            self.rep.ok(name or rid)

    def registered(self):
        for st in self.states:
            self.bads(st, "registered")
            for k, (tmo, at, conns, reg, now, opened, last, stopped, _) in enumerate(st.ghost["waits"]):
                reg = dict(reg)
                rc = {f for f in reg if f != LISTENER}
                self.judge("registered", st, conns == rc, "at wait %d the open connections are %s but the poller watches %s" %
                           (k, sorted(conns), sorted(rc)), at=at)
                self.judge("registered", st, bool(reg.get(LISTENER, 0) & self.w.event[R]), "at wait %d the listening socket is not watched" % k,
                           at=at)
                for f in rc & conns:
                    self.judge("registered", st, bool(reg[f] & self.w.event[R]), "at wait %d connection %d is not watched for input" % (k, f), at=at)
                    if dict(last).get(f) == "WantWrite":
                        self.judge("registered", st, bool(reg[f] & self.w.event[W]),
                                   "at wait %d connection %d has output pending but is not watched for writability" % (k, f), at=at)

    def use(self):
        for st in self.states:
            self.bads(st, "use")
        for s, key, at in self.w.eng.gone_uses:
            self.rep.judge("use", self.w.eng, s, False, SERVER + "::start", at, "%s: a connection is used after it was removed from the table" %
                           self.what)

    def timeouts(self, rid):
        for st in self.states:
            for k, (tmo, at, *_) in enumerate(st.ghost["waits"]):
                n = ns(tmo)
                if n is None:
                    self.rep.undecided(rid, "time-out %r" % (tmo,))
                else:
                    self.judge(rid, st, 0 <= n <= 5 * NS, "the loop waits %s ms" % (n // 1000000), at=at)

    def nonblocking(self):
        for st in self.states:
            self.bads(st, "nonblocking")
            for k, (tmo, at, conns, reg, now, opened, *_) in enumerate(st.ghost["waits"]):
                for f, nb in opened:
                    if f != POLLFD:
                        self.judge("nonblocking", st, nb is True, "at wait %d descriptor %d (%s) is in blocking mode" %
                                   (k, f, "the listening socket" if f == LISTENER else "a connection"), at=at)

    def survives(self):
        for x in self.exc:
            self.rep.fail("survives", self.w.eng, x, SERVER + "::start", x.exc.where,
                          "%s: an exception (%s) leaves the event loop" % (self.what, x.exc.ty))
        if not self.exc:
            self.rep.ok("survives")
        for st in self.states:
            self.judge("survives", st, bool(st.ghost.get("stopped")) or len(st.ghost["waits"]) > len(self.script),
                       "the loop ends although nobody stopped it")


L_ = ("listen", (R,))


def ok(n=1):
    return Pass([L_], ["ok"] * n)


def accepted(w):
    """How many accepts one readiness of the listener takes."""
    return 1


def histories(w, tier):
    """(name, script): accept two connections, then every event and outcome on the first while the second stays."""
    res = sorted(w.results)
    out = []
    base = [ok(), ok()]
    for ev in SUBSETS[1:]:
        for r in res:
            out.append(("%s -> %s" % ("|".join(ev), r), base + [Pass([(0, ev), (1, (R,))], results={0: r}), Pass(), ok(), Pass([(1, (R,)), (0, (W,)), (2, (R,))])]))
    for r1 in res:
        for r2 in res:
            out.append(("both %s, %s" % (r1, r2), base + [Pass([(0, (R,)), L_, (1, (R, W))], ["ok"], results={0: r1, 1: r2}),
                                                         Pass([(0, (R, W)), (1, (R,)), (2, (R,))]), Pass([(2, (H,)), L_, (1, (R,))], ["ok"]), Pass()]))
    out.append(("poll fails", base + [Pass(error=True), ok(), Pass(error=True), Pass([(0, (R,)), (2, (R,))])]))
    out.append(("no events", base + [Pass(), Pass(), Pass([(0, (R,))])]))
    out.append(("first connection gone, then all", base + [ok(), Pass([(1, (H,)), (0, (R,)), (2, (R,))], results={0: "DiscardConnection", 2: "WantWrite"}),
                                                           Pass([(2, (W,))], results={2: "WantRead"}), Pass()]))
    return out


def c17(D, rep, tier):
    rep.rule("registered", "each time the event loop waits, the descriptors of the open connections are exactly those registered with the "
             "poller besides the listening socket, each for input, and for writability if it has output pending")
    rep.rule("use", "no connection is used after it was removed, and no iterator of the table after its element was")
    rep.rule("limit", "never more than 128 connections are open when the loop waits; a surplus connection is accepted, and closed before the "
             "loop waits again; below the limit every connection is kept")
    w = World(D, rep)
    for name, script in histories(w, tier):
        r = Run(w, rep, name, script)
        r.registered()
        r.use()
    idle = [ok(), ok(), ok()]
    for gone in range(8):
        ages = [Pass([(k, (R,)) for k in range(3) if not gone >> k & 1], now=0)]
        s = [Pass([L_], ["ok"], now=0 if gone >> k & 1 else 4 * NS) for k in range(3)]
        s[0].now = 0 if gone & 1 else None
        r = Run(w, rep, "idle connections %s" % bin(gone)[2:], timed(gone) + [Pass(), ok(), Pass()])
        r.registered()
        r.use()
    full(D, rep, w)
    rep.engine(w.eng, ("map", "null", "opt", "iter"), "use")
    rep.absorb(w.eng)


def timed(gone, n=3):
    """n accepts after which exactly the connections in the set 'gone' are idle for more than five seconds."""
    return [Pass([L_], ["ok"], now=(0 if gone >> k & 1 else 4 * NS)) for k in range(n)] + [Pass(now=5 * NS + 1)]


def full(D, rep, w):
    n = 128
    script = [ok() for _ in range(n)] + [ok(), ok(), Pass([(5, (H,))]), ok(), ok(), Pass()]
    r = Run(w, rep, "128 connections and more", script)
    r.registered()
    for st in r.states:
        ws = st.ghost["waits"]
        acc = [sum(1 for e in seg if e[0] == "accept" and e[1] >= 0) for seg in segments(st)]
        for k, (tmo, at, conns, *_) in enumerate(ws):
            r.judge("limit", st, len(conns) <= 128, "at wait %d there are %d connections" % (k, len(conns)), at=at)
        r.judge("limit", st, len(ws) > n and len(ws[n][2]) == n, "after %d connections asked for, %d are open" % (n, len(ws[min(n, len(ws) - 1)][2])))
        for k in (n, n + 1, n + 4):
            r.judge("limit", st, k < len(acc) and acc[k] >= 1, "a surplus connection is not accepted (and refused) but left waiting")
        if len(ws) > n + 4:
            r.judge("limit", st, len(ws[n + 3][2]) == n - 1 and len(ws[n + 4][2]) == n, "a place that became free is not given to the next connection")


def segments(st):
    """The log between waits: one list per pass."""
    out = []
    for e in st.ghost["log"]:
        if e[0] == "pass":
            out.append([])
        elif out:
            out[-1].append(e)
    return out


FAULTS = [("accept fails: too many open files", [], [EMFILE]), ("accept fails: connection aborted", [], [ECONNABORTED]),
          ("accept fails: no buffers", [], [ENOBUFS]), ("accept is interrupted", [], [EINTR]), ("nothing to accept", [], [EAGAIN]),
          ("fcntl(F_GETFL) fails", ["F_GETFL"], ["ok"]), ("fcntl(F_SETFL) fails", ["F_SETFL"], ["ok"]),
          ("setsockopt fails", ["setsockopt"], ["ok"]), ("getpeername fails", ["getpeername"], ["ok"]),
          ("SSL_new fails", ["SSL_new"], ["ok"]), ("SSL_set_fd fails", ["SSL_set_fd"], ["ok"])]


def faulty(D, rep, clear):
    """[(run, name)] one accept that fails, between accepts that succeed."""
    out = []
    for name, faults, acc in FAULTS:
        if clear and "SSL" in name:
            continue
        w = World(D, rep, cleartext=clear)
        r = Run(w, rep, name + ("" if clear else " (TLS)"), [ok(), Pass([L_], acc, faults=faults), Pass([(0, (R,))]), ok(), Pass([(0, (R,))]),
                                                            Pass(stop=True)])
        out.append((w, r))
    return out


def c14(D, rep, tier):
    rep.rule("survives", "no exception raised while a connection is accepted, set up or processed leaves the event loop, and the loop goes "
             "on to serve: the connections already open stay, and the next one is accepted")
    for clear in (True, False):
        for w, r in faulty(D, rep, clear):
            r.survives()
            for st in r.states:
                segs = segments(st)
                r.judge("survives", st, len(segs) > 3 and any(e[0] == "accept" and e[1] >= 0 for e in segs[3]),
                        "the next connection is not accepted after the failure")
                r.judge("survives", st, len(segs) > 4 and ("process", FIRST) in segs[4], "the connection opened before is no longer served")
            rep.absorb(w.eng)
    w = World(D, rep)
    for name, script in histories(w, "quick"):
        Run(w, rep, name, script).survives()
    # exceptions out of process(): either there are none, or the loop contains them
    from .conn_rules import escapes
    J, esc = escapes(D, rep, tier, "survives")
    for ty in esc:
        r = Run(w, rep, "process() throws %s" % ty, [ok(), Pass([(0, (R,))], raises={0: ty}), Pass()])
        if r.exc:
            x, at = esc[ty][0]
            rep.fail("survives", J.eng, x, CONN + "::process", at, "an exception (%s) leaves process() and then the event loop" % ty)
    rep.absorb(w.eng)
    rep.absorb(J.eng)


def c18(D, rep, tier):
    rep.rule("reaped", "whatever the wait gave (events for others, none, a failure), every connection idle for more than five seconds is "
             "removed before the loop has waited once more, and no other connection is removed for it")
    rep.rule("bounded-wait", "each wait of the event loop has a time-out between nothing and five seconds")
    w = World(D, rep)
    n = 3 if tier == "quick" else 4
    for gone in range(1 << n):
        for how in ("none", "error", "others", "listen"):
            if how == "others":
                p = lambda: Pass([(k, (R,)) for k in range(n) if not gone >> k & 1])
            elif how == "listen":
                p = lambda: Pass([L_], ["ok"])
            else:
                p = lambda: Pass(error=how == "error")
            s = timed(gone, n)[:-1]
            last = p()
            last.now = 5 * NS + 1
            r = Run(w, rep, "idle set %s, then %s" % (bin(gone)[2:], how), s + [last, p()])
            r.timeouts("bounded-wait")
            for st in r.states:
                ws = st.ghost["waits"]
                for k in range(n):
                    # the wait after a whole pass in which it was idle for too long
                    there = any(len(ws) > j and k in ws[j][8] for j in (n + 1,))
                    before = len(ws) > n and k in ws[n][8]
                    if gone >> k & 1:
                        r.judge("reaped", st, before and not there, "connection %d is idle for more than five seconds but stays open" % k)
                    else:
                        r.judge("reaped", st, there, "connection %d was active within five seconds but is removed" % k)
    rep.absorb(w.eng)


def c27(D, rep, tier):
    rep.rule("nonblocking", "the listening socket is non-blocking before accept is called on it, and every accepted socket before the loop waits again")
    rep.rule("bounded-wait", "each wait of the event loop has a time-out between nothing and five seconds")
    for clear in (True, False):
        for w, r in faulty(D, rep, clear):
            r.nonblocking()
            r.timeouts("bounded-wait")
            rep.absorb(w.eng)


def c20(D, rep, tier):
    rep.rule("tls-connection", "unless cleartext mode is configured, every connection the server creates is given a TLS transport")
    for clear in (True, False):
        w = World(D, rep, cleartext=clear)
        r = Run(w, rep, "cleartext" if clear else "TLS", [ok(), ok(), Pass([(0, (R,)), L_], ["ok"])])
        for st in r.states:
            ks = st.ghost["kinds"]
            if not ks:
                rep.undecided("tls-connection", "no connection is created")
            for cls, at, fn in ks:
                tls = ssl_class(w, cls)
                if not clear:
                    r.judge("tls-connection", st, tls, "a connection is served over %s although cleartext was not asked for" % cls, fn, at)
                rep.sample("tls-connection", "%s -> %s" % ("cleartext" if clear else "TLS", cls))
        rep.absorb(w.eng)


def ssl_class(w, cls):
    """Whether reading through this transport is reading through OpenSSL."""
    return calls_any(w.D, cls + "::read", ("SSL_read", "SSL_read_ex")) and calls_any(w.D, cls + "::write", ("SSL_write", "SSL_write_ex"))


def calls_any(D, name, targets, seen=None):
    """Whether a function can reach a call of one of the targets."""
    from ..engine import clean
    todo = [u for u, f in D["functions"].items() if clean(f["q"]) == name]
    seen = set()
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        f = D["functions"].get(u)
        if f is None or not f.get("body"):
            continue
        for c in callees(f["body"]):
            if clean(c["q"]) in targets:
                return True
            if c.get("u") in D["functions"]:
                todo.append(c["u"])
    return False


def callees(n):
    """Every callee mentioned below a syntax node."""
    if isinstance(n, dict):
        f = n.get("f")
        if isinstance(f, dict) and "q" in f:
            yield f
        for k, v in n.items():
            if isinstance(v, (dict, list)) and k != "f":
                yield from callees(v)
    elif isinstance(n, list):
        for x in n:
            yield from callees(x)


def stop_rule(D, rep, tier):
    """C19: stop() ends the loop after at most one more wait, whatever is happening."""
    rep.rule("stops", "once stop() was called while the loop waits, start() returns before it waits a second time, whatever the wait gave")
    w = World(D, rep)
    cases = [("no events", Pass(stop=True)), ("the wait fails (interrupted)", Pass(stop=True, error=True)),
             ("events", Pass([L_, (0, (R,)), (1, (H,))], ["ok"], stop=True))]
    for name, p in cases:
        r = Run(w, rep, name, [ok(), ok(), p, Pass(), Pass(), Pass()])
        for st in r.states:
            after = [x for x in st.ghost["waits"] if x[7]]
            r.judge("stops", st, st in r.done and len(after) <= 1, "after stop() the loop waits %d more times%s" %
                    (len(after), "" if st in r.done else " and does not end"))
    rep.absorb(w.eng)


def released(D, rep, tier):
    """C16: descriptors and SSL objects at the end of start() and of the server."""
    rep.rule("released", "when the server is destroyed after its loop ended, every socket, epoll descriptor and SSL object obtained on the way "
             "has been released, and each of them once")
    hist = None
    for clear in (True, False):
        runs = faulty(D, rep, clear)
        w0 = World(D, rep, cleartext=clear)
        for name, script in histories(w0, "quick"):
            runs.append((w0, Run(w0, rep, name + ("" if clear else " (TLS)"), script + [Pass(stop=True)])))
        for w, r in runs:
            for st in r.done:
                for s in w.eng.destroy_root(st, w.this, SERVER):
                    r.bads(s, "once", "released")
                    left = dict(s.ghost["open"])
                    r.judge("released", s, not left, "descriptors %s are still open" % sorted(left))
                    r.judge("released", s, not s.ghost["ssl"], "%d SSL objects are never freed" % len(s.ghost["ssl"]))
            for st in r.exc:
                r.bads(st, "once", "released")
            rep.absorb(w.eng)
