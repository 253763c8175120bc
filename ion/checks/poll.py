"""C28: the back ends of ion::Poller against the system calls they make (poll(2), epoll(7))."""
from .util import *

POLLER = "ion::Poller"
# the Linux ABI
POLLIN, POLLPRI, POLLOUT, POLLERR, POLLHUP, POLLNVAL, RDHUP = 1, 2, 4, 8, 16, 32, 0x2000
HARMLESS = POLLPRI | RDHUP          # may be asked for in addition
ADD, DEL, MOD = 1, 2, 3
EINTR = 4
CALLS = ("epoll_ctl", "epoll_wait", "epoll_pwait", "poll", "ppoll", "epoll_create1", "epoll_create")


def backends(D):
    out = []
    for k, r in sorted(D["records"].items()):
        if POLLER in r.get("bases", ()) and k != POLLER:
            out.append(k)
    return out


class World:
    """One poller object and a scripted kernel."""

    def __init__(self, D, cls, rep):
        self.eng = eng = Engine(D, peel=2, budget=400000)
        self.cls = cls
        self.rep = rep
        self.ready = []         # (fd, returned bits) the kernel reports
        self.ret = None         # or the failing return value
        self.errno = 0
        self.used = set()
        self.E = None
        for u, e in D["enums"].items():
            if clean(u) == "ion::PollEventType":
                self.E = e
        if not self.E or not {"Read", "Write", "Hangup", "Error"} <= set(self.E):
            raise AnalysisBroken("ion::PollEventType has not the enumerators Read, Write, Hangup and Error")
        h = eng.hooks
        h["epoll_create1"] = h["epoll_create"] = lambda e, c: [(c.st, L(77))]
        h["epoll_ctl"] = self.ctl
        h["epoll_wait"] = lambda e, c: self.wait(e, c, 2, 3)
        h["epoll_pwait"] = lambda e, c: self.wait(e, c, 2, 3)
        h["poll"] = self.poll
        h["close"] = lambda e, c: [(c.st, ZERO)]
        h["__errno_location"] = self.err
        h["strerror"] = lambda e, c: [(c.st, It((("lit", b"?", None),), ZERO, False))]
        st = St()
        st.ghost["reg"] = ()
        st.ghost["log"] = ()
        live, _ = make(eng, st, "poller", cls)
        if len(live) == 1:
            self.this = live[0][1]
        else:
            raise AnalysisBroken("%s cannot be constructed" % cls)
        self.st0 = live[0][0]
        v = eng.read(self.st0, self.this.path)[0][1]
        if isinstance(v, Struct) and v.cls != cls:
            raise AnalysisBroken("constructing %s gives %s" % (cls, v.cls))

    def err(self, e, c):
        root = ("v", 0, "errno")
        c.st.store[root] = L(self.errno)
        return [(c.st, Ptr((root,), False))]

    def log(self, st, *ev):
        st.ghost["log"] = st.ghost["log"] + (ev,)

    def ctl(self, e, c):
        self.used.add("epoll")
        out = []
        for s, op in c.val(1):
            for s1, fd in c.val(2, s):
                p = c.args[3]
                evs, data = None, None
                if isinstance(p, Ptr) and p.path is not None:
                    for s2, evs in field(e, s1, e.read(s1, p.path)[0][1], "events"):
                        break
                    for s2, d in field(e, s1, e.read(s1, p.path)[0][1], "data"):
                        for s2, data in field(e, s1, d, "fd"):
                            break
                reg = dict(s1.ghost["reg"])
                at = e.where(c.n, c.fr)
                op_, fd_ = num(op), num(fd)
                if op_ is None or fd_ is None:
                    raise Giveup("epoll_ctl with an unknown operation")
                ok = (op_ == ADD) == (fd_ not in reg)
                self.log(s1, "ctl", op_, fd_, num(evs), num(data), ok, at)
                if ok:
                    if op_ == DEL:
                        reg.pop(fd_, None)
                    else:
                        reg[fd_] = (num(evs), num(data))
                    s1.ghost["reg"] = tuple(sorted(reg.items()))
                out.append((s1, L(0 if ok else -1)))
        return out

    def wait(self, e, c, imax, itmo):
        self.used.add("epoll")
        for s, tmo in c.val(itmo):
            for s1, mx in c.val(imax, s):
                at = e.where(c.n, c.fr)
                self.log(s1, "wait", num(tmo), at)
                if self.ret is not None:
                    return [(s1, L(self.ret))]
                reg = dict(s1.ghost["reg"])
                fill = [(fd, b) for fd, b in self.ready if fd in reg][:num(mx) if num(mx) is not None else 0]
                buf = c.args[1]
                s1.ghost["got"] = tuple(fd for fd, _ in fill)
                res = [s1]
                for i, (fd, bits) in enumerate(fill):
                    nx = []
                    data = L(reg[fd][1]) if reg[fd][1] is not None else Top("data")
                    ev = Struct("epoll_event", (("data", Struct("epoll_data", (("fd", data),), None, None)), ("events", L(bits))),
                                None, None)
                    for x in res:
                        for y in e.write(x, buf.path + (("i", e.canon(x, buf.idx + i)),), ev):
                            nx.append(y)
                    res = nx
                return [(x, L(len(fill))) for x in res]
        return []

    def poll(self, e, c):
        self.used.add("poll")
        for s, n in c.val(1):
            for s1, tmo in c.val(2, s):
                self.log(s1, "wait", num(tmo), e.where(c.n, c.fr))
                k = num(n)
                buf = c.args[0]
                if k is None:
                    raise Giveup("poll over an unknown number of descriptors")
                ready = dict(self.ready)
                seen = []
                hits = 0
                res = [s1]
                for i in range(k):
                    at = buf.path + (("i", e.canon(s1, buf.idx + i)),)
                    x = e.read(s1, at)[0][1]
                    fd = num(field(e, s1, x, "fd")[0][1])
                    evs = num(field(e, s1, x, "events")[0][1])
                    seen.append((fd, evs))
                    got = ready.get(fd, 0)
                    hits += got != 0
                    if self.ret is None:
                        res = [y for r in res for y in e.write(r, at + ("revents",), L(got))]
                for r in res:
                    r.ghost["got"] = tuple(fd for fd, _ in seen)
                    r.ghost["reg"] = tuple(sorted((fd, (evs, fd)) for fd, evs in seen))
                return [(r, L(self.ret if self.ret is not None else hits)) for r in res]
        return []

    # ---- the interface
    def call(self, states, name, *args):
        out = []
        for s in states:
            live, exc = self.eng.run(self.cls + "::" + name, s, self.this, list(args), len(args))
            out += [(x, v) for x, v in live]
            for x in exc:
                self.rep.fail("waiting", self.eng, x, self.cls + "::" + name, where_fn(self.eng, self.cls + "::" + name),
                              "an exception (%s) leaves the poller" % x.exc.ty)
        return out

    def set(self, states, fd, *names):
        v = sum(self.E[n] for n in names)
        return [s for s, _ in self.call(states, "set", L(fd), L(v))]

    def remove(self, states, fd):
        return [s for s, _ in self.call(states, "remove", L(fd))]

    def wait_ms(self, states, ms=25):
        return self.call(states, "poll", Opaque("dur", L(ms * 1000000)))


def num(v):
    return v.c if isinstance(v, Lin) and not v.t else None


def text(w, v):
    return "|".join(n for n in ("Read", "Write", "Hangup", "Error") if v & w.E[n]) or "None"


INTEREST = [(), ("Read",), ("Write",), ("Read", "Write")]


def kernel_bits(names):
    return (POLLIN if "Read" in names else 0) | (POLLOUT if "Write" in names else 0)


def c28(D, rep, tier):
    rep.rule("interest", "after set(fd, events) the kernel is asked for readability exactly if Read, and for writability exactly if "
             "Write is among the events of the last set of that descriptor, level triggered, for every descriptor independently")
    rep.rule("readiness", "for every combination of returned events each descriptor is reported with exactly its own events: "
             "readable -> Read, writable -> Write, hang-up -> Hangup, error -> Error")
    rep.rule("waiting", "time-outs, interruptions and failures yield no events and no exception; the given time-out reaches the kernel")
    names = backends(D)
    if not names:
        raise AnalysisBroken("no class implements %s" % POLLER)
    for cls in names:
        try:
            one(D, rep, tier, cls)
        except (AnalysisBroken, Giveup) as e:
            rep.broken.append("%s: %s" % (cls, e))


def asked(w, s):
    return dict((fd, v[0]) for fd, v in s.ghost["reg"])


def check_interest(w, rep, s, want, what):
    fn = w.cls + "::set"
    at = where_fn(w.eng, fn)
    got = asked(w, s)
    for fd in set(got) | set(want):
        g, x = got.get(fd), want.get(fd)
        if fd in got and g is None:
            rep.undecided("interest", "%s: events of descriptor %s not known" % (fn, fd))
            continue
        ok = (g is None) == (x is None) and (g is None or (g & ~HARMLESS) == x)
        if ok:
            rep.ok("interest")
        else:
            rep.fail("interest", w.eng, s, fn, at, "%s: descriptor %d is registered with %s, should be %s" %
                     (what, fd, "nothing" if g is None else hex(g), "absent" if x is None else hex(x)))
    rep.sample("interest", "%s %s -> %s" % (w.cls, what, got))


def one(D, rep, tier, cls):
    eng = None
    # interest, through every change of interest and removal
    for a in INTEREST:
        for b in INTEREST:
            w = World(D, cls, rep)
            w.ret = 0
            sts = w.set([w.st0], 5, *a)
            sts = w.set(sts, 9, "Read")
            sts = [s for s, _ in w.wait_ms(sts)]
            for s in sts:
                check_interest(w, rep, s, {5: kernel_bits(a), 9: POLLIN}, "set(5,%s) set(9,Read)" % "|".join(a))
            sts = w.set(sts, 5, *b)
            sts = [s for s, _ in w.wait_ms(sts)]
            for s in sts:
                check_interest(w, rep, s, {5: kernel_bits(b), 9: POLLIN}, "set(5,%s) then set(5,%s)" % ("|".join(a), "|".join(b)))
            sts = w.remove(sts, 5)
            sts = [s for s, _ in w.wait_ms(sts)]
            for s in sts:
                check_interest(w, rep, s, {9: POLLIN}, "remove(5)")
            sts = w.set(sts, 5, *a)
            sts = [s for s, _ in w.wait_ms(sts)]
            for s in sts:
                check_interest(w, rep, s, {5: kernel_bits(a), 9: POLLIN}, "set(5,%s) after its removal" % "|".join(a))
            rep.count("interest_sequences")
            rep.absorb(w.eng)
    # readiness
    combos = [b for b in range(32) if not b & POLLPRI]
    extra = [RDHUP | POLLIN, POLLPRI | POLLIN]
    order = [(5, 9), (9, 5)]
    for bits in combos + extra:
        others = combos if tier == "thorough" else sorted({POLLIN, POLLOUT, POLLHUP | POLLERR, bits ^ (POLLIN | POLLOUT)} & set(combos))
        for other in others:
            for o in order:
                w = World(D, cls, rep)
                sts = w.set([w.st0], 5, "Read", "Write")
                sts = w.set(sts, 9, "Read", "Write")
                rd = {5: bits, 9: other}
                w.ready = [(fd, rd[fd]) for fd in o if rd[fd]]
                if not w.ready:
                    continue
                judge_ready(w, rep, sts, rd)
    # as many events as the buffer takes, and more
    for n in (64, 65) if tier == "quick" else (63, 64, 65, 128, 129):
        w = World(D, cls, rep)
        sts = [w.st0]
        for i in range(n):
            sts = w.set(sts, 100 + i, "Read")
        rd = {100 + i: (POLLIN, POLLHUP, POLLIN | POLLERR)[i % 3] for i in range(n)}
        w.ready = sorted(rd.items())
        judge_ready(w, rep, sts, rd, rounds=2)
    # nothing happened
    for ret, errno in ((0, 0), (-1, EINTR), (-1, 9), (-1, 14), (-1, 22)):
        w = World(D, cls, rep)
        w.ret, w.errno = ret, errno
        sts = w.set([w.st0], 5, "Read")
        fn = cls + "::poll"
        for ms in (25, 0, 1000):
            for s, v in w.wait_ms([x.copy() for x in sts], ms):
                got = [e for e in s.ghost["log"] if e[0] == "wait"]
                if not got:
                    rep.undecided("waiting", "%s makes no recognised system call" % fn)
                    continue
                at = got[-1][2]
                if got[-1][1] is None:
                    rep.undecided("waiting", "%s: time-out not known" % fn)
                elif got[-1][1] == ms:
                    rep.ok("waiting")
                else:
                    rep.fail("waiting", w.eng, s, fn, at, "a time-out of %d ms reaches the kernel as %d" % (ms, got[-1][1]))
                if len(got) > 1:
                    rep.fail("waiting", w.eng, s, fn, at, "the kernel is asked more than once")
                events(w, rep, s, v, "waiting", {}, "the system call returned %d (errno %d)" % (ret, errno))
        rep.absorb(w.eng)


def events(w, rep, s, v, rid, want, what):
    """Compares what poll() returned with the wanted descriptors."""
    fn = w.cls + "::poll"
    at = where_fn(w.eng, fn)
    if not isinstance(v, Opt):
        rep.undecided(rid, "%s returns %r" % (fn, v))
        return None
    has = v.has if isinstance(v.has, bool) else w.eng.decide(s, v.has)
    if has is None:
        rep.undecided(rid, "%s: result not known" % fn)
        return None
    if not has:
        if want:
            rep.fail(rid, w.eng, s, fn, at, "%s: no events are reported" % what)
        else:
            rep.ok(rid)
        return {}
    q = v.val
    if isinstance(q, RefV):
        q = w.eng.read(s, q.loc.path)[0][1]
    if not isinstance(q, Seq) or q.n.t or not all(p[0] in "vf" for p in q.pieces):
        rep.undecided(rid, "%s: events not known: %r" % (fn, q))
        return None
    got = {}
    for i in range(q.n.c):
        x = w.eng.seq_get(s, q, L(i))[0][1]
        fd, ev = num(field(w.eng, s, x, "fd")[0][1]), num(field(w.eng, s, x, "events")[0][1])
        if fd is None or ev is None:
            rep.undecided(rid, "%s: event %r" % (fn, x))
            return None
        if fd in got:
            rep.fail(rid, w.eng, s, fn, at, "%s: descriptor %d is reported twice" % (what, fd))
        got[fd] = ev
    if not want:
        bad = {fd: e for fd, e in got.items() if e}
        if bad:
            rep.fail(rid, w.eng, s, fn, at, "%s: reported all the same: %s" % (what, bad))
        else:
            rep.ok(rid)
    return got


def judge_ready(w, rep, sts, rd, rounds=1):
    fn = w.cls + "::poll"
    at = where_fn(w.eng, fn)

    def conv(b):
        return sum(w.E[n] for n, m in (("Read", POLLIN), ("Write", POLLOUT), ("Hangup", POLLHUP), ("Error", POLLERR)) if b & m)
    want = {fd: conv(b) for fd, b in rd.items() if conv(b)}
    for rnd in range(rounds):
        res = w.wait_ms(sts)
        sts = [s for s, _ in res]
        for s, v in res:
            got = events(w, rep, s, v, "readiness", want or {0: 0}, "events %s returned" % {k: hex(x) for k, x in rd.items()})
            if got is None:
                continue
            rep.count("readiness_cases")
            told = s.ghost.get("got", ())
            for fd in sorted(set(got) | {fd for fd in want if fd in told}):
                g = got.get(fd, 0)
                x = want.get(fd, 0) if fd in told else 0
                if g == x:
                    rep.ok("readiness")
                else:
                    rep.fail("readiness", w.eng, s, fn, at, "descriptor %d returned %s and is reported as %s, should be %s" %
                             (fd, hex(rd.get(fd, 0)), text(w, g), text(w, x)))
    rep.sample("readiness", "%s %s -> %s" % (w.cls, rd, {k: text(w, v) for k, v in want.items()}))
    rep.absorb(w.eng)
