"""The HTTP/2 connection: process() and close() from every protocol state with unknown input and unknown pending output.

The transport, the header codec, the router and the handlers are unknown parties: every outcome of each call is
explored.  What the connection does is recorded as a sequence of events; the octets it hands to the transport are
read back as HTTP/2 frames."""
from .util import *
from ..models import top_seq, Exc, throw
from ..values import bitop

CONN = "ion::Http2Connection"
PREFACE = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"
MAXFRAME = 16384


class Enums:
    def __init__(self, D):
        self.E = {clean(u): e for u, e in D["enums"].items()}

    def get(self, enum, name):
        e = self.E.get(enum)
        if e is None or name not in e:
            raise AnalysisBroken("no enumerator %s::%s" % (enum, name))
        return e[name]

    def name(self, enum, v):
        for k, x in self.E.get(enum, {}).items():
            if x == v:
                return k
        return str(v)


def log(st, *ev):
    st.ghost["io"] = st.ghost.get("io", ()) + (ev,)


def kid(st):
    """A name for what happens next."""
    return st.ghost.get("epoch", 0) * 1000 + len(io(st))


def io(st):
    return st.ghost.get("io", ())


class Conn:
    """One engine with the hooks installed; roles of the fields are found by type."""

    bodysize = None

    def __init__(self, D, peel=2, budget=3000000):
        self.D = D
        self.enums = Enums(D)
        eng = self.eng = Engine(D, peel=peel, budget=budget)
        eng.maxstates = 20000
        self.shapes = ("pm",)
        self.fixed = {}
        self.forbidden = {}
        self.maxbody, self.maxblock, self.maxrx = 40000, 40000, 1 << 40
        h = eng.hooks
        h["ion::Transport::read"] = self.t_read
        h["ion::Transport::write"] = self.t_write
        h["ion::Transport::handshake"] = self.t_handshake
        h["ion::Transport::graceful_shutdown"] = self.t_shutdown
        h["ion::HeaderBlockDecoder::HeaderBlockDecoder"] = self.opaque
        h["ion::HeaderBlockEncoder::HeaderBlockEncoder"] = self.opaque
        h["ion::HeaderBlockDecoder::decode"] = self.decode
        h["ion::HeaderBlockEncoder::encode"] = self.encode
        for q in list(eng.by_name):
            # what else the codec objects, which are opaque here, are asked to do has no effect on the connection
            if q.rsplit("::", 1)[0] in ("ion::HeaderBlockDecoder", "ion::HeaderBlockEncoder") and q not in h:
                h[q] = self.codec_other
        h["ion::DynamicTable::log_contents"] = lambda e, c: [(c.st, VOID)]
        h["ion::Router::get_handler"] = self.get_handler
        h["<callable>"] = self.call
        h["ion::AccessLog::log_request"] = self.access
        h["std::chrono::steady_clock::now"] = self.now
        for q in ("ion::HeaderBlockDecoder::decode", "ion::HeaderBlockEncoder::encode", "ion::Router::get_handler",
                  "ion::AccessLog::log_request", CONN + "::process"):
            eng.fn(q)
        self.te = lambda n: self.enums.get("ion::TransportError", n)
        self.errors = sorted(self.enums.E.get("ion::TransportError", {}).items(), key=lambda x: x[1])
        if not self.errors:
            raise AnalysisBroken("no transport errors")

    # ---- the unknown parties
    def opaque(self, e, c):
        return [(c.st, Struct(clean(c.f["cls"]), (), None, c.f.get("clst")))]

    def codec_other(self, e, c):
        return [(c.st, e.fresh(c.f.get("r"), ("codec", kid(c.st))))]

    def exp(self, c, val=None, err=None):
        return Opt(val is not None, val if val is not None else Top("void"), L(err) if err is not None else None, "exp",
                   c.n.get("t", c.f.get("r")))

    def pending(self, st):
        return self.eng.read(st, self.this.path + (self.f_write,))[0][1]

    def unread(self, st):
        return self.eng.read(st, self.this.path + (self.f_read,))[0][1]

    def state(self, st):
        return self.eng.read(st, self.this.path + (self.f_state,))[0][1]

    def fork(self, c, key, outs):
        """Forks over outcomes: (label, value-maker)."""
        res = []
        if key in self.forbidden:
            self.on_forbidden(c.st, key, self.eng.where(c.n, c.fr))
            return []
        allowed = self.fixed.get(key)
        outs = [o for o in outs if (o[0] not in ("all", "raises", "raises-int") if allowed is None else o[0] in allowed)]
        for i, (label, mk) in enumerate(outs):
            st = c.st.copy() if i + 1 < len(outs) else c.st
            res += mk(st, label)
        return res

    def t_write(self, e, c):
        out = []
        for s, sp in c.val(0):
            for s1, q in as_seq(e, s, sp):
                q = q if isinstance(q, Seq) else top_seq(e, "vec")
                c1 = c.on(s1)
                k = kid(s1)
                at = e.where(c.n, c.fr)

                def ok(st, label, q=q):
                    n = S(memo_sym(("accepted", k), "accepted%d" % k, 0, 1 << 40, "in"))
                    r = []
                    for x in e.assume(st, ge(q.n, n)):
                        log(x, "write", q, "ok", n, at)
                        r.append((x, self.exp(c1, n)))
                    return r

                def every(st, label, q=q):
                    log(st, "write", q, "ok", q.n, at)
                    return [(st, self.exp(c1, q.n))]

                def bad(st, label, q=q):
                    log(st, "write", q, label, ZERO, at)
                    return [(st, self.exp(c1, None, self.te(label)))]
                out += self.fork(c1, "write", [("ok", ok), ("all", every)] + [(n, bad) for n, _ in self.errors] + self.raising(c1))
        return out

    def t_read(self, e, c):
        out = []
        at = e.where(c.n, c.fr)
        for s, sp in c.val(0):
            c1 = c.on(s)
            k = kid(s)

            def ok(st, label, sp=sp):
                r = []
                n = S(memo_sym(("got", k, self.maxrx), "received%d" % k, 1, self.maxrx, "in"))
                for x in e.assume(st, ge(sp.n, n)):
                    log(x, "read", "ok", n, ("rx", k), self.before(x, sp), sp.n, at)
                    for y, q in e.read(x, sp.path):
                        for z in copy_rx(e, c1, y, sp, q, n, ("rx", k)):
                            r.append((z, self.exp(c1, n)))
                return r

            def bad(st, label):
                log(st, "read", label, ZERO, None, self.unread(st), sp.n, at)
                return [(st, self.exp(c1, None, self.te(label)))]
            out += self.fork(c1, "read", [("ok", ok)] + [(n, bad) for n, _ in self.errors] + self.raising(c1))
        return out

    def before(self, st, sp):
        """The unparsed input when a read into this span is made (without the room at the end of the buffer the span may be)."""
        q = self.unread(st)
        if isinstance(q, Seq) and sp.path == self.this.path + (self.f_read,) and isinstance(sp.off, Lin):
            ps = self.eng.seq_slice(st, q, ZERO, sp.off)
            if len(ps) == 1 and ps[0][0] is st:
                return Seq(q.kind, sp.off, tuple(ps[0][1]), None, None)
        return q

    def t_handshake(self, e, c):
        at = e.where(c.n, c.fr)

        def ok(st, label):
            log(st, "handshake", "ok", at)
            return [(st, Opt(True, VOID, None, "exp", c.n.get("t", c.f.get("r"))))]

        def bad(st, label):
            log(st, "handshake", label, at)
            return [(st, self.exp(c, None, self.te(label)))]
        return self.fork(c, "handshake", [("ok", ok)] + [(n, bad) for n, _ in self.errors] + self.raising(c))

    def raising(self, c):
        """Exceptional outcomes of a call."""
        at = self.eng.where(c.n, c.fr)

        def up(st, label):
            log(st, "raised", label, at)
            self.eng.raise_(st, Exc("int" if label == "raises-int" else "std::runtime_error", None, at))
            return []
        return [("raises", up), ("raises-int", up)]

    def t_shutdown(self, e, c):
        log(c.st, "shutdown", self.pending(c.st), e.where(c.n, c.fr))
        return [(c.st, VOID)]

    def decode(self, e, c):
        out = []
        at = e.where(c.n, c.fr)
        for s, sp in c.val(0):
            for s1, q in as_seq(e, s, sp):
                c1 = c.on(s1)
                k = kid(s1)
                ty = e.find_type("ion::HttpHeader")

                def hdr(name, v):
                    key = ("field", k, v)
                    n = S(memo_sym(("len", key), "|%s|" % v, 0, 4096, "in"))
                    return ("v", Struct("ion::HttpHeader", (("name", lit(name)), ("value", Seq("str", n, (("s", key, ZERO, n),), None, None))), None, ty))

                def ok(st, label, q=q):
                    hs = {"pm": [hdr(":path", "path"), hdr(":method", "method")],
                          "mxp": [hdr(":method", "method"), hdr("x", "x"), hdr(":path", "path")],
                          "p": [hdr(":path", "path")], "m": [hdr(":method", "method")], "none": []}[label]
                    log(st, "decode", q, label, self.owed(st), self.state(st), at)
                    return [(st, self.exp(c1, mk_seq("vec", hs, ty)))]

                def bad(st, label, q=q):
                    log(st, "decode", q, "error", self.owed(st), self.state(st), at)
                    return [(st, self.exp(c1, None, self.enums.get("FrameError", "ProtocolError")))]
                out += self.fork(c1, "decode", [(x, ok) for x in self.shapes] + [("error", bad)] + self.raising(c1))
        return out

    def encode(self, e, c):
        out = []
        for s, v in c.val(0):
            k = kid(s)
            key = ("block", k)
            n = S(memo_sym(("len", key), "|header block|", 0, self.maxblock, "in"))
            q = Seq("vec", n, (("s", key, ZERO, n),), e.elem_type(c.n.get("t", c.f.get("r"))), None)
            def ok(st, label, v=v, key=key, n=n, q=q):
                log(st, "encode", v, key, n)
                return [(st, q)]
            out += self.fork(c.on(s), "encode", [("ok", ok)] + self.raising(c.on(s)))
        return out

    def get_handler(self, e, c):
        out = []
        for s, p in c.val(0):
            for s1, m in c.val(1, s):
                def ok(st, label, p=p, m=m):
                    log(st, "route", p, m)
                    return [(st, FnSym(("handler", kid(st))))]
                out += self.fork(c.on(s1), "route", [("ok", ok)] + self.raising(c.on(s1)))
        return out

    def call(self, e, st, fv, args, n, fr):
        at = e.where(n, fr)
        c = Call(e, n, {"q": "<handler>", "r": n.get("t")}, "<handler>", None, args, [], st, fr, None, False)
        k = kid(st)

        def ok(x, label):
            key = ("body", k)
            ln = ZERO if label == "empty" else L(self.bodysize) if self.bodysize else S(memo_sym(("len", key), "|body|", 0, self.maxbody, "in"))
            if label == "big" and not self.bodysize:
                e.assume(x, ge(ln, 1))
            status = S(memo_sym(("status", k), "status", 0, 65535, "in"))
            hk = ("headers", k)
            hn = S(memo_sym(("len", hk), "|headers|", 0, 100, "in"))
            et = e.find_type("unsigned char")
            ht = e.find_type("ion::HttpHeader")
            v = Struct("ion::HttpResponse", (("status_code", status),
                                             ("body", Seq("vec", ln, (("s", key, ZERO, ln),) if ln.t else (), et, None)),
                                             ("headers", Seq("vec", hn, (("s", hk, ZERO, hn),), ht, None))), None,
                       e.find_type("ion::HttpResponse"))
            req = args[0] if args else None
            log(x, "handler", fv, req if not isinstance(req, Ptr) else e.read(x, req.path)[0][1], v, at)
            return [(x, v)]

        def bad(x, label):
            log(x, "handler", fv, None, label, at)
            e.raise_(x, Exc("std::runtime_error" if label == "throws" else "int", None, at))
            return []
        return self.fork(c, "handler", [("big", ok), ("empty", ok), ("throws", bad), ("throws-int", bad)])

    def access(self, e, c):
        args = []
        st = c.st
        for i in range(len(c.args)):
            st, v = c.val(i, st)[0]
            args.append(v)
        def ok(x, label):
            log(x, "log", tuple(args), e.where(c.n, c.fr))
            return [(x, VOID)]
        return self.fork(c.on(st), "log", [("ok", ok)] + self.raising(c.on(st)))

    def now(self, e, c):
        k = kid(c.st)
        log(c.st, "clock", e.where(c.n, c.fr))
        return [(c.st, Opaque("tp", S(memo_sym(("now", k), "now%d" % k, 0, 1 << 62, "in"))))]

    def owed(self, st):
        """Is output known to be undelivered at this point?  From the recorded writes and the buffer at entry."""
        return st.ghost.get("blocked", False)

    # ---- the connection
    def fresh(self, st):
        """A connection just constructed."""
        eng = self.eng
        tr = var(st, "transport", Struct("ion::Transport", (), "transport", None))
        tr = Ptr(tr.path, False)
        ip = var(st, "client_ip", Seq("str", S(memo_sym(("len", "ip"), "|ip|", 0, 64, "in")), (("s", ("ip",), ZERO, S(memo_sym(("len", "ip"), "|ip|", 0, 64, "in"))),), None, None))
        rt = obj(st, "router", "ion::Router")
        this = self.this = var(st, "conn", Struct(CONN, (), "raw", None))
        live, exc = eng.run(CONN + "::Http2Connection", st, this, [tr, ip, rt], 3)
        if not live:
            raise AnalysisBroken("the connection cannot be constructed")
        s = live[0][0]
        v = eng.read(s, this.path)[0][1]
        ft = eng.field_types(CONN)
        vecs = [k for k in ft if eng.tname(ft[k]) == "std::vector"]
        enum = [k for k in ft if eng.T(eng.strip(ft[k])).get("k") == "enum" and "State" in eng.T(eng.strip(ft[k])).get("s", "")]
        rd = [k for k in vecs if "read" in k or "in" in k.split("_")]
        wr = [k for k in vecs if "write" in k or "out" in k.split("_")]
        if len(enum) != 1 or len(rd) != 1 or len(wr) != 1:
            raise AnalysisBroken("the connection's state and buffers are not recognised: %s" % sorted(ft))
        self.f_state, self.f_read, self.f_write = enum[0], rd[0], wr[0]
        self.v0 = v
        return s

    def seed(self, state, pend=None, unread=None):
        """A connection in the given state with unknown unread input and (pend) unknown pending output."""
        eng = self.eng
        st = St()
        s = self.fresh(st)
        eng.write(s, self.this.path + (self.f_state,), L(self.enums.get("ion::Http2ConnectionState", state)))
        s.ghost["io"] = ()
        et = eng.find_type("unsigned char")
        if pend:
            n = S(memo_sym(("len", "pend"), "|pending|", 1, 1 << 40, "in"))
            eng.write(s, self.this.path + (self.f_write,), Seq("vec", n, (("s", ("pend",), ZERO, n),), et, None))
        if unread != "none":
            n = S(memo_sym(("len", "unread"), "|unread|", 0, 65536, "in"))
            eng.write(s, self.this.path + (self.f_read,), Seq("vec", n, (("s", ("unread",), ZERO, n),), et, None))
        return s


    # ---- scenarios
    def head(self, st):
        """Length, type, flags and stream of the frame at the front of the unread input: [(state, ...)]."""
        q = self.unread(st)
        res = [(st, [])]
        for i in range(9):
            res = [(t, bs + [b]) for s, bs in res for t, b in self.eng.seq_get(s, q, L(i))]
        return [(s, bs[0].scale(65536) + bs[1].scale(256) + bs[2], bs[3], bs[4], bs[5], bs[6].scale(65536) + bs[7].scale(256) + bs[8])
                for s, bs in res]

    def one_frame(self, types=None, other=None, extra=None, tail=8, pend=False, conds=()):
        """AwaitingFrame with exactly one whole frame of one of these types unread, plus up to `tail` octets."""
        out = []
        for s, ln, ty, fl, top, sid in self.head0(pend):
            n = self.unread(s).n
            ss = e_assume(self.eng, s, [ge(n - 9 - ln, 0), ge(ln + 9 + tail, n), ge(MAXFRAME, ln)])
            for x in ss:
                ys = [x]
                if types is not None:
                    ys = [z for t in types for z in self.eng.assume(x.copy(), eq(ty, t))]
                for t in other or ():
                    ys = [z for y in ys for z in self.eng.assume(y, ne(ty, t))]
                for c in conds:
                    ys = [z for y in ys for z in self.eng.assume(y, c(ln, fl))]
                for y in ys:
                    y.ghost["frame"] = (ln, ty, fl, top, sid)
                    out.append(y)
        return out

    def head0(self, pend):
        s = self.seed("AwaitingFrame", pend) if not isinstance(pend, St) else pend
        return [h for x in self.eng.assume(s, ge(self.unread(s).n, 9)) for h in self.head(x)]

    def arrive(self, st, types=None, tail=0, conds=()):
        """More input on a connection in state st: one whole frame (after what was unread, which is given up as empty)."""
        st = st.copy()
        st.ghost["epoch"] = ep = st.ghost.get("epoch", 0) + 1
        st.ghost["io"] = ()
        et = self.eng.find_type("unsigned char")
        n = S(memo_sym(("len", "unread", ep), "|unread%d|" % ep, 0, 65536, "in"))
        self.eng.write(st, self.this.path + (self.f_read,), Seq("vec", n, (("s", ("unread", ep), ZERO, n),), et, None))
        return self.one_frame(types if types is not None else [1], None, None, tail, st, conds or [lambda ln, fl: ge(ln, 5)])

    def given(self, st, *fr):
        """More input: frames of these (length, type, flags, stream) with unknown payloads."""
        st = st.copy() if st is not None else self.seed("AwaitingFrame")
        st.ghost["epoch"] = ep = st.ghost.get("epoch", 0) + 1
        st.ghost["io"] = ()
        ps, n = [], 0
        for i, (ln, ty, fl, sid, *body) in enumerate(fr):
            if body:                            # the payload's octets
                ps += [("c", ln.to_bytes(3, "big") + bytes([ty, fl]) + sid.to_bytes(4, "big"))] + [("v", b) for b in body[0]]
                n += 9 + ln
                continue
            if isinstance(ln, tuple):           # the announced length, and how much of the payload has arrived
                part, ln = ln[1], ln[0]
                ps += [("c", ln.to_bytes(3, "big") + bytes([ty, fl]) + sid.to_bytes(4, "big")), ("s", ("payload", ep, i), ZERO, part)]
                n = part + 9 + n
                continue
            ps += [("c", ln.to_bytes(3, "big") + bytes([ty, fl]) + sid.to_bytes(4, "big"))]
            if ln:
                ps += [("s", ("payload", ep, i), ZERO, L(ln))]
            n += 9 + ln
        et = self.eng.find_type("unsigned char")
        self.eng.write(st, self.this.path + (self.f_read,), Seq("vec", L(n), tuple(ps), et, None))
        ln, ty, fl, sid = fr[0][:4]
        ln = ln[0] if isinstance(ln, tuple) else ln
        st.ghost["frame"] = (L(ln), L(ty), L(fl), ZERO, L(sid))
        return st

    def process(self, states, name="process"):
        """[(state, result)] and escaped exceptions of process() from these states."""
        res, exc = [], []
        for s in states:
            r, x = self.eng.run(CONN + "::" + name, s, self.this, [], 0)
            res += r
            exc += x
        return res, exc


def e_assume(eng, st, conds):
    ss = [st]
    for c in conds:
        ss = [y for x in ss for y in eng.assume(x, c)]
    return ss


def copy_rx(e, c, st, sp, q, n, key):
    """n received octets arrive at the front of the span's storage."""
    from ..models import copy_pieces, It
    if not isinstance(q, Seq):
        return [st]
    return [x for x, _ in copy_pieces(e, c, st, [("s", key, ZERO, n)], n, It(sp.path, sp.off, False))]


# ---- reading the emitted octets back as frames ------------------------------------------------------
def rejoin(eng, st, l, w):
    """The same number with adjacent bit slices of one term put together again."""
    from ..values import to_runs, runs_lin, cut
    if not isinstance(l, Lin) or not l.t:
        return l
    r = to_runs(l, w, st.facts)
    if r is None:
        return l
    l = runs_lin(cut(r, 0, w))
    for s, k in l.t:
        if SYMS[s].kind == "lin":
            l = l - S(SYMS[s]).scale(k) + SYMS[s].args[0].scale(k)
    return l


class Frame9:
    def __init__(self, length, type_, flags, stream, payload):
        self.length, self.type, self.flags, self.stream, self.payload = length, type_, flags, stream, payload

    def __repr__(self):
        return "type=%r flags=%r stream=%r length=%r" % (self.type, self.flags, self.stream, self.length)


def frames(eng, st, q, pos=ZERO, acc=(), depth=0):
    """[(state, frames, problem)]: q from pos on, read as a sequence of HTTP/2 frames."""
    q = Seq(q.kind, q.n, q.pieces, None, None)
    more, done = eng.branch(st, ge(q.n - 1, pos))
    out = [(x, acc, None) for x in done]
    for s in more:
        if depth > 40:
            out.append((s, acc, "deep"))
            continue
        whole, short = eng.branch(s, ge(q.n - 9, pos))
        out += [(x, acc, "a frame header is cut off") for x in short]
        for x in whole:
            heads = [(x, [])]
            for i in range(9):
                heads = [(z, bs + [b]) for y, bs in heads for z, b in eng.seq_get(y, q, pos + i)]
            for y, bs in heads:
                if not all(isinstance(b, Lin) for b in bs):
                    out.append((y, acc, "unknown octets in a frame header"))
                    continue
                ln = rejoin(eng, y, bs[0].scale(65536) + bs[1].scale(256) + bs[2], 24)
                sid = rejoin(eng, y, bs[5].scale(1 << 24) + bs[6].scale(65536) + bs[7].scale(256) + bs[8], 32)
                fit, over = eng.branch(y, ge(q.n - 9 - ln, pos))
                out += [(z, acc, "the length field %r exceeds the octets that follow" % ln) for z in over]
                for z in fit:
                    for u, ps in eng.seq_slice(z, q, pos + 9, pos + 9 + ln):
                        f = Frame9(ln, bs[3], bs[4], sid, Seq("vec", ln, tuple(ps), None, None))
                        out += frames(eng, u, q, pos + 9 + ln, acc + (f,), depth + 1)
    return out
