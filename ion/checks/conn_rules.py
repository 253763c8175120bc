"""What the connection must do, judged on every outcome of process() from the scenarios of conn.py."""
from .conn import *
from .util import *
from ..values import ge, eq, ne

FN = CONN + "::process"
ACTS = ("decode", "route", "handler", "encode", "log")
QUIET = ("WantReadOrWrite",)


class Judge:
    """A connection scenario plus the report the obligations go to."""

    make = Conn

    def __init__(self, D, rep, peel=3, budget=3000000, **fixed):
        self.D, self.rep, self.steps = D, rep, 0
        self.cn = self.make(D, peel, budget)
        self.cn.fixed = dict({"read": QUIET, "write": QUIET}, **fixed)
        self.eng = self.cn.eng
        for q in ("ion::Http2FrameReader::read_settings",):
            self.eng.loop_k[(q, None)] = 3
        self.w = where_fn(self.eng, FN)

    def judge(self, rid, st, cond, text, where=None):
        return self.rep.judge(rid, self.eng, st, cond, FN, where or self.w, text)

    def fail(self, rid, st, text, where=None):
        return self.rep.judge(rid, self.eng, st, False, FN, where or self.w, text)

    def code(self, enum, name):
        return self.cn.enums.get(enum, name)

    def is_result(self, v, name):
        return isinstance(v, Lin) and v == L(self.code("ion::Http2ProcessResult", name))

    def run(self, states, again=0):
        """process() from the states; escaped exceptions are left to C14.  again: calls repeated while it wants to write."""
        out = []
        for s in states:
            try:
                self.eng.steps = 0
                out += self.cn.process([s])[0]
            except Giveup as e:
                self.rep.undecided("budget", "a scenario was given up: %s" % e)
            self.steps += self.eng.steps
        return out

    def forbid(self, rid, text, *kinds):
        """These calls must not happen in the scenarios that follow."""
        self.cn.forbidden = {k: (rid, text) for k in kinds}
        self.cn.on_forbidden = lambda st, key, at: self.fail(rid, st, "%s %s" % (key, text), at)

    def done(self):
        self.eng.steps = self.steps
        self.rep.absorb(self.eng)

    # ---- what was sent
    def sent(self, st, pend=None):
        """Everything handed over or still pending, in order, without the output pending before (pend); None if not as expected."""
        pieces = []
        for e in io(st):
            if e[0] == "write" and e[2] == "ok":
                for s, ps in self.eng.seq_slice(st, e[1], ZERO, e[3]):
                    pieces += list(ps)
        q = self.cn.pending(st)
        if not isinstance(q, Seq):
            return None
        pieces = drop_empty(self.eng, st, pieces + list(q.pieces))
        n = ZERO
        for p in pieces:
            n = n + plen(p)
        return Seq("vec", n, tuple(pieces), None, None)

    def frames(self, rid, st, q=None):
        """[(state, frames)] of the output; malformed output is reported under rid."""
        out = []
        if len(self.rep.viol) >= 5:
            return out
        q = self.sent(st) if q is None else q
        if q is None:
            self.rep.undecided(rid, "pending output unknown")
            return out
        for s, fs, prob in frames(self.eng, st, q):
            if prob is None:
                out.append((s, fs))
            elif prob in ("deep", "unknown octets in a frame header"):
                self.rep.undecided(rid, prob)
            else:
                self.fail(rid, s, "the output is not a sequence of whole frames: %s" % prob)
        return out

    def value(self, st, v):
        """The value behind a reference or pointer."""
        if isinstance(v, RefV):
            return self.eng.read(st, v.loc.path)[0][1]
        if isinstance(v, Ptr) and v.path:
            return self.eng.read(st, v.path)[0][1]
        return v


def events(st, *kinds):
    return [e for e in io(st) if e[0] in kinds]


def stream_of(eng, st):
    """The 31-bit stream identifier of the scenario's frame."""
    ln, ty, fl, top, sid = st.ghost["frame"]
    r = to_runs(top, 8, st.facts)
    low = runs_lin(cut(r, 0, 7)) if r is not None else top
    return low.scale(1 << 24) + sid


from ..values import to_runs, runs_lin, cut


def bit(eng, st, v, k):
    """Bit k of an octet as a term."""
    r = to_runs(v, 8, st.facts)
    return None if r is None else runs_lin(cut(r, k, 1))


def flags_known(eng, st, f):
    return isinstance(f.flags, Lin) and not f.flags.t


def concat(fs):
    ps, n = [], ZERO
    for f in fs:
        ps += list(f.payload.pieces)
        n = n + f.length
    return Seq("vec", n, tuple(ps), None, None)


# ---- C09 ------------------------------------------------------------------------------------------
RULES9 = {
    "one-response": "a decoded request block leads to exactly one handler call with that request's method, path and fields (none, and a "
                    "400 answer, without :method or :path) and exactly one encoded header list",
    "response-head": "the encoded list starts with :status = the decimal status of the response (500 if the handler threw), keeps the "
                     "handler's fields in order, and a content-length it adds is the decimal body size",
    "response-frames": "the output is HEADERS + CONTINUATION* carrying exactly the encoded block, then DATA* carrying exactly the body, all "
                       "on the request's stream, END_HEADERS on the last header frame only, END_STREAM exactly once and on the last frame",
}


def seq_is(J, rid, st, got, want, text, where=None):
    if not isinstance(got, Seq) or not isinstance(want, Seq):
        J.rep.undecided(rid, text + ": not a sequence")
        return None
    r = same_seq(J.eng, st, got, want)
    if r is True:
        J.rep.ok(rid)
        return True
    if r is None:
        J.rep.undecided(rid, text + " (comparison unknown)")
        return None
    return J.fail(rid, st, text, where)


def response(J, rep, st, fs):
    """Judges one state in which one request was decoded: fs are the frames it led to."""
    eng = J.eng
    dec = events(st, "decode")
    shape = dec[0][2]
    hs, es, rs = events(st, "handler"), events(st, "encode"), events(st, "route")
    if shape == "error":
        return
    status, body, hdrs, hl = None, Seq("vec", ZERO, (), None, None), None, None
    if shape in ("pm", "mxp"):
        if len(hs) != 1:
            J.fail("one-response", st, "%d handler calls for one request" % len(hs), hs[-1][-1] if hs else None)
            return
        req, v = hs[0][2], hs[0][3]
        if isinstance(v, str):
            status = L(500)
        else:
            status, body, hdrs = v.get("status_code"), v.get("body"), v.get("headers")
            for nm in ("method", "path"):
                got = req.get(nm) if isinstance(req, Struct) else None
                n = S(memo_sym(("len", ("field", dec_k(st), nm)), "", 0, 4096, "in"))
                seq_is(J, "one-response", st, J.value(st, got), Seq("str", n, (("s", ("field", dec_k(st), nm), ZERO, n),), None, None),
                       "the handler's request.%s is not the request's :%s" % (nm, nm), hs[0][-1])
            got = J.value(st, req.get("headers")) if isinstance(req, Struct) else None
            if isinstance(got, Seq):
                want = {"pm": 2, "mxp": 3}[shape]
                J.judge("one-response", st, eq(got.n, want), "the handler sees %r of %d header fields" % (got.n, want), hs[0][-1])
            for e in rs:
                for i, nm in ((1, "path"), (2, "method")):
                    n = S(memo_sym(("len", ("field", dec_k(st), nm)), "", 0, 4096, "in"))
                    for s1, q in as_seq(eng, st, e[i]):
                        seq_is(J, "one-response", s1, q, Seq("str", n, (("s", ("field", dec_k(st), nm), ZERO, n),), None, None),
                               "the route is not looked up with the request's :%s" % nm)
    else:
        status = L(400)
        if hs:
            J.fail("one-response", st, "a handler is called for a request without :method or :path", hs[0][-1])
            return
    if len(es) != 1:
        J.fail("one-response", st, "%d encoded header lists for one request" % len(es))
        return
    rep.ok("one-response")
    head(J, rep, st, es[0], status, body, hdrs)
    block = Seq("vec", es[0][3], (("s", es[0][2], ZERO, es[0][3]),), None, None)
    wire(J, rep, st, fs, block, body)


def dec_k(st):
    return st.ghost.get("epoch", 0) * 1000 + next(i for i, e in enumerate(io(st)) if e[0] == "decode")


def head(J, rep, st, e, status, body, hdrs):
    rid = "response-head"
    eng = J.eng
    for s0, q in as_seq(eng, st, J.value(st, e[1])):
        ps = drop_empty(eng, s0, q.pieces)
        if not ps:
            J.fail(rid, s0, "the response has no header fields at all")
            continue
        first = ps[0]
        if first[0] != "v" or not isinstance(first[1], Struct):
            if first[0] == "s" and hdrs is not None and first[1] == hdrs.pieces[0][1]:
                J.fail(rid, s0, "the header list does not start with :status")
            else:
                rep.undecided(rid, "first header field not expressible")
            continue
        name, val = first[1].get("name"), first[1].get("value")
        if const_bytes(name) != b":status":
            J.fail(rid, s0, "the header list starts with %r, not :status" % const_bytes(name))
            continue
        decimal(J, rid, s0, val, status, ":status")
        user = [p for p in ps if p[0] == "s"]
        if hdrs is not None:
            uq = Seq("vec", sum((plen(p) for p in user), ZERO), tuple(user), None, None)
            seq_is(J, rid, s0, uq, hdrs, "the handler's header fields are not all kept in order")
        for p in ps[1:]:
            if p[0] == "v" and isinstance(p[1], Struct):
                nm = const_bytes(p[1].get("name"))
                if nm == b":status":
                    J.fail(rid, s0, "a second :status field")
                if nm == b"content-length":
                    decimal(J, rid, s0, p[1].get("value"), body.n, "content-length")
        rep.sample(rid, "header list %s" % [const_bytes(p[1].get("name")) if p[0] == "v" else "handler's fields" for p in ps])


def decimal(J, rid, st, val, num, what):
    """val is the decimal text of num."""
    if not isinstance(val, Seq) or not isinstance(num, Lin):
        J.rep.undecided(rid, what + " not expressible")
        return
    cb = const_bytes(val)
    if cb is not None:
        if not cb.isdigit():
            J.fail(rid, st, "%s is %r" % (what, cb))
            return
        J.judge(rid, st, eq(num, int(cb)), "%s is %s, not %r" % (what, cb.decode(), num))
        return
    ps = val.pieces
    if len(ps) == 1 and ps[0][0] == "s" and isinstance(ps[0][1], tuple) and ps[0][1][0] == "dec":
        J.judge(rid, st, eq(ps[0][2], 0), "%s is only part of a number" % what)
        J.judge(rid, st, eq(ps[0][3], S(memo_sym(("len", ps[0][1]), "", 1, 20, "in"))), "%s is only part of a number" % what)
        J.judge(rid, st, eq(ps[0][1][1], num), "%s is the decimal of %r, not of %r" % (what, ps[0][1][1], num))
        return
    J.rep.undecided(rid, what + ": %r" % (ps,))


def wire(J, rep, st, fs, block, body, rid="response-frames"):
    eng = J.eng
    for f in fs:
        if not (isinstance(f.type, Lin) and not f.type.t and flags_known(eng, st, f)):
            rep.undecided(rid, "type or flags not constant: %r %r" % (f.type, f.flags))
            return
    ty = [f.type.c for f in fs]
    fl = [f.flags.c for f in fs]
    if not fs or ty[0] != 1:
        J.fail(rid, st, "the response does not start with HEADERS: %s" % ty)
        return
    h = 1
    while h < len(fs) and ty[h] == 9:
        h += 1
    if any(t != 0 for t in ty[h:]):
        J.fail(rid, st, "frame types of one response: %s" % ty)
        return
    for i, f in enumerate(fs):
        J.judge(rid, st, eq(f.stream, stream_of(eng, st)), "frame %d (type %d) is on stream %r, the request on %r" %
                (i, ty[i], f.stream, stream_of(eng, st)))
    ends = [i for i in range(h) if fl[i] & 4]
    if ends != [h - 1]:
        J.fail(rid, st, "END_HEADERS on header frames %s of %d" % (ends, h))
    es = [i for i in range(len(fs)) if fl[i] & 1 and ty[i] in (0, 1, 9)]
    want = len(fs) - 1 if len(fs) > h else 0
    if es != [want]:
        J.fail(rid, st, "END_STREAM on frames %s of %s" % (es, ty))
    else:
        rep.ok(rid)
    bad = [i for i in range(len(fs)) if fl[i] & ~((5 if ty[i] == 1 else 4 if ty[i] == 9 else 1))]
    for i in bad:
        if fl[i] & 0x28:
            J.fail(rid, st, "frame %d has flags %#x that change its layout" % (i, fl[i]))
    seq_is(J, rid, st, concat(fs[:h]), block, "HEADERS/CONTINUATION payloads are not the encoded block")
    seq_is(J, rid, st, concat(fs[h:]), body, "DATA payloads are not the response body")
    rep.sample(rid, "frames %s flags %s" % (ty, fl))


def c09(D, rep, tier):
    for k, t in RULES9.items():
        rep.rule(k, t)
    J = Judge(D, rep, peel=3)
    cn = J.cn
    cn.shapes = ("pm", "mxp", "p", "m", "none")
    res = J.run(cn.one_frame(types=[1], conds=[lambda ln, fl: ge(ln, 5)]))
    rep.count("outcomes", len(res))
    for st, v in res:
        if not events(st, "decode"):
            if not events(st, "handler", "encode"):
                J.fail("one-response", st, "a HEADERS frame is not decoded")
            continue
        for s, fs in J.frames("response-frames", st):
            response(J, rep, s, fs)
    J.done()
    second(D, rep, tier)


def second(D, rep, tier):
    """A second request on the same connection gets its own response on its own stream."""
    J = Judge(D, rep, peel=3, write=("all",), handler=("big", "empty"), decode=("pm",))
    cn = J.cn
    cn.maxbody = cn.maxblock = 100
    first = J.run(cn.one_frame(types=[1], conds=[lambda ln, fl: ge(ln, 5)], tail=0))
    if not first:
        rep.undecided("response-frames", "no outcome of a first request")
    n = 0
    for st, v in first[:: max(1, len(first) // 12)]:
        q = cn.pending(st)
        if not J.is_result(v, "WantRead") or len(events(st, "handler")) != 1:
            continue
        s = cn.arrive(st)
        for x in s:
            for y, _ in J.run([x]):
                if not events(y, "decode"):
                    if not events(y, "handler", "encode"):
                        J.fail("one-response", y, "a second HEADERS frame is not decoded")
                    continue
                for z, fs in J.frames("response-frames", y):
                    n += 1
                    response(J, rep, z, fs)
    rep.count("second_requests", n)
    J.done()


# ---- C29 ------------------------------------------------------------------------------------------
def is_ack(f):
    return isinstance(f.type, Lin) and not f.type.t and f.type.c == 4


def c29(D, rep, tier):
    rep.rule("ack-once", "a SETTINGS frame without ACK whose payload is a multiple of six octets leads to exactly one output frame: "
             "SETTINGS, flags ACK, length 0, stream 0")
    rep.rule("ack-none", "no SETTINGS frame is emitted in answer to a SETTINGS ACK, a malformed SETTINGS or a frame of another type")
    rep.rule("bad-settings", "a SETTINGS payload that is not a multiple of six octets fails the connection with GOAWAY(PROTOCOL_ERROR)")
    J = Judge(D, rep, peel=3, handler=("big", "empty"))
    cn, eng = J.cn, J.eng
    cn.maxbody = cn.maxblock = 100
    good = [s for x in cn.one_frame(types=[4]) for s in on_stream0(eng, x)]
    n = 0
    for st, v in J.run(good):
        ln, ty, fl, top, sid = st.ghost["frame"]
        ack = bit(eng, st, fl, 0)
        for s, fs, six in [(z, fs, m) for s, fs in J.frames("ack-once", st) for z, m in eng.arith(s, "%", ln, L(6), 64, False, None)]:
            yes, no = eng.branch(s, eq(ack, 1))
            for x in yes:
                n += 1
                if fs:
                    J.fail("ack-none", x, "a SETTINGS ACK is answered with frames of type %s" % [f.type for f in fs])
                else:
                    rep.ok("ack-none")
            for x in no:
                g, b = eng.branch(x, eq(six, 0))
                for y in g:
                    n += 1
                    one_ack(J, rep, y, fs)
                for y in b:
                    n += 1
                    if any(is_ack(f) for f in fs):
                        J.fail("ack-none", y, "a SETTINGS frame of %r octets is acknowledged" % ln)
                    else:
                        rep.ok("ack-none")
                    goaway(J, "bad-settings", y, fs, 1)
    rep.count("settings_outcomes", n)
    for st, v in J.run(cn.one_frame(other=[4])):
        for s, fs in J.frames("ack-none", st):
            if any(is_ack(f) for f in fs):
                J.fail("ack-none", s, "a frame of type %r is answered with SETTINGS" % st.ghost["frame"][1])
            else:
                rep.ok("ack-none")
    J.done()
    # the same frame again, later on the connection
    J = Judge(D, rep, peel=7, write=("all",))
    cn, eng = J.cn, J.eng
    seen = 0
    for st, v in J.run([cn.given(None, (6, 4, 0, 0))]):
        for y, _ in J.run([cn.given(st, (12, 4, 0, 0), (0, 4, 1, 0), (0, 4, 0, 0), (0, 99, 0, 7))]):
            for z, fs in J.frames("ack-once", y):
                if len(fs) != 2:
                    J.fail("ack-once", z, "two SETTINGS frames are answered with %d frames" % len(fs))
                for f in fs:
                    seen += 1
                    one_ack(J, rep, z, [f])
    if not seen:
        rep.undecided("ack-once", "no outcome of a sequence of frames")
    J.done()


def on_stream0(eng, st):
    ln, ty, fl, top, sid = st.ghost["frame"]
    return e_assume(eng, st, [eq(sid, 0), eq(top, 0)])


def one_ack(J, rep, st, fs):
    if len(fs) != 1:
        J.fail("ack-once", st, "a SETTINGS frame is answered with %d frames" % len(fs))
        return
    f = fs[0]
    for nm, got, want in (("type", f.type, 4), ("flags", f.flags, 1), ("length", f.length, 0), ("stream", f.stream, 0)):
        if isinstance(got, Lin):
            J.judge("ack-once", st, eq(got, want), "the answer to SETTINGS has %s %r, not %d" % (nm, got, want))
        else:
            rep.undecided("ack-once", nm)


def goaway(J, rid, st, fs, code, only=True):
    """Exactly one GOAWAY with this error code is among the frames, and it is the last."""
    gs = [f for f in fs if isinstance(f.type, Lin) and not f.type.t and f.type.c == 7]
    if len(gs) != 1:
        J.fail(rid, st, "%d GOAWAY frames in the output" % len(gs))
        return
    if gs[0] is not fs[-1]:
        J.fail(rid, st, "output follows GOAWAY")
        return
    f = gs[0]
    J.judge(rid, st, ge(f.length, 8), "GOAWAY payload of %r octets" % f.length)
    J.judge(rid, st, eq(f.stream, 0), "GOAWAY on stream %r" % f.stream)
    for s, v in be(J.eng, st, f.payload, 4, 4):
        if v is None:
            J.rep.undecided(rid, "error code")
        else:
            J.judge(rid, s, eq(v, code), "GOAWAY error code is %r, not %d" % (v, code))


# ---- C08 ------------------------------------------------------------------------------------------
def unchanged(J, rid, st, text, key=("unread",)):
    n = S(memo_sym(("len",) + key, "|unread|", 0, 65536, "in"))
    return seq_is(J, rid, st, J.cn.unread(st), Seq("vec", n, (("s", key, ZERO, n),), None, None), text)


def acted(st):
    return events(st, *ACTS)


def c08(D, rep, tier):
    rep.rule("oversize", "a frame whose length field exceeds 16384 leads to GOAWAY(PROTOCOL_ERROR) and discard, without being acted upon, "
             "whether or not its payload has arrived")
    rep.rule("incomplete", "while a frame is not complete nothing is decoded, answered or removed from the input and more input is awaited")
    rep.rule("whole", "a complete frame is removed from the input with exactly its 9 + length octets, and a HEADERS block handed to the "
             "decoder is exactly its payload (after priority fields)")
    rep.rule("sent-size", "all output is a sequence of whole frames with length fields equal to their payloads and at most 16384")
    rep.rule("advertised", "the SETTINGS_MAX_FRAME_SIZE the server announces is 16384")
    # too large
    J = Judge(D, rep, peel=5, write=("all",))
    cn, eng = J.cn, J.eng
    ss = []
    for st, ln, ty, fl, top, sid in cn.head0(False):
        st.ghost["frame"] = (ln, ty, fl, top, sid)
        for x in eng.assume(st, ge(ln, MAXFRAME + 1)):
            for y in eng.assume(x.copy(), ge(ln + 17, cn.unread(x).n)):
                # each kind of frame apart, so that one that is acted upon is found even where another's handling is too wide to follow
                for k in (ge(3, ty), eq(ty, 4), ge(ty, 5)):
                    ss += eng.assume(y.copy(), k)
    J.forbid("oversize", "of a frame longer than 16384 octets", *ACTS)
    n = 0
    for st, v in J.run(ss):
        n += 1
        if acted(st):
            J.fail("oversize", st, "a frame longer than 16384 octets is acted upon", acted(st)[0][-1])
            continue
        if J.is_result(v, "WantRead"):
            J.fail("oversize", st, "a frame longer than 16384 octets does not fail the connection")
            continue
        for s, fs in J.frames("oversize", st):
            goaway(J, "oversize", s, fs, 1)
        if not J.is_result(v, "DiscardConnection"):
            J.fail("oversize", st, "the connection is not discarded after an oversize frame")
    rep.count("oversize_outcomes", n)
    J.forbid("incomplete", "of a frame that has not arrived completely", *ACTS)
    # incomplete
    ss = []
    for st, ln, ty, fl, top, sid in cn.head0(False):
        st.ghost["frame"] = (ln, ty, fl, top, sid)
        ss += e_assume(eng, st.copy(), [ge(MAXFRAME, ln), ge(ln + 8, cn.unread(st).n)])
    s = cn.seed("AwaitingFrame")
    ss += eng.assume(s, ge(8, cn.unread(s).n))
    n = 0
    for st, v in J.run(ss):
        n += 1
        if acted(st):
            J.fail("incomplete", st, "a frame is acted upon before all of it has arrived", acted(st)[0][-1])
            continue
        if not J.is_result(v, "WantRead"):
            J.fail("incomplete", st, "more input is not awaited while a frame is incomplete")
            continue
        unchanged(J, "incomplete", st, "input of an incomplete frame is changed or removed")
        for s, fs in J.frames("incomplete", st):
            if fs:
                J.fail("incomplete", s, "output is produced for an incomplete frame")
    rep.count("incomplete_outcomes", n)
    J.done()
    # complete
    J = Judge(D, rep, peel=3, write=("all",), handler=("empty",), decode=("pm",))
    cn, eng = J.cn, J.eng
    cn.maxblock = 100
    n = 0
    for st, v in J.run([x for t in ([1], [4], [7], [8]) for x in cn.one_frame(types=t)] + cn.one_frame(other=[1, 4, 7, 8])):
        ln, ty, fl, top, sid = st.ghost["frame"]
        for e in events(st, "decode"):
            q = e[1]
            prio = bit(eng, st, fl, 5)
            yes, no = eng.branch(st, eq(prio, 1))
            u = S(memo_sym(("len", "unread"), "|unread|", 0, 65536, "in"))
            whole = Seq("vec", u, (("s", ("unread",), ZERO, u),), None, None)
            for xs, off in ((yes, 5), (no, 0)):
                for x in xs:
                    for y in eng.assume(x, ge(ln, off)):
                        for z, ps in eng.seq_slice(y, whole, L(9 + off), ln + 9):
                            seq_is(J, "whole", z, q, Seq("vec", ln - off, tuple(ps), None, None),
                                   "the octets decoded are not the frame's header block", e[-1])
        if not J.is_result(v, "WantRead"):
            continue
        u = S(memo_sym(("len", "unread"), "|unread|", 0, 65536, "in"))
        whole = Seq("vec", u, (("s", ("unread",), ZERO, u),), None, None)
        n += 1
        for z, ps in eng.seq_slice(st, whole, ln + 9, u):
            seq_is(J, "whole", z, cn.unread(z), Seq("vec", u - ln - 9, tuple(ps), None, None),
                   "after a frame of %r octets the input does not continue behind it" % ln)
    rep.count("whole_frames", n)
    J.done()
    # output
    J = Judge(D, rep, peel=3)
    cn, eng = J.cn, J.eng
    cn.shapes = ("pm", "p")
    n = 0
    for st, v in J.run(cn.one_frame(types=[1]) + cn.one_frame(other=[1])):
        n += sizes(J, rep, st)
    for st, v in J.run([preface(cn)]):
        n += sizes(J, rep, st)
        for s, fs in J.frames("sent-size", st):
            for f in fs:
                if is_ack(f) and flags_known(eng, s, f) and not f.flags.c & 1:
                    advertised(J, rep, s, f)
    rep.count("frames_sent", n)
    J.done()


def sizes(J, rep, st):
    n = 0
    for s, fs in J.frames("sent-size", st):
        for f in fs:
            n += 1
            J.judge("sent-size", s, ge(MAXFRAME, f.length), "a frame of type %r with length %r is sent" % (f.type, f.length))
    return n


def preface(cn, octets=PREFACE, state="AwaitingPreface"):
    """Exactly these octets have arrived where the client preface is expected."""
    st = cn.seed(state)
    et = cn.eng.find_type("unsigned char")
    cn.eng.write(st, cn.this.path + (cn.f_read,), Seq("vec", L(len(octets)), (("c", octets),) if octets else (), et, None))
    return st


def advertised(J, rep, st, f):
    p = f.payload
    if p.n.t:
        rep.undecided("advertised", "length of SETTINGS payload %r" % p.n)
        return
    for i in range(0, p.n.c - 5, 6):
        for s, k in be(J.eng, st, p, i, 2):
            for s2, v in be(J.eng, s, p, i + 2, 4):
                if k is None or v is None:
                    rep.undecided("advertised", "setting not expressible")
                    continue
                for x in J.eng.assume(s2, eq(k, 5)):
                    J.judge("advertised", x, eq(v, MAXFRAME), "SETTINGS_MAX_FRAME_SIZE %r is announced, 16384 is enforced" % v)
    rep.ok("advertised")


# ---- C10 ------------------------------------------------------------------------------------------
def c10(D, rep, tier):
    rep.rule("handshake-first", "nothing is read, written, decoded or answered on a new connection before its transport handshake succeeded, "
             "in the first call or a later one; a failed handshake discards it, an unfinished one waits")
    rep.rule("preface", "no frame is acted upon and no output produced unless the first 24 octets received are exactly the client preface; "
             "a prefix of it waits for more, anything else discards the connection")
    rep.rule("first-frame", "after the preface the first frame sent is SETTINGS without ACK on stream 0, and the input continues behind the "
             "24 octets")
    J = Judge(D, rep, peel=3, write=("all",), decode=("pm",), handler=("empty",))
    cn, eng = J.cn, J.eng
    cn.fixed["read"] = QUIET + ("ConnectionClosed",)
    n = 0
    st = cn.fresh(St())
    st.ghost["io"] = ()
    first = J.run([st])
    again = [(x, v) for x, v in first if any(e[1] != "ok" for e in events(x, "handshake"))]
    second = J.run([x.copy() for x, v in again if not J.is_result(v, "DiscardConnection")])
    for x, v in first + second:
        n += 1
        done = False
        for e in io(x):
            if e[0] == "handshake":
                done = done or e[1] == "ok"
            elif e[0] in ("read", "write") + ACTS and not done:
                J.fail("handshake-first", x, "%s before the transport handshake succeeded" % e[0], e[-1])
                break
        else:
            rep.ok("handshake-first")
        hs = events(x, "handshake")
        if not hs:
            J.fail("handshake-first", x, "no transport handshake on a new connection")
        elif hs[-1][1] == "WantReadOrWrite":
            if J.is_result(v, "DiscardConnection"):
                J.fail("handshake-first", x, "an unfinished handshake discards the connection", hs[-1][-1])
            else:
                rep.ok("handshake-first")
        elif hs[-1][1] != "ok":
            if not J.is_result(v, "DiscardConnection"):
                J.fail("handshake-first", x, "a failed handshake (%s) does not discard the connection" % hs[-1][1], hs[-1][-1])
            else:
                rep.ok("handshake-first")
    rep.count("handshake_outcomes", n)
    # unknown octets
    cn.fixed["read"] = QUIET
    st = cn.seed("AwaitingPreface")
    n = 0
    for x, v in J.run(eng.assume(st, ge(32, cn.unread(st).n))):
        u = S(memo_sym(("len", "unread"), "|unread|", 0, 65536, "in"))
        whole = Seq("vec", u, (("s", ("unread",), ZERO, u),), None, None)
        n += 1
        q = cn.pending(x)
        quiet = not acted(x) and not events(x, "write") and isinstance(q, Seq) and eng.decide(x, eq(q.n, 0)) is True
        if quiet and J.is_result(v, "DiscardConnection"):
            rep.ok("preface")
            continue
        if quiet and J.is_result(v, "WantRead") and seq_same(eng, x, cn.unread(x), whole):
            rep.judge("preface", eng, x, ge(23, u), FN, J.w, "24 octets or more were received and neither accepted nor refused")
            continue
        if not rep.judge("preface", eng, x, ge(u, 24), FN, J.w, "the connection proceeds without 24 octets of preface"):
            continue
        for i, b in enumerate(PREFACE):
            for s, g in eng.seq_get(x, whole, L(i)):
                rep.judge("preface", eng, s, eq(g, b), FN, J.w, "the connection proceeds although octet %d of the preface is not %#x" % (i, b))
        rep.sample("preface", "accepted preface, result %r" % v)
    rep.count("preface_outcomes", n)
    for k in (0, 1, 12, 23):
        for x, v in J.run([preface(cn, PREFACE[:k])]):
            if not J.is_result(v, "WantRead") or acted(x) or events(x, "write"):
                J.fail("preface", x, "%d octets of a correct preface do not wait for the rest" % k)
            else:
                seq_is(J, "preface", x, cn.unread(x), lit_vec(PREFACE[:k]), "the received part of the preface is not kept")
    for k in (0, 3, 14, 17, 23):
        bad = bytearray(PREFACE)
        bad[k] ^= 1
        for x, v in J.run([preface(cn, bytes(bad) + b"\0\0\0\4\0\0\0\0\0")]):
            if not J.is_result(v, "DiscardConnection") or acted(x):
                J.fail("preface", x, "a preface with octet %d wrong does not discard the connection" % k)
            else:
                rep.ok("preface")
    J.done()
    J = Judge(D, rep, peel=4, write=("all",), decode=("pm",), handler=("empty",))
    cn, eng = J.cn, J.eng
    cn.maxblock = 100
    n = 0
    req = (5).to_bytes(3, "big") + b"\1\5" + (1).to_bytes(4, "big") + b"\x82\x82\x82\x82\x82"
    for octets in (PREFACE, PREFACE + b"\0\0\0\4\0\0\0\0\0", PREFACE + req):
        st = preface(cn, octets)
        st.ghost["frame"] = (ZERO, ZERO, ZERO, ZERO, ZERO)
        for x, v in J.run([st]):
            for s, fs in J.frames("first-frame", x):
                n += 1
                if not fs:
                    J.fail("first-frame", s, "nothing is sent after the preface")
                    continue
                f = fs[0]
                for nm, got, want in (("type", f.type, 4), ("flags", f.flags, 0), ("stream", f.stream, 0)):
                    if isinstance(got, Lin):
                        J.judge("first-frame", s, eq(got, want), "the first frame sent has %s %r, not %d" % (nm, got, want))
                    else:
                        rep.undecided("first-frame", nm)
                for g in fs[1:]:
                    if is_ack(g) and flags_known(eng, s, g) and not g.flags.c & 1:
                        J.fail("first-frame", s, "a second SETTINGS frame follows the preface")
                want = {len(PREFACE): 1, len(PREFACE) + 9: 2, len(PREFACE) + 14: 2}[len(octets)]
                if len(fs) != want:
                    J.fail("first-frame", s, "%d frames are sent after the preface and %d octets of frames, not %d" %
                           (len(fs), len(octets) - 24, want))
                else:
                    rep.ok("first-frame")
            if J.is_result(v, "WantRead"):
                J.judge("first-frame", x, eq(cn.unread(x).n, 0), "input behind the preface is not taken from its end")
    rep.count("after_preface", n)
    J.done()


def lit_vec(b):
    return Seq("vec", L(len(b)), (("c", bytes(b)),) if b else (), None, None)


def seq_same(eng, st, a, b):
    return isinstance(a, Seq) and same_seq(eng, st, a, b) is True


# ---- C11 ------------------------------------------------------------------------------------------
def c11(D, rep, tier):
    rep.rule("fails", "each protocol error (undecodable block, oversize frame, SETTINGS or WINDOW_UPDATE of a wrong size, too short "
             "priority fields, transport protocol error) ends with GOAWAY(PROTOCOL_ERROR), once and last, and the connection discarded")
    rep.rule("final", "after an error, a GOAWAY from the peer, the peer's close or undeliverable output nothing is decoded, routed or answered")
    rep.rule("announced", "the connection is only discarded once GOAWAY has been accepted by the transport or the transport refused it")
    J = Judge(D, rep, peel=5, write=("ok", "WantReadOrWrite", "OtherError"), decode=("pm", "error"), handler=("empty",))
    cn, eng = J.cn, J.eng
    cn.maxblock = 100
    over = []
    for st, ln, ty, fl, top, sid in cn.head0(False):
        st.ghost["frame"] = (ln, ty, fl, top, sid)
        over += eng.assume(st.copy(), ge(ln, MAXFRAME + 1))
    settings = []
    for st in cn.one_frame(types=[4]):
        ln, ty, fl, top, sid = st.ghost["frame"]
        for s, m in eng.arith(st, "%", ln, L(6), 64, False, None):
            for b in eng.branch(s, eq(bit(eng, s, fl, 0), 1))[1]:
                settings += eng.branch(b, eq(m, 0))[1]
    window = cn.one_frame(types=[8], conds=[lambda ln, fl: ne(ln, 4)])
    prio = [x for st in cn.one_frame(types=[1], conds=[lambda ln, fl: ge(4, ln)])
            for x in eng.assume(st, eq(bit(eng, st, st.ghost["frame"][2], 5), 1))]
    causes = [("oversize frame", over, True), ("SETTINGS of a wrong size", settings, True), ("WINDOW_UPDATE of a wrong size", window, True),
              ("priority fields cut off", prio, True)]
    for what, ss, err in causes:
        judge_error(J, rep, what, ss, QUIET, ("pm",), 0)
    block = cn.one_frame(types=[1], conds=[lambda ln, fl: ge(ln, 5)])
    block.append(cn.given(None, (5, 1, 5, 1), (5, 1, 5, 3), (6, 4, 0, 0)))
    judge_error(J, rep, "undecodable header block", block, QUIET, ("error",), 1)
    for state in ("AwaitingPreface", "AwaitingFrame"):
        st = cn.seed(state, unread="none")
        judge_error(J, rep, "transport protocol error", [st], ("ProtocolError",), ("pm",), 0)
    # several frames: the error comes after an answered request, requests follow it
    st = cn.given(None, (5, 1, 5, 1), (3, 8, 0, 0), (5, 1, 5, 3), (6, 4, 0, 0))
    judge_error(J, rep, "error between requests", [st], QUIET, ("pm",), 1, after=True)
    # the peer is gone
    closing(J, rep)
    J.done()


def judge_error(J, rep, what, ss, read, decode, decodes, after=False):
    cn, eng = J.cn, J.eng
    cn.fixed.update(read=read, decode=decode, write=("ok", "WantReadOrWrite", "OtherError"))
    J.forbid("final", "after " + what, *([] if after else [k for k in ACTS if not decodes or k != "decode"]))
    if not ss:
        rep.undecided("fails", what + ": no state")
    done = []
    work = ss
    for turn in range(4):
        cn.fixed["write"] = ("ok", "WantReadOrWrite", "OtherError") if turn < 2 else ("all",)
        nxt = []
        for st, v in J.run(work):
            (nxt if J.is_result(v, "WantWrite") and turn < 3 else done).append((st, v) if not (J.is_result(v, "WantWrite") and turn < 3) else st)
        work = nxt
    if not done:
        rep.undecided("fails", what + ": no outcome")
    for st, v in done:
        rep.count("error_outcomes")
        acts = acted(st)
        decs = [e for e in acts if e[0] == "decode"]
        rest = [e for e in acts if e[0] != "decode"]
        if len(decs) > decodes or rest and not after:
            J.fail("final", st, "after %s: %s" % (what, (decs[decodes:] or rest)[0][0]), (decs[decodes:] or rest)[0][-1])
            continue
        if after and len(events(st, "handler")) > 1:
            J.fail("final", st, "a request after %s is answered" % what)
            continue
        rep.ok("final")
        if not J.is_result(v, "DiscardConnection"):
            J.fail("fails", st, "%s does not end in the connection being discarded (result %r)" % (what, v))
            continue
        refused = [e for e in events(st, "write") if e[2] not in ("ok", "WantReadOrWrite")]
        if refused:
            rep.ok("announced")
            continue
        q = cn.pending(st)
        if not isinstance(q, Seq):
            rep.undecided("announced", "pending output")
        else:
            J.judge("announced", st, eq(q.n, 0), "after %s the connection is discarded with output pending (GOAWAY not delivered)" % what)
        for s, fs in J.frames("fails", st):
            goaway(J, "fails", s, fs, 1)
            break
    rep.sample("fails", "%s: %d outcomes" % (what, len(done)))


def closing(J, rep):
    cn, eng = J.cn, J.eng
    rid = "final"
    J.forbid(rid, "on a connection that is closed", *ACTS)
    # GOAWAY from the peer, then requests
    cn.fixed.update(read=QUIET, decode=("pm",), write=("all",))
    st = cn.given(None, (8, 7, 0, 0), (5, 1, 5, 3), (5, 1, 5, 5))
    n = 0
    for x, v in J.run([st]):
        n += 1
        gone(J, rep, x, v, "after the peer's GOAWAY")
    # the peer closed, with whole requests received before
    for state in ("AwaitingPreface", "AwaitingFrame"):
        cn.fixed["read"] = ("ConnectionClosed",)
        st = cn.given(cn.seed(state), (5, 1, 5, 3), (5, 1, 5, 5))
        for x, v in J.run([st]):
            n += 1
            gone(J, rep, x, v, "after the peer closed the connection")
    # output cannot be delivered
    cn.fixed["read"] = QUIET
    for err, _ in cn.errors:
        if err == "WantReadOrWrite":
            continue
        cn.fixed["write"] = (err,)
        st = cn.seed("AwaitingFrame", True)
        st = cn.given(st, (5, 1, 5, 3), (5, 1, 5, 5))
        for x, v in J.run([st]):
            n += 1
            gone(J, rep, x, v, "after output could not be delivered (%s)" % err)
    # closed by the server: one GOAWAY(NO_ERROR), flushed, then gone
    for twice in (False, True):
        cn.fixed["write"] = ("ok", "WantReadOrWrite", "OtherError")
        st = cn.given(None, (5, 1, 5, 3))
        res = [x for x, v in cn.process([st], "close")[0]]
        if twice:
            res = [x for x, v in cn.process(res, "close")[0]]
        for turn in range(4):
            cn.fixed["write"] = ("ok", "WantReadOrWrite", "OtherError") if turn < 2 else ("all",)
            nxt = []
            for x, v in J.run(res):
                if J.is_result(v, "WantWrite") and turn < 3:
                    nxt.append(x)
                    continue
                n += 1
                gone(J, rep, x, v, "after close()")
                if not [e for e in events(x, "write") if e[2] not in ("ok", "WantReadOrWrite")]:
                    for s, fs in J.frames("announced", x):
                        goaway(J, "announced", s, fs, 0)
                    q = cn.pending(x)
                    J.judge("announced", x, eq(q.n, 0), "a closed connection is discarded with output pending")
            res = nxt
    rep.count("closed_outcomes", n)


def gone(J, rep, x, v, what):
    if acted(x):
        J.fail("final", x, "%s: %s" % (acted(x)[0][0], what), acted(x)[0][-1])
    elif not J.is_result(v, "DiscardConnection"):
        J.fail("final", x, "the connection is not discarded " + what)
    else:
        J.rep.ok("final")


# ---- C12 ------------------------------------------------------------------------------------------
def c12(D, rep, tier):
    rep.rule("once-in-order", "the octets offered to the transport on each attempt continue exactly where the octets accepted before ended; "
             "whatever is not accepted stays pending; new output is appended behind it")
    rep.rule("blocked", "while output is pending no frame is decoded and no request handled or answered, and the call ends by asking for "
             "write readiness (or discarding)")
    J = Judge(D, rep, peel=4, write=("ok", "WantReadOrWrite"), decode=("pm",), handler=("big", "empty") if tier == "thorough" else ("empty",))
    cn, eng = J.cn, J.eng
    cn.maxblock = cn.maxbody = 50
    n = 0
    seeds = [cn.given(cn.seed("AwaitingFrame", True), (5, 1, 5, 3)), cn.given(cn.seed("AwaitingFrame", False), (5, 1, 5, 3)),
             cn.given(cn.seed("AwaitingFrame", True), (6, 4, 0, 0)),
             cn.given(cn.seed("Closing", True), (5, 1, 5, 3)), cn.given(cn.seed("ProtocolError", True), (5, 1, 5, 3))]
    for i, seed in enumerate(seeds):
        seed.ghost["epoch"] = 1
        w0 = cn.pending(seed)
        work = [seed]
        for turn in range(3):
            res = J.run(work)
            work = []
            for st, v in res:
                n += 1
                if flow(J, rep, st, v, w0, ["WantRead", "WantRead", "WantRead", None, None][i]) and J.is_result(v, "WantWrite") and turn < 2:
                    work.append(st)
                if n < 60 or tier == "thorough":
                    whole(J, rep, st, w0)
            if len(work) > 40:
                work = work[::len(work) // 40 + 1]
    # close() with output pending: GOAWAY goes behind it
    st = cn.seed("AwaitingFrame", True)
    w0 = cn.pending(st)
    for x, v in cn.process([st], "close")[0]:
        n += 1
        q = cn.pending(x)
        if not isinstance(q, Seq):
            rep.undecided("once-in-order", "pending output after close()")
            continue
        longer, shorter = eng.branch(x, ge(q.n, w0.n))
        for y in shorter:
            J.fail("once-in-order", y, "close() drops pending output")
        for y in longer:
            for z, ps in eng.seq_slice(y, q, ZERO, w0.n):
                seq_is(J, "once-in-order", z, Seq("vec", w0.n, tuple(ps), None, None), w0, "close() does not append behind the pending output")
    rep.count("outcomes", n)
    J.done()


def whole(J, rep, st, w0):
    """The whole output after one answered request: what was pending before, then the response."""
    es, hs = events(st, "encode"), events(st, "handler")
    q = J.sent(st)
    if len(es) != 1 or len(hs) != 1 or q is None or isinstance(hs[0][3], str):
        return
    for s, ps in J.eng.seq_slice(st, q, w0.n, q.n):
        for x, fs in J.frames("once-in-order", s, Seq("vec", q.n - w0.n, tuple(drop_empty(J.eng, s, ps)), None, None)):
            block = Seq("vec", es[0][3], (("s", es[0][2], ZERO, es[0][3]),), None, None)
            wire(J, rep, x, fs, block, hs[0][3].get("body"), "once-in-order")


def flow(J, rep, st, v, w0, idle):
    """One history of writes, decodes and answers, followed with the pending output known so far."""
    cn, eng = J.cn, J.eng
    states = [(st, w0, idle is None)]       # pending output known, and whether output was added since
    for e in io(st):
        nxt = []
        for s, buf, more in states:
            if e[0] == "write":
                q = e[1]
                # what is offered must start with what is pending
                if more:
                    longer, shorter = eng.branch(s, ge(q.n, buf.n))
                else:
                    longer, shorter = [], [s]
                for x in longer:
                    for y, ps in eng.seq_slice(x, q, ZERO, buf.n):
                        if seq_is(J, "once-in-order", y, Seq("vec", buf.n, tuple(ps), None, None), buf,
                                  "the octets offered to the transport do not start with the pending ones", e[4]):
                            for z, rest in eng.seq_slice(y, q, e[3], q.n):
                                nxt.append((z, Seq("vec", q.n - e[3], tuple(rest), None, None), idle is None))
                for x in shorter:
                    fit, over = eng.branch(x, ge(buf.n, q.n))
                    for y in over:
                        J.fail("once-in-order", y, "more octets are offered to the transport than are pending", e[4])
                    for y in fit:
                        for z, ps in eng.seq_slice(y, buf, ZERO, q.n):
                            if seq_is(J, "once-in-order", z, q, Seq("vec", q.n, tuple(ps), None, None),
                                      "the octets offered to the transport are not the pending ones", e[4]):
                                for u, rest in eng.seq_slice(z, buf, e[3], buf.n):
                                    nxt.append((u, Seq("vec", buf.n - e[3], tuple(rest), None, None), more))
            elif e[0] in ACTS + ("raised",):
                if not more and e[0] in ("decode", "handler"):
                    J.judge("blocked", s, eq(buf.n, 0), "%s while output is pending" % e[0], e[-1])
                    for x in eng.assume(s, eq(buf.n, 0)):
                        nxt.append((x, Seq("vec", ZERO, (), None, None), True))
                else:
                    nxt.append((s, buf, True))
            elif e[0] == "read":
                nxt.append((s, buf, True))
            else:
                nxt.append((s, buf, more))
        states = nxt
    good = bool(states)
    for s, buf, more in states:
        q = cn.pending(s)
        if not isinstance(q, Seq):
            rep.undecided("once-in-order", "pending output at the end")
            continue
        more = more or J.is_result(v, "DiscardConnection") or idle is None
        if more:
            longer, shorter = eng.branch(s, ge(q.n, buf.n))
            for x in shorter:
                J.fail("once-in-order", x, "pending output is dropped")
            for x in longer:
                for y, ps in eng.seq_slice(x, q, ZERO, buf.n):
                    seq_is(J, "once-in-order", y, Seq("vec", buf.n, tuple(ps), None, None), buf, "the output left pending is not what remains")
        else:
            seq_is(J, "once-in-order", s, q, buf, "the output left pending is not what remains")
        if not J.is_result(v, "DiscardConnection") and not J.is_result(v, "WantWrite"):
            J.judge("blocked", s, eq(q.n, 0), "the call ends with output pending and does not ask for write readiness")
    return good


# ---- C13 (input buffer) ---------------------------------------------------------------------------
def c13(D, rep, tier):
    rep.rule("input-bound", "whatever is buffered, no read can take the unparsed input above 65536 octets")
    rep.rule("input-order", "received octets are appended in order behind the unparsed ones and leave only from the front")
    rep.rule("never-stalls", "more input is awaited only after a read that did not deliver, and with room for a whole frame of the largest size")
    J = Judge(D, rep, peel=5 if tier == "thorough" else 4, write=("all",), read=("ok",) + QUIET, decode=("pm",), handler=("empty",))
    cn, eng = J.cn, J.eng
    n = 0
    some = lambda name, lo, hi: S(memo_sym(("some", name), name, lo, hi, "in"))
    st = cn.seed("AwaitingPreface")
    # (a) octets that are no preface, however many; (b) behind the header of an oversize frame; (c) an incomplete frame
    seeds = [(x, 1 << 40) for y in eng.assume(st, ge(cn.unread(st).n, 24)) for z, b in eng.seq_get(y, cn.unread(y), ZERO) for x in eng.assume(z, ne(b, 0x50))]
    seeds.append((cn.given(cn.seed("AwaitingFrame"), ((0xffffff, some("|tail|", 0, 65527)), 99, 0, 0)), 1 << 40))
    seeds.append((cn.given(cn.seed("AwaitingFrame"), ((MAXFRAME, some("|part|", 0, 4000)), 99, 0, 0)), 2000))
    # (d) a complete frame of the largest size in a full buffer
    seeds.append((cn.given(cn.seed("AwaitingFrame"), (MAXFRAME, 99, 0, 0), (MAXFRAME, 98, 0, 0), (16320, 98, 0, 0), ((MAXFRAME, some("|part2|", 0, 16000)), 97, 0, 0)), 100))
    for st, rx in seeds:
        cn.maxrx = rx
        eng.kept = []
        start = cn.unread(st)
        for x, v in J.run([st]):
            n += 1
            inputs(J, rep, x, v, start)
        for x, _ in eng.kept:
            n += 1
            inputs(J, rep, x, None, None)
    # (e) part of a frame of the largest size: the rest can always be read
    cn.fixed["read"] = QUIET
    eng.kept = None
    for st in (cn.given(cn.seed("AwaitingFrame"), ((MAXFRAME, some("|part3|", 0, MAXFRAME - 1)), 1, 0, 0)),):
        start = cn.unread(st)
        for x, v in J.run([st]):
            n += 1
            inputs(J, rep, x, v, start)
            if not J.is_result(v, "WantRead"):
                J.fail("never-stalls", x, "an incomplete frame does not wait for the rest")
    rep.count("outcomes", n)
    J.done()


def inputs(J, rep, st, v, start):
    cn, eng = J.cn, J.eng
    rs = events(st, "read")
    for e in rs:
        if isinstance(e[4], Seq) and e[1] == "ok":
            J.judge("input-bound", st, ge(L(65536) - e[4].n, e[2]), "unparsed input grows to %r octets" % (e[4].n + e[2]), e[-1])
    if start is None:
        return
    total = list(start.pieces)
    n = start.n
    for e in rs:
        if e[1] == "ok":
            total.append(("s", e[3], ZERO, e[2]))
            n = n + e[2]
    q = cn.unread(st)
    if not isinstance(q, Seq):
        rep.undecided("input-order", "unread input")
        return
    all_ = Seq("vec", n, tuple(total), None, None)
    for s, ps in eng.seq_slice(st, all_, n - q.n, n):
        seq_is(J, "input-order", s, q, Seq("vec", q.n, tuple(ps), None, None), "the unparsed input is not the received octets in order")
    if J.is_result(v, "WantRead"):
        if not rs or rs[-1][1] == "ok":
            J.fail("never-stalls", st, "more input is awaited although the last read delivered or none was made")
        else:
            J.judge("never-stalls", st, ge(9 + MAXFRAME - 1, q.n), "%r octets stay unparsed: a whole frame must be among them" % q.n)


# ---- C14 (connection), C18, C25, C02 ---------------------------------------------------------------
def escapes(D, rep, tier, rid):
    """Kinds of exceptions that leave process() or close(): {type: (state, where)}; judged by the caller."""
    J = Judge(D, rep, peel=3, write=("all", "raises", "raises-int"), read=QUIET + ("raises", "raises-int"),
              handshake=("ok", "raises", "raises-int"), decode=("pm", "raises", "raises-int"), encode=("ok", "raises", "raises-int"),
              route=("ok", "raises", "raises-int"), log=("ok", "raises", "raises-int"))
    cn, eng = J.cn, J.eng
    cn.maxblock = cn.maxbody = 50
    out = {}
    st = cn.fresh(St())
    st.ghost["io"] = ()
    seeds = [st, preface(cn), cn.given(None, (5, 1, 5, 3)), cn.given(None, (6, 4, 0, 0)), cn.given(None, (5, 4, 0, 0)),
             cn.given(cn.seed("AwaitingFrame", True), (5, 1, 5, 3)), cn.seed("ProtocolError", unread="none"), cn.seed("Closing", True, "none"),
             cn.seed("ClientClosed", unread="none")]
    n = 0
    for s in seeds:
        res, exc = cn.process([s])
        n += len(res) + len(exc)
        for x in exc:
            out.setdefault(x.exc.ty, []).append((x, x.exc.where))
        if not exc:
            rep.ok(rid, len(res))
        else:
            rep.ok(rid, len(res))
    rep.count("connection_outcomes", n)
    return J, out


def c14(D, rep, tier):
    rep.rule("handler-500", "a request whose handler throws, whatever it throws, is answered with status 500 on its stream and the connection goes on")
    J = Judge(D, rep, peel=3, write=("all",), decode=("pm",), handler=("throws", "throws-int"))
    cn = J.cn
    cn.maxblock = 100
    n = 0
    for st, v in J.run(cn.one_frame(types=[1], conds=[lambda ln, fl: ge(ln, 5)])):
        hs = events(st, "handler")
        if not hs:
            continue
        n += 1
        if not events(st, "encode"):
            J.fail("handler-500", st, "a request whose handler throws (%s) is not answered" % hs[0][3], hs[0][-1])
            continue
        if J.is_result(v, "DiscardConnection"):
            J.fail("handler-500", st, "a throwing handler fails the connection", hs[0][-1])
        body = Seq("vec", ZERO, (), None, None)
        for s0, q in as_seq(J.eng, st, J.value(st, events(st, "encode")[0][1])):
            ps = drop_empty(J.eng, s0, q.pieces)
            if ps and ps[0][0] == "v" and isinstance(ps[0][1], Struct) and const_bytes(ps[0][1].get("name")) == b":status":
                decimal(J, "handler-500", s0, ps[0][1].get("value"), L(500), ":status")
            else:
                J.fail("handler-500", s0, "no :status in the answer to a request whose handler throws")
        for s, fs in J.frames("handler-500", st):
            J.judge("handler-500", s, len(fs) >= 1, "nothing is sent when a handler throws")
    rep.count("throwing_handlers", n)
    if not n:
        rep.undecided("handler-500", "no handler call reached")
    J.done()


def c18(D, rep, tier):
    rep.rule("activity", "the time of last activity changes only in calls in which the handshake completed or octets were read or written, "
             "and then becomes the present time")
    J = Judge(D, rep, peel=3, write=("ok", "WantReadOrWrite", "OtherError"), read=QUIET + ("ok", "ConnectionClosed", "OtherError"),
              decode=("pm", "error"), handler=("empty",))
    cn, eng = J.cn, J.eng
    cn.maxblock = 50
    cn.maxrx = 4
    ft = eng.field_types(CONN)
    times = [k for k in ft if "time_point" in eng.tname(ft[k])]
    if len(times) != 1:
        raise AnalysisBroken("the time of last activity is not recognised: %s" % times)
    fresh = cn.fresh(St())
    fresh.ghost["io"] = ()
    n = 0
    for seed, read in ((fresh, QUIET), (preface(cn, b"PRI"), QUIET + ("ok", "ConnectionClosed", "OtherError")), (preface(cn), QUIET),
                       (cn.seed("AwaitingFrame", unread="none"), QUIET + ("OtherError", "ConnectionClosed", "WriteError", "ProtocolError")),
                       (cn.given(None, (5, 1, 5, 3)), QUIET), (cn.given(None, (6, 4, 0, 0)), QUIET), (cn.given(None, (3, 4, 0, 0)), QUIET),
                       (cn.given(None, (5, 99, 0, 0)), QUIET), (cn.given(None, (4, 8, 0, 0)), QUIET),
                       (cn.given(cn.seed("AwaitingFrame", True), (5, 1, 5, 3)), QUIET),
                       (cn.seed("Closing", True, "none"), QUIET), (cn.seed("ClientClosed", False, "none"), QUIET)):
        cn.fixed["read"] = read
        eng.write(seed, cn.this.path + (times[0],), Opaque("tp", S(memo_sym(("t0",), "last activity before", 0, 1 << 62, "in"))))
        for st, v in J.run([seed]):
            n += 1
            last = eng.read(st, cn.this.path + (times[0],))[0][1]
            t = last.data if isinstance(last, Opaque) else None
            prog = [e for e in io(st) if e[0] in ("handshake", "read", "write") and (e[1] if e[0] != "write" else e[2]) == "ok"]
            same = isinstance(t, Lin) and t == S(memo_sym(("t0",), "last activity before", 0, 1 << 62, "in"))
            if not isinstance(t, Lin):
                rep.undecided("activity", "time of last activity %r" % (last,))
            elif prog and same:
                J.fail("activity", st, "%s does not count as activity" % prog[-1][0], prog[-1][-1])
            elif not prog and not same:
                J.fail("activity", st, "the time of last activity changes although nothing was transferred")
            else:
                rep.ok("activity")
    rep.count("outcomes", n)
    J.done()
    timed_out(D, rep)


def timed_out(D, rep):
    rep.rule("five-seconds", "a connection counts as timed out exactly when more than five seconds have passed since the last activity")
    J = Judge(D, rep, peel=3)
    cn, eng = J.cn, J.eng
    ft = eng.field_types(CONN)
    times = [k for k in ft if "time_point" in eng.tname(ft[k])]
    t0 = S(memo_sym(("t0",), "last activity", 0, 1 << 61, "in"))
    seed = cn.seed("AwaitingFrame", unread="none")
    eng.write(seed, cn.this.path + (times[0],), Opaque("tp", t0))
    res, exc = eng.run(CONN + "::has_timed_out", seed, cn.this, [], 0)
    w = where_fn(eng, CONN + "::has_timed_out")
    ns = 1000000000
    for st, v in res:
        k = [i for i, e in enumerate(io(st)) if e[0] == "clock"]
        if len(k) != 1:
            rep.judge("five-seconds", eng, st, False, CONN + "::has_timed_out", w, "the present time is read %d times" % len(k))
            continue
        now = S(memo_sym(("now", st.ghost.get("epoch", 0) * 1000 + k[0]), "", 0, 1 << 62, "in"))
        yes, no = eng.branch(st, eng.truth(v) if not isinstance(v, (tuple, bool)) else v)
        for x in yes:
            rep.judge("five-seconds", eng, x, ge(now - t0, 5 * ns + 1), CONN + "::has_timed_out", w, "timed out after five seconds or less")
        for x in no:
            rep.judge("five-seconds", eng, x, ge(L(5 * ns), now - t0), CONN + "::has_timed_out", w, "not timed out after more than five seconds")
    J.done()


def c25(D, rep, tier):
    rep.rule("one-entry", "each answered request leads to exactly one access-log entry, with its header fields, the status and body size of the "
             "response and the client's address; requests that are not answered lead to none")
    J = Judge(D, rep, peel=3)
    cn, eng = J.cn, J.eng
    cn.shapes = ("pm", "p", "none")
    cn.maxblock = cn.maxbody = 50
    n = 0
    ft = eng.field_types(CONN)
    for big in (None, 70000):       # also a body longer than 16 bits can count
        cn.bodysize = big
        if big:
            cn.shapes = ("pm",)
        runs = [cn.given(None, (5, 1, 5, 1))] if big else cn.one_frame(types=[1], conds=[lambda ln, fl: ge(ln, 5)]) + cn.one_frame(other=[1])
        for st, v in J.run(runs):
            es, ls = events(st, "encode"), events(st, "log")
            n += 1
            if len(es) != len(ls):
                J.fail("one-entry", st, "%d answers and %d access-log entries" % (len(es), len(ls)), ls[-1][-1] if ls else None)
                continue
            rep.ok("one-entry")
            if not es:
                continue
            hs = events(st, "handler")
            shape = events(st, "decode")[0][2]
            status = L(400) if not hs else L(500) if isinstance(hs[0][3], str) else hs[0][3].get("status_code")
            size = ZERO if not hs or isinstance(hs[0][3], str) else hs[0][3].get("body").n
            at = ls[0][-1]
            args = [J.value(st, a) for a in ls[0][1]]
            ints = [a for a in args if isinstance(a, Lin)]
            vecs = [a for a in args if isinstance(a, Seq) and a.kind == "vec"]
            strs = [a for a in args if isinstance(a, Seq) and a.kind == "str"]
            if len(ints) != 2 or len(vecs) != 1 or len(strs) != 1:
                rep.undecided("one-entry", "arguments of the access log: %r" % (args,))
                continue
            J.judge("one-entry", st, eq(ints[0], status), "status %r is logged, %r was sent" % (ints[0], status), at)
            J.judge("one-entry", st, eq(ints[1], size), "body size %r is logged, %r was sent" % (ints[1], size), at)
            J.judge("one-entry", st, eq(vecs[0].n, {"pm": 2, "p": 1, "none": 0}[shape]), "the fields logged are not the request's", at)
            ip = S(memo_sym(("len", "ip"), "|ip|", 0, 64, "in"))
            seq_is(J, "one-entry", st, strs[0], Seq("str", ip, (("s", ("ip",), ZERO, ip),), None, None), "the address logged is not the client's", at)
    rep.count("outcomes", n)
    J.done()


def c02(D, rep, tier):
    rep.rule("refused", "a block the decoder refuses is not routed, handled, answered or logged; the connection fails with GOAWAY(PROTOCOL_ERROR)")
    J = Judge(D, rep, peel=4, write=("all",), decode=("error",))
    cn = J.cn
    n = 0
    J.forbid("refused", "although the header block could not be decoded", *[k for k in ACTS if k != "decode"])
    for st, v in J.run(cn.one_frame(types=[1], conds=[lambda ln, fl: ge(ln, 5)]) + [cn.given(None, (5, 1, 5, 1), (5, 1, 5, 3), (6, 4, 0, 0))]):
        n += 1
        if not events(st, "decode"):
            continue
        bad = [e for e in acted(st) if e[0] != "decode"]
        if bad:
            J.fail("refused", st, "%s although the header block could not be decoded" % bad[0][0], bad[0][-1])
            continue
        if len(events(st, "decode")) != 1:
            J.fail("refused", st, "decoding goes on after a header block that could not be decoded")
            continue
        if not J.is_result(v, "DiscardConnection"):
            J.fail("refused", st, "the connection survives a header block that could not be decoded")
            continue
        for s, fs in J.frames("refused", st):
            goaway(J, "refused", s, fs, 1)
    rep.count("outcomes", n)
    J.done()
