"""C31: the header blocks a connection sends, read by a peer with its own HPACK decoder.

The real encoder is interpreted inside the connection; operations on the dynamic tables are recorded.  The peer's
decoder is the reference: its table limit starts at 4096, follows the size updates in the blocks, and may not exceed
what the peer's SETTINGS_HEADER_TABLE_SIZE allows."""
from .util import *
from . import hpack_enc
from .hpack_enc import RefOut, ENC
from .hpack_dec import events as tevents, oracle_table
from .conn import Conn, io, log
from . import conn_rules
from .conn_rules import Judge
from .hpack_tables import take
from ..report import Report
from ..values import to_runs, runs_lin, cut

TABLE = "ion::DynamicTable"
DEFAULT = 4096


def path_of(v):
    return v.path if isinstance(v, Ptr) else None


class Real(Conn):
    """A connection with the real encoder."""

    answer = (("x-a", "b"),)

    def __init__(self, D, peel=2, budget=3000000):
        super().__init__(D, peel, budget)
        h = self.eng.hooks
        for q in [q for q in h if q.startswith("ion::HeaderBlockEncoder::")]:
            del h[q]
        hpack_enc.install(self.eng)
        for q in ("insert", "set_max_table_size", "find", "find_name"):
            h[TABLE + "::" + q] = self.on_table(q, self.absent if q.startswith("find") else h[TABLE + "::" + q])
        self.eng.pre[TABLE + "::DynamicTable"] = self.table_made
        self.eng.pre[ENC] = self.encoding

    def on_table(self, q, then):
        def f(e, c):
            c.st.ghost["tabs"] = c.st.ghost.get("tabs", ()) + ((q, path_of(c.this), len(tevents(c.st))),)
            return then(e, c)
        return f

    def absent(self, e, c):
        # what is found is C05's matter
        return [(c.st, Opt(False, VOID, None, "opt", e.strip(c.f["r"])))]

    def table_made(self, e, c):
        p = path_of(c.this) or path_of(c.dest) or c.dest
        for s, v in (c.val(0) if c.args else [(c.st, None)]):
            s.ghost["made"] = s.ghost.get("made", ()) + ((p, v),)
        return None

    def encoding(self, e, c):
        for s, v in c.val(0):
            for s1, q in as_seq(e, s, v):
                s1.ghost["blocks"] = s1.ghost.get("blocks", ()) + ((q, len(tevents(s1))),)
        return None

    def call(self, e, st, fv, args, n, fr):
        ht = e.find_type("ion::HttpHeader")
        hs = [("v", Struct("ion::HttpHeader", (("name", lit(a)), ("value", lit(b))), None, ht)) for a, b in self.answer]
        v = Struct("ion::HttpResponse", (("status_code", L(200)), ("body", mk_seq("vec", [], e.find_type("unsigned char"))),
                                         ("headers", mk_seq("vec", hs, ht))), None, e.find_type("ion::HttpResponse"))
        log(st, "handler", fv, None, v, e.where(n, fr))
        return [(st, v)]


class RealJudge(Judge):
    make = Real


RULES = {
    "size-update": "after the peer's SETTINGS_HEADER_TABLE_SIZE changes, the next header block begins with dynamic table size updates that leave "
                   "the peer's table with the limit of the encoder's own and have evicted the same entries (the smallest limit in between is "
                   "signalled), and no block contains any other",
    "table-limit": "the limit of the table the encoder refers to is at no header block above what the peer allows: 4096 until it says otherwise",
    "block": "the answer to a request of such a history is one header list encoded once, whose octets are found in its HEADERS frame",
}


def mins(eng, st, vs):
    """[(state, smallest of vs)]"""
    out = [(st, vs[0])]
    for v in vs[1:]:
        nxt = []
        for s, m in out:
            T, F = eng.branch(s, ge(v, m))
            nxt += [(x, m) for x in T] + [(x, v) for x in F]
        out = nxt
    return out


def setting(what):
    """An entry of a SETTINGS frame: (identifier, value, octets)"""
    ident, v = S(new_sym(what + " identifier", 0, 65535, "in")), S(new_sym(what + " value", 0, (1 << 32) - 1, "in"))
    return ident, v, [part(ident, 8, 16), part(ident, 0, 16)] + [part(v, k, 32) for k in (24, 16, 8, 0)]


def part(v, k, w):
    return runs_lin(cut(to_runs(v, w, St().facts), k, 8))


def asked(eng, st, entries):
    """The limits the peer asks for, in order: [(state, [values])]"""
    out = [(st, [])]
    for ident, v, _ in entries:
        nxt = []
        for s, vs in out:
            T, F = eng.branch(s, eq(ident, 1))
            nxt += [(x, vs + [v]) for x in T] + [(x, vs) for x in F]
        out = nxt
    return out


def updates(J, st, q):
    """Leading size updates of a block: [(state, [values], position)]"""
    eng = J.eng
    r = RefOut(eng, q, None, None)
    done, live = [], [(st, [], ZERO)]
    while live:
        nxt = []
        for s, us, pos in live:
            have, none = eng.branch(s, ge(q.n - 1, pos))
            done += [(x, us, pos) for x in none]
            for x in have:
                for y, b in r.byte(x, pos):
                    lo, hi = eng.branch(y, ge(b, 64))
                    done += [(z, us, pos) for z in lo]
                    for z in hi:
                        t, f = eng.branch(z, ge(b, 32))
                        done += [(w, us, pos) for w in f]
                        for w in t:
                            for u, v, p, may in r.integer(w, pos, 5):
                                if v is None or len(us) > 4:
                                    J.fail("size-update", u, "a size update runs past the end of the block")
                                else:
                                    nxt.append((u, us + [v], p))
        live = nxt
    return done


def batches(tier):
    """Histories: each batch of frames ends with a request."""
    S = lambda n: (6 * n, 4, 0, 0)
    R = lambda sid: (6, 1, 5, sid)
    out = [[[R(1)]], [[S(1), R(1)]], [[S(1), R(1)], [R(3)]], [[S(2), R(1)]], [[S(1), S(1), R(1)]], [[R(1)], [S(1), R(3)]],
           [[S(1), (0, 4, 1, 0), R(1)]], [[S(3), R(1)]]]
    if tier == "thorough":
        out += [[[S(1), R(1)], [S(1), R(3)]], [[S(2), R(1)], [R(3)]]]
    return out


def history(D, rep, hist, tier):
    J = RealJudge(D, rep, peel=8, budget=6000000, write=("all",), read=("WantReadOrWrite",), decode=("pm",))
    J.w = J.w
    cn, eng = J.cn, J.eng
    table = oracle_table(eng)
    n = 0
    live = [(None, None, None)]       # state, limit both sides had after the last block, what the peer allows
    for bi, fr in enumerate(hist):
        nxt = []
        for st0, cur, allow in live:
            entries, given = [], []
            for f in fr:
                if f[1] == 4 and f[0]:
                    es = [setting("setting %d.%d" % (bi + 1, len(entries) + j + 1)) for j in range(f[0] // 6)]
                    entries += es
                    f = f + ([o for e in es for o in e[2]],)
                given.append(f)
            st = cn.given(st0, *given)
            st.ghost["from"] = len(tevents(st))
            st.ghost["blocks"] = ()
            for s, v in J.run([st]):
                for z, fs in J.frames("block", s):
                    hs = [f for f in fs if isinstance(f.type, Lin) and not f.type.t and f.type.c in (1, 9)]
                    bl = z.ghost.get("blocks", ())
                    if len(hs) == 1 and len(bl) == 1:
                        rep.ok("block")
                    elif len(hs) == 1:
                        J.fail("block", z, "one request's answer is sent in one HEADERS frame, but %d header lists are encoded" % len(bl))
                        continue
                    else:
                        rep.undecided("block", "%d header frames, %d header lists" % (len(hs), len(bl)))
                        continue
                    for w, vs in asked(eng, z, entries):
                        n += 1
                        nxt += one_block(J, table, w, hs[0].payload, bl[0], vs, cur, allow)
        live = nxt
        if len(rep.viol) >= 5:
            break
    if not n:
        rep.undecided("block", "no outcome of a history of %d batches" % len(hist))
    rep.count("blocks_read_back", n)
    J.done()


def one_block(J, table, st, q, block, asks, cur, allow):
    eng, rep = J.eng, J.rep
    hdrs, before = block
    tabs = st.ghost.get("tabs", ())
    used = {p for k, p, i in tabs if k in ("find", "find_name", "insert")}
    if len(used) > 1:
        J.fail("table-limit", st, "the encoder looks up and adds entries in two tables")
        return []
    mine = used.pop() if used else None
    made = [v for p, v in st.ghost.get("made", ()) if p == mine]
    if cur is None:
        if len(made) != 1 or not isinstance(made[0], Lin):
            rep.undecided("table-limit", "the limit the encoder's table is made with is not recognised")
            return []
        cur, allow = made[0], L(DEFAULT)
        # before anything is sent, the peer's table has the default limit; a smaller one of ours needs no signal
    ev = tevents(st)
    lims = [ev[i][1] for k, p, i in tabs if k == "set_max_table_size" and p == mine and i >= st.ghost["from"] and i < len(ev)]
    if not all(isinstance(v, Lin) for v in lims):
        rep.undecided("table-limit", "a limit is not expressible")
        return []
    out = []
    allowed = asks[-1] if asks else allow
    mine_now = lims[-1] if lims else cur
    if not J.judge("table-limit", st, ge(allowed, mine_now), "the encoder's table has limit %r where the peer allows %r" % (mine_now, allowed)):
        return []
    for s, us, pos in updates(J, st, q):
        # what a decoder that starts with our limit ends up with
        theirs = us[-1] if us else cur
        if not J.judge("size-update", s, eq(theirs, mine_now), "the block leaves the peer's table with limit %r, the encoder's has %r" % (theirs, mine_now)):
            continue
        for x, a in mins(eng, s, [cur] + lims):
            for y, b in mins(eng, x, [cur] + us):
                if not J.judge("size-update", y, eq(a, b), "limits down to %r applied by the encoder, the block signals down to %r" % (a, b)):
                    continue
                ok = True
                if asks:
                    # RFC 7541 4.2: the smallest maximum in between is signalled
                    for z, m in mins(eng, y.copy(), [cur] + asks):
                        ok = J.judge("size-update", z, ge(m, b), "the peer's limit went down to %r, the block signals %r" % (m, b)) and ok
                for u in us:
                    ok = J.judge("size-update", y, ge(allowed if u is us[-1] else L(1 << 32), u), "a size update to %r exceeds the peer's limit %r" % (u, allowed)) and ok
                if not ok:
                    continue
                nev = before
                while nev < len(ev) and ev[nev][0] == "limit":
                    nev += 1
                if isinstance(hdrs, Seq) and all(p[0] == "v" for p in hdrs.pieces):
                    hpack_enc.Judge(rep, eng, table, [p[1] for p in hdrs.pieces]).run(y, q, pos, nev)
                else:
                    rep.undecided("block", "the header list is not expressible")
                out.append((y, mine_now, allowed))
    return out


def c31(D, rep, tier):
    for k in RULES:
        rep.rule(k, RULES[k])
    for k in ("representation", "index", "string", "table-sync"):
        rep.rule(k, hpack_enc.RULES[k])
    for h in batches(tier):
        if len(rep.viol) >= 5:
            break
        history(D, rep, h, tier)


def c31_frames(D, rep, tier):
    """The block a response's header list was encoded to is what its HEADERS and CONTINUATION frames carry."""
    sub = Report(rep.prop, tier, 1)
    conn_rules.c09(D, sub, tier)
    for k in ("response-frames", "one-response"):
        rep.rule(k, conn_rules.RULES9[k])
        take(rep, sub, k)


def c05(D, rep, tier):
    """The limit of the encoder's table while the peer has not asked for another."""
    rep.rule("table-limit", "the limit of the table the encoder refers to is at no header block above the 4096 octets every peer grants")
    sub = Report(rep.prop, tier, 1)
    history(D, sub, [[(6, 1, 5, 1)]], tier)
    take(rep, sub, "table-limit")
