"""C25: what one access-log entry says (AccessLog::log_request)."""
from .util import *
from .server import cst
from ..models import each

LOG = "ion::AccessLog::log_request"
FIELDS = (b":method", b":path", b"user-agent", b"referer")
GIVEN = {b":method": b"PURGE", b":path": b"/d-1/index.html?x=1&y=%20z", b"user-agent": b"agent/1.0 (X11; U)", b"referer": b"https://ref.example/a"}
IP = b"192.0.2.77"
ODD = (b"\n", b"\r", b'"', b"\\", b'\\"', b'"\\', b"\r\n", b'" 200 1 "', b"a\nb", b"\n\n", b"\\\n", b'""', b"{}", b"%", b"\x7f", b"\x00", b"\xff", b"\\x22", b"\t\"")


def text(b):
    return Seq("str", L(len(b)), (("c", b),) if b else (), None, None)


def header(n, v):
    return Struct("ion::HttpHeader", (("name", text(n)), ("value", text(v) if isinstance(v, bytes) else v)), "given", None)


class Entry:
    """Runs log_request over given header fields; collects the entries written."""

    def __init__(self, D, rep):
        self.rep = rep
        self.eng = e = Engine(D, peel=4, budget=400000)
        self.at = where_fn(e, LOG)
        for n in ("trace", "debug", "info", "warn", "error", "critical", "log"):
            e.hooks["spdlog::logger::" + n] = self.entry
        e.hooks["spdlog::get"] = lambda e, c: [(c.st, Ptr((("obj", ("logger", 0), None),), False))]
        if e.by_name.get("SystemClock::clf_timestamp"):
            e.hooks["SystemClock::clf_timestamp"] = lambda e, c: [(c.st, text(b"[01/Jan/2026:00:00:00 +0000]"))]
        f, _ = e.fn(LOG)
        self.types = [p["t"] for p in f["params"]]

    def entry(self, e, c):
        """logger->info(text) or logger->info(format, values...)"""
        level = c.q.split("::")[-1]
        st = c.st
        args = list(range(len(c.args)))
        if level == "log":
            args = args[1:]
        if not args:
            return [(st, VOID)]
        from ..models import m_format
        if len(args) > 1:
            k = len(c.args) - len(args)
            xs = m_format(e, Call(e, c.n, dict(c.f, p=(c.f.get("p") or [])[k:]), c.q, c.this, c.args[k:], c.argn[k:], st, c.fr, c.dest, False))
        else:
            xs = each(c.val(args[0]), lambda s, v: as_seq(e, s, v) if isinstance(v, (Seq, SpanV, It, Ptr)) else [(s, None)])
        out = []
        for s, q in xs:
            s.ghost["lines"] = s.ghost.get("lines", ()) + ((level, q, e.where(c.n, c.fr)),)
            out.append((s, VOID))
        return out

    def run(self, hdrs, status=L(200), size=L(5)):
        """[(state, [(level, line, where)])] for one call."""
        e = self.eng
        st = St()
        st.ghost["lines"] = ()
        vec = Seq("vec", L(len(hdrs)), tuple(("v", header(n, v)) for n, v in hdrs), None, None)
        args, ints = [], [status, size]
        for t in self.types:
            nm = e.tname(t)
            if nm in ("std::vector", "std::span"):
                args.append(var(st, "hdrs", vec))
            elif "string" in nm:
                args.append(var(st, "ip", text(IP)))
            elif ints:
                v, ty = ints.pop(0), e.T(e.strip(t))
                if ty["k"] == "int" and cst(v) is not None:
                    v = L(cst(v) % (1 << ty["w"]))       # what the caller can pass
                args.append(v)
            else:
                raise AnalysisBroken("parameters of the access log are not recognised: %s" % [e.tname(t) for t in self.types])
        e.steps = 0
        res, exc = e.run(LOG, st, None, args, len(args))
        return [(s, [x for x in s.ghost["lines"] if x[0] not in ("trace", "debug")]) for s, _ in res], exc

    def fail(self, rid, st, what, at=None):
        self.rep.judge(rid, self.eng, st, False, LOG, at or self.at, what)


def holds(q, b):
    """Whether the line contains the octets: True, False, or None (not known)."""
    if not isinstance(q, Seq):
        return None
    c = const_bytes(q)
    if c is not None:
        return b in c
    run, known = b"", True
    for p in q.pieces:
        if p[0] == "c":
            run += p[1]
        else:               # digits of a number, or an address: no such text can be inside
            run += b"\xff\xff\xff"
            known = known and p[0] == "s" and isinstance(p[1], tuple) and p[1] and p[1][0] in ("dec", "fmt", "ip")
    return True if b in run else False if known and not b.isdigit() else None


def line_of(rep, w, rid, what, st, ls):
    if len(ls) != 1:
        w.fail(rid, st, "%s: %d entries are written for one answered request" % (what, len(ls)), ls[-1][2] if ls else None)
        return None
    if not isinstance(ls[0][1], Seq):
        rep.undecided(rid, "%s: the text of the entry is not known" % what)
        return None
    return ls[0]


def faithful(D, rep, tier):
    rep.rule("entry", "log_request writes exactly one entry, which holds the request's method, path, referrer and user agent, the status, the body "
             "size and the client's address, and no other field")
    rep.rule("escaped", "no octet of a client-supplied value reaches the entry as a line feed, a carriage return or a quotation mark that closes a field")
    w = Entry(D, rep)
    usual = [(n, GIVEN[n]) for n in FIELDS]
    other = [(b"x-user-agent", b"other1"), (b"referrer-policy", b"other2"), (b":authority", b"other3"), (b"cookie", b"other4"), (b":path2", b"other5")]
    lists = [("the usual fields", usual), ("the fields in another order", usual[::-1]), ("fields among others", other + usual + other),
             ("no fields", []), ("method and path only", usual[:2]), ("no method", usual[1:])]
    for what, hdrs in lists:
        for status, size in ((200, 0), (404, 1), (500, 70000), (301, 5000000000)):
            res, exc = w.run(hdrs, L(status), L(size))
            for x in exc:
                w.fail("entry", x, "%s: no entry is written: %s" % (what, x.exc.ty), x.exc.where)
            for st, ls in res:
                ln = line_of(rep, w, "entry", what, st, ls)
                if ln is None:
                    continue
                for name, b in [(n.decode(), v) for n, v in hdrs if n in FIELDS] + [("status", str(status).encode()), ("size", str(size).encode()), ("client", IP)]:
                    h = holds(ln[1], b)
                    if h is False:
                        w.fail("entry", st, "%s: the entry does not hold the %s" % (what, name), ln[2])
                    elif h is None:
                        rep.undecided("entry", "%s: whether the entry holds the %s is not known" % (what, name))
                    else:
                        rep.ok("entry")
                for n, v in hdrs:
                    if n not in FIELDS and holds(ln[1], v):
                        w.fail("entry", st, "%s: the value of field %s is in the entry" % (what, n.decode()), ln[2])
            rep.count("entries", len(res))
    # values that differ only between the fields: the order of the combined log format
    res, _ = w.run(usual, L(201), L(31))
    order = [IP, b"PURGE", GIVEN[b":path"], b"201", b"31", GIVEN[b"referer"], GIVEN[b"user-agent"]]
    for st, ls in res:
        if len(ls) == 1 and const_bytes(ls[0][1]) is not None:
            c, at = const_bytes(ls[0][1]), -1
            for b in order:
                k = c.find(b, at + 1)
                if k < 0:
                    w.fail("entry", st, "%r is not where the combined log format has it" % b.decode(), ls[0][2])
                    break
                at = k
            else:
                rep.ok("entry")
    escaped(rep, w, tier)
    rep.absorb(w.eng)


def around(w, f):
    """What precedes and follows the value of field f in an entry."""
    out = {}
    for mark in (b"QqQqQ", b"ZzZ"):
        res, _ = w.run([(n, GIVEN[n] if n != f else mark) for n in FIELDS])
        if len(res) != 1 or len(res[0][1]) != 1 or not isinstance(res[0][1][0][1], Seq):
            return None
        c = const_bytes(res[0][1][0][1])
        if c is None or c.count(mark) != 1:
            return None
        out[mark] = tuple(c.split(mark))
    a, b = out.values()
    return a if a == b else None


def region(q, pre, post):
    """The pieces of the line between the constant octets around a field, or None."""
    ps = [p for p in q.pieces if not (p[0] == "c" and not p[1])]
    left, right = len(pre), len(post)
    while left:
        if not ps or ps[0][0] != "c" or not (ps[0][1].startswith(pre[-left:]) or pre[-left:].startswith(ps[0][1])):
            return None
        k = min(left, len(ps[0][1]))
        left -= k
        ps = ([("c", ps[0][1][k:])] if len(ps[0][1]) > k else []) + ps[1:]
    while right:
        if not ps or ps[-1][0] != "c" or not (ps[-1][1].endswith(post[:right]) or post[:right].endswith(ps[-1][1])):
            return None
        k = min(right, len(ps[-1][1]))
        right -= k
        ps = ps[:-1] + ([("c", ps[-1][1][:-k])] if len(ps[-1][1]) > k else [])
    return ps


def escaped(rep, w, tier):
    for f in FIELDS:
        ctx = around(w, f)
        if ctx is None:
            rep.undecided("escaped", "where the entry holds %s is not known" % f.decode())
            continue
        b = [S(memo_sym(("octet", i), "octet %d of the value" % i, 0, 255, "byte")) for i in range(3)]
        values = [("any octet", mk_seq("str", [("v", b[0])])), ("any two octets", mk_seq("str", [("v", b[0]), ("v", b[1])])),
                  ("an octet between letters", mk_seq("str", [("c", b"ab"), ("v", b[0]), ("c", b"c")]))]
        if tier == "thorough":
            values.append(("any three octets", mk_seq("str", [("v", x) for x in b])))
        values += [(repr(o)[1:], o) for o in ODD]
        for what, v in values:
            hdrs = [(n, GIVEN[n] if n != f else v) for n in FIELDS]
            what = "%s with %s" % (f.decode(), what)
            res, exc = w.run(hdrs)
            for x in exc:
                w.fail("escaped", x, "%s: no entry is written: %s" % (what, x.exc.ty), x.exc.where)
            for st, ls in res:
                ln = line_of(rep, w, "escaped", what, st, ls)
                if ln is None:
                    continue
                ps = region(ln[1], *ctx)
                if ps is None:
                    rep.undecided("escaped", "%s: the entry cannot be divided" % what)
                    continue
                harmless(rep, w, st, ps, what, ln[2])
                rep.count("values")


def harmless(rep, w, st, ps, what, at):
    """Walks the field's octets as a reader of the line would: an odd number of backslashes protects a quotation mark."""
    def bad(cond, text):
        rep.judge("escaped", w.eng, st, cond, LOG, at, "%s: %s" % (what, text))
    shield = False                  # an odd number of backslashes precedes
    for p in ps:
        if p[0] == "c":
            for o in p[1]:
                if o in (10, 13):
                    bad(False, "the value ends the line")
                if o == 34 and not shield:
                    bad(False, "the value closes the quoted field")
                shield = o == 92 and not shield
            rep.ok("escaped")
        elif p[0] == "v" and isinstance(p[1], Lin):
            bad(ne(p[1], 10), "the value ends the line")
            bad(ne(p[1], 13), "the value ends the line")
            if not shield:
                bad(ne(p[1], 34), "the value closes the quoted field")
            shield = not shield and w.eng.decide(st, eq(p[1], 92)) is True
        elif p[0] == "s" and isinstance(p[1], tuple) and p[1] and p[1][0] in ("dec", "fmt"):
            shield = False          # digits
            rep.ok("escaped")
        else:
            rep.undecided("escaped", "%s: part of the entry is not known" % what)
            shield = False


# ---- the program: the logger that log_request looks up ------------------------------------------------
INFO = 2
LEVELS = ("trace", "debug", "info", "warn", "error", "critical", "off")


def looked_up(w):
    """The names under which log_request looks for its logger."""
    names = set()
    old = w.eng.hooks["spdlog::get"]

    def get(e, c):
        for s, q in as_seq(e, c.st, c.args[0]):
            names.add(const_bytes(q) if isinstance(q, Seq) else None)
        return old(e, c)
    w.eng.hooks["spdlog::get"] = get
    w.run([(n, GIVEN[n]) for n in FIELDS])
    w.eng.hooks["spdlog::get"] = old
    return {n.rstrip(b"\0") if n else n for n in names}


def program(D, rep, tier):
    from .app import App, Run, LOGS, TLS, ALL, STATIC
    from .server import num
    rep.rule("installed", "when an access log is asked for, whatever the log level, the program serves only after it has created, at the given "
             "path, the logger that log_request looks up, and that logger accepts entries of the level log_request uses")
    names = looked_up(Entry(D, rep))
    if len(names) != 1 or None in names:
        rep.undecided("installed", "which logger log_request looks up is not known: %s" % names)
        return
    name = names.pop()
    base = App.__init__

    def init(self, D, rep, given, faults=()):
        base(self, D, rep, given, faults)
        h = self.eng.hooks
        self.opened = self.log_open

        def level(e, c):
            c.st.ghost["loglevel"] = num(c, len(c.args) - 1) if len(c.args) else None
            c.st.ghost["loggerlevel"] = c.st.ghost["loglevel"]
            return [(c.st, VOID)]

        def own(e, c):
            c.st.ghost["loggerlevel"] = num(c, 0)
            return [(c.st, VOID)]

        def create(e, c):
            got = [const_bytes(q) for a in c.args[:2] if isinstance(a, (Seq, Ptr, It)) for s, q in as_seq(e, c.st, a)[:1] if isinstance(q, Seq)]
            c.st.ghost["logger"] = c.st.ghost.get("logger", ()) + ((tuple(x.rstrip(b"\0") if x else None for x in got), e.where(c.n, c.fr)),)
            c.st.ghost["loggerlevel"] = c.st.ghost.get("loglevel", INFO)
            return self.log_open(e, c)

        def gone(e, c):
            c.st.ghost["logger"] = ()
            return [(c.st, VOID)]
        h["spdlog::set_level"] = level
        h["spdlog::logger::set_level"] = own
        for q in ("basic_logger_mt", "basic_logger_st"):
            h["spdlog::" + q] = create
        for q in ("drop_all", "shutdown", "drop"):
            h["spdlog::" + q] = gone
    App.__init__ = init
    try:
        some = ("off", "trace") if tier == "quick" else LEVELS
        for what, opts in (("TLS", dict(TLS)), ("everything", dict(TLS, **ALL, **STATIC)), ("cleartext", {"--cleartext": True})):
            for lv in some if what == "TLS" or tier == "thorough" else some[:1]:
                text = "%s with an access log and log level %s" % (what, lv)
                r = Run(D, rep, text, dict(opts, **LOGS, **{"--log-level": lv.encode()}))
                path = LOGS["--access-log"]
                for st in r.ends + [s for s, _ in r.res]:
                    if not st.ghost.get("served"):
                        continue
                    lg = st.ghost.get("logger", ())
                    hit = [x for x in lg if x[0] and x[0][0] == name]
                    unknown = [x for x in lg if None in x[0] or not x[0]]
                    if not hit:
                        if unknown:
                            rep.undecided("installed", "%s: the name of a logger is not known" % text)
                        else:
                            r.judge("installed", st, False, "no logger %r is installed when the server starts" % name.decode())
                        continue
                    at = hit[-1][1]
                    if len(hit[-1][0]) > 1 and hit[-1][0][1] != path:
                        r.judge("installed", st, False, "the access log is opened at %r, not at the path given" % (hit[-1][0][1],), at=at)
                    lvl = st.ghost.get("loggerlevel")
                    if lvl is None:
                        rep.undecided("installed", "%s: the level of the access logger is not known" % text)
                    else:
                        r.judge("installed", st, lvl <= INFO, "the access logger drops entries below level %s" % LEVELS[min(lvl, 6)], at=at)
                r.done()
    finally:
        App.__init__ = base


# ---- the connection and the log together --------------------------------------------------------------
def acted_on(D, rep, tier):
    from .conn_rules import Judge, events
    from .conn import log as note
    rep.rule("acted-on", "the method and path in the entry are those the handler was given, also when the request repeats a field")
    for hdrs in ([(b":path", b"/first"), (b":method", b"PUT"), (b":path", b"/second"), (b":method", b"PATCH")],
                 [(b":method", b"PUT"), (b":method", b"PATCH"), (b"x", b"y"), (b":path", b"/first"), (b":path", b"/second")],
                 [(b":method", b"PATCH"), (b":path", b"/third"), (b"user-agent", b"a")]):
        J = Judge(D, rep, peel=4, write=("all",), handler=("empty",))
        cn, e = J.cn, J.eng
        cn.maxblock = 50
        w = Entry.__new__(Entry)
        w.rep, w.eng = rep, e
        for n in ("trace", "debug", "info", "warn", "error", "critical", "log"):
            e.hooks["spdlog::logger::" + n] = w.entry
        e.hooks["spdlog::get"] = lambda e, c: [(c.st, Ptr((("obj", ("logger", 0), None),), False))]
        e.hooks["SystemClock::clf_timestamp"] = lambda e, c: [(c.st, text(b"[now]"))]
        del e.hooks[LOG]

        def decode(e, c, hdrs=hdrs):
            note(c.st, "decode", None, "ok", None, None, e.where(c.n, c.fr))
            return [(c.st, cn.exp(c, mk_seq("vec", [("v", header(n, v)) for n, v in hdrs], e.find_type("ion::HttpHeader"))))]
        e.hooks["ion::HeaderBlockDecoder::decode"] = decode
        for st, v in J.run([cn.given(None, (5, 1, 5, 3))]):
            hs = events(st, "handler")
            ls = [x for x in st.ghost.get("lines", ()) if x[0] not in ("trace", "debug")]
            if not hs or not isinstance(hs[0][2], Struct):
                continue
            if len(ls) != 1:
                J.fail("acted-on", st, "%d entries are written for one answered request" % len(ls), ls[-1][2] if ls else None)
                continue
            for f in ("method", "path"):
                q = J.value(st, hs[0][2].get(f))
                b = const_bytes(q) if isinstance(q, Seq) else None
                h = holds(ls[0][1], b) if b is not None else None
                if h is None:
                    rep.undecided("acted-on", "whether the entry holds the %s the handler was given is not known" % f)
                elif h is False:
                    J.fail("acted-on", st, "the handler was given %s %r, the entry says otherwise" % (f, b.decode()), ls[0][2])
                else:
                    rep.ok("acted-on")
        J.done()
