"""C34: the figures of the status page."""
import re
from fractions import Fraction
from .util import *
from ..engine import Exc
from ..values import is_flt, flt
from .route import World, ROUTER

PAGE = "StatusPage::add_status_page"
PATH = "/_ion/status"


def clock(k):
    return S(memo_sym(("now", k), "t%d" % k, 0, 1 << 60, "in"))


# ---- what the page says
class Figures:
    """The numbers of a rendered page: total (Lin), mean (Opaque fl) and [(code, count)]."""

    def __init__(self, e, st, body):
        self.why = None
        self.total = self.mean = None
        self.codes = []
        vals = []
        txt = ""
        for p in drop_empty(e, st, body.pieces):
            if p[0] == "c":
                txt += p[1].decode("latin-1")
            elif p[0] == "s" and isinstance(p[1], tuple) and p[1] and p[1][0] in ("dec", "float"):
                txt += "\0%d\0" % len(vals)
                vals.append(p[1][1] if p[1][0] == "dec" else Opaque("fl", p[1][1]))
            elif p[0] == "v" and isinstance(p[1], Lin) and not p[1].t:
                txt += chr(p[1].c)
            else:
                txt += "\1"
        txt = re.sub(r"(?s)<(style|script)\b.*?</\1>|<!--.*?-->|<[^<>]*>", " ", txt)
        num = r"(\0\d+\0|\d+(?:\.\d+)?)"

        def val(t):
            return vals[int(t[1:-1])] if t[0] == "\0" else L(int(t)) if "." not in t else flt(Fraction(t))
        low = txt.lower()
        m = re.search(r"\brequests\s*:?\s*" + num, low)
        if m:
            self.total = val(m.group(1))
        m = re.search(r"latency\s*:?\s*" + num + r"\s*(ms|us|\xc2\xb5s|s)\b", low)
        if m:
            v = val(m.group(1))
            v = flt(1, (v,)) if isinstance(v, Lin) else v
            unit = {"ms": 1, "s": 1000}.get(m.group(2), Fraction(1, 1000))
            self.mean = Opaque("fl", (v.data[0] * unit,) + v.data[1:]) if is_flt(v) else None
        at = low.find("status codes")
        end = low.find("powered by", at)
        if at < 0 or end < 0 or "\1" in txt[at:end]:
            self.why = "the status codes of the page are not known"
            return
        sec = [val(x) for x in re.findall(num, txt[at:end])]
        if len(sec) % 2 or not all(isinstance(x, Lin) for x in sec):
            self.why = "the status codes of the page do not come in pairs"
            return
        self.codes = list(zip(sec[::2], sec[1::2]))
        if not isinstance(self.total, Lin):
            self.why = "the request count of the page is not known"


class Server(World):
    """The router with the status page, one route and an unknown handler behind it."""

    def __init__(self, D, rep):
        World.__init__(self, D, rep)
        e = self.eng
        e.budget = 20000000
        e.hooks["std::chrono::steady_clock::now"] = self.now
        self.fns = [e.fn(PAGE)]
        self.at = where_fn(e, PAGE)
        st = self.st0.copy()
        st.ghost.update(clock=1, page=False, served=(), outcome=None)
        live, exc = e.run(PAGE, st, None, [self.this], 1)
        self.dead = exc
        self.live = [s for s, _ in live]
        self.live = self.route(self.live, 0, lit("/x"), lit("GET"))

    def now(self, e, c):
        st = c.st
        if st.ghost["page"]:
            return [(st, Opaque("tp", clock(0)))]
        k = st.ghost["clock"]
        st.ghost["clock"] = k + 1
        return [(x, Opaque("tp", clock(k))) for x in e.assume(st, ge(clock(k), clock(k - 1)))]

    def call(self, e, st, fv, args, n, fr):
        if isinstance(fv, FnSym) and fv.key == ("route", 0):
            o = st.ghost["outcome"]
            st.ghost["served"] = st.ghost["served"] + (st.ghost["clock"],)
            if o[0] == "throws":
                e.raise_(st, Exc(o[1], None, e.where(n, fr)))
                return []
            return [(st, Struct("ion::HttpResponse", (("status_code", o[1]),), ("response", len(st.ghost["served"])),
                                e.find_type("ion::HttpResponse")))]
        return World.call(self, e, st, fv, args, n, fr)

    def ask(self, st, path):
        """[(state, answer or None)] - None: the request ended in an exception, which the connection answers with 500."""
        e = self.eng
        out = []
        for s, h in self.lookup([st], lit(path), lit("GET")):
            req = obj(s, "request", "ion::HttpRequest")
            e.throws = [[]]
            out += e.call_value(s, h, [req], {"k": "Call", "l": None, "t": e.find_type("ion::HttpResponse")},
                                Frame(e.fid(None, ("entry", "handler")), None, None, None, None, None), None)
            for x in e.throws[0]:
                x.exc = None
                out.append((x, None))
        return out

    def request(self, st, outcome):
        """[(state, status answered, first clock reading, reading at the handler, past the last)]"""
        st = st.copy()
        st.ghost.update(outcome=outcome, served=())
        k0 = st.ghost["clock"]
        out = []
        for s, r in self.ask(st, "/x"):
            if len(s.ghost["served"]) != 1:
                self.rep.fail("counted", self.eng, s, PAGE, self.at, "the handler is run %d times for one request" % len(s.ghost["served"]))
                continue
            code = L(500) if r is None else r.get("status_code") if isinstance(r, Struct) else None
            out.append((s, code, (k0, s.ghost["served"][0], s.ghost["clock"])))
        return out

    def page(self, st):
        st = st.copy()
        st.ghost["page"] = True
        out = []
        for s, r in self.ask(st, PATH):
            if r is None:
                self.rep.fail("page", self.eng, s, PAGE, self.at, "the status page throws")
                continue
            b = r.get("body") if isinstance(r, Struct) else None
            if not isinstance(b, Seq):
                self.rep.undecided("page", "the page is %r" % (type(b),))
                continue
            out.append((s, Figures(self.eng, s, b)))
        return out

    def generalise(self, st):
        """Every counter of the program's statics may have any value a long run leaves."""
        e = self.eng
        st = st.copy()
        k = [0]

        def gen(v, t):
            w = e.intinfo(t) if t is not None else None
            if isinstance(v, Lin) and w:
                k[0] += 1
                hi = min(1 << 60, (1 << (w[0] - (1 if w[1] else 0))) - 1)
                return S(memo_sym(("counter", k[0]), "counter%d" % k[0], 1, hi, "in"))
            if is_flt(v):
                k[0] += 1
                return flt(1, (S(memo_sym(("counter", k[0]), "counter%d" % k[0], 1, 1 << 60, "in")),))
            if isinstance(v, MapV):
                vt = e.targ(v.ty, 1) if v.ty is not None else None
                return MapV(v.base, v.n, tuple((a, gen(b, vt)) for a, b in v.entries), v.ty, v.gone)
            if isinstance(v, Struct):
                r = e.rec(v.cls)
                ts = {}
                for f in (r or {}).get("fields", ()):
                    ts[f.get("name", f.get("n"))] = f.get("t")
                return Struct(v.cls, tuple((n, gen(x, ts.get(n))) for n, x in v.fields), *v.k[2:])
            return v
        for root, v in list(st.store.items()):
            if root[0] == "g":
                st.store[root] = gen(v, None)
        return st, k[0]


OUTCOMES = [("answers", None), ("throws", "std::runtime_error"), ("throws", "int")]


def status():
    return S(memo_sym("status", "status", 100, 599, "in"))


def same_codes(e, st, got, want):
    """None if the lists name the same codes with the same counts, else what differs."""
    rest = list(got)
    for c, n in want:
        hit = [x for x in rest if e.decide(st, eq(x[0], c)) is True]
        if len(hit) != 1:
            return "code %r is shown %d times" % (c, len(hit))
        if e.decide(st, eq(hit[0][1], n)) is not True:
            return "code %r is shown with %r instead of %r" % (c, hit[0][1], n)
        rest.remove(hit[0])
    if rest:
        return "code %r is shown with %r, though no request was answered so" % rest[0]
    return None


def add_code(e, st, codes, code):
    out = []
    hit = False
    for c, n in codes:
        if e.decide(st, eq(c, code)) is True:
            out.append((c, n + 1))
            hit = True
        else:
            out.append((c, n))
    return out if hit else out + [(code, ONE)]


def durations(e, st, spans, k):
    """All sums of one duration (in units of k ns) per request, from readings before and after its handler."""
    sums = [ZERO]
    for a, m, b in spans:
        sums = [x + (clock(j) - clock(i) if k == 1 else e.quotient(clock(j) - clock(i), k, st.facts))
                for x in sums for i in range(a, m) for j in range(m, b)]
    return sums


UNITS = (1, 10, 100, 1000, 10000)


def mean_ok(e, st, mean, spans, n):
    if n == 0:
        return mean.data[0] == 0
    for k in UNITS:
        for d in durations(e, st, spans, k):
            if flt_same(e, st, mean, flt(Fraction(k, 10 ** 6) / n, (d,))) or \
                    k < 10000 and flt_same(e, st, mean, flt(Fraction(k, 10 ** 6), (e.quotient(d, n, st.facts),))):
                return True
    return False


def flt_same(e, st, a, b):
    (c, n, d), (x, m, y) = a.data, b.data
    if a == b:
        return True
    if len(n) == len(m) == 1 and not d and not y:
        return e.decide(st, eq(n[0].scale((c * x.denominator * c.denominator).numerator), m[0].scale((x * x.denominator * c.denominator).numerator))) is True
    return False


def c34(D, rep, tier):
    rep.rule("counted", "every request that was answered, with any status or by an exception (500), adds one to the request count shown and "
             "one to the count shown for its status, and changes no other; before the first the page shows none (or only itself)")
    rep.rule("mean", "the mean latency shown is the sum of the times between a clock reading before and one after each handler call "
             "divided by the number of those requests (floating point rounding disregarded)")
    rep.rule("program", "in the program started with --status-page (and any other options) the page shows the requests made to every kind of "
             "route under the status answered")
    w = Server(D, rep)
    e = w.eng
    fn = "ServerStats"
    for s in w.dead:
        rep.fail("counted", e, s, PAGE, w.at, "an exception (%s) leaves %s" % (s.exc.ty, PAGE))

    def shown(rid, s):
        out = []
        for x, f in w.page(s):
            if f.why:
                rep.undecided(rid, f.why)
            else:
                out.append((x, f))
        return out

    # histories from the start
    hist = [(s, [], []) for s in w.live]
    depth = 3 if tier == "quick" else 5
    seq = [("answers", L(404)), ("throws", "int"), ("answers", L(200)), ("answers", L(404)), ("throws", "std::runtime_error")]
    base = None
    for k in range(depth + 1):
        for s, codes, spans in hist:
            for x, f in shown("counted", s):
                rep.count("histories")
                n = len(spans)
                off = f.total - n
                if base is None:
                    base = off
                rep.judge("counted", e, x, off == base and not off.t and off.c in (0, 1), fn, w.at,
                          "after %d requests the page shows %r" % (n, f.total))
                diff = same_codes(e, x, f.codes, codes)
                rep.judge("counted", e, x, diff is None, fn, w.at, "after %d requests %s" % (n, diff))
                rep.sample("counted", "after %d requests: %r, %r" % (n, f.total, f.codes))
                if f.mean is None:
                    rep.undecided("mean", "the mean latency of the page is not known")
                else:
                    rep.judge("mean", e, x, mean_ok(e, x, f.mean, spans, n), fn, w.at,
                              "after %d requests the mean latency shown is %s" % (n, show(f.mean)))
                    rep.sample("mean", "after %d requests: %s" % (n, show(f.mean)))
            if k == 2:
                views(rep, w, s, codes, len(spans), base, fn)
        if k < depth:
            nxt = []
            for s, codes, spans in hist:
                for x, code, sp in w.request(s, seq[k]):
                    if not isinstance(code, Lin):
                        rep.undecided("counted", "the status answered is %r" % (code,))
                        continue
                    nxt.append((x, add_code(e, x, codes, code), spans + [sp]))
            hist = nxt
    for s, codes, _ in hist:
        many(rep, w, s, codes, fn, 40 if tier == "quick" else 500)
    # one request after any history
    for s, _, _ in hist:
        g, n = w.generalise(s)
        if not n:
            rep.undecided("counted", "no counters found in the program's static objects")
        for x, f0 in shown("counted", g):
            break
        else:
            continue
        for o in OUTCOMES:
            o = ("answers", status()) if o[0] == "answers" else o
            for x, code, sp in w.request(g, o):
                if not isinstance(code, Lin):
                    rep.undecided("counted", "the status answered is %r" % (code,))
                    continue
                for y, f1 in shown("counted", x):
                    rep.count("requests")
                    rep.judge("counted", e, y, e.decide(y, eq(f1.total, f0.total + 1)) is True, fn, w.at,
                              "a request that %s %s turns the request count shown from %r into %r" % (o + (f0.total, f1.total)))
                    diff = same_codes(e, y, f1.codes, add_code(e, y, f0.codes, code))
                    rep.judge("counted", e, y, diff is None, fn, w.at, "after a request that %s %s, %s" % (o + (diff,)))
                    step(rep, e, y, f0, f1, sp, fn, w.at)
    rep.absorb(e)
    program(D, rep, tier)


def views(rep, w, st, codes, n, base, fn):
    """Views of the page are requests too."""
    e = w.eng
    for x, _ in w.page(st):
        c1 = add_code(e, x, codes, L(200))
        for y, f in w.page(x):
            if f.why:
                continue
            diff = same_codes(e, y, f.codes, c1)
            rep.judge("counted", e, y, e.decide(y, eq(f.total, base + n + 1)) is True, fn, w.at,
                      "after %d requests and a view of the page it shows %r" % (n, f.total))
            rep.judge("counted", e, y, diff is None, fn, w.at, "after %d requests and a view of the page %s" % (n, diff))


def many(rep, w, st, codes, fn, count):
    """Many different status codes."""
    e = w.eng
    n0 = None
    for f in (f for _, f in w.page(st)):
        n0 = f.total
    for i in range(count):
        code = L(100 + (i * 37) % 500)
        got = w.request(st, ("answers", code))
        if len(got) != 1 or not isinstance(got[0][1], Lin):
            rep.undecided("counted", "a request that answers %r has %d outcomes" % (code, len(got)))
            return
        st = got[0][0]
        codes = add_code(e, st, codes, got[0][1])
    for x, f in w.page(st):
        if f.why:
            rep.undecided("counted", f.why)
            continue
        diff = same_codes(e, x, f.codes, codes)
        rep.judge("counted", e, x, n0 is not None and e.decide(x, eq(f.total, n0 + count)) is True, fn, w.at,
                  "after %d more requests the page shows %r instead of %r" % (count, f.total, n0))
        rep.judge("counted", e, x, diff is None, fn, w.at, "after requests with %d different answers %s" % (len(codes), diff))
        rep.count("status_codes", len(codes))


def step(rep, e, st, f0, f1, span, fn, at):
    if f0.mean is None or f1.mean is None:
        rep.undecided("mean", "the mean latency of the page is not known")
        return
    (c0, n0, d0), (c1, n1, d1) = f0.mean.data, f1.mean.data
    if not (len(n0) == len(n1) == 1):
        rep.undecided("mean", "the mean latency of the page is %s" % show(f1.mean))
        return
    if not d0 and not d1 and "mul" not in repr(n0) and (any("/" in repr(SYMS[i].name) for x in n1 for i, _ in x.t)):
        return      # an integer quotient: the histories decide it
    ok = False
    if len(d0) == len(d1) == 1 and e.decide(st, eq(d1[0], d0[0] + 1)) is True:
        m = c0.denominator * c1.denominator * 10 ** 6
        more = n1[0].scale(int(c1 * m)) - n0[0].scale(int(c0 * m))
        ok = any(e.decide(st, eq(more, d.scale(int(Fraction(k, 10 ** 6) * m)))) is True
                 for k in UNITS for d in durations(e, st, [span], k))
    rep.judge("mean", e, st, ok, fn, at, "one request turns the mean latency shown from %s into %s" % (show(f0.mean), show(f1.mean)))


def show(m):
    c, n, d = m.data
    return "%s%s%s ms" % (c, "".join(" * (%r)" % x for x in n), "".join(" / (%r)" % x for x in d))


# ---- the program
REQUESTS = [("/_tests/ok", {"--under-test"}, 200), ("/_tests/no_content", {"--under-test"}, 204), ("/nowhere", set(), 404)]


def program(D, rep, tier):
    from . import app
    for what, opts in (("the status page", {"--status-page": True}), ("the status page and test routes", {"--status-page": True, "--under-test": True}),
                       ("all options", dict(app.ALL, **app.STATIC)), ("a 404 page", {"--status-page": True, "--custom-404-file-path": b"/given/404.html"})):
        r = app.Run(D, rep, what, dict(app.TLS, **opts))
        e = r.e
        at = r.at
        if not r.ends:
            rep.undecided("program", "the server does not start with %s" % what)
        for st in r.ends[:4]:
            states = [(st, [], 0)]
            for path, need, _ in REQUESTS + REQUESTS[2:]:
                if not need <= set(opts):
                    continue
                nxt = []
                for s, codes, n in states:
                    e.throws = [[]]
                    for s1, h in app.handler(r, s.copy(), path.encode(), b"GET"):
                        for x, a in app.asked(r, s1, h, 1):
                            code = a.get("status_code") if isinstance(a, Struct) else None
                            if isinstance(code, Lin):
                                nxt.append((x, add_code(e, x, codes, code), n + 1))
                            else:
                                rep.undecided("program", "the answer to %s is not known" % path)
                        for x in e.throws[0]:
                            x.exc = None
                            nxt.append((x, add_code(e, x, codes, L(500)), n + 1))
                states = nxt[:16]
            for s, codes, n in states:
                e.throws = [[]]
                for s1, h in app.handler(r, s, PATH.encode(), b"GET"):
                    for x, a in app.asked(r, s1, h, 1):
                        b = a.get("body") if isinstance(a, Struct) else None
                        f = Figures(e, x, b) if isinstance(b, Seq) else None
                        if f is None or f.why:
                            rep.undecided("program", f.why if f else "the page is not known")
                            continue
                        rep.count("program_histories")
                        off = f.total - n
                        r.judge("program", x, not off.t and off.c in (0, 1), "after %d requests the page shows %r" % (n, f.total), "run_server",
                                app.where_any(e, "run_server"))
                        diff = same_codes(e, x, f.codes, codes)
                        r.judge("program", x, diff is None, "after %d requests %s" % (n, diff), "run_server", app.where_any(e, "run_server"))
        r.done()
