"""C22 (routing and middleware), C21 (life time of what handlers refer to)."""
from .util import *
from ..models import top_seq

ROUTER = "ion::Router"


def text(name, lo=0, hi=64):
    n = S(memo_sym(("len", name), "|%s|" % name, lo, hi, "in"))
    return Seq("str", n, (("s", (name,), ZERO, n),), None, None)


class World:
    """A router over unknown handlers, middleware and static directories."""

    def __init__(self, D, rep):
        self.D = D
        self.rep = rep
        self.eng = eng = Engine(D, peel=2, budget=600000)
        eng.maxstates = 4000
        h = eng.hooks
        h["<callable>"] = self.call
        h["ion::StaticFileHandler::matches"] = self.matches
        h["ion::StaticFileHandler::handle"] = self.static
        for q in (ROUTER + "::get_handler", ROUTER + "::add_route", ROUTER + "::add_static_handler", ROUTER + "::add_middleware",
                  "ion::StaticFileHandler::matches", "ion::StaticFileHandler::handle"):
            eng.fn(q)
        st = St()
        live, _ = make(eng, st, "router", ROUTER)
        if not live:
            raise AnalysisBroken("the router cannot be constructed")
        self.st0, self.this = live[0]

    def log(self, st, *ev):
        st.ghost["io"] = st.ghost.get("io", ()) + (ev,)

    def sid(self, st, p):
        v = self.eng.read(st, p.path)[0][1] if isinstance(p, Ptr) else p
        return v.origin if isinstance(v, Struct) else None

    def matches(self, e, c):
        out = []
        for s, v in c.val(0):
            T, F = e.branch(s, ("atom", ("b", ("matches", self.sid(s, c.this), canon_seq(v) if isinstance(v, Seq) else e.uid()))))
            out += [(x, True) for x in T] + [(x, False) for x in F]
        return out

    def static(self, e, c):
        out = []
        for s, v in c.val(0):
            for s1, b in c.val(1, s):
                b = e.cond_of(b) if not isinstance(b, bool) else b
                for x, hd in [(x, True) for x in e.branch(s1.copy(), b)[0]] + [(x, False) for x in e.branch(s1, b)[1]]:
                    self.log(x, "static", self.sid(x, c.this), v, hd)
                    out.append((x, self.response(e, ("static", self.sid(x, c.this)))))
        return out

    def response(self, e, key):
        return Struct("ion::HttpResponse", (), ("response", key), e.find_type("ion::HttpResponse"))

    def call(self, e, st, fv, args, n, fr):
        if isinstance(fv, FnSym) and fv.key[0] == "mw":
            a = args[0] if args else None
            for s, v in (e.read(st, a.path) if isinstance(a, Ptr) else [(st, a)]):
                self.log(s, "wrap", fv.key[1])
                return [(s, FnSym(("wrapped", fv.key[1], v)))]
        if isinstance(fv, FnSym):
            self.log(st, "call", fv.key, args[0] if args else None)
            return [(st, self.response(e, fv.key))]
        e.note_unmodelled("call of %r" % (fv,), st)
        st.imp = st.imp or "call"
        return [(st, Top("call"))]

    # ---- the interface
    def do(self, states, name, *args):
        out = []
        for s in states:
            live, exc = self.eng.run(ROUTER + "::" + name, s, self.this, list(args), len(args))
            out += live
            for x in exc:
                self.rep.fail("route", self.eng, x, ROUTER + "::" + name, where_fn(self.eng, ROUTER + "::" + name),
                              "an exception (%s) leaves %s" % (x.exc.ty, name))
        return out

    def route(self, states, i, path, method):
        return [s for st in states for s, _ in
                self.do([st], "add_route", var(st, "p%d" % i, path), var(st, "m%d" % i, method),
                        var(st, "h%d" % i, FnSym(("route", i))))]

    def add_static(self, states, i):
        out = []
        for st in states:
            root = ("heapobj", i)
            st.store[root] = Struct("ion::StaticFileHandler", (), ("dir", i), self.eng.find_type("ion::StaticFileHandler"))
            out += [s for s, _ in self.do([st], "add_static_handler", Ptr((root,), False))]
        return out

    def middleware(self, states, i):
        return [s for st in states for s, _ in self.do([st], "add_middleware", FnSym(("mw", i)))]

    def lookup(self, states, path, method):
        return [r for st in states for r in
                self.do([st], "get_handler", var(st, "path", path), var(st, "method", method))]


def same(e, st, a, b):
    """Condition: the two strings are equal."""
    return streq(e, st, a, b)


def unwrap(v):
    order = []
    while isinstance(v, FnSym) and v.key[0] == "wrapped":
        order.append(v.key[1])
        v = v.key[2]
    return order, v


def expected(w, st, routes, statics, path, method):
    """[(state, target)] of the documented choice."""
    e = w.eng
    out = []
    live = [st]
    for i, (p, m) in enumerate(routes):
        nxt = []
        for s in live:
            T, F = e.branch(s, same(e, s, p, path))
            for x in T:
                T2, F2 = e.branch(x, same(e, x, m, method))
                out += [(y, ("route", i)) for y in T2]
                nxt += F2
            nxt += F
        live = nxt
    for s in live:
        g = []
        rest = [s]
        for k in (b"GET", b"HEAD"):
            nr = []
            for x in rest:
                T, F = e.branch(x, same(e, x, method, Seq("str", L(len(k)), (("c", k),), None, None)))
                g += [(y, k == b"HEAD") for y in T]
                nr += F
            rest = nr
        out += [(x, ("none",)) for x in rest]
        for x, hd in g:
            pend = [(x, [])]
            for i in range(statics):
                np = []
                for y, hit in pend:
                    T, F = e.branch(y, ("atom", ("b", ("matches", ("dir", i), canon_seq(path)))))
                    np += [(z, hit + [i]) for z in T] + [(z, hit) for z in F]
                pend = np
            out += [(y, ("static", tuple(hit), hd) if hit else ("none",)) for y, hit in pend]
    return out


def c22(D, rep, tier):
    rep.rule("route", "for every path and method, the handler returned runs the first registered route whose path and method equal the "
             "request's, else (GET and HEAD only) a static handler whose prefix matches, with this path and told whether it is HEAD, "
             "else it answers 404 and runs nothing")
    rep.rule("middleware", "the handler returned is wrapped by every registered middleware exactly once, the first registered outermost, "
             "whatever it is")
    rep.rule("prefix", "a static handler matches exactly the paths that start with its prefix")
    fn = ROUTER + "::get_handler"
    lens = [(2, 1, 2), (0, 2, 1), (2, 0, 0), (1, 1, 3)] if tier == "quick" else \
        [(r, d, m) for r in range(4) for d in range(3) for m in range(4)]
    for nr, nd, nm in lens:
        w = World(D, rep)
        e = w.eng
        at = where_fn(e, fn)
        routes = [(text("route%d.path" % i), text("route%d.method" % i)) for i in range(nr)]
        sts = [w.st0]
        for k in range(max(nr, nd, nm)):
            if k < nm:
                sts = w.middleware(sts, k)
            if k < nr:
                sts = w.route(sts, k, *routes[k])
            if k < nd:
                sts = w.add_static(sts, k)
        path, method = text("path"), text("method")
        e.loop_k[(fn, None)] = 4
        for s, v in w.lookup(sts, path, method):
            s.ghost["io"] = ()
            order, target = unwrap(v)
            rep.count("lookups")
            if not isinstance(target, (Clo, FnSym, Fn)):
                rep.undecided("middleware", "%s returns %r" % (fn, target))
                continue
            rep.judge("middleware", e, s, order == list(range(nm)), fn, at,
                      "with %d middleware registered the handler is wrapped by %s (outermost first)" % (nm, order))
            req = obj(s, "request", "ion::HttpRequest")
            before = len(s.ghost["io"])
            for s2, want in expected(w, s, routes, nd, path, method):
                s2.ghost["io"] = ()
                try:
                    res = e.call_value(s2, target, [req], {"k": "Call", "l": None, "t": e.find_type("ion::HttpResponse")},
                                       Frame(e.fid(None, ("entry", "handler")), None, None, None, None, None), None)
                except Giveup as g:
                    rep.undecided("route", str(g))
                    continue
                for s3, r in res:
                    did = s3.ghost["io"]
                    ok, what = judge(e, s3, did, r, want, path)
                    if ok is None:
                        rep.undecided("route", what)
                    else:
                        rep.judge("route", e, s3, ok, fn, at, "%s, but should be %s" % (what, want))
                    rep.sample("route", "%s -> %s" % (want, what))
        rep.absorb(e)
    prefix(D, rep, tier)


def judge(e, s, did, r, want, path):
    what = "the handler does %s" % ([(d[0], d[1]) for d in did],)
    if want[0] == "route":
        return len(did) == 1 and did[0][0] == "call" and did[0][1] == want, what
    if want[0] == "static":
        if len(did) != 1 or did[0][0] != "static":
            return False, what
        _, who, p, hd = did[0]
        if who is None or who[1] not in want[1]:
            return False, what
        if hd != want[2]:
            return False, "the static handler is told HEAD is %s" % hd
        if not isinstance(p, Seq):
            return None, "path given to the static handler not known"
        q = same_seq(e, s, p, path)
        return q, "the static handler is given the path %r" % (p,)
    if did:
        return False, what
    code = None
    x = r
    if isinstance(x, Struct):
        code = x.get("status_code")
    if not isinstance(code, Lin):
        return None, "status of the answer not known: %r" % (r,)
    return code.c == 404 and not code.t, "the answer has status %r" % (code,)


PREFIXES = [("/static", "/static/x", True), ("/static", "/static", True), ("/static", "/static/", True), ("/static", "/stati", False),
            ("/static", "", False), ("/static", "/", False), ("/static", "/Static/x", False), ("/static", "/x/static/y", False),
            ("/static", "x/static", False), ("/", "/anything", True), ("/a/b", "/a/c", False), ("/a/b", "/a/b/c?d", True),
            ("/static/", "/static", False), ("/static", "//static/x", False)]


def prefix(D, rep, tier):
    fn = "ion::StaticFileHandler::matches"
    for pre, path, want in PREFIXES:
        eng = Engine(D, budget=50000)
        st = St()

        def cs(s):
            b = s.encode()
            return Seq("str", L(len(b)), (("c", b),) if b else (), None, None)
        live, _ = make(eng, st, "dir", "ion::StaticFileHandler", (var(st, "prefix", cs(pre)), var(st, "root", cs("/srv"))))
        for s, this in live:
            res, exc = eng.run(fn, s, this, [var(s, "path", cs(path))], 1)
            for x, v in res:
                got = eng.cond_of(v)
                if not isinstance(got, bool):
                    rep.undecided("prefix", "%s(%r) with prefix %r: %r" % (fn, path, pre, v))
                    continue
                rep.judge("prefix", eng, x, got == want, fn, where_fn(eng, fn), "prefix %r and path %r: %s" % (pre, path, got))
        rep.absorb(eng)


# ---- C21
def refs(e, st, v, trail=(), seen=None, alive=()):
    """Every reference held by a value, directly or through what it points to: (how it is held, path)."""
    seen = set() if seen is None else seen
    out = []
    if isinstance(v, Clo):
        for nm, x in v.caps:
            out += refs(e, st, x, trail + ("captured '%s'" % cap_name(e, v, nm),), seen, alive)
    elif isinstance(v, RefV):
        out += refs(e, st, v.loc, trail, seen, alive)
    elif isinstance(v, (Ptr, It, SpanV)):
        p = v.path
        if p is None or (p, trail[:1]) in seen:
            return out
        seen.add((p, trail[:1]))
        out.append((trail, p))
        if p[0] in st.store or p[0][0] == "mapent":
            for s, x in e.read(st, p):
                out += refs(e, s, x, trail + ("what it points to",), seen, alive)
                break
    elif isinstance(v, Struct):
        for nm, x in v.fields:
            out += refs(e, st, x, trail + (".%s" % nm,), seen, alive)
    elif isinstance(v, Opt):
        out += refs(e, st, v.val, trail, seen, alive) if v.val is not None else []
    elif isinstance(v, Seq):
        for p in v.pieces:
            if p[0] == "v":
                out += refs(e, st, p[1], trail + ("element",), seen, alive)
    elif isinstance(v, MapV):
        for _, x in v.entries:
            out += refs(e, st, x, trail + ("element",), seen, alive)
    elif isinstance(v, FnSym):
        for x in v.key:
            out += refs(e, st, x, trail, seen, alive)
    return out


def cap_name(e, clo, nm):
    if nm == "this":
        return "this"
    return e.D.get("varnames", {}).get(nm, str(nm)) if isinstance(e.D, dict) else str(nm)


def describe(p):
    return "".join(("[%r]" % (c[1],) if isinstance(c, tuple) and len(c) > 1 else "." + str(c)) for c in p[1:])


def judge_refs(rep, e, s, v, fn, at, what, alive, rid="lifetime"):
    """alive(root, path) -> None if the object outlives the closure, else why not."""
    held = refs(e, s, v)
    bad = False
    for trail, p in held:
        why = alive(p[0], p)
        if why is None:
            rep.ok(rid)
            continue
        bad = True
        rep.judge(rid, e, s, False, fn, at, "%s refers to %s (%s)" % (what, why, ", ".join(trail)))
    if not held:
        rep.ok(rid)
    rep.sample(rid, "%s in %s holds %d reference(s): %s" % (what, fn, len(held), [describe(p) for _, p in held][:4]))
    rep.count("closures_examined")
    return not bad


def router_alive(this):
    def f(root, p):
        if root == this.path[0]:
            for i, c in enumerate(p[1:]):
                if isinstance(c, tuple) and c[0] == "i" and i + 1 < len(p):
                    return "an element of the router's %s, which moves when it grows" % p[1]
            return None
        if root[0] in ("v", "t"):
            if root[1] == 0:
                return "the caller's %s" % (root[2],)
            return "an object local to a call that has returned"
        return None
    return f


def c21(D, rep, tier):
    rep.rule("lifetime", "no closure that the router or the application returns or stores refers, directly or through what it captured, to "
             "a parameter or local of a call that has returned, to an argument of the call, or to an element of a growing container")
    fn = ROUTER + "::get_handler"
    w = World(D, rep)
    e = w.eng
    at = where_fn(e, fn)
    sts = [w.st0]
    for k in range(2):
        sts = w.middleware(sts, k)
        sts = w.route(sts, k, text("route%d.path" % k), text("route%d.method" % k))
        sts = w.add_static(sts, k)
    alive = router_alive(w.this)
    for s in sts:
        v = e.read(s, w.this.path)[0][1]
        for nm, x in v.fields:
            if isinstance(x, (Seq, MapV, Clo, Opt)):
                judge_refs(rep, e, s, x, ROUTER + "::add_*", at, "what the router stores in %s" % nm, alive)
    for s, v in w.lookup(sts, text("path"), text("method")):
        judge_refs(rep, e, s, v, fn, at, "the handler returned", alive)
    rep.absorb(e)
