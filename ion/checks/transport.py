"""Transports (C15, C27) and owners of descriptors and TLS objects (C16)."""
from .util import *
from ..models import Exc, default_value
from . import server
from .server import World, cst, num, callees, calls_any, EAGAIN, EINTR, EPERM
from .conn import Enums

TRANSPORT = "ion::Transport"
NONE, SSLERR, WREAD, WWRITE, X509, SYSCALL, ZERORET, WCONNECT, WACCEPT = range(9)
NAMES = {NONE: "SSL_ERROR_NONE", SSLERR: "SSL_ERROR_SSL", WREAD: "SSL_ERROR_WANT_READ", WWRITE: "SSL_ERROR_WANT_WRITE",
         SYSCALL: "SSL_ERROR_SYSCALL", ZERORET: "SSL_ERROR_ZERO_RETURN"}
OPS = ("SSL_accept", "SSL_do_handshake", "SSL_read", "SSL_write", "SSL_read_ex", "SSL_write_ex", "SSL_shutdown")
ECONNRESET, EPIPE = 104, 32


def transports(D):
    return [k for k, r in sorted(D["records"].items()) if TRANSPORT in r.get("bases", ())]


class Tls:
    """One method of a TLS transport: OpenSSL with its error queue, which may hold what an earlier operation left."""

    def __init__(self, D, rep, cls):
        self.D, self.rep, self.cls = D, rep, cls
        self.E = Enums(D)
        eng = self.eng = Engine(D, peel=3, budget=300000)
        h = eng.hooks
        for q in OPS:
            h[q] = self.op
        h["SSL_get_error"] = self.get_error
        for q in ("ERR_clear_error",):
            h[q] = self.clear
        for q in ("ERR_get_error", "ERR_peek_error", "ERR_peek_last_error", "ERR_get_error_all"):
            h[q] = self.pop
        h["ERR_error_string_n"] = h["ERR_print_errors_fp"] = self.noop
        h["ERR_GET_REASON"] = lambda e, c: [(s, L(r.c & 0x7FFFFF) if cst(r) is not None else e.fresh(s, c.t)) for s, r in c.val(0)]
        h["ERR_GET_LIB"] = lambda e, c: [(s, L((r.c >> 23) & 0xFF) if cst(r) is not None else e.fresh(s, c.t)) for s, r in c.val(0)]
        h["SSL_get_wbio"] = h["SSL_get_rbio"] = lambda e, c: [(c.st, Ptr((("obj", "bio", e.strip(c.t)),), False))]
        h["BIO_flush"] = h["BIO_ctrl"] = lambda e, c: [(c.st, ONE)]
        h["SSL_pending"] = h["SSL_has_pending"] = lambda e, c: [(c.st, ZERO)]
        h["SSL_get_shutdown"] = lambda e, c: [(c.st, ZERO)]
        h["__errno_location"] = self.errno

    def log(self, st, *ev):
        st.ghost["log"] = st.ghost["log"] + (ev,)

    def noop(self, e, c):
        return [(c.st, VOID)]

    def errno(self, e, c):
        root = ("v", 0, "errno")
        c.st.store[root] = L(ECONNRESET)
        return [(c.st, Ptr((root,), False))]

    def clear(self, e, c):
        c.st.ghost["queue"] = ()
        return [(c.st, VOID)]

    def pop(self, e, c):
        q = c.st.ghost["queue"]
        if not q:
            return [(c.st, ZERO)]
        if "get" in c.q:
            c.st.ghost["queue"] = q[1:]
        if q[0] == "eof":
            return [(c.st, L((20 << 23) | 294))]
        return [(c.st, L((20 << 23) | 112))]

    def op(self, e, c):
        """One operation: its outcome is scripted; a failure it has itself reports into the queue."""
        st = c.st
        at = e.where(c.n, c.fr)
        ret, code, own = st.ghost["next"]
        st.ghost["ops"] = st.ghost["ops"] + ((c.q, tuple(st.ghost["queue"]), at),)
        if own:
            st.ghost["queue"] = st.ghost["queue"] + (own,)
        st.ghost["code"] = code
        st.ghost["ssl_of"] = c.args[0]
        if c.q.endswith("_ex"):
            p = c.args[3]
            for s in e.write(st, p.path, ret if isinstance(ret, Lin) and cst(ret) != 0 and code == NONE else ZERO):
                return [(s, ONE if code == NONE else ZERO)]
        st.ghost["ret"] = ret
        return [(st, ret)]

    def get_error(self, e, c):
        """SSL_get_error(3): success if the result is positive; else anything in the thread's error queue is taken for a failure of this
        operation; else what the operation really met."""
        st = c.st
        out = []
        for s, r in c.val(1):
            T, F = e.branch(s, ge(r, 1))
            out += [(x, L(NONE)) for x in T]
            for x in F:
                if x.ghost["queue"]:
                    out.append((x, L(SSLERR)))
                elif x.ghost["code"] == SSLERR:
                    out.append((x, L(SYSCALL)))     # its own report was thrown away
                else:
                    out.append((x, L(x.ghost["code"])))
        return out

    def run(self, name, stale, nxt, rid):
        e = self.eng
        st = St()
        st.ghost.update(log=(), queue=("stale",) * stale, next=nxt, ops=(), code=NONE, ret=None)
        t = e.find_type(self.cls)
        this = var(st, "transport", Struct(self.cls, (), ("transport",), t))
        args = []
        if name in ("read", "write"):
            args = [SpanV((("mem", "buffer", e.find_type("unsigned char"), L(16384)),), ZERO, L(16384))]
        q = self.cls + "::" + name
        res, exc = e.run(q, st, this, args, len(args))
        for x in exc:
            self.rep.fail(rid, e, x, q, where_fn(e, q), "an exception (%s) leaves %s" % (x.exc.ty, name))
        return res


def outcome(E, v):
    """(True, value) or (False, error name)."""
    if not isinstance(v, Opt) or not isinstance(v.has, bool):
        return None
    if v.has:
        return True, v.val
    if isinstance(v.err, Lin) and not v.err.t:
        return False, E.name("ion::TransportError", v.err.c)
    return None


RETRY = "WantReadOrWrite"


def tls(D, rep, tier):
    rep.rule("own-outcome", "each TLS operation starts with an empty error queue, so that what it reports is its own outcome whatever earlier "
             "operations left behind: success is success and would-block is retryable, with and without stale errors")
    rep.rule("mapping", "would-block is reported as retryable, and nothing else is; end of stream and failures are reported as errors; a count "
             "of octets is reported as it is")
    names = [c for c in transports(D) if calls_any(D, c + "::read", ("SSL_read", "SSL_read_ex"))]
    if not names:
        raise AnalysisBroken("no transport reads through OpenSSL")
    for cls in names:
        for name in ("handshake", "read", "write"):
            w = Tls(D, rep, cls)
            q = cls + "::" + name
            at = where_fn(w.eng, q)
            n = S(memo_sym(("octets", name), "octets", 1, 16384, "in"))
            for stale in (0, 1, 2):
                cases = [("ok", ONE if name == "handshake" else n, NONE, None)]
                for ret in (-1, 0) if name == "handshake" else (0, -1):
                    for code, own in ((WREAD, None), (WWRITE, None), (ZERORET, None), (SSLERR, "own"), (SSLERR, "eof"), (SYSCALL, None)):
                        cases.append((NAMES[code] + (" (unexpected end of file)" if own == "eof" else ""), L(ret), code, own))
                for what, ret, code, own in cases:
                    for s, v in w.run(name, stale, (ret, code, own), "mapping"):
                        o = outcome(w.E, v)
                        ops = s.ghost["ops"]
                        rid = "own-outcome" if stale else "mapping"
                        if o is None:
                            rep.undecided(rid, "%s: outcome %r" % (q, v))
                            continue
                        if not ops:
                            rep.judge(rid, w.eng, s, False, q, at, "no TLS operation is made")
                            continue
                        txt = "%s with result %s%s is reported as %s" % (ops[0][0], what, " and errors of an earlier operation in the queue" if stale
                                                                         else "", o[1] if not o[0] else "success")
                        where = ops[0][2]
                        good = None
                        if what == "ok":
                            good = o[0] and (name == "handshake" or o[1] == ret or (isinstance(o[1], Lin) and w.eng.decide(s, eq(o[1], ret)) is True))
                        elif code in (WREAD, WWRITE):
                            good = o == (False, RETRY)
                        elif code == ZERORET:
                            good = o == (False, "ConnectionClosed")
                        else:
                            good = not o[0] and o[1] != RETRY
                        rep.judge(rid, w.eng, s, good, q, where, txt)
                        rep.sample(rid, "%s: %s" % (name, txt))
                        rep.count("outcomes")
            rep.absorb(w.eng)


class Tcp:
    def __init__(self, D, rep, cls):
        self.rep, self.cls = rep, cls
        self.E = Enums(D)
        eng = self.eng = Engine(D, peel=4, budget=200000)
        for q in ("read", "recv", "write", "send", "recvfrom", "sendto", "writev", "readv", "sendmsg", "recvmsg"):
            eng.hooks[q] = eng.hooks["::" + q] = self.io
        eng.hooks["__errno_location"] = self.errno
        eng.hooks["strerror"] = lambda e, c: [(c.st, It((("lit", b"?", None),), ZERO, False))]

    def io(self, e, c):
        st = c.st
        st.ghost["ops"] = st.ghost["ops"] + ((c.q, e.where(c.n, c.fr)),)
        k = len(st.ghost["ops"])
        if k > 3:
            return []
        fl = num(c, 3) if c.q in ("send", "recv") else 0
        ret, err = st.ghost["next"]
        if err == EINTR and k > 1:
            ret, err = L(-1), EAGAIN
        st.ghost["errno"] = err
        return [(st, ret)]

    def errno(self, e, c):
        root = ("v", 0, "errno")
        c.st.store[root] = L(c.st.ghost["errno"])
        return [(c.st, Ptr((root,), False))]

    def run(self, name, nxt):
        e = self.eng
        st = St()
        st.ghost.update(next=nxt, ops=(), errno=0)
        this = var(st, "transport", Struct(self.cls, (), ("transport",), e.find_type(self.cls)))
        args = [SpanV((("mem", "buffer", e.find_type("unsigned char"), L(16384)),), ZERO, L(16384))]
        q = self.cls + "::" + name
        res, exc = e.run(q, st, this, args, 1)
        for x in exc:
            self.rep.fail("mapping", e, x, q, where_fn(e, q), "an exception (%s) leaves %s" % (x.exc.ty, name))
        return res


def tcp(D, rep, tier):
    """The same mapping for transports that read the socket directly."""
    for cls in transports(D):
        if not calls_any(D, cls + "::read", ("read", "recv", "recvmsg", "readv", "recvfrom")) or calls_any(D, cls + "::read", ("SSL_read",)):
            continue
        for name in ("read", "write"):
            w = Tcp(D, rep, cls)
            q = cls + "::" + name
            at = where_fn(w.eng, q)
            n = S(memo_sym(("octets", name), "octets", 1, 16384, "in"))
            cases = [("octets", n, 0), ("EAGAIN", L(-1), EAGAIN), ("ECONNRESET", L(-1), ECONNRESET), ("EPIPE", L(-1), EPIPE)]
            if name == "read":
                cases.append(("end of stream", ZERO, 0))
            for what, ret, err in cases:
                for s, v in w.run(name, (ret, err)):
                    o = outcome(w.E, v)
                    ops = s.ghost["ops"]
                    if o is None or not ops:
                        rep.undecided("mapping", "%s: outcome %r" % (q, v))
                        continue
                    if what == "octets":
                        good = o[0] and isinstance(o[1], Lin) and w.eng.decide(s, eq(o[1], ret)) is True
                    elif what == "EAGAIN":
                        good = o == (False, RETRY)
                    elif what == "end of stream":
                        good = o == (False, "ConnectionClosed")
                    else:
                        good = not o[0] and o[1] != RETRY
                    rep.judge("mapping", w.eng, s, good, q, ops[0][1], "%s with %s is reported as %s" % (ops[0][0], what, o[1] if not o[0] else "success"))
            rep.absorb(w.eng)


def wouldblock(D, rep, tier):
    """C27: a would-block result is handed to the caller; it is not retried in place."""
    rep.rule("would-block", "an operation on a transport that would block returns to the caller as retryable after one attempt")
    for cls in transports(D):
        ssl = calls_any(D, cls + "::read", ("SSL_read", "SSL_read_ex"))
        for name in ("handshake", "read", "write", "graceful_shutdown"):
            if name == "handshake" and not ssl or name == "graceful_shutdown" and not ssl:
                continue
            q = cls + "::" + name
            for code in (WREAD, WWRITE) if ssl else (EAGAIN,):
                w = Tls(D, rep, cls) if ssl else Tcp(D, rep, cls)
                at = where_fn(w.eng, q)
                limit = 2 if name == "graceful_shutdown" else 1

                def stop(e, c, orig=w.op if ssl else w.io, limit=limit):
                    if len(c.st.ghost["ops"]) > limit:
                        rep.judge("would-block", e, c.st, False, q, e.where(c.n, c.fr), "%s is called again after it would have blocked" % c.q)
                        return []
                    return orig(e, c)
                for o in (OPS if ssl else ("read", "recv", "write", "send", "::read", "::write", "::recv", "::send")):
                    w.eng.hooks[o] = stop
                res = w.run(name, 0, (L(-1), code, None), "would-block") if ssl else w.run(name, (L(-1), code))
                for s, v in res:
                    k = len(s.ghost["ops"])
                    rep.judge("would-block", w.eng, s, k <= limit, q, s.ghost["ops"][-1][-1] if k else at, "%d attempts although the first would have blocked" % k)
                    if name != "graceful_shutdown":
                        o = outcome(w.E, v)
                        rep.judge("would-block", w.eng, s, o == (False, RETRY), q, at, "would-block is reported as %s" % (o,))
                rep.absorb(w.eng)


# ---- C16: owners
RELEASE = ("close", "SSL_free", "SSL_CTX_free", "BIO_free", "BIO_free_all")
OBTAIN = ("socket", "accept", "accept4", "epoll_create1", "epoll_create", "SSL_new", "SSL_CTX_new", "dup", "eventfd", "open")


def owners(D):
    """Classes of the program whose destructor releases a descriptor or TLS object itself."""
    from ..engine import clean
    out = []
    for u, f in D["functions"].items():
        if f.get("dtor") and f.get("body") and f.get("cls") and clean(f["cls"]) in D["records"]:
            if reaches_release(D, f):
                out.append(clean(f["cls"]))
    return sorted(set(out))


def reaches_release(D, f):
    """The destructor's own body, or a member function of the class it calls, releases something."""
    from ..engine import clean
    todo, seen = [f], set()
    while todo:
        g = todo.pop()
        if id(g) in seen:
            continue
        seen.add(id(g))
        for c in callees(g["body"]):
            q = clean(c["q"])
            if q in RELEASE or q.lstrip(":") in RELEASE:
                return True
            h = D["functions"].get(c.get("u"))
            if h is not None and h.get("body") and clean(h.get("cls") or "") == clean(f["cls"]):
                todo.append(h)
    return False


def copying(D, rep, tier):
    rep.rule("no-copy", "no class whose destructor releases a descriptor or TLS object has a usable implicit copy constructor or copy assignment")
    from ..engine import clean
    for cls in owners(D):
        r = D["records"][cls]
        for kind, text in (("copyctor", "copy constructor"), ("copyassign", "copy assignment")):
            ms = [m for m in r["methods"] if m["kind"] == kind]
            moves = [m for m in r["methods"] if m["kind"] in ("movector", "moveassign") and not m["implicit"]]
            loc = r["loc"].split("/repo/")[-1].rsplit(":", 1)[0]
            if ms:
                live = [m for m in ms if not m["del"] and m["def"]]
                own = [m for m in ms if not m["del"] and not m["def"]]
                if own:
                    rep.undecided("no-copy", "%s has a %s of its own" % (cls, text))
                    continue
                bad = bool(live)
            else:
                bad = bool(r["copyctor_implicit"]) if kind == "copyctor" else not moves and not any(m["del"] for m in r["methods"] if m["kind"] == "copyctor")
            if bad:
                rep.violation("no-copy", cls, loc, "%s releases a resource in its destructor but its implicit %s copies the handle" % (cls, text), [], {})
            else:
                rep.ok("no-copy")
        rep.sample("no-copy", cls)
        rep.count("owner_classes")


def ctx_hooks(w):
    h = w.eng.hooks
    for q in ("ion::TlsContext::TlsContext", "ion::TlsContext::~TlsContext"):
        h.pop(q, None)

    def new(e, c):
        if "SSL_CTX_new" in c.st.ghost["faults"]:
            return [(c.st, Ptr(None, True))]
        root = ("sslctx", c.st.ghost["nctx"])
        c.st.ghost["nctx"] += 1
        c.st.ghost["ssl"] = c.st.ghost["ssl"] + (root,)
        c.st.store[root] = Opaque("sslctx", root[1])
        return [(c.st, Ptr((root,), False))]
    h["SSL_CTX_new"] = new
    h["SSL_CTX_free"] = w.ssl_free
    h["TLS_server_method"] = lambda e, c: [(c.st, Ptr((("obj", "method", e.strip(c.t)),), False))]
    for q in ("SSL_CTX_use_certificate_file", "SSL_CTX_use_certificate_chain_file", "SSL_CTX_use_PrivateKey_file", "SSL_CTX_check_private_key"):
        h[q] = lambda e, c: [(c.st, ZERO if c.q in c.st.ghost["faults"] else ONE)]
    for q in ("SSL_CTX_set_alpn_select_cb", "SSL_CTX_set_keylog_callback", "SSL_CTX_ctrl", "SSL_CTX_set_options"):
        h[q] = lambda e, c: [(c.st, VOID if e.T(c.t)["k"] == "void" else ONE)]
    h["std::filesystem::exists"] = lambda e, c: [(c.st, "exists" not in c.st.ghost["faults"])]


class Owner:
    """Life stories of one owner class."""

    def __init__(self, D, rep, cls, low=False):
        self.D, self.rep, self.cls = D, rep, cls
        w = self.w = World(D, rep)
        self.first = 0 if low else 10       # the lowest descriptor there is: 0, when the process was started without standard input
        if low:
            w.listen_fd = w.poll_fd = 0
        w.all_faults = True
        ctx_hooks(w)
        w.eng.hooks["SSL_shutdown"] = lambda e, c: [(c.st, ONE)]

    def arguments(self, st, i, f):
        """Arguments for a constructor, with the descriptors they carry: values, or None if unknown."""
        e = self.w.eng
        out = []
        for p in f["params"]:
            k, n = e.T(p["t"])["k"], e.tname(p["t"])
            if n == "ion::SocketFd":
                fd = self.first + i
                self.w.open(st, fd)
                out.append(var(st, "sock%d" % i, Struct("ion::SocketFd", tuple((x, L(fd)) for x in e.field_types(n)), None, e.find_type(n))))
            elif n == "ion::TlsContext":
                out.append(var(st, "ctx%d" % i, Struct(n, (), ("ctx",), e.find_type(n))))
            elif n == "std::filesystem::path":
                out.append(var(st, "path%d.%s" % (i, p.get("name", "")), Opaque(n, ("given", p.get("id")))))
            elif k == "int" and self.cls == "ion::SocketFd":
                self.w.open(st, self.first + i)
                out.append(L(self.first + i))
            elif k == "int":
                out.append(L(8443))
            else:
                return None
        return out

    def ctors(self):
        e = self.w.eng
        name = self.cls + "::" + self.cls.split("::")[-1]
        return [f for u, f in e.F.items() if f.get("ctor") and f.get("body") and clean(f["q"]) == name and not f.get("df") and
                not (len(f["params"]) == 1 and e.tname(f["params"][0]["t"]) == self.cls)]

    def build(self, st, i, f):
        args = self.arguments(st, i, f)
        if args is None:
            return None
        e = self.w.eng
        this = var(st, "object%d" % i, Struct(self.cls, (), "raw", None))
        live, exc = e.run(f, st, this, args)
        return [(s, this) for s, _ in live], exc, args

    def end(self, st, objs):
        """Destroys the objects and what was passed in."""
        e = self.w.eng
        states = [st]
        for p, cls in objs:
            states = [y for s in states for y in e.destroy_root(s, p, cls)]
        return states

    def rest(self, args):
        e = self.w.eng
        return [(a, "ion::SocketFd") for a in args if isinstance(a, Ptr) and a.path[0][0] == "v" and str(a.path[0][2]).startswith("sock")]

    def judge(self, st, what, fn):
        rep, e = self.rep, self.w.eng
        at = where_fn(e, fn)
        bad = False
        for r, where, text, f in st.ghost["bad"]:
            if r == "once":
                bad = True
                rep.judge("owner", e, st, False, fn, where, "%s: %s" % (what, text))
        left = sorted(dict(st.ghost["open"]))
        rep.judge("owner", e, st, not left, fn, at, "%s: descriptors %s are never closed" % (what, left))
        rep.judge("owner", e, st, not st.ghost["ssl"], fn, at, "%s: %s never freed" % (what, [x[0] for x in st.ghost["ssl"]]))
        rep.count("life_stories")
        rep.sample("owner", "%s: %s" % (self.cls, what))

    def stories(self):
        e = self.w.eng
        rep = self.rep
        cs = self.ctors()
        n = 0
        for f in cs:
            fn = clean(f["q"])
            faults = [()] + [(x,) for x in ("socket", "fcntl", "F_GETFL", "F_SETFL", "setsockopt", "bind", "listen", "epoll_create1", "SSL_new", "SSL_set_fd",
                                            "SSL_CTX_new", "SSL_CTX_use_certificate_file", "SSL_CTX_use_certificate_chain_file",
                                            "SSL_CTX_use_PrivateKey_file", "SSL_CTX_check_private_key", "exists")]
            for fl in faults:
                st = self.w.blank()
                st.ghost["faults"] = fl
                b = self.build(st, 0, f)
                if b is None:
                    rep.note("%s: constructor arguments not known" % fn)
                    break
                live, exc, args = b
                n += len(live) + len(exc)
                for s, p in live:
                    for s2 in self.end(s, [(p, self.cls)] + self.rest(args)):
                        self.judge(s2, "constructed%s and destroyed" % (" although %s fails" % fl[0] if fl else ""), fn)
                for x in exc:
                    x.exc = None
                    for s2 in self.end(x, self.rest(args)):
                        self.judge(s2, "construction fails at %s" % (fl[0] if fl else "?"), fn)
            self.moves(f)
            self.closes(f)
        return n

    def moves(self, f):
        e = self.w.eng
        st = self.w.blank()
        r = self.D["records"].get(self.cls, {})
        mv = [m for m in r["methods"] if m["kind"] == "movector" and not m["del"]]
        if mv:
            b = self.build(st, 0, f)
            if b is None:
                return
            for s, p in b[0]:
                v = e.read(s, p.path)[0][1]
                fr = Frame(e.fid(None, ("entry", "move")), None, None, None, None, None)
                for s2, nv in e.move_value(s, p.path, v, {"k": "move", "l": None, "t": e.find_type(self.cls)}, fr):
                    q = var(s2, "moved", nv)
                    for order in (0, 1):
                        for s3 in self.end(s2.copy(), ([(p, self.cls), (q, self.cls)] if order else [(q, self.cls), (p, self.cls)]) + self.rest(b[2])):
                            self.judge(s3, "moved into a new object, both destroyed", clean(f["q"]))
        op = [g for u, g in e.F.items() if g.get("body") and not g.get("df") and clean(g["q"]) == self.cls + "::operator=" and len(g["params"]) == 1 and
              e.T(g["params"][0]["t"])["k"] == "rref"]
        for g in op:
            for own in (False, True):
                st = self.w.blank()
                b0 = self.build(st, 0, f)
                if b0 is None:
                    return
                for s, p in b0[0]:
                    b1 = self.build(s, 1, f) if not own else ([(s, p)], [], [])
                    for s1, q in b1[0]:
                        res, exc = e.run(g, s1, p, [q])
                        objs = [(p, self.cls)] + ([(q, self.cls)] if not own else [])
                        for s2, _ in res:
                            if own:
                                s2.ghost["bad"] = s2.ghost["bad"]
                            for s3 in self.end(s2, objs + self.rest(b0[2]) + self.rest(b1[2])):
                                self.judge(s3, "assigned %s" % ("to itself" if own else "over another owner, both destroyed"), clean(g["q"]))

    def closes(self, f):
        e = self.w.eng
        for u, g in list(e.F.items()):
            if g.get("body") and clean(g["q"]) == self.cls + "::close" and not g["params"]:
                st = self.w.blank()
                b = self.build(st, 0, f)
                if b is None:
                    return
                for s, p in b[0]:
                    for s1, _ in e.run(clean(g["q"]), s, p, [], 0)[0]:
                        for s2, _ in e.run(clean(g["q"]), s1, p, [], 0)[0]:
                            for s3 in self.end(s2, [(p, self.cls)] + self.rest(b[2])):
                                self.judge(s3, "closed twice and destroyed", clean(g["q"]))


def ownership(D, rep, tier):
    rep.rule("owner", "over every life story of every owner (construction with each possible failure, move, assignment, self-assignment, "
             "explicit close, destruction) each descriptor, SSL object and SSL context is released exactly once")
    from ..engine import clean
    own = set(owners(D))
    hold = set()
    for cls, r in D["records"].items():
        if cls.startswith("ion::") and any(o.split("::")[-1] in str(D["types"][f["t"]]) for f in r.get("fields", ()) for o in ("ion::SocketFd",)):
            hold.add(cls)
    done = 0
    for cls in sorted(own | hold):
        if cls.split("::")[-1] in ("Http2Server", "Http2Connection"):
            continue
        try:
            for low in (False, True):
                w = Owner(D, rep, cls, low)
                done += w.stories()
                rep.absorb(w.w.eng)
        except (AnalysisBroken, Giveup) as x:
            rep.note("%s: not analysed (%s)" % (cls, x))
            rep.undecided("owner", "%s: %s" % (cls, x))
    if not done:
        raise AnalysisBroken("no owner could be analysed")
