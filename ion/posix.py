"""Abstract models of the system calls, OpenSSL and other C library calls the repository makes."""
from .domain import Lin, L, S, memo_sym, new_sym, ZERO, ONE
from .values import *
from .values import ge, eq, ne
from .models import MODELS, M, int_val, as_seq, top_seq, each


def ret_range(lo, hi):
    def f(eng, c):
        k = c.st.ghost.get("sys", 0)
        c.st.ghost["sys"] = k + 1
        return [(c.st, S(memo_sym(("ret", c.q, k), c.q + "()", lo, hi, "in")))]
    return f


for _n in ("bind", "listen", "setsockopt", "epoll_ctl", "shutdown", "access", "stat", "getpeername", "close", "prctl",
           "fstat", "lstat", "sigaction", "::close"):
    MODELS[_n] = ret_range(-1, 0)
for _n in ("socket", "accept", "accept4", "epoll_create1", "epoll_create", "dup", "open", "eventfd"):
    MODELS[_n] = ret_range(-1, (1 << 20))
MODELS["fcntl"] = ret_range(-1, 1 << 30)


def same(lo, hi):
    """A fact about the process or the system: any value, and the same one each time it is asked for."""
    def f(eng, c):
        at = tuple(cst(v) if isinstance(v, Lin) else None for v in c.args)
        if None in at:
            at = (eng.uid(),)
        return [(c.st, S(memo_sym(("fact", c.q, at), c.q + "()", lo, hi, "in")))]
    return f


for _n in ("getuid", "geteuid", "getgid", "getegid", "getpid", "getppid", "getpgrp", "gettid"):
    MODELS[_n] = same(0, (1 << 31) - 1)
MODELS["isatty"] = same(0, 1)
for _n in ("sysconf", "pathconf"):
    MODELS[_n] = same(-1, 1 << 40)
for _n in ("rand", "std::rand", "random"):
    MODELS[_n] = ret_range(0, (1 << 31) - 1)


@M("__errno_location")
def m_errno(eng, c):
    root = ("obj", ("errno", c.st.ghost.get("sys", 0)), eng.T(c.t).get("to", eng.strip(c.t)))
    return [(c.st, Ptr((root,), False))]


@M("strerror", "inet_ntop", "ERR_error_string", "ERR_reason_error_string", "getenv")
def m_cstring(eng, c):
    root = ("t", c.fr.id, ("cstring", id(c.n), c.st.ghost.get("sys", 0)))
    key = ("cstring", c.q, eng.uid())
    n = S(memo_sym(("len", key), "|%s|" % c.q, 0, 1 << 12, "in"))
    c.st.store[root] = Seq("str", n, (("s", key, ZERO, n),), None, None)
    if c.q == "getenv":
        return [(c.st, Ptr((root,), ("b", ("getenv", eng.uid()))))]
    return [(c.st, It((root,), ZERO, False))]


def rw(eng, c, writes):
    """read(2) / write(2): -1 or up to the count given."""
    out = []
    k = c.st.ghost.get("sys", 0)
    c.st.ghost["sys"] = k + 1
    for s, n in int_val(eng, c, 2):
        for s1, p in c.val(1, s):
            r = memo_sym(("ret", c.q, k), c.q + "()", -1, 1 << 40, "in")
            for s2 in eng.assume(s1, ge(n, S(r))):
                ss = [s2]
                if isinstance(p, It) and p.path is not None:
                    nx = []
                    for x, q in eng.read(s2, p.path):
                        if isinstance(q, Seq):
                            for y in eng.oblige(x, "bounds", ge(q.n, p.idx + n), c.n, c.fr,
                                                "buffer passed to %s holds the octets" % c.q):
                                if not writes:
                                    nx += fill_buffer(eng, y, p, q, n, ("rx", k))
                                else:
                                    nx.append(y)
                        else:
                            nx.append(x)
                    ss = nx
                out += [(x, S(r)) for x in ss]
    return out


def fill_buffer(eng, st, p, q, n, key):
    """Unknown octets received into [p, p+n)."""
    out = []
    for s, l, r in eng.cut_at(st, q, p.idx):
        rest = Seq(q.kind, ZERO, tuple(norm_pieces(r)), q.et, None)
        for s2, l2, r2 in eng.cut_at(s, rest, n):
            nq = Seq(q.kind, q.n, tuple(norm_pieces(l + [("s", key, ZERO, n)] + r2)), q.et, None)
            out += eng.write(s2, p.path, nq)
    return out


MODELS["read"] = lambda eng, c: rw(eng, c, False)
MODELS["recv"] = lambda eng, c: rw(eng, c, False)
MODELS["write"] = lambda eng, c: rw(eng, c, True)
MODELS["send"] = lambda eng, c: rw(eng, c, True)


@M("poll", "epoll_wait")
def m_poll(eng, c):
    k = c.st.ghost.get("sys", 0)
    c.st.ghost["sys"] = k + 1
    i = 1 if c.q == "poll" else 2
    out = []
    for s, n in int_val(eng, c, i):
        r = memo_sym(("ret", c.q, k), c.q + "()", -1, 1 << 30, "in")
        for s1 in eng.assume(s, ge(n, S(r))):
            j = 0 if c.q == "poll" else 1
            v = c.args[j]
            if isinstance(v, It) and v.path is not None:
                for s2, q in eng.read(s1, v.path):
                    if isinstance(q, Seq):
                        nq = q
                        if c.q == "epoll_wait":
                            nq = Seq(q.kind, q.n, (("s", ("events", k), ZERO, q.n),), q.et, None)
                        else:
                            nq = Seq(q.kind, q.n, (("s", ("pollfds", k), ZERO, q.n),), q.et, None)
                        for s3 in eng.write(s2, v.path, nq):
                            out.append((s3, S(r)))
                    else:
                        out.append((s2, S(r)))
            else:
                out.append((s1, S(r)))
    return out


MODELS["signal"] = lambda eng, c: [(c.st, Opaque("sighandler", 0))]
