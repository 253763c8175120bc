"""Helpers shared by the checks."""
from ..domain import Lin, L, S, SYMS, ZERO, ONE, new_sym, memo_sym, find_model, resolve
from ..values import *
from ..values import ge, eq, ne, neg, const_bytes, lit, plen, mk_seq
from ..engine import Engine, St, Frame, clean, relfile, Giveup, Call, NULLP
from ..models import each, as_seq, value_eq, canon_seq, streq
from ..facts import AnalysisBroken


def span_in(name, n=None, et=None):
    """A span over unknown input memory."""
    n = S(new_sym("|%s|" % name, 0, 1 << 40)) if n is None else L(n)
    return SpanV((("mem", name, et, n),), ZERO, n)


def var(st, name, v):
    root = ("v", 0, name)
    st.store[root] = v
    return Ptr((root,), False)


def obj(st, name, cls, **fields):
    """An object of class cls whose fields are unknown except those given."""
    return var(st, name, Struct(cls, tuple(sorted(fields.items())), name, None))


def where_fn(eng, name, nparams=None):
    f, _ = eng.fn(name, nparams)
    return "%s:%s" % (relfile(f["file"]), f["line"])


def byte_at(eng, st, q, i):
    r = eng.seq_get(st, q, L(i))
    return r


def be(eng, st, q, off, n):
    """[(state, big-endian number of n bytes at off)]."""
    res = [(st, ZERO)]
    for i in range(n):
        nxt = []
        for s, acc in res:
            for s2, b in eng.seq_get(s, q, L(off) + i):
                nxt.append((s2, acc.scale(256) + b if isinstance(b, Lin) and acc is not None else None))
        res = nxt
    return res


# ---- comparing abstract sequences ------------------------------------------------------------------
def drop_empty(eng, st, ps):
    out = []
    for p in ps:
        if eng.decide(st, eq(plen(p), 0)) is True:
            continue
        if out:
            q = out[-1]
            if q[0] == "s" and p[0] == "s" and same_base(eng, st, q[1], p[1]) and eng.decide(st, eq(q[3], p[2])) is True:
                out[-1] = ("s", q[1], q[2], p[3])
                continue
            if q[0] == "c" and p[0] == "c":
                out[-1] = ("c", q[1] + p[1])
                continue
            if q[0] in "fv" and p[0] in "fv" and "f" in (q[0], p[0]) and (q[1] if q[0] == "v" else q[2]) == (p[1] if p[0] == "v" else p[2]):
                out[-1] = ("f", plen(q) + plen(p), q[1] if q[0] == "v" else q[2])
                continue
        out.append(p)
    whole = [(("c", p[1][1][p[2].c:p[3].c]) if p[0] == "s" and isinstance(p[1], tuple) and len(p[1]) == 2 and p[1][0] == "bytes" and
              isinstance(p[1][1], bytes) and not p[2].t and not p[3].t else
              ("v", p[2]) if p[0] == "f" and not p[1].t and p[1].c == 1 else p) for p in out]
    return whole if whole == out else drop_empty(eng, st, whole)


def same_base(eng, st, a, b):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_base(eng, st, x, y) for x, y in zip(a, b))
    if isinstance(a, Lin) and isinstance(b, Lin):
        return eng.decide(st, eq(a, b)) is True
    return False


def same_seq(eng, st, a, b):
    """True: equal; False: can differ (their pieces name different data); None: unknown."""
    pa, pb = drop_empty(eng, st, a.pieces), drop_empty(eng, st, b.pieces)
    if len(pa) == len(pb):
        ok = True
        for x, y in zip(pa, pb):
            if x == y:
                continue
            if x[0] == y[0] == "s" and same_base(eng, st, x[1], y[1]) and \
                    eng.decide(st, eq(x[2], y[2])) is True and eng.decide(st, eq(x[3], y[3])) is True:
                continue
            if x[0] == y[0] == "v" and isinstance(x[1], Lin) and isinstance(y[1], Lin) and \
                    eng.decide(st, eq(x[1], y[1])) is True:
                continue
            if x[0] == y[0] == "f" and x[2] == y[2] and eng.decide(st, eq(x[1], y[1])) is True:
                continue
            ok = False
        if ok:
            return True
    m = eng.model(st)
    if m is not None and resolve(tuple(pa), m) == resolve(tuple(pb), m):
        return None
    if opaque_pieces(pa) or opaque_pieces(pb):
        return None
    return False


def opaque_pieces(ps):
    for p in ps:
        if p[0] == "s" and isinstance(p[1], tuple) and p[1] and p[1][0] in ("imp", "top"):
            return True
        if p[0] == "v" and isinstance(p[1], (Top,)):
            return True
    return False


def field(eng, st, v, name):
    """[(state, value)] of a record field."""
    out = []
    for s, x in deref(eng, st, v):
        out += [(s2, z) for s1, y in eng.get(s, x, name, None) for s2, z in deref(eng, s1, y)]
    return out


def deref(eng, st, v):
    if isinstance(v, RefV):
        return eng.read(st, v.loc.path)
    return [(st, v)]


def seq_of(eng, st, v):
    return as_seq(eng, st, v)


def make(eng, st, name, cls, args=()):
    """Constructs an object: ([state, pointer], exception states)."""
    this = var(st, name, Struct(cls, (), "raw", None))
    ctor = cls + "::" + cls.split("::")[-1]
    if not any(clean(f["q"]) == ctor and f.get("body") is not None and len(f["params"]) == len(args) for f in eng.F.values()):
        if args or eng.rec(cls) is None:
            raise AnalysisBroken("%s has no constructor of %d arguments" % (cls, len(args)))
        from ..models import default_value
        t = eng.find_type(cls)
        if t is None:
            raise AnalysisBroken("%s is not used in the program" % cls)
        st.store[this.path[0]] = default_value(eng, st, t)
        return [(st, this)], []
    live, exc = eng.run(ctor, st, this, list(args), len(args))
    return [(s, this) for s, _ in live], exc
