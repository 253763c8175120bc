"""Abstract models of the standard library: what each call does to the abstract state."""
from fractions import Fraction
from .domain import Lin, L, S, SYMS, ZERO, ONE, memo_sym, new_sym
from .values import *
from .values import is_cond, neg, ge, eq, ne, mk_seq, norm_pieces, const_bytes, lit, plen
from . import values as V

MODELS = {}
NPOS = (1 << 64) - 1


def M(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def cls_names(classes, *methods):
    return ["%s::%s" % (c, m) for c in classes for m in methods]


SEQS = ["std::vector", "std::basic_string", "std::basic_string_view", "std::deque", "std::array", "std::span",
        "std::initializer_list", "std::list"]
RWSEQS = ["std::vector", "std::basic_string", "std::deque", "std::list"]
MAPC = ["std::map", "std::unordered_map"]


def E():
    from . import engine
    return engine


def Exc(ty, val, where):
    from .engine import Exc as X
    return X(ty, val, where)


def throw(eng, c, st, ty, msg=None):
    eng.raise_(st, Exc(ty, msg, eng.where(c.n, c.fr)))


def each(pairs, f):
    out = []
    for s, v in pairs:
        out += f(s, v)
    return out


# ---------------------------------------------------------------------------------------- sequences
def as_seq(eng, st, v, t=None):
    """[(state, Seq)] of a sequence-like value (string, view, span, vector, C string)."""
    if isinstance(v, Seq):
        return [(st, v)]
    if isinstance(v, RefV):
        return each(eng.read(st, v.loc.path), lambda s, x: as_seq(eng, s, x))
    if isinstance(v, SpanV):
        if v.path is None:
            return [(st, Seq("arr", ZERO, (), None, None))]
        out = []
        for s, q in eng.read(st, v.path):
            if not isinstance(q, Seq):
                out.append((s, top_seq(eng, "view")))
                continue
            if eng.canon(s, v.off) == ZERO and v.n == q.n:
                out.append((s, q))
                continue
            for s2, ps in eng.seq_slice(s, q, v.off, v.off + v.n):
                out.append((s2, Seq(q.kind, v.n, tuple(ps), q.et, None)))
        return out
    if isinstance(v, It):
        return cstr(eng, st, v)
    if isinstance(v, Ptr) and v.path is not None:
        if v.path[0][0] == "lit" and len(v.path) == 1:
            b = v.path[0][1]
            return [(st, lit(b))]
        return each(eng.read(st, v.path), lambda s, x: as_seq(eng, s, x) if not isinstance(x, Ptr) else
                    [(s, top_seq(eng, "view"))])
    if isinstance(v, Opaque) and v.cls == "std::filesystem::path":
        return [(st, path_seq(v))]
    return [(st, top_seq(eng, "view"))]


def path_seq(v):
    n = S(memo_sym(("len", ("path", v.data)), "|path|", 0, 1 << 20, "in"))
    return Seq("str", n, (("s", ("path", v.data), ZERO, n),), None, None)


def top_seq(eng, kind, et=None):
    key = ("imp", ("seq", eng.uid()))
    n = S(memo_sym(("len", key), "|?|", 0, 1 << 48, "in", (), True))
    return Seq(kind, n, (("s", key, ZERO, n),), et, None)


def cstr(eng, st, it):
    """Characters from a char pointer up to the terminating NUL."""
    if it.path is None:
        return [(st, top_seq(eng, "view"))]
    root = it.path[0]
    if root[0] == "lit" and len(it.path) == 1:
        b = root[1]
        z = b.find(b"\0")
        b = b if z < 0 else b[:z]
        if not it.idx.t:
            return [(st, lit(b[it.idx.c:]))]
    out = []
    for s, q in eng.read(st, it.path):
        if not isinstance(q, Seq):
            out.append((s, top_seq(eng, "view")))
            continue
        if q.kind in ("str", "view"):
            if eng.canon(s, it.idx) == ZERO:
                out.append((s, q))
            else:
                for s2, ps in eng.seq_slice(s, q, it.idx, q.n):
                    out.append((s2, Seq("view", q.n - it.idx, tuple(ps), q.et, None)))
            continue
        b = const_bytes(q)
        if b is not None and b"\0" in b and not it.idx.t:
            b = b[it.idx.c:]
            out.append((s, lit(b[:b.find(b"\0")])))
            continue
        key = ("cstr", q.pieces, it.idx)
        n = S(memo_sym(("len", key), "strlen", 0, 1 << 20, "in", (), True))
        out.append((s, Seq("view", n, (("s", key, ZERO, n),), q.et, None)))
    return out


def seq_val(eng, c, i, st=None):
    """[(state, Seq)] of argument i."""
    return each(c.val(i, st), lambda s, v: as_seq(eng, s, v))


def obj_seq(eng, c, st=None):
    return each(c.obj(st), lambda s, v: as_seq(eng, s, v))


def int_val(eng, c, i, st=None):
    return each(c.val(i, st), lambda s, v: eng.as_int(s, v))


def streq(eng, st, a, b):
    """Condition: sequences a and b are equal."""
    if a.pieces == b.pieces:
        return True
    ca, cb = const_bytes(a), const_bytes(b)
    if ca is not None and cb is not None:
        return ca == cb
    d = eng.decide(st, eq(a.n, b.n))
    if d is False:
        return False
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb == b"":
        return eq(a.n, 0)
    ka = canon_seq(a)
    kb = ("c", cb) if cb is not None else canon_seq(b)
    if cb is None and repr(kb) < repr(ka):
        ka, kb, a, b = kb, ka, b, a
    # selection among constant strings against a constant string: decided by the index
    if cb is not None and len(a.pieces) == 1 and a.pieces[0][0] == "s":
        base = a.pieces[0][1]
        if isinstance(base, tuple) and base[0] == "sel":
            ix = [i for i, x in enumerate(base[1]) if x == cb]
            if not ix:
                return False
            lo, hi = min(ix), max(ix)
            if ix == list(range(lo, hi + 1)):
                if lo == hi:
                    return eq(base[2], lo)
                return ("and", ge(base[2], lo), ge(L(hi), base[2]))
    return ("atom", ("streq", ka, kb, a.n, b.n))


def canon_seq(q):
    if len(q.pieces) == 1:
        p = q.pieces[0]
        if p[0] == "s" and not p[2].t and p[2].c == 0:
            return p[1]
        if p[0] == "c":
            return ("c", p[1])
    return q.pieces


def seq_kind(eng, t):
    from .engine import STRUCT_SEQ
    return STRUCT_SEQ.get(eng.tname(t), "str")


@M(*cls_names(SEQS, "size", "length", "ssize"))
def m_size(eng, c):
    return each(c.obj(), lambda s, v: [(s, v.n)] if isinstance(v, (Seq, SpanV)) else
                each(as_seq(eng, s, v), lambda s2, q: [(s2, q.n)]))


@M("std::size", "std::ssize", "std::ranges::size", "std::ranges::__access::_Size::operator()")
def m_size_free(eng, c):
    return each(c.val(0), lambda s, v: [(s, v.n)] if isinstance(v, (Seq, SpanV, MapV)) else
                each(as_seq(eng, s, v), lambda s2, q: [(s2, q.n)]))


@M("std::span::size_bytes")
def m_size_bytes(eng, c):
    def f(s, v):
        w = eng.intinfo(eng.targ(c.f["clst"], 0)) if c.f.get("clst") is not None else None
        if isinstance(v, SpanV) and w and w[0] == 8:
            return [(s, v.n)]
        return [(s, eng.fresh(c.t, ("imp", ("size_bytes", eng.uid())), True))]
    return each(c.obj(), f)


@M(*cls_names(SEQS, "empty"))
def m_empty(eng, c):
    return each(c.obj(), lambda s, v: [(s, eq(v.n, 0))] if isinstance(v, (Seq, SpanV)) else
                each(as_seq(eng, s, v), lambda s2, q: [(s2, eq(q.n, 0))]))


@M("std::empty", "std::ranges::empty")
def m_empty_free(eng, c):
    return each(c.val(0), lambda s, v: [(s, eq(v.n, 0))] if isinstance(v, (Seq, SpanV, MapV)) else
                each(as_seq(eng, s, v), lambda s2, q: [(s2, eq(q.n, 0))]))


@M(*cls_names(SEQS, "data", "c_str", "begin", "cbegin"))
def m_begin(eng, c):
    def f(s, v):
        if isinstance(v, SpanV):
            return [(s, It(v.path, v.off, False))]
        return [(s, It(c.this.path, ZERO, False))]
    return each(c.obj(), f)


@M(*cls_names(SEQS, "end", "cend"))
def m_end(eng, c):
    def f(s, v):
        if isinstance(v, SpanV):
            return [(s, It(v.path, v.off + v.n, False))]
        if isinstance(v, Seq):
            return [(s, It(c.this.path, v.n, False))]
        return [(s, Top("end"))]
    return each(c.obj(), f)


@M(*cls_names(SEQS, "rbegin", "crbegin"))
def m_rbegin(eng, c):
    def f(s, v):
        if isinstance(v, SpanV):
            return [(s, It(v.path, v.off + v.n, True))]
        if isinstance(v, Seq):
            return [(s, It(c.this.path, v.n, True))]
        return [(s, Top("rbegin"))]
    return each(c.obj(), f)


@M(*cls_names(SEQS, "rend", "crend"))
def m_rend(eng, c):
    return each(c.obj(), lambda s, v: [(s, It(v.path, v.off, True) if isinstance(v, SpanV) else
                                        It(c.this.path, ZERO, True))])


@M("std::begin", "std::cbegin", "std::data", "std::ranges::begin")
def m_begin_free(eng, c):
    return each(c.val(0), lambda s, v: [(s, It(v.path, v.off, False) if isinstance(v, SpanV) else
                                         It(c.args[0].path, ZERO, False))])


@M("std::end", "std::cend", "std::ranges::end")
def m_end_free(eng, c):
    def f(s, v):
        if isinstance(v, SpanV):
            return [(s, It(v.path, v.off + v.n, False))]
        if isinstance(v, Seq):
            return [(s, It(c.args[0].path, v.n, False))]
        return [(s, Top("end"))]
    return each(c.val(0), f)


@M(*cls_names(SEQS, "operator[]"))
def m_index(eng, c):
    def f(s, i):
        def g(s2, v):
            if isinstance(v, SpanV):
                return span_index(eng, s2, v, i, c)
            return eng.at_index(s2, c.this.path, i, c.n, c.fr)
        return each(c.obj(s), g)
    return each(int_val(eng, c, 0), f)


def span_index(eng, st, v, i, c):
    g = ge(v.n - 1, i)
    if not i.t and i.c < 0:
        g = False
    elif not (ge(i, 0) is True):
        g = E().simp(("and", ge(i, 0), g))
    out = []
    for s in eng.oblige(st, "bounds", g, c.n, c.fr, "element index is inside the sequence"):
        if v.path is None:
            continue
        out.append((s, Ptr(v.path + (("i", eng.canon(s, v.off + i)),), False)))
    return out


@M(*cls_names(SEQS, "at"))
def m_at(eng, c):
    def f(s, i):
        def g(s2, v):
            n = v.n if isinstance(v, (Seq, SpanV)) else None
            if n is None:
                return [(s2, Ptr((("obj", ("imp", eng.uid()), eng.strip(c.t)),), False))]
            T, F = eng.branch(s2, ge(n - 1, i))
            for x in F:
                throw(eng, c, x, "std::out_of_range")
            off = v.off if isinstance(v, SpanV) else ZERO
            p = v.path if isinstance(v, SpanV) else c.this.path
            return [(x, Ptr(p + (("i", eng.canon(x, off + i)),), False)) for x in T]
        return each(c.obj(s), g)
    return each(int_val(eng, c, 0), f)


@M(*cls_names(SEQS, "front", "back"))
def m_front(eng, c):
    last = c.q.endswith("back")

    def g(s, v):
        if isinstance(v, SpanV):
            return span_index(eng, s, v, v.n - 1 if last else ZERO, c)
        if isinstance(v, Seq):
            return eng.at_index(s, c.this.path, v.n - 1 if last else ZERO, c.n, c.fr,
                                "front()/back() of a non-empty sequence")
        return [(s, Ptr((("obj", ("imp", eng.uid()), eng.strip(c.t)),), False))]
    return each(c.obj(), g)


def setobj(eng, c, st, v, ret=None):
    return [(s, c.this if ret is None else ret) for s in eng.write(st, c.this.path, v)]


@M(*cls_names(SEQS, "clear"))
def m_clear(eng, c):
    return each(c.obj(), lambda s, v: setobj(eng, c, s, Seq(v.kind, ZERO, (), v.et, None) if isinstance(v, Seq) else v, VOID))


@M(*cls_names(SEQS, "shrink_to_fit"))
def m_nop(eng, c):
    return [(c.st, VOID)]


@M(*cls_names(SEQS, "reserve"))
def m_reserve(eng, c):
    out = []
    for s, n in c.val(0):
        s.store[("cap", c.this.path)] = n
        out.append((s, VOID))
    return out


@M(*cls_names(SEQS, "capacity"))
def m_capacity(eng, c):
    """Anything at least the size (and what was reserved): the standard bounds it no further."""
    def f(s, v):
        if not isinstance(v, Seq):
            return [(s, eng.fresh(c.t, ("imp", ("capacity", eng.uid())), True))]
        r = s.store.get(("cap", c.this.path))
        out = []
        if r is not None:
            T, F = eng.branch(s, ge(r - v.n, 0))
            out += [(x, r) for x in T]
        else:
            F = [s]
        for x in F:
            n = S(memo_sym(("capacity", eng.uid()), "capacity", 0, 1 << 32, "in"))
            for y in eng.assume(x, ge(n - v.n, 0)):
                y.store[("cap", c.this.path)] = n
                out.append((y, n))
        return out
    return each(c.obj(), f)


@M(*cls_names(SEQS, "max_size"))
def m_max_size(eng, c):
    return [(c.st, L((1 << 63) - 1))]


def arg_value(eng, c, i, st=None):
    """Value of argument i, moved out of its source when it is an xvalue."""
    out = []
    for s, v in c.val(i, st):
        a = c.argn[i] if i < len(c.argn) else None
        p = c.args[i]
        if a is not None and a.get("lv") == 2 and isinstance(p, Ptr):
            out += eng.move_value(s, p.path, v, a, c.fr)
        elif eng.run_dtors and a is not None and not a.get("lv") and isinstance(p, Ptr) and p.path is not None and len(p.path) == 1 and \
                p.path[0][0] == "t" and p.path[0] in s.store and eng.tname(a["t"]) != "" and eng.needs_destroy(a["t"]):
            s.store.pop(p.path[0])
            out.append((s, v))
        else:
            out.append((s, v))
    return out


@M(*cls_names(RWSEQS, "push_back", "push_front", "emplace_back", "emplace_front", "append_range"))
def m_push(eng, c):
    front = c.q.endswith("front")
    if c.q.endswith("append_range"):
        return NotImplemented
    if "emplace" in c.q and len(c.args) != 1:
        et = eng.elem_type(c.f["clst"]) if c.f.get("clst") is not None else None
        vals = construct(eng, c, c.st, et, 0)
    elif "emplace" in c.q:
        et = eng.elem_type(c.f["clst"]) if c.f.get("clst") is not None else None
        vals = construct(eng, c, c.st, et, 0)
    else:
        vals = arg_value(eng, c, 0)

    def f(s, x):
        def g(s2, q):
            if not isinstance(q, Seq):
                return [(s2, VOID)]
            ps = [("v", x)] + list(q.pieces) if front else list(q.pieces) + [("v", x)]
            nq = Seq(q.kind, q.n + 1, tuple(norm_pieces(ps)), q.et, None)
            ret = VOID
            if "emplace" in c.q:
                ret = Ptr(c.this.path + (("i", ZERO if front else q.n),), False)
            return setobj(eng, c, s2, nq, ret)
        return each(c.obj(s), g)
    return each(vals, f)


@M(*cls_names(RWSEQS, "pop_back", "pop_front"))
def m_pop(eng, c):
    front = c.q.endswith("front")

    def g(s, q):
        if not isinstance(q, Seq):
            return [(s, VOID)]
        out = []
        for s2 in eng.oblige(s, "bounds", ge(q.n, 1), c.n, c.fr, "pop of a non-empty sequence"):
            lo, hi = (ONE, q.n) if front else (ZERO, q.n - 1)
            for s3, ps in eng.seq_slice(s2, q, lo, hi):
                out += setobj(eng, c, s3, Seq(q.kind, q.n - 1, tuple(ps), q.et, None), VOID)
        return out
    return each(c.obj(), g)


@M(*cls_names(RWSEQS, "resize"))
def m_resize(eng, c):
    def f(s, n):
        fill = None
        if len(c.args) > 1:
            fill = c.val(1, s)[0][1]

        def g(s2, q):
            if not isinstance(q, Seq):
                return [(s2, VOID)]
            z = fill if fill is not None else eng.zero(q.et) if q.et is not None else ZERO
            T, F = eng.branch(s2, ge(n, q.n))
            out = []
            for x in T:
                out += setobj(eng, c, x, Seq(q.kind, n, tuple(norm_pieces(list(q.pieces) + [("f", n - q.n, z)])), q.et,
                                             None), VOID)
            for x in F:
                for s3, ps in eng.seq_slice(x, q, ZERO, n):
                    out += setobj(eng, c, s3, Seq(q.kind, n, tuple(ps), q.et, None), VOID)
            return out
        return each(c.obj(s), g)
    return each(int_val(eng, c, 0), f)


def it_range(eng, st, a, b, c, what="iterator range"):
    """[(state, pieces, n)] of the elements in [a, b)."""
    if isinstance(a, Opaque) and a.cls == "view":
        a = It(a.data[0], a.data[1], a.data[3])
    if not isinstance(a, It) or not isinstance(b, It) or a.path != b.path or a.rev or b.rev:
        if isinstance(a, It) and isinstance(b, It) and a.path is None and b.path is None:
            return [(st, [], ZERO)]
        q = top_seq(eng, "vec")
        return [(st, list(q.pieces), q.n)]
    if a.path is None:
        return [(st, [], ZERO)]
    out = []
    for s, q in eng.read(st, a.path):
        if not isinstance(q, Seq):
            q = top_seq(eng, "vec")
            out.append((s, list(q.pieces), q.n))
            continue
        cond = E().simp(("and", ge(a.idx, 0), ("and", ge(b.idx, a.idx), ge(q.n, b.idx))))
        for s2 in eng.oblige(s, "bounds", cond, c.n, c.fr, what + " lies inside the sequence"):
            for s3, ps in eng.seq_slice(s2, q, a.idx, b.idx):
                out.append((s3, ps, b.idx - a.idx))
    return out


@M(*cls_names(RWSEQS, "insert", "append", "assign", "append_range", "insert_range", "assign_range"))
def m_insert(eng, c):
    name = c.q.split("::")[-1]
    args = list(range(len(c.args)))
    pos_given = name.startswith("insert")
    out = []
    for s, posv in (c.val(0) if pos_given else [(c.st, None)]):
        rest = args[1:] if pos_given else args
        for s1, ps, n in inserted(eng, c, s, rest, name):
            for s2, q in c.obj(s1):
                if not isinstance(q, Seq):
                    out.append((s2, Top("insert")))
                    continue
                if name.startswith("assign"):
                    out += setobj(eng, c, s2, Seq(q.kind, n, tuple(norm_pieces(ps)), q.et, None))
                    continue
                if posv is None:
                    at = q.n
                elif isinstance(posv, It) and posv.path == c.this.path:
                    at = posv.idx
                elif isinstance(posv, Lin):
                    at = posv
                else:
                    at = None
                if at is None:
                    out += [(x, Top("insert")) for x in eng.havoc(s2, c.this.path, c.f.get("clst"))]
                    continue
                if at == q.n:
                    nq = Seq(q.kind, q.n + n, tuple(norm_pieces(list(q.pieces) + ps)), q.et, None)
                    out += setobj(eng, c, s2, nq, It(c.this.path, at, False) if pos_given and not isinstance(posv, Lin) else None)
                    continue
                for s3, l, r in eng.cut_at(s2, q, at):
                    nq = Seq(q.kind, q.n + n, tuple(norm_pieces(l + ps + r)), q.et, None)
                    out += setobj(eng, c, s3, nq, It(c.this.path, at, False) if not isinstance(posv, Lin) else None)
    return out


def inserted(eng, c, st, ix, name):
    """[(state, pieces, n)] described by the remaining arguments of insert / append / assign."""
    isstr = c.q.startswith("std::basic_string")
    if len(ix) == 1:
        out = []
        for s, v in c.val(ix[0], st):
            if isstr or "range" in name:
                if isinstance(v, Lin):
                    out.append((s, [("v", v)], ONE))
                else:
                    for s2, q in as_seq(eng, s, v):
                        out.append((s2, list(q.pieces), q.n))
            elif isinstance(v, Seq) and v.kind in ("list", "arr") and is_list_arg(eng, c, ix[0]):
                out.append((s, list(v.pieces), v.n))
            else:
                for s2, x in arg_value(eng, c, ix[0], s):
                    out.append((s2, [("v", x)], ONE))
        return out
    if len(ix) == 2:
        out = []
        for s, a in c.val(ix[0], st):
            for s1, b in c.val(ix[1], s):
                if isinstance(a, It) and isinstance(b, It):
                    out += it_range(eng, s1, a, b, c)
                elif isinstance(a, It) and isinstance(b, Lin):       # pointer and count
                    out += it_range(eng, s1, a, a.rep(idx=a.idx + b), c)
                elif isinstance(a, Lin):                             # count and value
                    k = eng.canon(s1, a)
                    out.append((s1, [("v", b)] * k.c if isstr and not k.t and 0 < k.c <= 16 else [("f", a, b)], a))
                elif isinstance(a, Ptr) and isinstance(b, Ptr):
                    q = top_seq(eng, "vec")
                    out.append((s1, list(q.pieces), q.n))
                else:
                    q = top_seq(eng, "vec")
                    out.append((s1, list(q.pieces), q.n))
        return out
    if len(ix) == 3 and isstr:
        out = []
        for s, q in seq_val(eng, c, ix[0], st):
            for s1, p in int_val(eng, c, ix[1], s):
                for s2, n in int_val(eng, c, ix[2], s1):
                    for s3, x in substr(eng, c, s2, q, p, n):
                        out.append((s3, list(x.pieces), x.n))
        return out
    q = top_seq(eng, "vec")
    return [(st, list(q.pieces), q.n)]


def is_list_arg(eng, c, i):
    ps = c.f.get("p") or []
    return i < len(ps) and (eng.tname(ps[i]) == "std::initializer_list" or eng.T(eng.strip(ps[i]))["k"] == "carray")


@M(*cls_names(RWSEQS, "erase"))
def m_erase(eng, c):
    out = []
    isstr = c.q.startswith("std::basic_string")
    for s, a in c.val(0):
        for s1, b in (c.val(1, s) if len(c.args) > 1 else [(s, None)]):
            for s2, q in c.obj(s1):
                if not isinstance(q, Seq):
                    out.append((s2, Top("erase")))
                    continue
                if isinstance(a, It) and a.path == c.this.path and not a.rev:
                    lo = a.idx
                    hi = b.idx if isinstance(b, It) else lo + 1
                    cond = E().simp(("and", ge(lo, 0), ("and", ge(hi, lo), ge(q.n, hi))))
                elif isstr and isinstance(a, Lin):
                    lo = a
                    hi = q.n if b is None else None
                    if hi is None:
                        hi = min_lin(eng, s2, lo + b, q.n)
                        if hi is None:
                            T, F = eng.branch(s2, ge(q.n, lo + b))
                            for x in T:
                                out += erase_range(eng, c, x, q, lo, lo + b, a)
                            for x in F:
                                out += erase_range(eng, c, x, q, lo, q.n, a)
                            continue
                    cond = ge(q.n, lo)
                else:
                    out += [(x, Top("erase")) for x in eng.havoc(s2, c.this.path, c.f.get("clst"))]
                    continue
                for s3 in eng.oblige(s2, "bounds", cond, c.n, c.fr, "erased range lies inside the sequence"):
                    out += erase_range(eng, c, s3, q, lo, hi, a)
    return out


def min_lin(eng, st, a, b):
    if eng.decide(st, ge(b, a)):
        return a
    if eng.decide(st, ge(a, b)):
        return b
    return None


def erase_range(eng, c, st, q, lo, hi, a):
    out = []
    for s, l, r in eng.cut_at(st, q, lo):
        rest = Seq(q.kind, ZERO, tuple(norm_pieces(r)), q.et, None)
        for s2, l2, r2 in eng.cut_at(s, rest, eng.canon(s, hi - lo)):
            nq = Seq(q.kind, q.n - (hi - lo), tuple(norm_pieces(l + r2)), q.et, None)
            out += setobj(eng, c, s2, nq, It(c.this.path, lo, False) if isinstance(a, It) else c.this)
    return out


@M(*cls_names(SEQS, "operator="))
def m_seq_assign(eng, c):
    t = c.f.get("clst")
    kind = seq_kind(eng, t) if t is not None else None
    if c.q.startswith("std::span"):
        return each(c.val(0), lambda s, v: setobj(eng, c, s, v))

    def f(s, v):
        if isinstance(v, Lin):
            return setobj(eng, c, s, mk_seq("str", [("v", v)]))
        return each(as_seq(eng, s, v), lambda s2, q: setobj(eng, c, s2, Seq(kind or q.kind, q.n, q.pieces, q.et, None)))
    return each(arg_value(eng, c, 0), f)


@M("std::basic_string::operator+=")
def m_append(eng, c):
    def f(s, v):
        if isinstance(v, Lin):
            ps, n = [("v", v)], ONE
            return appended(eng, c, s, ps, n)
        return each(as_seq(eng, s, v), lambda s2, q: appended(eng, c, s2, list(q.pieces), q.n))
    return each(c.val(0), f)


def appended(eng, c, s, ps, n):
    return each(c.obj(s), lambda s2, q: setobj(eng, c, s2, Seq(q.kind, q.n + n, tuple(norm_pieces(list(q.pieces) + ps)),
                                                             q.et, None)) if isinstance(q, Seq) else [(s2, c.this)])


def substr(eng, c, st, q, p, n):
    T, F = eng.branch(st, ge(q.n, p))
    for s in F:
        throw(eng, c, s, "std::out_of_range")
    out = []
    for s in T:
        if n is None or (not n.t and n.c >= 1 << 60):
            cases = [(s, q.n)]
        else:
            T2, F2 = eng.branch(s, ge(q.n - p, n))
            cases = [(x, p + n) for x in T2] + [(x, q.n) for x in F2]
        for s2, hi in cases:
            for s3, ps in eng.seq_slice(s2, q, p, hi):
                out.append((s3, Seq(q.kind, hi - p, tuple(ps), q.et, None)))
    return out


@M("std::basic_string::substr", "std::basic_string_view::substr")
def m_substr(eng, c):
    out = []
    for s, q in obj_seq(eng, c):
        for s1, p in (int_val(eng, c, 0, s) if c.args else [(s, ZERO)]):
            for s2, n in (int_val(eng, c, 1, s1) if len(c.args) > 1 else [(s1, None)]):
                out += substr(eng, c, s2, q, p, n)
    return out


@M("std::basic_string_view::remove_prefix", "std::basic_string_view::remove_suffix")
def m_remove_prefix(eng, c):
    pre = c.q.endswith("prefix")
    out = []
    for s, q in obj_seq(eng, c):
        for s1, n in int_val(eng, c, 0, s):
            for s2 in eng.oblige(s1, "bounds", ge(q.n, n), c.n, c.fr, "removed prefix lies inside the view"):
                for s3, ps in eng.seq_slice(s2, q, n if pre else ZERO, q.n if pre else q.n - n):
                    out += setobj(eng, c, s3, Seq(q.kind, q.n - n, tuple(ps), q.et, None), VOID)
    return out


STRS = ["std::basic_string", "std::basic_string_view"]


@M(*cls_names(STRS, "starts_with", "ends_with", "contains"))
def m_starts(eng, c):
    op = c.q.split("::")[-1]

    def f(s, q):
        def g(s2, v):
            if isinstance(v, Lin):
                p = mk_seq("view", [("v", v)])
                return starts(eng, c, s2, q, p, op)
            return each(as_seq(eng, s2, v), lambda s3, p: starts(eng, c, s3, q, p, op))
        return each(c.val(0, s), g)
    return each(obj_seq(eng, c), f)


def starts(eng, c, s, q, p, op):
    cq, cp = const_bytes(q), const_bytes(p)
    if cq is not None and cp is not None:
        return [(s, cq.startswith(cp) if op == "starts_with" else cq.endswith(cp) if op == "ends_with" else cp in cq)]
    T, F = eng.branch(s, ge(q.n, p.n))
    out = [(x, False) for x in F]
    for x in T:
        if op == "starts_with":
            for s2, ps in eng.seq_slice(x, q, ZERO, p.n):
                out.append((s2, streq(eng, s2, Seq("view", p.n, tuple(ps), q.et, None), p)))
        elif op == "ends_with":
            for s2, ps in eng.seq_slice(x, q, q.n - p.n, q.n):
                out.append((s2, streq(eng, s2, Seq("view", p.n, tuple(ps), q.et, None), p)))
        else:
            out.append((x, ("atom", ("b", (op, canon_seq(q), canon_seq(p))))))
    return out


@M(*cls_names(STRS, "find", "rfind", "find_last_of", "find_first_of", "find_first_not_of", "find_last_not_of"))
def m_find_str(eng, c):
    op = c.q.split("::")[-1]
    out = []
    for s, q in obj_seq(eng, c):
        for s1, v in c.val(0, s):
            ps = [(s1, mk_seq("view", [("v", v)]))] if isinstance(v, Lin) else as_seq(eng, s1, v)
            for s2, p in ps:
                for s3, at in (int_val(eng, c, 1, s2) if len(c.args) > 1 else [(s2, None)]):
                    cq, cp = const_bytes(q), const_bytes(p)
                    if op == "rfind" and at is not None and not at.t and at.c == 0 and not (cq is not None and cp is not None):
                        for x, r in starts(eng, c, s3, q, p, "starts_with"):        # rfind(p, 0): p at the beginning, or nowhere
                            T, F = eng.branch(x, r)
                            out += [(y, ZERO) for y in T] + [(y, L(NPOS)) for y in F]
                        continue
                    if cq is not None and cp is not None and (at is None or not at.t):
                        out.append((s3, L(find_const(op, cq, cp, None if at is None else at.c))))
                        continue
                    key = (op, canon_seq(q), canon_seq(p), at)
                    found = ("atom", ("b", ("found",) + key))
                    T, F = eng.branch(s3, found)
                    for x in F:
                        out.append((x, L(NPOS)))
                    k = memo_sym(("findpos", key), "%s(%s)" % (op, (cp or b"?").decode("latin1")), 0, 1 << 48, "in",
                                 ("find", key))
                    last = q.n - (p.n if op in ("find", "rfind") else 1)
                    for x in T:
                        for y in eng.assume(x, ge(last, S(k))):
                            if at is not None and op in ("find", "find_first_of", "find_first_not_of"):
                                for z in eng.assume(y, ge(S(k), at)):
                                    out.append((z, S(k)))
                            else:
                                out.append((y, S(k)))
    return out


def find_const(op, q, p, at):
    q = q.decode("latin1")
    p = p.decode("latin1")
    if op == "find":
        r = q.find(p, at or 0)
    elif op == "rfind":
        r = q.rfind(p) if at is None or at >= len(q) else q.rfind(p, 0, at + len(p))
    else:
        idx = range(at or 0, len(q)) if "first" in op else range(len(q) - 1, -1, -1)
        r = -1
        for i in idx:
            if (q[i] in p) != ("not" in op):
                r = i
                break
    return r if r >= 0 else NPOS


@M("std::basic_string::operator basic_string_view", "std::basic_string::operator std::basic_string_view")
def m_to_view(eng, c):
    return each(obj_seq(eng, c), lambda s, q: [(s, Seq("view", q.n, q.pieces, q.et, None))])


@M("std::basic_string::compare", "std::basic_string_view::compare")
def m_compare(eng, c):
    if len(c.args) not in (1, 3):
        return NotImplemented
    out = []
    whole = obj_seq(eng, c)
    if len(c.args) == 3:
        parts = []
        for s, q in whole:
            for s1, at in int_val(eng, c, 0, s):
                for s2, n in int_val(eng, c, 1, s1):
                    parts += substr(eng, c, s2, q, at, n)
        whole = parts
    for s, q in whole:
        for s1, p in seq_val(eng, c, len(c.args) - 1, s):
            T, F = eng.branch(s1, streq(eng, s1, q, p))
            out += [(x, ZERO) for x in T]
            for x in F:
                k = memo_sym(("compare", canon_seq(q), canon_seq(p)), "compare", -1, 1, "in")
                out += [(y, S(k)) for y in eng.assume(x, ne(S(k), 0))]
    return out


@M("std::basic_string::basic_string", "std::basic_string_view::basic_string_view", "std::vector::vector",
   "std::deque::deque", "std::list::list", "std::array::array")
def m_seq_ctor(eng, c):
    t = c.f.get("clst")
    t = c.n.get("t") if t is None else t
    cn = c.q.split("::")[1]
    kind = {"basic_string": "str", "basic_string_view": "view", "vector": "vec", "deque": "deq", "list": "deq",
            "array": "arr"}[cn]
    et = eng.elem_type(t) if t is not None else None
    isstr = kind in ("str", "view")
    idx = [i for i in range(len(c.args)) if not is_alloc(eng, c, i)]
    if kind == "arr":
        return [(c.st, eng.uninit(c.n["t"]))]
    if not idx:
        return [(c.st, Seq(kind, ZERO, (), et, None))]

    def done(s, ps, n):
        return [(s, Seq(kind, n, tuple(norm_pieces(ps)), et, None))]
    out = []
    for s, a in arg_value(eng, c, idx[0]):
        if len(idx) == 1:
            if isinstance(a, Lin) and not isstr:
                z = eng.zero(et) if et is not None else ZERO
                if kind in ("vec", "deq"):
                    out += done(s, [("f", a, z)], a)
            elif isinstance(a, Lin):
                out += done(s, [("v", a)], ONE)
            else:
                if isinstance(a, Ptr) and a.path is None:
                    q = top_seq(eng, kind)
                    out += done(s, list(q.pieces), q.n)
                    continue
                out += each(as_seq(eng, s, a), lambda s2, q: done(s2, list(q.pieces), q.n))
            continue
        for s1, b in c.val(idx[1], s):
            if isinstance(a, It) and isinstance(b, It):
                out += each([(x, (ps, n)) for x, ps, n in it_range(eng, s1, a, b, c)],
                            lambda s2, pn: done(s2, pn[0], pn[1]))
            elif isinstance(a, Lin) and not isinstance(b, It):
                out += done(s1, [("f", a, b)], a)
            elif isinstance(a, It) and isinstance(b, Lin):
                for x, ps, n in it_range(eng, s1, a, a.rep(idx=a.idx + b), c):
                    out += done(x, ps, n)
            elif isinstance(a, (Seq, SpanV)) and isinstance(b, Lin):
                for s2, q in as_seq(eng, s1, a):
                    for s3, n in (int_val(eng, c, idx[2], s2) if len(idx) > 2 else [(s2, None)]):
                        for s4, x in substr(eng, c, s3, q, b, n):
                            out += done(s4, list(x.pieces), x.n)
            elif isinstance(a, Ptr) and isinstance(b, Lin) and isstr:
                for s2, q in as_seq(eng, s1, a):
                    for s3, ps in eng.seq_slice(s2, q, ZERO, b):
                        out += done(s3, ps, b)
            else:
                q = top_seq(eng, kind)
                out += done(s1, list(q.pieces), q.n)
    return out


def is_alloc(eng, c, i):
    ps = c.f.get("p") or []
    if i < len(ps):
        n = eng.tname(ps[i])
        return n.startswith("std::allocator") or n in ("std::hash", "std::equal_to", "std::less")
    return False


@M("std::span::span")
def m_span_ctor(eng, c):
    t = c.n.get("t")
    if not c.args:
        return [(c.st, SpanV(None, ZERO, ZERO))]
    out = []
    ext = eng.targ(c.f.get("clst", t), 1)
    ext = L(ext) if isinstance(ext, int) and 0 <= ext < (1 << 40) else None
    for s, a in [(c.st, c.args[0])]:
        if len(c.args) == 1:
            for s1, v in c.val(0, s):
                if isinstance(v, SpanV):
                    ss = [s1]
                    if ext is not None and v.n != ext:
                        ss = eng.oblige(s1, "bounds", eq(v.n, ext), c.n, c.fr, "span has the fixed extent")
                    for s2 in ss:
                        out.append((s2, SpanV(v.path, v.off, ext if ext is not None else v.n)))
                elif isinstance(v, Seq) and isinstance(a, Ptr):
                    out.append((s1, SpanV(a.path, ZERO, v.n)))
                elif isinstance(v, It):
                    out.append((s1, Top("span")))
                else:
                    out.append((s1, eng.fresh(c.f.get("clst", t), ("imp", ("span", eng.uid())), True)))
            continue
        for s1, p in c.val(0, s):
            for s2, e in c.val(1, s1):
                if isinstance(p, It) and isinstance(e, Lin):
                    if p.path is None:
                        out.append((s2, SpanV(None, ZERO, e)))
                        continue
                    for s3, q in eng.read(s2, p.path):
                        ss = [s3]
                        if isinstance(q, Seq):
                            ss = eng.oblige(s3, "bounds", E().simp(("and", ge(p.idx, 0), ge(q.n, p.idx + e))), c.n, c.fr,
                                            "span lies inside the sequence")
                        out += [(x, SpanV(p.path, p.idx, e)) for x in ss]
                elif isinstance(p, It) and isinstance(e, It) and p.path == e.path:
                    for x, ps, n in it_range(eng, s2, p, e, c):
                        out.append((x, SpanV(p.path, p.idx, n)))
                elif isinstance(p, Ptr) and p.path is not None and isinstance(e, Lin):
                    # a single object or an unknown buffer
                    for s3, q in eng.read(s2, p.path):
                        if isinstance(q, Seq):
                            out.append((s3, SpanV(p.path, ZERO, e)))
                        else:
                            out.append((s3, SpanV((("mem", ("span", p.path[0], p.path[1:]), eng.elem_type(t), e),), ZERO, e)))
                else:
                    out.append((s2, eng.fresh(c.f.get("clst", t), ("imp", ("span", eng.uid())), True)))
    return out


@M("std::span::subspan", "std::span::first", "std::span::last")
def m_subspan(eng, c):
    op = c.q.split("::")[-1]
    ta = [x for x in (c.f.get("ta") or [])]
    tv = []
    for x in ta:
        if isinstance(x, dict) and "i" in x:
            tv.append(L(x["i"]))
        elif isinstance(x, int):
            tv.append(L(x))
    out = []
    for s, v in c.obj():
        if not isinstance(v, SpanV):
            out.append((s, eng.fresh(c.t, ("imp", ("subspan", eng.uid())), True)))
            continue
        avs = [(s, [])]
        if c.args:
            for i in range(len(c.args)):
                avs = [(s2, l + [x]) for s1, l in avs for s2, x in int_val(eng, c, i, s1)]
        else:
            avs = [(s, tv)]
        for s1, l in avs:
            if op == "subspan":
                o = l[0] if l else ZERO
                n = l[1] if len(l) > 1 else None
                if n is not None and not n.t and n.c >= 1 << 60:
                    n = None
                cond = ge(v.n, o) if n is None else E().simp(("and", ge(v.n, o), ge(v.n, o + n)))
                nn = v.n - o if n is None else n
            elif op == "first":
                o, nn = ZERO, l[0]
                cond = ge(v.n, nn)
            else:
                o, nn = v.n - l[0], l[0]
                cond = ge(v.n, nn)
            for s2 in eng.oblige(s1, "bounds", cond, c.n, c.fr, "subspan lies inside the span"):
                out.append((s2, SpanV(v.path, v.off + o, eng.canon(s2, nn))))
    return out


# ---------------------------------------------------------------------------------------- iterators
ITERS = ["__gnu_cxx::__normal_iterator", "std::_Deque_iterator", "std::reverse_iterator"]


@M(*cls_names(ITERS, "operator*", "operator->"))
def m_it_deref(eng, c):
    def f(s, v):
        if isinstance(v, It):
            i = v.idx - 1 if v.rev else v.idx
            if v.path is None:
                return []
            return eng.at_index(s, v.path, i, c.n, c.fr, "iterator dereferenced points into the sequence")
        return [(s, Ptr((("obj", ("imp", eng.uid()), eng.strip(pointee(eng, c.t))),), False))]
    return each(c.obj(), f)


def pointee(eng, t):
    ty = eng.T(eng.strip(t))
    return ty["to"] if ty["k"] == "ptr" else t


@M(*cls_names(ITERS, "operator[]"))
def m_it_index(eng, c):
    out = []
    for s, v in c.obj():
        for s1, i in int_val(eng, c, 0, s):
            if isinstance(v, It) and not v.rev and v.path is not None:
                out += eng.at_index(s1, v.path, v.idx + i, c.n, c.fr)
            else:
                out.append((s1, Ptr((("obj", ("imp", eng.uid()), eng.strip(c.t)),), False)))
    return out


@M(*cls_names(ITERS, "operator++", "operator--", "operator+=", "operator-="))
def m_it_inc(eng, c):
    op = c.q.split("operator")[-1]
    out = []
    for s, v in c.obj():
        if not isinstance(v, It):
            out.append((s, c.this))
            continue
        steps = [(s, ONE)] if op in ("++", "--") else int_val(eng, c, 0, s)
        for s1, d in steps:
            if op.startswith("-"):
                d = -d
            if v.rev:
                d = -d
            nv = v.rep(idx=v.idx + d)
            post = op in ("++", "--") and c.args
            for s2 in eng.write(s1, c.this.path, nv):
                out.append((s2, v if post else c.this))
    return out


@M(*cls_names(ITERS, "operator+", "operator-"))
def m_it_plus(eng, c):
    op = c.q.split("operator")[-1]
    out = []
    for s, v in c.obj():
        for s1, d in c.val(0, s):
            if isinstance(v, It) and isinstance(d, Lin):
                k = d if (op == "+") != bool(v.rev) else -d
                out.append((s1, v.rep(idx=v.idx + k)))
            else:
                out.append((s1, Top("iterator arithmetic")))
    return out


@M("__gnu_cxx::operator-", "std::operator-")
def m_it_minus(eng, c):
    out = []
    for s, a in c.val(0):
        for s1, b in c.val(1, s):
            if isinstance(a, It) and isinstance(b, It) and a.path == b.path:
                out.append((s1, a.idx - b.idx if not a.rev else b.idx - a.idx))
            else:
                return NotImplemented
    return out


@M("__gnu_cxx::operator+", "std::operator+")
def m_plus(eng, c):
    out = []
    for s, a in c.val(0):
        for s1, b in c.val(1, s):
            if isinstance(a, It) or isinstance(b, It):
                if isinstance(a, It) and isinstance(b, Lin) and c.q.startswith("__gnu"):
                    out.append((s1, a.rep(idx=a.idx + b)))
                    continue
                if isinstance(b, It) and isinstance(a, Lin) and c.q.startswith("__gnu"):
                    out.append((s1, b.rep(idx=b.idx + a)))
                    continue
            xa = [(s1, mk_seq("str", [("v", a)]))] if isinstance(a, Lin) else as_seq(eng, s1, a)
            for s2, qa in xa:
                xb = [(s2, mk_seq("str", [("v", b)]))] if isinstance(b, Lin) else as_seq(eng, s2, b)
                for s3, qb in xb:
                    out.append((s3, Seq("str", qa.n + qb.n, tuple(norm_pieces(list(qa.pieces) + list(qb.pieces))),
                                        qa.et, None)))
    return out


@M(*cls_names(ITERS, "base"))
def m_it_base(eng, c):
    return each(c.obj(), lambda s, v: [(s, v.rep(rev=False) if isinstance(v, It) else v)])


def copy_like(eng, c):
    if not c.args:
        return [(c.st, Top("default " + c.q))]
    return c.val(0)


for _c in ITERS + ["std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator",
                   "std::__detail::_Node_const_iterator"]:
    MODELS["%s::%s" % (_c, _c.split("::")[-1])] = copy_like


@M(*cls_names(ITERS + ["std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator",
                       "std::__detail::_Node_const_iterator", "std::unordered_map", "std::map", "std::pair",
                       "std::atomic", "std::__atomic_base", "std::chrono::time_point", "std::chrono::duration",
                       "std::filesystem::path", "std::error_code", "std::function", "std::optional", "std::expected",
                       "std::unexpected"], "operator="))
def m_assign(eng, c):
    def f(s, v):
        cn = c.q.rsplit("::", 1)[0]
        if cn in ("std::optional", "std::expected"):
            t = c.f.get("clst")
            v = wrap_opt(eng, c, s, v, t)
        return setobj(eng, c, s, v)
    return each(arg_value(eng, c, 0), f)


@M("std::distance", "std::ranges::distance", "std::ranges::__distance_fn::operator()")
def m_distance(eng, c):
    out = []
    for s, a in c.val(0):
        if len(c.args) == 1:
            out += each(as_seq(eng, s, a), lambda s2, q: [(s2, q.n)])
            continue
        for s1, b in c.val(1, s):
            if isinstance(a, It) and isinstance(b, It) and a.path == b.path:
                out.append((s1, b.idx - a.idx if not a.rev else a.idx - b.idx))
            elif isinstance(a, It) and isinstance(b, It) and a.path is None and b.path is None:
                out.append((s1, b.idx - a.idx))
            else:
                out.append((s1, eng.fresh(c.t, ("imp", ("distance", eng.uid())), True)))
    return out


@M("std::next", "std::prev", "std::ranges::next", "std::ranges::prev")
def m_next(eng, c):
    back = c.q.endswith("prev")
    out = []
    for s, a in c.val(0):
        for s1, d in (int_val(eng, c, 1, s) if len(c.args) > 1 else [(s, ONE)]):
            if isinstance(a, It):
                k = -d if back != bool(a.rev) else d
                out.append((s1, a.rep(idx=a.idx + k)))
            elif isinstance(a, Opaque) and a.cls == "mapit" and not back and not d.t and d.c == 1:
                out.append((s1, map_next(eng, s1, a)))
            else:
                out.append((s1, Top("next")))
    return out


@M("std::advance")
def m_advance(eng, c):
    out = []
    for s, a in c.val(0):
        for s1, d in int_val(eng, c, 1, s):
            if isinstance(a, It):
                out += [(x, VOID) for x in eng.write(s1, c.args[0].path, a.rep(idx=a.idx + (-d if a.rev else d)))]
            else:
                out += [(x, VOID) for x in eng.write(s1, c.args[0].path, Top("advance"))]
    return out


# ---------------------------------------------------------------------------------------- comparisons
def value_eq(eng, st, a, b):
    """[(state, condition)] of a == b for two values."""
    if isinstance(a, RefV):
        return each(eng.read(st, a.loc.path), lambda s, x: value_eq(eng, s, x, b))
    if isinstance(b, RefV):
        return each(eng.read(st, b.loc.path), lambda s, x: value_eq(eng, s, a, x))
    if isinstance(a, Lin) and isinstance(b, Lin):
        return [(st, eq(a, b))]
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if a == b:
            return [(st, True)]
        if a.cls == "mapit" and b.cls == "mapit":
            return [(st, mapit_eq(eng, st, a, b))]
        if a.cls in ("dur", "tp") and b.cls in ("dur", "tp"):
            return [(st, eq(a.data, b.data))]
        return [(st, ("atom", ("b", ("opeq",) + tuple(sorted((repr(a), repr(b)))))))]
    if isinstance(a, It) and isinstance(b, It):
        if a.path == b.path:
            return [(st, eq(a.idx, b.idx))]
        return [(st, ("atom", ("imp", ("iteq", eng.uid()))))]
    if isinstance(a, Opt) or isinstance(b, Opt):
        if not isinstance(a, Opt):
            a, b = b, a
        if isinstance(b, Opt):
            T, F = eng.branch(st, a.has)
            out = []
            for s in T:
                T2, F2 = eng.branch(s, b.has)
                out += [(x, False) for x in F2]
                for s2 in T2:
                    out += value_eq(eng, s2, a.val, b.val)
            for s in F:
                T2, F2 = eng.branch(s, b.has)
                out += [(x, False) for x in T2] + [(x, True) for x in F2]
            return out
        if isinstance(b, Opaque) and b.cls == "std::nullopt_t":
            h = a.has
            return [(st, (not h) if isinstance(h, bool) else E().simp(("not", h)))]
        if isinstance(b, Opaque) and b.cls == "unexpected":
            T, F = eng.branch(st, a.has)
            out = [(x, False) for x in T]
            for x in F:
                out += value_eq(eng, x, a.err, b.data)
            return out
        T, F = eng.branch(st, a.has)
        out = [(x, False) for x in F]
        for s in T:
            out += value_eq(eng, s, a.val, b)
        return out
    if isinstance(a, (Ptr, It)) or isinstance(b, (Ptr, It)):
        sa = isinstance(a, (Seq, SpanV)) or isinstance(b, (Seq, SpanV))
        if not sa:
            return [(st, eng.ptr_eq(st, a, b))]
    if isinstance(a, (Seq, SpanV, It, Ptr)) and isinstance(b, (Seq, SpanV, It, Ptr)):
        out = []
        for s, x in as_seq(eng, st, a):
            for s2, y in as_seq(eng, s, b):
                out.append((s2, streq(eng, s2, x, y)))
        return out
    if (isinstance(a, bool) or is_cond(a)) and (isinstance(b, bool) or is_cond(b)):
        out = []
        T, F = eng.branch(st, a)
        nb = (not b) if isinstance(b, bool) else E().simp(("not", b))
        return [(x, b) for x in T] + [(x, nb) for x in F]
    if isinstance(a, Struct) and isinstance(b, Struct) and a == b:
        return [(st, True)]
    return [(st, ("atom", ("imp", ("eq", eng.uid()))))]


@M("std::operator==", "__gnu_cxx::operator==", "std::__detail::operator==", "std::filesystem::operator==",
   "std::operator!=", "__gnu_cxx::operator!=", "std::__detail::operator!=", "std::filesystem::operator!=",
   "std::filesystem::path::iterator::operator==", "std::chrono::operator==", "std::_Rb_tree_iterator::operator==",
   "std::_Deque_iterator::operator==", "std::ranges::operator==", "std::filesystem::path::operator==")
def m_eq(eng, c):
    n = c.q.endswith("!=")
    member = c.this is not None
    out = []
    for s, a in (c.obj() if member else c.val(0)):
        for s1, b in c.val(0 if member else 1, s):
            for s2, r in value_eq(eng, s1, a, b):
                if n:
                    r = (not r) if isinstance(r, bool) else E().simp(("not", r))
                out.append((s2, r))
    return out


@M("std::operator<", "std::operator<=", "std::operator>=", "__gnu_cxx::operator<", "std::chrono::operator<",
   "std::chrono::operator>", "std::chrono::operator<=", "std::chrono::operator>=")
def m_lt(eng, c):
    op = c.q.split("operator")[-1]
    out = []
    for s, a in c.val(0):
        for s1, b in c.val(1, s):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.cls == b.cls and a.cls in ("dur", "tp"):
                out.append((s1, E().cmp(op, a.data, b.data)))
            elif isinstance(a, Opaque) and a.cls == "order":
                out.append((s1, E().cmp(op, a.data, L(0))))
            elif isinstance(b, Opaque) and b.cls == "order":
                out.append((s1, E().cmp(op, L(0), b.data)))
            elif isinstance(a, It) and isinstance(b, It) and a.path == b.path:
                out.append((s1, E().cmp(op, a.idx, b.idx)))
            else:
                out.append((s1, ("atom", ("imp", ("lt", eng.uid())))))
    return out


@M("std::operator>")
def m_gt(eng, c):
    return m_lt(eng, c)


@M("std::operator<=>", "std::chrono::operator<=>", "__gnu_cxx::operator<=>")
def m_spaceship(eng, c):
    out = []
    for s, a in c.val(0):
        for s1, b in c.val(1, s):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.cls == b.cls and a.cls in ("dur", "tp"):
                out.append((s1, Opaque("order", a.data - b.data)))
            elif isinstance(a, It) and isinstance(b, It) and a.path == b.path:
                out.append((s1, Opaque("order", a.idx - b.idx)))
            else:
                out.append((s1, Opaque("order", S(new_sym("order", -1, 1, "in", (), True)))))
    return out


@M("std::__cmp_cat::__unspec::__unspec")
def m_unspec(eng, c):
    return [(c.st, ZERO)]


@M("std::min", "std::max", "std::ranges::min", "std::ranges::max", "std::ranges::__min_fn::operator()",
   "std::ranges::__max_fn::operator()")
def m_min(eng, c):
    mn = "min" in c.q.split("::")[-1] or "__min_fn" in c.q
    if len(c.args) != 2:
        return NotImplemented
    out = []
    for s, a in int_val(eng, c, 0):
        for s1, b in int_val(eng, c, 1, s):
            T, F = eng.branch(s1, ge(b, a))
            for x, ix in [(x, 0 if mn else 1) for x in T] + [(x, 1 if mn else 0) for x in F]:
                if c.n.get("lv") and isinstance(c.args[ix], Ptr):
                    out.append((x, c.args[ix]))
                else:
                    out.append((x, a if ix == 0 else b))
    return out


@M("std::clamp")
def m_clamp(eng, c):
    out = []
    for s, v in int_val(eng, c, 0):
        for s1, lo in int_val(eng, c, 1, s):
            for s2, hi in int_val(eng, c, 2, s1):
                T, F = eng.branch(s2, ge(lo - 1, v))
                r = [(x, 1) for x in T]
                for y in F:
                    T2, F2 = eng.branch(y, ge(v, hi + 1))
                    r += [(x, 2) for x in T2] + [(x, 0) for x in F2]
                for x, ix in r:
                    out.append((x, c.args[ix] if c.n.get("lv") and isinstance(c.args[ix], Ptr) else (v, lo, hi)[ix]))
    return out


@M("std::move", "std::forward", "std::as_const", "std::launder", "std::addressof", "std::ref", "std::cref", "std::__addressof")
def m_move(eng, c):
    if len(c.args) == 3:
        return m_copy(eng, c)
    return [(c.st, c.args[0])]


@M("std::to_underlying")
def m_underlying(eng, c):
    return c.val(0)


@M("std::byteswap", "htons", "ntohs", "htonl", "ntohl")
def m_bswap(eng, c):
    def f(s, l):
        w = eng.intinfo(c.t)[0]
        if not l.t:
            return [(s, L(int.from_bytes((l.c & ((1 << w) - 1)).to_bytes(w // 8, "little"), "big")))]
        r = ZERO
        for i in range(w // 8):
            runs = V.to_runs(l, w, s.facts)
            if runs is None:
                return [(s, eng.fresh(c.t, ("imp", ("bswap", eng.uid())), True))]
            r = r + V.runs_lin(V.cut(runs, 8 * i, 8)).scale(1 << (w - 8 - 8 * i))
        return [(s, r)]
    return each(int_val(eng, c, 0), f)


@M("std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest")
def m_limits(eng, c):
    w, sg = eng.intinfo(c.t) or (64, False)
    if c.q.endswith("max"):
        return [(c.st, L((1 << (w - 1)) - 1 if sg and w != 8 else (1 << w) - 1))]
    return [(c.st, L(-(1 << (w - 1)) if sg and w != 8 else 0))]


@M("std::exchange")
def m_exchange(eng, c):
    out = []
    for s, old in c.val(0):
        for s1, new in arg_value(eng, c, 1, s):
            out += [(x, old) for x in eng.write(s1, c.args[0].path, new)]
    return out


@M("std::swap", "std::ranges::swap", "std::vector::swap", "std::basic_string::swap", "std::unique_ptr::swap")
def m_swap(eng, c):
    p, q = (c.args[0], c.args[1]) if c.this is None else (c.this, c.args[0])
    out = []
    for s, a in eng.read(c.st, p.path):
        for s1, b in eng.read(s, q.path):
            for s2 in eng.write(s1, p.path, b):
                out += [(x, VOID) for x in eng.write(s2, q.path, a)]
    return out


# ---------------------------------------------------------------------------------------- algorithms
def algo_ranges(eng, c):
    """(state, iterator a, iterator b, index of the next argument) for iterator-pair and range algorithms."""
    rng = "ranges" in c.q
    out = []
    for s, a in c.val(0):
        if isinstance(a, (Seq, SpanV)) or (rng and len(c.args) == 2):
            if isinstance(a, Seq):
                out.append((s, It(c.args[0].path, ZERO, False), It(c.args[0].path, a.n, False), 1))
            elif isinstance(a, SpanV):
                out.append((s, It(a.path, a.off, False), It(a.path, a.off + a.n, False), 1))
            elif isinstance(a, Opaque) and a.cls == "view":
                p, lo, hi, rev = a.data
                out.append((s, It(p, hi if rev else lo, rev), It(p, lo if rev else hi, rev), 1))
            else:
                out.append((s, None, None, 1))
            continue
        for s1, b in c.val(1, s):
            ok = isinstance(a, It) and isinstance(b, It) and a.path == b.path
            out.append((s1, a if ok else None, b if ok else None, 2))
    return out


def call_pred(eng, c, st, i, loc):
    """[(state, condition)] of predicate argument i on the element at loc."""
    fv = c.args[i]
    for s, v in c.val(i, st):
        fv = v if not isinstance(v, Clo) or not isinstance(c.args[i], Ptr) else c.args[i]
    out = []
    n = dict(c.n)
    for s, r in eng.call_value(st, fv, [loc], n, c.fr, None):
        if isinstance(r, Ptr):
            out += [(x, eng.cond_of(y)) for x, y in eng.read(s, r.path)]
        else:
            out.append((s, eng.cond_of(r)))
    return out


def elem_pred(eng, c, st, op, i, loc):
    """[(state, condition)]: whether the element at loc is one the algorithm looks for."""
    if "ranges::" in c.q and len(c.args) == i + 2 and "replace" not in c.q:
        out = []
        for s, p in c.val(i + 1, st):
            if not (isinstance(p, Opaque) and p.cls != "memptr") and not isinstance(p, (Struct, Top)):
                for s1, r in eng.call_value(s, p, [loc], dict(c.n), c.fr, None):
                    if isinstance(r, Ptr) and r.path is not None:
                        out += elem_pred1(eng, c, s1, op, i, r)
                    else:
                        root = ("v", 0, ("projected", eng.uid()))
                        s1.store[root] = r
                        out += elem_pred1(eng, c, s1, op, i, Ptr((root,), False))
            else:
                out += elem_pred1(eng, c, s, op, i, loc)
        return out
    return elem_pred1(eng, c, st, op, i, loc)


def elem_pred1(eng, c, st, op, i, loc):
    if op in ("find", "count", "contains"):
        out = []
        for s, x in eng.read(st, loc.path):
            for s1, y in c.val(i, s):
                out += value_eq(eng, s1, x, y)
        return out
    r = call_pred(eng, c, st, i, loc)
    if op in ("find_if_not", "all_of"):
        r = [(s, (not k) if isinstance(k, bool) else E().simp(("not", k))) for s, k in r]
    return r


def whole_map(eng, c):
    """(state, path, map, index of the next argument) if the algorithm runs over all of a known map."""
    for s, a in c.val(0):
        if isinstance(a, MapV) and isinstance(c.args[0], Ptr):
            return (s, c.args[0].path, a, 1) if a.base is None else None
        if isinstance(a, Opaque) and a.cls == "mapit" and len(c.args) > 1:
            for s1, b in c.val(1, s):
                if not (isinstance(b, Opaque) and b.cls == "mapit" and b.data == (a.data[0], ("end",))):
                    return None
                for s2, m in eng.read(s1, a.data[0]):
                    if isinstance(m, MapV) and m.base is None and a.data[1] == (map_order(m) or [("end",)])[0]:
                        return s2, a.data[0], m, 2
        return None


def map_find(eng, c, op):
    w = whole_map(eng, c)
    if w is None or op in ("find", "contains"):
        return None
    s, path, m, i = w

    def result(k):
        if op in ("any_of", "all_of", "none_of"):
            return (k is not None) == (op == "any_of")
        return Opaque("mapit", (path, k if k is not None else ("end",)))
    live, out = [s], []
    for k in map_order(m):
        nxt = []
        for x in live:
            for x1, cond in elem_pred(eng, c, x, op, i, Ptr((("mapent", path, k),), False)):
                T, F = eng.br(x1, cond, c.n, c.fr)
                out += [(y, result(k)) for y in T]
                nxt += F
        live = nxt
    return out + [(x, result(None)) for x in live]


@M("std::find_if", "std::find_if_not", "std::find", "std::any_of", "std::all_of", "std::none_of",
   "std::ranges::__find_if_fn::operator()", "std::ranges::__find_fn::operator()", "std::ranges::__any_of_fn::operator()",
   "std::ranges::__all_of_fn::operator()", "std::ranges::__none_of_fn::operator()", "std::ranges::find_if",
   "std::ranges::find", "std::ranges::any_of", "std::ranges::all_of", "std::ranges::none_of",
   "std::ranges::__contains_fn::operator()", "std::ranges::contains")
def m_find_if(eng, c):
    op = c.q.replace("::operator()", "").split("::")[-1].replace("__", "").replace("_fn", "")
    op = op.strip("_")
    out = map_find(eng, c, op)
    if out is not None:
        return out
    out = []
    for s, a, b, pi in algo_ranges(eng, c):
        if a is None or pi >= len(c.args) + 0:
            eng.note_unmodelled(c.q, s)
            return [(s, eng.fresh(c.t, ("imp", ("algo", eng.uid())), True))]

        def result(st, k):
            if op in ("any_of", "contains"):
                return k is not None
            if op in ("all_of", "none_of"):
                return k is None
            if k is None:
                return b
            return It(a.path, k if not a.rev else k + 1, a.rev)
        lo, hi = (a.idx, b.idx) if not a.rev else (b.idx, a.idx)
        n = hi - lo
        nn = eng.canon(s, n)
        if not nn.t and nn.c <= 40:
            # element by element, in order
            live = [s]
            for j in range(nn.c):
                k = lo + j if not a.rev else hi - 1 - j
                nxt = []
                for x in live:
                    for x1, cond in elem_pred(eng, c, x, op, pi, Ptr(a.path + (("i", eng.canon(x, k)),), False)):
                        T, F = eng.br(x1, cond, c.n, c.fr)
                        out += [(y, result(y, k)) for y in T]
                        nxt += F
                live = nxt
            out += [(x, result(x, None)) for x in live]
            continue
        T, F = eng.branch(s, ge(n, 1))
        for x in F:
            out.append((x, result(x, None)))
        for x in T:
            y = x.copy()
            y.log(eng.where(c.n, c.fr), op + ": no element matches")
            out.append((y, result(y, None)))
            k = lo + S(memo_sym(("algo", eng.fid(c.fr.id, c.n), lo, n, op, len([1 for t in x.ghost if t == "algo"])),
                                op + " index", 0, 1 << 48, "in"))
            for z in eng.assume(x, E().simp(("and", ge(k, lo), ge(hi - 1, k)))):
                for z1, cond in elem_pred(eng, c, z, op, pi, Ptr(a.path + (("i", k),), False)):
                    for z2 in eng.assume(z1, cond):
                        z2.log(eng.where(c.n, c.fr), op + ": an element matches")
                        out.append((z2, result(z2, k)))
    return out


@M("std::copy", "std::copy_n", "std::ranges::copy", "std::ranges::__copy_fn::operator()", "std::memcpy", "memcpy",
   "std::memmove", "memmove")
def m_copy(eng, c):
    op = c.q.split("::")[-1]
    out = []
    if "mem" in c.q:
        for s, d in c.val(0):
            for s1, src in c.val(1, s):
                for s2, n in int_val(eng, c, 2, s1):
                    out += copy_into(eng, c, s2, src, n, d)
        return out
    if len(c.args) == 2:
        for s, q in seq_val(eng, c, 0):
            for s1, d in c.val(1, s):
                out += copy_pieces(eng, c, s1, list(q.pieces), q.n, d)
        return out
    for s, a in c.val(0):
        for s1, b in c.val(1, s):
            for s2, d in c.val(2, s1):
                if op == "copy_n":
                    if isinstance(b, Lin):
                        out += copy_into(eng, c, s2, a, b, d)
                    continue
                for s3, ps, n in it_range(eng, s2, a, b, c):
                    out += copy_pieces(eng, c, s3, ps, n, d)
    return out


def copy_into(eng, c, st, src, n, d):
    if isinstance(src, It):
        return each([(s, (ps, k)) for s, ps, k in it_range(eng, st, src, src.rep(idx=src.idx + n), c, "copied range")],
                    lambda s, pk: copy_pieces(eng, c, s, pk[0], pk[1], d))
    q = top_seq(eng, "vec")
    return copy_pieces(eng, c, st, list(q.pieces), n, d)


def copy_pieces(eng, c, st, ps, n, d):
    if isinstance(d, Opaque) and d.cls == "inserter":
        out = []
        for s, q in eng.read(st, d.data):
            if isinstance(q, Seq):
                nq = Seq(q.kind, q.n + n, tuple(norm_pieces(list(q.pieces) + ps)), q.et, None)
                out += [(x, d) for x in eng.write(s, d.data, nq)]
            else:
                out.append((s, d))
        return out
    if not isinstance(d, It) or d.path is None:
        return [(st, Top("copy"))]
    out = []
    for s, q in eng.read(st, d.path):
        if not isinstance(q, Seq):
            out.append((s, Top("copy")))
            continue
        for s1 in eng.oblige(s, "bounds", E().simp(("and", ge(d.idx, 0), ge(q.n, d.idx + n))), c.n, c.fr,
                             "copy destination is large enough"):
            for s2, l, r in eng.cut_at(s1, q, d.idx):
                rest = Seq(q.kind, ZERO, tuple(norm_pieces(r)), q.et, None)
                for s3, l2, r2 in eng.cut_at(s2, rest, n):
                    nq = Seq(q.kind, q.n, tuple(norm_pieces(l + ps + r2)), q.et, None)
                    out += [(x, d.rep(idx=d.idx + n)) for x in eng.write(s3, d.path, nq)]
    return out


@M("std::back_inserter")
def m_back_inserter(eng, c):
    return [(c.st, Opaque("inserter", c.args[0].path))]


@M("std::equal", "std::ranges::equal", "std::ranges::__equal_fn::operator()", "memcmp", "std::memcmp", "std::strcmp", "strcmp",
   "strncmp", "std::strncmp")
def m_equal(eng, c):
    out = []
    op = c.q.split("::")[-1]
    if op in ("memcmp", "strncmp"):
        for s, a in c.val(0):
            for s1, b in c.val(1, s):
                for s2, n in int_val(eng, c, 2, s1):
                    if isinstance(a, It) and isinstance(b, It) and op == "memcmp":
                        for s3, p, _ in it_range(eng, s2, a, a.rep(idx=a.idx + n), c, "compared range"):
                            for s4, q, _ in it_range(eng, s3, b, b.rep(idx=b.idx + n), c, "compared range"):
                                r = streq(eng, s4, Seq("arr", n, tuple(p), None, None), Seq("arr", n, tuple(q), None, None))
                                T, F = eng.branch(s4, r)
                                out += [(x, ZERO) for x in T] + [(x, ONE) for x in F]
                    else:
                        out.append((s2, eng.fresh(c.t, ("imp", ("cmp", eng.uid())), True)))
        return out
    if op == "strcmp":
        for s, a in seq_val(eng, c, 0):
            for s1, b in seq_val(eng, c, 1, s):
                T, F = eng.branch(s1, streq(eng, s1, a, b))
                out += [(x, ZERO) for x in T] + [(x, ONE) for x in F]
        return out
    if len(c.args) == 2:
        for s, a in seq_val(eng, c, 0):
            for s1, b in seq_val(eng, c, 1, s):
                out.append((s1, streq(eng, s1, a, b)))
        return out
    for s, a in c.val(0):
        for s1, b in c.val(1, s):
            for s2, d in c.val(2, s1):
                for s3, p, n in it_range(eng, s2, a, b, c):
                    e = d.rep(idx=d.idx + n) if isinstance(d, It) else d
                    if len(c.args) >= 4:
                        e = c.val(3, s3)[0][1]
                    for s4, q, m in it_range(eng, s3, d, e, c):
                        out.append((s4, streq(eng, s4, Seq("arr", n, tuple(p), None, None),
                                              Seq("arr", m, tuple(q), None, None))))
    return out


@M("std::fill", "std::ranges::fill", "std::ranges::__fill_fn::operator()", "memset", "std::memset", "std::fill_n")
def m_fill(eng, c):
    out = []
    for s, a in c.val(0):
        for s1, b in c.val(1, s):
            if isinstance(a, It) and isinstance(b, It):
                v = c.val(2, s1)[0][1]
                out += copy_pieces(eng, c, s1, [("f", b.idx - a.idx, v)], b.idx - a.idx, a)
            elif isinstance(a, It) and isinstance(b, Lin) and len(c.args) > 2:
                s2, n = int_val(eng, c, 2, s1)[0]
                if c.q.endswith("fill_n"):
                    n, b = b, n
                out += copy_pieces(eng, c, s2, [("f", n, b)], n, a)
            elif isinstance(a, Seq) and len(c.args) == 2:
                out += [(x, VOID) for x in eng.write(s1, c.args[0].path, Seq(a.kind, a.n, (("f", a.n, b),), a.et, None))]
            else:
                if isinstance(a, (Ptr, It)) and a.path and "memset" in c.q:
                    for s2, x in eng.read(s1, a.path):
                        if isinstance(x, Struct):
                            x = Struct(x.cls, (), ("zero",), x.ty) if b == ZERO else Struct(x.cls, (), ("imp", eng.uid()), x.ty)
                            out += [(y, a) for y in eng.write(s2, a.path, x)]
                            break
                    else:
                        out.append((s1, a))
                    continue
                out.append((s1, VOID))
    return out


@M("std::for_each", "std::ranges::__for_each_fn::operator()", "std::ranges::for_each")
def m_for_each(eng, c):
    out = []
    for s, a, b, fi in algo_ranges(eng, c):
        if a is None:
            eng.note_unmodelled(c.q, s)
            s.imp = s.imp or "for_each"
            out.append((s, Top("for_each")))
            continue
        live = [(s, a.idx)]
        soft = 0
        for it in range(6000):
            nxt = []
            split = False
            for x, i in live:
                T, F = eng.branch(x, ge(b.idx - 1, i) if not a.rev else ge(i - 1, b.idx))
                split = split or bool(T and F)
                out += [(y, Top("for_each")) for y in F]
                nxt += [(y, i) for y in T]
            if split:
                soft += 1
            if soft > eng.peel:
                eng.loop_cut(c.n, [x for x, _ in nxt], c.fr, None, None, None, out)
                break
            live = []
            for x, i in nxt:
                fv = c.args[fi]
                k = i - 1 if a.rev else i
                for y, _ in eng.call_value(x, fv, [Ptr(a.path + (("i", eng.canon(x, k)),), False)], c.n, c.fr, None):
                    live.append((y, i - 1 if a.rev else i + 1))
            if not live:
                break
    return out


def finite(eng, st, a, b, most=64):
    """The indices an iterator range visits, in order, if there are few; else None."""
    if a is None or b is None or a.rev or b.rev:
        return None
    n = eng.canon(st, b.idx - a.idx)
    return [eng.canon(st, a.idx + j) for j in range(n.c)] if not n.t and 0 <= n.c <= most else None


def apply_fn(eng, c, st, i, args):
    """[(state, value)] of calling argument i."""
    fv = c.args[i]
    for s, v in c.val(i, st):
        fv = v if not isinstance(v, Clo) or not isinstance(c.args[i], Ptr) else c.args[i]
    out = []
    for s, r in eng.call_value(st, fv, args, dict(c.n), c.fr, None):
        out += eng.read(s, r.path) if isinstance(r, Ptr) and r.path is not None else [(s, r)]
    return out


@M("std::transform", "std::ranges::__transform_fn::operator()", "std::ranges::transform")
def m_transform(eng, c):
    out = []
    for s, a, b, i in algo_ranges(eng, c):
        ks = finite(eng, s, a, b) if len(c.args) == i + 2 else None
        if ks is None:
            out += transform_unknown(eng, c.on(s))
            continue
        live = [(s, [])]
        for k in ks:
            live = [(x1, ps + [("v", v)]) for x, ps in live for x1, v in apply_fn(eng, c, x, i + 1, [Ptr(a.path + (("i", k),), False)])]
        for x, ps in live:
            for x1, d in c.val(i, x):
                out += copy_pieces(eng, c, x1, norm_pieces(ps), L(len(ps)), d)
    return out


def transform_unknown(eng, c):
    eng.note_unmodelled(c.q, c.st)
    for v in c.args:
        p = v.path if isinstance(v, It) else v.data if isinstance(v, Opaque) and v.cls == "inserter" else None
        if p:
            for s, q in eng.read(c.st, p):
                if isinstance(q, Seq):
                    eng.write(s, p, Seq(q.kind, q.n, top_seq(eng, q.kind).pieces, q.et, None))
    c.st.imp = c.st.imp or "transform"
    return [(c.st, Top("transform"))]


@M("std::replace_if", "std::replace", "std::ranges::__replace_if_fn::operator()", "std::ranges::__replace_fn::operator()")
def m_replace_if(eng, c):
    op = "find_if" if "_if" in c.q else "find"
    out = []
    for s, a, b, i in algo_ranges(eng, c):
        ks = finite(eng, s, a, b)
        if ks is None or len(c.args) < i + 2:
            out += transform_unknown(eng, c.on(s))
            continue
        live = [s]
        for k in ks:
            loc = Ptr(a.path + (("i", k),), False)
            nxt = []
            for x in live:
                for x1, cond in elem_pred(eng, c, x, op, i, loc):
                    T, F = eng.br(x1, cond, c.n, c.fr)
                    nxt += F
                    for y in T:
                        nxt += [y2 for y1, v in c.val(i + 1, y) for y2 in eng.write(y1, loc.path, v)]
            live = nxt
        out += [(x, b) for x in live]
    return out


def kept(eng, c, st, q, path, op, i):
    """[(state, pieces)]: the elements for which the predicate (or comparison) at argument i is false."""
    live = [(st, [])]
    for k in range(q.n.c):
        loc = Ptr(path + (("i", L(k)),), False)
        nxt = []
        for x, ps in live:
            for x1, cond in elem_pred(eng, c, x, op, i, loc):
                T, F = eng.br(x1, cond, c.n, c.fr)
                nxt += [(y, ps) for y in T]
                nxt += [(y1, ps + [("v", v)]) for y in F for y1, v in eng.read(y, loc.path)]
        live = nxt
    return live


@M("std::erase_if", "std::erase")
def m_erase_if(eng, c):
    op = "find_if" if c.q.endswith("_if") else "find"
    out = []
    for s, q in c.val(0):
        loc = c.args[0]
        if isinstance(q, MapV) and q.base is None and isinstance(loc, Ptr) and op == "find_if":
            live = [(s, 0)]
            for k in map_order(q):
                nxt = []
                for x, n in live:
                    for x1, cond in elem_pred(eng, c, x, op, 1, Ptr((("mapent", loc.path, k),), False)):
                        T, F = eng.br(x1, cond, c.n, c.fr)
                        nxt += [(y, n) for y in F]
                        for y in T:
                            for y1, m in eng.read(y, loc.path):
                                olds = [o for kk, o in m.entries if kk == k]
                                ss = [y1]
                                if eng.run_dtors and olds:
                                    ss = eng.destroy_value(y1, olds[0], (("mapent", loc.path, k), "second"), c.fr, eng.map_val_type(m))
                                nxt += [(z1, n + 1) for z in ss for z1 in eng.write(z, loc.path, map_erase_key(eng, z, loc.path, k, m))]
                live = nxt
            out += [(x, L(n)) for x, n in live]
            continue
        if not isinstance(q, Seq) or not isinstance(loc, Ptr) or eng.canon(s, q.n).t or eng.canon(s, q.n).c > 64:
            eng.note_unmodelled(c.q, s)
            if isinstance(q, Seq) and isinstance(loc, Ptr):
                n = S(new_sym("kept", 0, 1 << 48, "in"))
                eng.write(s, loc.path, Seq(q.kind, n, (("s", ("imp", eng.uid()), ZERO, n),), q.et, None))
            s.imp = s.imp or c.q
            out.append((s, eng.fresh(c.t, ("imp", ("erased", eng.uid())), True)))
            continue
        q = Seq(q.kind, eng.canon(s, q.n), q.pieces, q.et, None)
        for x, ps in kept(eng, c, s, q, loc.path, op, 1):
            nq = Seq(q.kind, L(len(ps)), tuple(norm_pieces(ps)), q.et, None)
            out += [(y, q.n - nq.n) for y in eng.write(x, loc.path, nq)]
    return out


@M("std::format_to", "fmt::format_to", "fmt::v9::format_to")
def m_format_to(eng, c):
    sub = c.__class__(eng, c.n, c.f, c.q, c.this, c.args[1:], c.argn[1:], c.st, c.fr, c.dest, False)
    ps = c.f.get("p")
    if ps:
        sub.f = dict(c.f, p=ps[1:])
    out = []
    for s, q in m_format(eng, sub):
        out += [y for s1, d in c.val(0, s) for y in copy_pieces(eng, c, s1, list(q.pieces), q.n, d)]
    return out


# ---------------------------------------------------------------------------------------- views
@M("std::ranges::views::__adaptor::operator|")
def m_pipe(eng, c):
    out = []
    for s, a in c.val(0):
        for s1, b in c.val(1, s):
            if isinstance(b, Opaque) and b.cls == "adaptor":
                out.append((s1, apply_view(eng, s1, a, c.args[0], b.data)))
            else:
                name = b.cls if isinstance(b, Opaque) else ""
                if "Reverse" in name or "_Reverse" in str(eng.tname(c.f["p"][1]) if c.f.get("p") else ""):
                    out.append((s1, apply_view(eng, s1, a, c.args[0], ("reverse",))))
                else:
                    out.append((s1, Opaque("unknown view", ("imp", eng.uid()))))
    return out


def apply_view(eng, st, a, loc, ad):
    if isinstance(a, Opaque) and a.cls == "view":
        p, lo, hi, rev = a.data
    elif isinstance(a, SpanV):
        p, lo, hi, rev = a.path, a.off, a.off + a.n, False
    elif isinstance(a, Seq):
        p, lo, hi, rev = loc.path, ZERO, a.n, False
    else:
        return Opaque("unknown view", ("imp", eng.uid()))
    if ad[0] == "reverse":
        return Opaque("view", (p, lo, hi, not rev))
    n = hi - lo
    k = ad[1]
    if eng.decide(st, ge(n, k)) is not True:
        if ad[0] == "drop" and eng.decide(st, ge(k, n)):
            k = n
        elif ad[0] == "take" and eng.decide(st, ge(k, n)):
            k = n
        else:
            key = memo_sym(("min", n, k), "min", 0, 1 << 48, "op")
            key.facts = (n - S(key), k - S(key))
            k = S(key)
    if ad[0] == "drop":
        return Opaque("view", (p, lo, hi - k, rev) if rev else (p, lo + k, hi, rev))
    return Opaque("view", (p, hi - k, hi, rev) if rev else (p, lo, lo + k, rev))


@M("std::ranges::views::__adaptor::_RangeAdaptor::operator()", "std::ranges::views::_Drop::operator()",
   "std::ranges::views::_Take::operator()")
def m_adaptor(eng, c):
    cl = c.f.get("cls", "") + c.f["q"]
    nm = "drop" if "_Drop" in cl else "take" if "_Take" in cl else None
    if nm is None:
        return [(c.st, Opaque("adaptor?", ("imp", eng.uid())))]
    if len(c.args) == 1:
        return each(int_val(eng, c, 0), lambda s, n: [(s, Opaque("adaptor", (nm, n)))])
    out = []
    for s, a in c.val(0):
        for s1, n in int_val(eng, c, 1, s):
            out.append((s1, apply_view(eng, s1, a, c.args[0], (nm, n))))
    return out


@M("std::ranges::views::_Reverse::operator()")
def m_reverse_view(eng, c):
    return each(c.val(0), lambda s, a: [(s, apply_view(eng, s, a, c.args[0], ("reverse",)))])


# ---------------------------------------------------------------------------------------- optional / expected
OPTS = ["std::optional", "std::expected"]


def wrap_opt(eng, c, st, v, t):
    cn = eng.tname(t) if t is not None else "std::optional"
    kind = "exp" if cn == "std::expected" else "opt"
    if isinstance(v, Opt):
        return v
    if isinstance(v, (Opaque, Struct)) and v.cls == "std::nullopt_t":
        return Opt(False, VOID, None, "opt", t)
    if isinstance(v, Opaque) and v.cls == "unexpected":
        return Opt(False, VOID, v.data, kind, t)
    return Opt(True, v, None, kind, t)


@M("std::optional::optional", "std::expected::expected")
def m_opt_ctor(eng, c):
    t = c.f.get("clst", c.n.get("t"))
    cn = c.q.split("::")[1]
    if not c.args:
        return [(c.st, eng.zero(t) if cn == "expected" else Opt(False, VOID, None, "opt", t))]
    if c.f.get("p") and eng.tname(c.f["p"][0]) in ("std::in_place_t", "std::unexpect_t"):
        return NotImplemented
    out = []
    for s, v in arg_value(eng, c, 0):
        vt = eng.targ(t, 0)
        w = wrap_opt(eng, c, s, v, t)
        if isinstance(v, Opt) or not isinstance(w, Opt) or w.has is not True:
            out.append((s, w))
            continue
        # converting construction of the value
        out += [(s2, Opt(True, x, None, w.kind, t)) for s2, x in convert(eng, s, v, vt)]
    return out


def convert(eng, st, v, t):
    """Implicit conversion of a library value to type t."""
    if t is None:
        return [(st, v)]
    cn = eng.tname(t)
    if isinstance(v, Seq) and v.kind not in ("str", "view", "vec") and cn in ("std::basic_string", "std::basic_string_view", "std::filesystem::path"):
        cb = const_bytes(v)
        if cb is not None and b"\0" in cb:          # an array of characters is read up to its terminator
            cb = cb[:cb.index(b"\0")]
            v = Seq(v.kind, L(len(cb)), (("c", cb),) if cb else (), v.et, None)
    if cn in ("std::basic_string",) and not (isinstance(v, Seq) and v.kind == "str"):
        return each(as_seq(eng, st, v), lambda s, q: [(s, Seq("str", q.n, q.pieces, q.et, None))])
    if cn == "std::basic_string_view" and not (isinstance(v, Seq) and v.kind == "view"):
        return each(as_seq(eng, st, v), lambda s, q: [(s, Seq("view", q.n, q.pieces, q.et, None))])
    if cn == "std::filesystem::path" and not (isinstance(v, Opaque) and v.cls == cn):
        return each(as_seq(eng, st, v), lambda s, q: [(s, mk_path(("of", canon_seq(q))))])
    return [(st, v)]


@M("std::unexpected::unexpected")
def m_unexpected(eng, c):
    return each(c.val(0), lambda s, v: [(s, Opaque("unexpected", v))])


@M("std::nullopt_t::nullopt_t")
def m_nullopt(eng, c):
    return [(c.st, Opaque("std::nullopt_t", 0))]


@M(*cls_names(OPTS, "has_value", "operator bool"))
def m_has(eng, c):
    return each(c.obj(), lambda s, v: [(s, v.has if isinstance(v, Opt) else ("atom", ("imp", ("has", eng.uid()))))])


@M(*cls_names(OPTS, "operator*", "operator->", "value"))
def m_opt_val(eng, c):
    chk = c.q.endswith("value")
    out = []
    for s, v in c.obj():
        if not isinstance(v, Opt):
            if c.n.get("lv") or eng.T(c.t)["k"] == "ptr":
                out.append((s, Ptr((("obj", ("imp", eng.uid()), eng.strip(pointee(eng, c.t))),), False)))
            else:
                out.append((s, eng.fresh(c.t, ("imp", eng.uid()), True)))
            continue
        if chk:
            T, F = eng.branch(s, v.has)
            for x in F:
                throw(eng, c, x, "std::bad_optional_access" if v.kind == "opt" else "std::bad_expected_access")
        else:
            T = eng.oblige(s, "opt", v.has, c.n, c.fr, "a value is present where it is taken")
        out += [(x, Ptr(c.this.path + ("*",), False)) for x in T]
    return out


@M("std::expected::error")
def m_opt_err(eng, c):
    out = []
    for s, v in c.obj():
        if not isinstance(v, Opt):
            out.append((s, Ptr((("obj", ("imp", eng.uid()), eng.strip(c.t)),), False)))
            continue
        nh = (not v.has) if isinstance(v.has, bool) else E().simp(("not", v.has))
        for x in eng.oblige(s, "opt", nh, c.n, c.fr, "an error is present where it is taken"):
            out.append((x, Ptr(c.this.path + ("err",), False)))
    return out


@M(*cls_names(OPTS, "value_or"))
def m_value_or(eng, c):
    out = []
    for s, v in c.obj():
        if not isinstance(v, Opt):
            out.append((s, eng.fresh(c.t, ("imp", eng.uid()), True)))
            continue
        T, F = eng.branch(s, v.has)
        out += [(x, v.val) for x in T]
        for x in F:
            for y, w in c.val(0, x):
                out += convert(eng, y, w, c.t)
    return out


@M("std::optional::emplace", "std::expected::emplace")
def m_emplace(eng, c):
    t = c.f.get("clst")
    out = []
    for s, v in construct(eng, c, c.st, eng.targ(t, 0), 0, c.this.path + ("*",)):
        for x in eng.write(s, c.this.path, Opt(True, v, None, "opt" if "optional" in c.q else "exp", t)):
            out.append((x, Ptr(c.this.path + ("*",), False)))
    return out


@M("std::optional::reset")
def m_opt_reset(eng, c):
    return setobj(eng, c, c.st, Opt(False, VOID, None, "opt", c.f.get("clst")), VOID)


@M("std::make_optional")
def m_make_optional(eng, c):
    return each(arg_value(eng, c, 0), lambda s, v: [(s, Opt(True, v, None, "opt", eng.strip(c.t)))])


# ---------------------------------------------------------------------------------------- smart pointers
def construct(eng, c, st, t, first, dest=None):
    """Constructs a T from the arguments of c starting at index first: [(state, value)]."""
    if t is None:
        return [(st, Top("construct"))]
    t = eng.strip(t)
    cn = eng.tname(t)
    n = len(c.args) - first
    rec = eng.rec(cn)
    if cn in eng.rec_by_name or rec:
        best = None
        for u, f in eng.F.items():
            if f.get("ctor") and E().clean(f.get("cls", "")) == cn and f.get("body") is not None and len(f["params"]) == n:
                ct = f.get("ct")
                if n == 1 and eng.tname(f["params"][0]["t"]) == cn:
                    a = c.val(first, st)[0][1]
                    if not (isinstance(a, Struct) and a.cls == cn):
                        continue
                best = (u, f)
                if n != 1:
                    break
        if best is not None:
            u, f = best
            f2 = {"q": f["q"], "u": u, "p": [p["t"] for p in f["params"]], "r": f["ret"], "body": True, "cls": f["cls"],
                  "clst": t, "m": True}
            args = []
            s = st
            for p, i in zip(f["params"], range(first, len(c.args))):
                v = c.args[i]
                if eng.T(p["t"])["k"] not in ("lref", "rref"):
                    rr = arg_value(eng, c, i, s)
                    s, v = rr[0]
                elif not isinstance(v, Ptr):
                    root = ("t", c.fr.id, ("mk", id(c.n), i))
                    s.store[root] = v
                    v = Ptr((root,), False)
                args.append(v)
            n2 = {"k": "Construct", "l": c.n.get("l"), "t": t, "f": f2, "_mk": True}
            c2 = E().Call(eng, n2, f2, E().clean(f["q"]), None, args, c.argn[first:], s, c.fr, dest, True)
            return eng.dispatch(c2)
        if n == 1:
            v = c.val(first, st)
            if isinstance(v[0][1], Struct):
                return arg_value(eng, c, first, st)
        if n == 0:
            return [(st, default_value(eng, st, t))]
        ft = list(eng.field_types(cn))
        vals = []
        s = st
        for i, nm in zip(range(first, len(c.args)), ft):
            s, v = arg_value(eng, c, i, s)[0]
            vals.append((nm, v))
        return [(s, Struct(cn, tuple(sorted(vals, key=lambda x: x[0])), None, t))]
    if n == 1 and cn not in MODELS:
        out = []
        for s, v in arg_value(eng, c, first, st):
            if isinstance(v, (Seq, SpanV, It)) or cn in ("std::basic_string",):
                kind = seq_kind(eng, t)
                out += each(as_seq(eng, s, v), lambda s2, q: [(s2, Seq(kind, q.n, q.pieces, q.et, None))])
            else:
                out.append((s, v))
        return out
    if n == 0:
        return [(st, eng.zero(t))]
    return [(st, Opaque(cn, ("new", eng.uid())))]


def default_value(eng, st, t):
    """Value of a class whose default constructor is implicit: member initialisers, else uninitialised."""
    cn = eng.tname(t)
    rec = eng.rec(cn)
    fs = []
    for f in rec.get("fields", ()):
        if f.get("init") is not None:
            fr = E().Frame(eng.fid(None, ("dmi", cn)), {"q": cn, "file": "?", "line": 0}, None, None, None, None)
            fs.append((f["name"], eng.rv(f["init"], st, fr)[0][1]))
        else:
            fs.append((f["name"], eng.uninit(f["t"])))
    return Struct(cn, tuple(sorted(fs, key=lambda x: x[0])), None, t)


@M("std::make_unique", "std::make_shared")
def m_make_unique(eng, c):
    t = eng.targ(c.t, 0)
    root = ("heap", c.fr.id, id(c.n), eng.uid())
    if eng.T(t)["k"] == "carray":
        s, n = int_val(eng, c, 0)[0]
        s.store[root] = eng.fill_seq("arr", n, eng.zero(eng.T(t)["to"]), eng.T(t)["to"])
        return [(s, It((root,), ZERO, False))]
    out = []
    for s, v in construct(eng, c, c.st, t, 0, (root,)):
        s.store[root] = v
        out.append((s, Ptr((root,), False)))
    return out


SMARTS = ["std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access"]


@M(*cls_names(SMARTS, "operator->", "get"))
def m_sp_get(eng, c):
    ck = c.q.endswith("operator->")
    out = []
    for s, v in c.obj():
        if ck and isinstance(v, Ptr) and v.nul is not False:
            if v.path is None:
                eng.null_deref(s, c.n, c.fr, v)
                continue
            out += [(x, Ptr(v.path, False)) for x in eng.nonnull(s, v, c.n, c.fr)]
        else:
            out.append((s, v))
    return out


@M(*cls_names(SMARTS, "operator*"))
def m_sp_deref(eng, c):
    return each(c.obj(), lambda s, v: eng.deref(s, v, c.n, c.fr))


@M(*cls_names(SMARTS, "operator bool"))
def m_sp_bool(eng, c):
    return each(c.obj(), lambda s, v: [(s, eng.cond_of(v))])


@M(*cls_names(SMARTS, "unique_ptr", "shared_ptr"))
def m_sp_ctor(eng, c):
    if not c.args:
        return [(c.st, Ptr(None, True))]
    out = arg_value(eng, c, 0)
    if len(c.args) > 1:         # with a deleter of its own
        out = [(s1, v) for s, v in out for s1, d in c.val(1, s) if not isinstance(v, Ptr) or v.path is None or s1.store.update({("deleter", v.path): d}) is None]
    return out


@M(*cls_names(SMARTS, "operator="))
def m_sp_assign(eng, c):
    out = []
    for s, v in arg_value(eng, c, 0):
        for s1, old in c.obj(s):
            ss = [s1]
            if eng.run_dtors and c.q.startswith("std::unique_ptr") and isinstance(old, Ptr):
                ss = eng.destroy_ptr(s1, old, c.fr, c.f.get("clst"))
            for x in ss:
                out += setobj(eng, c, x, v)
    return out


@M(*cls_names(SMARTS, "reset"))
def m_sp_reset(eng, c):
    out = []
    for s, v in (arg_value(eng, c, 0) if c.args else [(c.st, Ptr(None, True))]):
        for s1, old in c.obj(s):
            ss = [s1]
            if eng.run_dtors and isinstance(old, Ptr):
                ss = eng.destroy_ptr(s1, old, c.fr, c.f.get("clst"))
            for x in ss:
                out += setobj(eng, c, x, v, VOID)
    return out


@M(*cls_names(SMARTS, "release"))
def m_sp_release(eng, c):
    return each(c.obj(), lambda s, v: [(x, v) for x in eng.write(s, c.this.path, Ptr(None, True))])


@M("std::static_pointer_cast", "std::dynamic_pointer_cast")
def m_spcast(eng, c):
    return c.val(0)


# ---------------------------------------------------------------------------------------- function
@M("std::function::function")
def m_fn_ctor(eng, c):
    if not c.args:
        return [(c.st, Ptr(None, True))]
    return arg_value(eng, c, 0)


@M("std::function::operator()")
def m_fn_call(eng, c):
    out = []
    for s, v in c.obj():
        if isinstance(v, Clo):
            out += eng.call_closure(s, v, c.this.path, c.args, c.n, c.fr, c.dest)
        else:
            out += eng.call_value(s, v, c.args, c.n, c.fr, c.dest)
    return out


@M("std::function::operator bool")
def m_fn_bool(eng, c):
    return each(c.obj(), lambda s, v: [(s, eng.cond_of(v) if not isinstance(v, FnSym) else
                                        ("atom", ("b", ("callable", v.key))))])


@M("std::invoke")
def m_invoke(eng, c):
    return eng.call_value(c.st, c.args[0], c.args[1:], c.n, c.fr, c.dest)


# ---------------------------------------------------------------------------------------- maps
# A map iterator is Opaque("mapit", (path, key)) where key is a value, or ("end",).
def map_key(eng, st, v):
    """[(state, canonical key)]"""
    if isinstance(v, Seq):
        cb = const_bytes(v)
        return [(st, ("c", cb) if cb is not None else canon_seq(v))]
    if isinstance(v, Lin):
        return [(st, eng.canon(st, v))]
    return [(st, v)]


def key_eq(eng, st, a, b):
    if a == b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return eq(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ("c",) and b[:1] == ("c",):
        return False
    return ("atom", ("b", ("keyeq", a, b)))


def map_lookup(eng, st, m, k):
    """[(state, key present as stored, present?)]"""
    out = []
    cur = [st]
    for ek, _ in m.entries:
        nxt = []
        for s in cur:
            T, F = eng.branch(s, key_eq(eng, s, ek, k))
            out += [(x, ek, True) for x in T]
            nxt += F
        cur = nxt
    for s in cur:
        live = [s]
        for gk in m.gone:
            nxt = []
            for x in live:
                T, F = eng.branch(x, key_eq(eng, x, gk, k))
                out += [(y, k, False) for y in T]
                nxt += F
            live = nxt
        for x in live:
            if m.base is None:
                out.append((x, k, False))
                continue
            T, F = eng.branch(x, ("atom", ("b", ("in", m.base, k))))
            for y in T:
                for z in eng.assume(y, ge(m.n, 1)):
                    out.append((z, k, True))
            out += [(y, k, False) for y in F]
    return out


@M(*cls_names(MAPC, "find"))
def m_map_find(eng, c):
    out = []
    for s, v in c.val(0):
        for s1, k in map_key(eng, s, v):
            for s2, m in c.obj(s1):
                if not isinstance(m, MapV):
                    out.append((s2, Opaque("mapit", (c.this.path, ("imp", eng.uid())))))
                    continue
                for s3, k2, has in map_lookup(eng, s2, m, k):
                    if has and not any(e[0] == k2 for e in m.entries):
                        # materialise the entry
                        vv = eng.fresh(eng.map_val_type(m), ("mapval", m.base, k2))
                        m2 = m.rep(entries=m.entries + ((k2, vv),))
                        for s4 in eng.write(s3, c.this.path, m2):
                            out.append((s4, Opaque("mapit", (c.this.path, k2))))
                    else:
                        out.append((s3, Opaque("mapit", (c.this.path, k2 if has else ("end",)))))
    return out


@M(*cls_names(MAPC, "contains", "count"))
def m_map_contains(eng, c):
    out = []
    cnt = c.q.endswith("count")
    for s, v in c.val(0):
        for s1, k in map_key(eng, s, v):
            for s2, m in c.obj(s1):
                if not isinstance(m, MapV):
                    out.append((s2, eng.fresh(c.t, ("imp", eng.uid()), True)))
                    continue
                for s3, k2, has in map_lookup(eng, s2, m, k):
                    out.append((s3, (ONE if has else ZERO) if cnt else has))
    return out


@M(*cls_names(MAPC, "end", "cend"))
def m_map_end(eng, c):
    return [(c.st, Opaque("mapit", (c.this.path, ("end",))))]


@M(*cls_names(MAPC, "begin", "cbegin"))
def m_map_begin(eng, c):
    return [r for s, m in c.obj() for r in map_first(eng, s, c.this.path, m)]


def map_order(m):
    es = [k for k, _ in m.entries]
    if eng_ordered(m) and all(isinstance(k, Lin) and not k.t for k in es):
        es.sort(key=lambda k: k.c)
    return es


def eng_ordered(m):
    return True


def map_first(eng, st, path, m):
    if isinstance(m, MapV) and m.base is None:
        es = map_order(m)
        return [(st, Opaque("mapit", (path, es[0] if es else ("end",))))]
    return map_unknown(eng, st, path, m, ("begin", eng.uid()))


def map_after(eng, st, path, m, k, erased=False):
    """The element behind k; erased: k was just removed from m, m being what it was before."""
    if isinstance(m, MapV) and m.base is None:
        es = map_order(m)
        i = es.index(k) if k in es else len(es)
        return [(st, Opaque("mapit", (path, es[i + 1] if i + 1 < len(es) else ("end",))))]
    return map_unknown(eng, st, path, m, ("next", k, eng.uid()))


def map_unknown(eng, st, path, m, tag):
    """Some element of the map not met before, or its end."""
    if not isinstance(m, MapV):
        return [(st, Opaque("mapit", (path, ("imp", eng.uid()))))]
    for s, m in eng.read(st, path):
        break
    T, F = eng.branch(s, ("atom", ("b", ("atend", tag))))
    out = [(x, Opaque("mapit", (path, ("end",)))) for x in T]
    for s in F:
        k = eng.fresh(eng.targ(m.ty, 0), ("mapkey", tag))
        for s1, kk in map_key(eng, s, k):
            live = [s1]
            for other in [e[0] for e in m.entries] + list(m.gone):
                live = [y for x in live for y in eng.assume(x, neg(key_eq(eng, x, other, kk)))]
            vv = eng.fresh(eng.map_val_type(m), ("mapval", m.base, kk))
            for x in live:
                for s2 in eng.assume(x, ge(m.n, len(m.entries) + 1)):
                    for s3 in eng.write(s2, path, m.rep(entries=m.entries + ((kk, vv),))):
                        out.append((s3, Opaque("mapit", (path, kk))))
    return out


MAPITS = ["std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator",
          "std::__detail::_Node_const_iterator"]


def mapit_eq(eng, st, a, b):
    if a.data[0] != b.data[0]:
        return ("atom", ("imp", ("mapit", eng.uid())))
    ka, kb = a.data[1], b.data[1]
    if ka == kb:
        return True
    if ka == ("end",) or kb == ("end",):
        o = kb if ka == ("end",) else ka
        if isinstance(o, tuple) and o[0] == "imp":
            return ("atom", ("imp", ("mapit", o)))
        return False
    return key_eq(eng, st, ka, kb)


@M(*cls_names(MAPITS, "operator->", "operator*"))
def m_mapit_deref(eng, c):
    out = []
    for s, it in c.obj():
        if not (isinstance(it, Opaque) and it.cls == "mapit"):
            out.append((s, Ptr((("obj", ("imp", eng.uid()), eng.strip(pointee(eng, c.t))),), False)))
            continue
        path, k = it.data
        if k == ("end",):
            eng.oblige(s, "map", False, c.n, c.fr, "iterator dereferenced points at an element")
            continue
        for s, m in eng.read(s, path):
            break
        if gone_key(eng, s, m, k, c, "iterator dereferenced points at an element that is still there"):
            continue
        out.append((s, Ptr((("mapent", path, k),), False)))
    return out


@M(*cls_names(MAPITS, "operator++"))
def m_mapit_inc(eng, c):
    out = []
    for s, it in c.obj():
        if not (isinstance(it, Opaque) and it.cls == "mapit"):
            out.append((s, c.this))
            continue
        path, k = it.data
        if k == ("end",):
            eng.oblige(s, "map", False, c.n, c.fr, "iterator advanced points at an element")
            continue
        for s1, m in eng.read(s, path):
            if gone_key(eng, s1, m, k, c, "iterator advanced points at an element that is still there"):
                continue
            for s2, nit in map_after(eng, s1, path, m, k):
                for s3 in eng.write(s2, c.this.path, nit):
                    out.append((s3, it if c.args else c.this))
    return out


def gone_key(eng, st, m, k, c, text):
    if isinstance(m, MapV) and k in m.gone and not any(e[0] == k for e in m.entries):
        eng.oblige(st, "map", False, c.n, c.fr, text)
        return True
    eng.oblige(st, "map", True, c.n, c.fr, text)
    return False


def map_erase_key(eng, st, path, k, m):
    es = tuple(e for e in m.entries if e[0] != k)
    return m.rep(entries=es, gone=m.gone + (k,), n=m.n - 1)


@M(*cls_names(MAPC, "erase"))
def m_map_erase(eng, c):
    out = []
    for s, v in c.val(0):
        for s1, m in c.obj(s):
            if not isinstance(m, MapV):
                out.append((s1, eng.fresh(c.t, ("imp", eng.uid()), True)))
                continue
            if isinstance(v, Opaque) and v.cls == "mapit":
                k = v.data[1]
                if k == ("end",):
                    eng.oblige(s1, "map", False, c.n, c.fr, "erased iterator points at an element")
                    continue
                if gone_key(eng, s1, m, k, c, "erased iterator points at an element that is still there"):
                    continue
                olds = [x for kk, x in m.entries if kk == k]
                ss = [s1]
                if eng.run_dtors and olds:
                    ss = eng.destroy_value(s1, olds[0], (("mapent", c.this.path, k), "second"), c.fr, eng.map_val_type(m))
                for s2 in ss:
                    for s3 in eng.write(s2, c.this.path, map_erase_key(eng, s2, c.this.path, k, m)):
                        if m.base is None:
                            out += map_after(eng, s3, c.this.path, m, k)
                            continue
                        for s4, m2 in c.obj(s3):
                            out += map_unknown(eng, s4, c.this.path, m2, ("after", k, eng.uid()))
                continue
            for s2, k in map_key(eng, s1, v):
                for s3, k2, has in map_lookup(eng, s2, m, k):
                    if not has:
                        out.append((s3, ZERO))
                        continue
                    olds = [x for kk, x in m.entries if kk == k2]
                    ss = [s3]
                    if eng.run_dtors and olds:
                        ss = eng.destroy_value(s3, olds[0], (("mapent", c.this.path, k2), "second"), c.fr,
                                               eng.map_val_type(m))
                    for s4 in ss:
                        for s5 in eng.write(s4, c.this.path, map_erase_key(eng, s4, c.this.path, k2, m)):
                            out.append((s5, ONE))
    return out


@M(*cls_names(MAPC, "operator[]", "at"))
def m_map_index(eng, c):
    at = c.q.endswith("at")
    out = []
    for s, v in c.val(0):
        for s1, k in map_key(eng, s, v):
            for s2, m in c.obj(s1):
                if not isinstance(m, MapV):
                    out.append((s2, Ptr((("obj", ("imp", eng.uid()), eng.strip(c.t)),), False)))
                    continue
                for s3, k2, has in map_lookup(eng, s2, m, k):
                    if not has and at:
                        throw(eng, c, s3, "std::out_of_range")
                        continue
                    if any(e[0] == k2 for e in m.entries):
                        out.append((s3, Ptr(c.this.path + (("m", k2),), False)))
                        continue
                    vt = eng.map_val_type(m)
                    vv = eng.fresh(vt, ("mapval", m.base, k2)) if has else eng.zero(vt)
                    m2 = m.rep(entries=m.entries + ((k2, vv),), n=m.n if has else m.n + 1,
                               gone=tuple(g for g in m.gone if g != k2))
                    for s4 in eng.write(s3, c.this.path, m2):
                        out.append((s4, Ptr(c.this.path + (("m", k2),), False)))
    return out


@M(*cls_names(MAPC, "emplace", "try_emplace", "insert", "insert_or_assign"))
def m_map_emplace(eng, c):
    op = c.q.split("::")[-1]
    out = []
    if op == "insert" or (op == "emplace" and len(c.args) == 1):
        kvs = []
        for s, p in arg_value(eng, c, 0):
            if isinstance(p, Struct) and p.get("first") is not None:
                kvs.append((s, p.get("first"), p.get("second")))
            else:
                return NotImplemented
    else:
        kvs = []
        for s, k in c.val(0):
            for s1, v in construct(eng, c, s, eng.targ(c.f.get("clst"), 1), 1):
                kvs.append((s1, k, v))
    for s, kv, v in kvs:
        for s1, k in map_key(eng, s, kv):
            for s2, m in c.obj(s1):
                if not isinstance(m, MapV):
                    out.append((s2, Top("emplace")))
                    continue
                for s3, k2, has in map_lookup(eng, s2, m, k):
                    it = Opaque("mapit", (c.this.path, k2))
                    if has and op != "insert_or_assign":
                        out.append((s3, Struct("std::pair", (("first", it), ("second", False)), None, None)))
                        continue
                    es = tuple(e for e in m.entries if e[0] != k2) + ((k2, v),)
                    m2 = m.rep(entries=es, n=m.n if has else m.n + 1, gone=tuple(g for g in m.gone if g != k2))
                    for s4 in eng.write(s3, c.this.path, m2):
                        out.append((s4, Struct("std::pair", (("first", it), ("second", not has)), None, None)))
    return out


@M(*cls_names(MAPC, "size"))
def m_map_size(eng, c):
    return each(c.obj(), lambda s, m: [(s, m.n if isinstance(m, MapV) else eng.fresh(c.t, ("imp", eng.uid()), True))])


@M(*cls_names(MAPC, "empty"))
def m_map_empty(eng, c):
    return each(c.obj(), lambda s, m: [(s, eq(m.n, 0) if isinstance(m, MapV) else ("atom", ("imp", eng.uid())))])


@M(*cls_names(MAPC, "clear"))
def m_map_clear(eng, c):
    return each(c.obj(), lambda s, m: setobj(eng, c, s, MapV(None, ZERO, (), m.ty, ()) if isinstance(m, MapV) else m, VOID))


@M("std::map::map", "std::unordered_map::unordered_map")
def m_map_ctor(eng, c):
    t = c.f.get("clst", c.n.get("t"))
    idx = [i for i in range(len(c.args)) if not is_alloc(eng, c, i)]
    if not idx:
        return [(c.st, MapV(None, ZERO, (), t, ()))]
    out = []
    for s, v in c.val(idx[0]):
        if isinstance(v, Seq) and all(p[0] == "v" for p in v.pieces):
            es = []
            for p in v.pieces:
                x = p[1]
                if not (isinstance(x, Struct) and x.get("first") is not None):
                    return [(s, eng.fresh(t, ("imp", eng.uid()), True))]
                k = map_key(eng, s, x.get("first"))[0][1]
                if not any(e[0] == k for e in es):
                    es.append((k, x.get("second")))
            out.append((s, MapV(None, L(len(es)), tuple(es), t, ())))
        elif isinstance(v, MapV):
            out.append((s, v))
        elif isinstance(v, Lin):
            out.append((s, MapV(None, ZERO, (), t, ())))
        else:
            out.append((s, eng.fresh(t, ("imp", eng.uid()), True)))
    return out


@M("std::pair::pair", "std::make_pair")
def m_pair(eng, c):
    t = c.f.get("clst", c.n.get("t"))
    if c.q.endswith("make_pair"):
        t = eng.strip(c.t)
    if len(c.args) == 1:
        return arg_value(eng, c, 0)
    if not c.args:
        return [(c.st, eng.zero(t))]
    out = []
    for s, a in arg_value(eng, c, 0):
        for s1, b in arg_value(eng, c, 1, s):
            for s2, a2 in convert(eng, s1, a, eng.targ(t, 0)):
                for s3, b2 in convert(eng, s2, b, eng.targ(t, 1)):
                    out.append((s3, Struct("std::pair", (("first", a2), ("second", b2)), None, t)))
    return out


@M("std::get")
def m_get(eng, c):
    ta = c.f.get("ta") or []
    k = None
    for x in ta:
        if isinstance(x, dict) and "i" in x:
            k = x["i"]
            break
        if isinstance(x, int):
            k = x
            break
    p = c.args[0]
    if isinstance(p, Ptr) and k in (0, 1):
        return [(c.st, Ptr(p.path + ("first" if k == 0 else "second",), False))]
    return NotImplemented


# ---------------------------------------------------------------------------------------- atomics
ATOM = ["std::atomic", "std::__atomic_base", "std::atomic_flag"]


@M(*cls_names(ATOM, "load", "test", "operator bool", "operator int", "operator unsigned long"))
def m_load(eng, c):
    return c.obj()


@M(*cls_names(ATOM, "store"))
def m_store(eng, c):
    return each(c.val(0), lambda s, v: setobj(eng, c, s, v, VOID))


@M(*cls_names(ATOM, "exchange"))
def m_axchg(eng, c):
    out = []
    for s, v in c.val(0):
        for s1, o in c.obj(s):
            out += setobj(eng, c, s1, v, o)
    return out


@M(*cls_names(ATOM, "test_and_set"))
def m_tas(eng, c):
    return each(c.obj(), lambda s, o: setobj(eng, c, s, True, o))


@M(*cls_names(ATOM, "compare_exchange_strong", "compare_exchange_weak"))
def m_cas(eng, c):
    out = []
    for s, o in c.obj():
        for s1, e in c.val(0, s):
            for s2, d in c.val(1, s1):
                for s3, cond in value_eq(eng, s2, o, e):
                    T, F = eng.branch(s3, cond)
                    for x in T:
                        out += setobj(eng, c, x, d, True)
                    for x in F:
                        out += [(y, False) for y in eng.write(x, c.args[0].path, o)]
    return out


@M(*cls_names(ATOM, "fetch_add", "fetch_sub", "operator++", "operator--"))
def m_fadd(eng, c):
    sub = "sub" in c.q or "--" in c.q
    out = []
    for s, o in c.obj():
        for s1, d in (int_val(eng, c, 0, s) if "fetch" in c.q else [(s, ONE)]):
            if isinstance(o, Lin):
                nv = o - d if sub else o + d
                out += setobj(eng, c, s1, nv, o if "fetch" in c.q or c.args else nv)
            else:
                out.append((s1, o))
    return out


@M("std::atomic::atomic", "std::__atomic_base::__atomic_base")
def m_atomic_ctor(eng, c):
    if not c.args:
        return [(c.st, eng.zero(eng.targ(c.f.get("clst", c.n["t"]), 0)))]
    return c.val(0)


# ---------------------------------------------------------------------------------------- chrono
PERIOD = {}


def ns_of(eng, t):
    """Nanoseconds per tick of a duration or time_point type."""
    ty = eng.T(eng.strip(t))
    s = ty.get("s", "")
    import re
    m = re.search(r"duration<[^,<>]*, std::ratio<(\d+), (\d+)>", s) or re.search(r"duration<[^,<>]*, ratio<(\d+), (\d+)>", s)
    if m:
        return int(m.group(1)) * 10 ** 9 // int(m.group(2))
    m = re.search(r"duration<[^,<>]*, std::ratio<(\d+)>", s) or re.search(r"duration<[^,<>]*, ratio<(\d+)>", s)
    if m:
        return int(m.group(1)) * 10 ** 9
    if "milliseconds" in s:
        return 10 ** 6
    if "microseconds" in s:
        return 10 ** 3
    if "nanoseconds" in s:
        return 1
    if "seconds" in s or "duration<" in s and "," not in s:
        return 10 ** 9
    if "minutes" in s:
        return 60 * 10 ** 9
    if "hours" in s:
        return 3600 * 10 ** 9
    a = eng.targ(t, 1)
    if "time_point" in s and a is not None:
        return ns_of(eng, a)
    return 1


@M("std::chrono::steady_clock::now", "std::chrono::system_clock::now", "std::chrono::high_resolution_clock::now")
def m_now(eng, c):
    k = c.st.ghost.get("clock", 0)
    c.st.ghost["clock"] = k + 1
    s = memo_sym(("now", k), "now%d" % k, 0, 1 << 62, "in")
    if k:
        p = memo_sym(("now", k - 1), "now%d" % (k - 1), 0, 1 << 62, "in")
        return [(x, Opaque("tp", S(s))) for x in eng.assume(c.st, ge(S(s), S(p)))]
    return [(c.st, Opaque("tp", S(s)))]


@M("std::chrono::duration::duration")
def m_dur_ctor(eng, c):
    t = c.f.get("clst", c.n.get("t"))
    if not c.args:
        return [(c.st, Opaque("dur", ZERO))]

    def f(s, v):
        if isinstance(v, Opaque) and v.cls == "dur":
            return [(s, v)]
        if isinstance(v, Lin):
            return [(s, Opaque("dur", v.scale(ns_of(eng, t))))]
        return [(s, Opaque("dur", S(new_sym("dur", None, None, "in", (), True))))]
    return each(c.val(0), f)


@M("std::chrono::time_point::time_point")
def m_tp_ctor(eng, c):
    if not c.args:
        return [(c.st, Opaque("tp", ZERO))]
    return each(c.val(0), lambda s, v: [(s, Opaque("tp", dur_lin(eng, s, v)))])


def dur_lin(eng, st, v):
    if isinstance(v, Opaque) and v.cls in ("dur", "tp") and isinstance(v.data, Lin):
        return v.data
    if isinstance(v, Opaque) and v.cls in ("std::chrono::duration", "std::chrono::time_point"):
        if isinstance(v.data, Lin):
            return v.data
        if v.data == ("zero",):
            return ZERO
        return S(memo_sym(("dur", v.data), "t", 0, 1 << 62, "in"))
    return S(new_sym("dur", None, None, "in", (), True))


@M("std::chrono::operator-", "std::chrono::operator+")
def m_dur_minus(eng, c):
    sub = c.q.endswith("-")
    out = []
    for s, a in c.val(0):
        for s1, b in c.val(1, s):
            x, y = dur_lin(eng, s1, a), dur_lin(eng, s1, b)
            tp = "time_point" in eng.tname(c.t)
            out.append((s1, Opaque("tp" if tp else "dur", x - y if sub else x + y)))
    return out


@M("std::chrono::operator*", "std::chrono::operator/")
def m_dur_mul(eng, c):
    out = []
    for s, a in c.val(0):
        for s1, b in c.val(1, s):
            if isinstance(a, Lin):
                a, b = b, a
            if isinstance(b, Lin) and not b.t and c.q.endswith("*"):
                out.append((s1, Opaque("dur", dur_lin(eng, s1, a).scale(b.c))))
            else:
                out.append((s1, Opaque("dur", S(new_sym("dur", None, None, "in", (), True)))))
    return out


def float_ticks(eng, t):
    import re
    return re.search(r"duration<(long )?(double|float)", eng.T(eng.strip(t)).get("s", "")) is not None


@M("std::chrono::duration_cast")
def m_dur_cast(eng, c):
    k = 1 if float_ticks(eng, c.t) else ns_of(eng, c.t)

    def f(s, v):
        l = dur_lin(eng, s, v)
        if k == 1:
            return [(s, Opaque("dur", l))]
        if not l.t:
            return [(s, Opaque("dur", L(l.c // k * k)))]
        return [(s, Opaque("dur", eng.quotient(l, k, s.facts).scale(k)))]
    return each(c.val(0), f)


@M("std::chrono::duration::count")
def m_count(eng, c):
    k = ns_of(eng, c.f.get("clst"))

    def f(s, v):
        l = dur_lin(eng, s, v)
        if float_ticks(eng, c.f.get("clst")):
            return [(s, flt(Fraction(1, k), (l,)))]
        if k == 1:
            return [(s, l)]
        if l.c % k == 0 and all(a % k == 0 for _, a in l.t):
            return [(s, Lin(l.c // k, tuple((i, a // k) for i, a in l.t)))]
        return [(s, eng.quotient(l, k, s.facts))]
    return each(c.obj(), f)


@M("std::chrono::time_point::time_since_epoch")
def m_tse(eng, c):
    return each(c.obj(), lambda s, v: [(s, Opaque("dur", dur_lin(eng, s, v)))])


@M("std::chrono::system_clock::to_time_t")
def m_ttt(eng, c):
    return each(c.val(0), lambda s, v: [(s, eng.quotient(dur_lin(eng, s, v), 10 ** 9, s.facts))])


# ---------------------------------------------------------------------------------------- strings from values
@M("std::to_string")
def m_to_string(eng, c):
    return each(c.val(0), lambda s, v: [(s, dec_seq(eng, s, v))])


def dec_seq(eng, st, v, spec=""):
    if isinstance(v, bool):
        return lit("true" if v else "false")
    if isinstance(v, Lin):
        v = eng.canon(st, v)
        if not v.t:
            return lit(format(v.c, spec) if spec else str(v.c))
        key = ("dec", v) if not spec else ("fmt", spec, v)
        n = memo_sym(("len", key), "|dec(%r)|" % v, 1, 20, "small" if False else "in", (), v.imprecise(), v.deps())
        return Seq("str", S(n), (("s", key, ZERO, S(n)),), None, None)
    if is_flt(v):
        key = ("float", v.data, spec)
        n = memo_sym(("len", key), "|%r|" % (key,), 1, 400, "in")
        return Seq("str", S(n), (("s", key, ZERO, S(n)),), None, None)
    q = top_seq(eng, "str")
    return q


@M("std::basic_format_string::basic_format_string", "fmt::basic_format_string::basic_format_string",
   "fmt::v9::basic_format_string::basic_format_string", "fmt::fstring::fstring")
def m_fmt_string(eng, c):
    return seq_val(eng, c, 0)


@M("std::format", "fmt::format", "fmt::v9::format")
def m_format(eng, c):
    import re
    out = []
    for s, f in seq_val(eng, c, 0):
        fb = const_bytes(f)
        if fb is None:
            out.append((s, top_seq(eng, "str")))
            continue
        states = [(s, [])]
        pos = 0
        ai = 1
        for m in re.finditer(rb"\{\{|\}\}|\{(\d*)(?::([^{}]*))?\}", fb):
            text = fb[pos:m.start()]
            pos = m.end()
            nxt = []
            for s1, ps in states:
                p1 = ps + ([("c", text)] if text else [])
                if m.group(0) in (b"{{", b"}}"):
                    nxt.append((s1, p1 + [("c", m.group(0)[:1])]))
                    continue
                i = int(m.group(1)) + 1 if m.group(1) else ai
                spec = (m.group(2) or b"").decode()
                if i >= len(c.args):
                    nxt.append((s1, p1))
                    continue
                for s2, q in format_arg(eng, c, s1, i, spec):
                    nxt.append((s2, p1 + list(q.pieces)))
            if m.group(0) not in (b"{{", b"}}") and not m.group(1):
                ai += 1
            states = nxt
        for s1, ps in states:
            if fb[pos:]:
                ps = ps + [("c", fb[pos:])]
            out.append((s1, mk_seq("str", ps)))
    return out


def format_arg(eng, c, st, i, spec):
    out = []
    for s, v in c.val(i, st):
        if isinstance(v, Lin) and is_char(eng, c, i):
            out.append((s, mk_seq("str", [("v", v)]) if not spec else dec_seq(eng, s, v, spec)))
        elif isinstance(v, (Lin, bool)) or is_flt(v):
            out.append((s, dec_seq(eng, s, v, spec)))
        elif isinstance(v, (Seq, SpanV, It)) or (isinstance(v, Ptr) and v.path is not None):
            out += as_seq(eng, s, v)
        else:
            out.append((s, top_seq(eng, "str")))
    return out


def is_char(eng, c, i):
    t = c.argn[i].get("t") if i < len(c.argn) else None
    return t is not None and eng.T(eng.strip(t)).get("s", "").replace("const ", "") == "char"


# ---------------------------------------------------------------------------------------- streams
def stream_obj(v):
    return v.data if isinstance(v, Opaque) and v.cls == "stream" else None


@M("std::basic_stringstream::basic_stringstream", "std::basic_ostringstream::basic_ostringstream")
def m_ss_ctor(eng, c):
    return [(c.st, Opaque("stream", Seq("str", ZERO, (), None, None)))]


@M("std::operator<<", "std::basic_ostream::operator<<")
def m_ostream(eng, c):
    if c.this is not None:
        loc, i = c.this, 0
    else:
        loc, i = c.args[0], 1
    out = []
    if not isinstance(loc, Ptr):
        return [(c.st, loc)]
    for s, st in eng.read(c.st, loc.path):
        q = stream_obj(st)
        if q is None:
            out.append((s, loc))
            continue
        for s1, v in c.val(i, s):
            if isinstance(v, Lin) and is_char(eng, c, i if c.this is None else i):
                xs = [(s1, mk_seq("str", [("v", v)]))]
            elif isinstance(v, (Lin, bool)) or is_flt(v):
                xs = [(s1, dec_seq(eng, s1, v, q.meas or ""))]
            elif isinstance(v, (Seq, SpanV, It)) or (isinstance(v, Ptr) and v.path is not None):
                xs = as_seq(eng, s1, v)
            elif isinstance(v, Fn):
                xs = [(s1, None)]
            elif isinstance(v, Top):
                xs = [(s1, top_seq(eng, "str"))]
            else:
                xs = [(s1, None)]
            for s2, x in xs:
                if x is None:
                    out.append((s2, loc))
                    continue
                nq = Seq("str", q.n + x.n, tuple(norm_pieces(list(q.pieces) + list(x.pieces))), None, None)
                out += [(y, loc) for y in eng.write(s2, loc.path, Opaque("stream", nq))]
    return out


@M("std::basic_stringstream::str", "std::basic_ostringstream::str", "std::basic_stringstream::view", "std::basic_ostringstream::view")
def m_ss_str(eng, c):
    if c.args:
        return NotImplemented
    return each(c.obj(), lambda s, v: [(s, stream_obj(v) if stream_obj(v) is not None else top_seq(eng, "str"))])


@M("std::setfill", "std::setw", "std::setprecision", "std::put_time")
def m_manip(eng, c):
    return [(c.st, Opaque("manip", c.q))]


# ---------------------------------------------------------------------------------------- filesystem
def mk_path(key):
    return Opaque("std::filesystem::path", key)


def path_of(eng, st, v):
    """[(state, path key)]"""
    if isinstance(v, Opaque) and v.cls == "std::filesystem::path":
        return [(st, v.data)]
    if isinstance(v, (Seq, SpanV, It)) or (isinstance(v, Ptr) and v.path is not None):
        return each(as_seq(eng, st, v), lambda s, q: [(s, seq_path_key(q))])
    return [(st, ("imp", eng.uid()))]


def seq_path_key(q):
    k = canon_seq(q)
    if isinstance(k, tuple) and k and k[0] == "path" and len(k) == 2:
        return k[1]
    return ("of", k)


@M("std::filesystem::path::path")
def m_path_ctor(eng, c):
    if not c.args:
        return [(c.st, mk_path(("of", ("c", b""))))]
    return each(c.val(0), lambda s, v: each(path_of(eng, s, v), lambda s2, k: [(s2, mk_path(k))]))


def fs_throw(eng, c, st, what, key):
    """The throwing overloads fail when the filesystem says so."""
    x = st.copy()
    x.log(eng.where(c.n, c.fr), what + " reports a filesystem error")
    throw(eng, c, x, "std::filesystem::filesystem_error")


def fs_nargs(c):
    return len(c.args)


def _fs1(kind, throwing_arity):
    def f(eng, c):
        out = []
        for s, v in c.val(0):
            for s1, k in path_of(eng, s, v):
                if len(c.args) == throwing_arity:
                    fs_throw(eng, c, s1, kind, k)
                out.append((s1, mk_path((kind, k))))
        return out
    return f


MODELS["std::filesystem::absolute"] = _fs1("absolute", 1)
MODELS["std::filesystem::canonical"] = _fs1("canonical", 1)
MODELS["std::filesystem::weakly_canonical"] = _fs1("weakly_canonical", 1)


@M("std::filesystem::path::lexically_normal")
def m_lexnorm(eng, c):
    return each(c.obj(), lambda s, v: each(path_of(eng, s, v), lambda s2, k: [(s2, mk_path(("lexnorm", k)))]))


@M("std::filesystem::path::parent_path", "std::filesystem::path::filename", "std::filesystem::path::extension",
   "std::filesystem::path::stem", "std::filesystem::path::relative_path", "std::filesystem::path::root_path",
   "std::filesystem::path::lexically_relative", "std::filesystem::relative", "std::filesystem::proximate",
   "std::filesystem::path::make_preferred")
def m_path_part(eng, c):
    op = c.q.split("::")[-1]
    out = []
    for s, v in (c.obj() if c.this is not None else c.val(0)):
        for s1, k in path_of(eng, s, v):
            extra = ()
            i0 = 0 if c.this is not None else 1
            if len(c.args) > i0:
                s1, k2 = path_of(eng, s1, c.val(i0, s1)[0][1])[0]
                extra = (k2,)
            out.append((s1, mk_path((op, k) + extra)))
    return out


@M("std::filesystem::exists", "std::filesystem::is_directory", "std::filesystem::is_regular_file",
   "std::filesystem::is_symlink")
def m_fs_pred(eng, c):
    op = c.q.split("::")[-1]
    out = []
    for s, v in c.val(0):
        for s1, k in path_of(eng, s, v):
            if len(c.args) == 1:
                fs_throw(eng, c, s1, op, k)
            else:
                eng.write(s1, c.args[1].path, Opaque("std::error_code", ("ec", op, k)))
            out.append((s1, ("atom", ("b", (op, k)))))
    return out


@M("std::filesystem::file_size")
def m_fs_size(eng, c):
    out = []
    for s, v in c.val(0):
        for s1, k in path_of(eng, s, v):
            if len(c.args) == 1:
                fs_throw(eng, c, s1, "file_size", k)
            else:
                eng.write(s1, c.args[1].path, Opaque("std::error_code", ("ec", "file_size", k)))
            out.append((s1, S(memo_sym(("file_size", k), "file_size", 0, (1 << 64) - 1, "in"))))
    return out


@M("std::filesystem::operator/")
def m_fs_join(eng, c):
    out = []
    for s, a in c.val(0):
        for s1, b in c.val(1, s):
            for s2, x in path_of(eng, s1, a):
                for s3, y in path_of(eng, s2, b):
                    out.append((s3, mk_path(("join", x, y))))
    return out


@M("std::filesystem::path::operator/=", "std::filesystem::path::append")
def m_fs_joineq(eng, c):
    out = []
    for s, a in c.obj():
        for s1, b in c.val(0, s):
            for s2, x in path_of(eng, s1, a):
                for s3, y in path_of(eng, s2, b):
                    out += setobj(eng, c, s3, mk_path(("join", x, y)))
    return out


@M("std::filesystem::path::is_absolute", "std::filesystem::path::is_relative", "std::filesystem::path::empty",
   "std::filesystem::path::has_extension")
def m_path_pred(eng, c):
    op = c.q.split("::")[-1]

    def f(s, v):
        def g(s2, k):
            if op == "is_relative":
                return [(s2, ("not", ("atom", ("b", ("is_absolute", k)))))]
            return [(s2, ("atom", ("b", (op, k))))]
        return each(path_of(eng, s, v), g)
    return each(c.obj(), f)


@M("std::filesystem::path::string", "std::filesystem::path::native", "std::filesystem::path::c_str",
   "std::filesystem::path::generic_string", "std::filesystem::path::operator basic_string",
   "std::filesystem::path::u8string")
def m_path_string(eng, c):
    out = []
    for s, v in c.obj():
        for s1, k in path_of(eng, s, v):
            q = path_seq(mk_path(k)) if not (k[0] == "of" and False) else None
            if c.q.endswith("c_str") or c.n.get("lv"):
                root = ("t", c.fr.id, ("pathstr", k))
                s1.store[root] = q
                out.append((s1, It((root,), ZERO, False) if c.q.endswith("c_str") else Ptr((root,), False)))
            else:
                out.append((s1, q))
    return out


@M("std::filesystem::path::begin", "std::filesystem::path::end")
def m_path_begin(eng, c):
    op = c.q.split("::")[-1]
    return each(c.obj(), lambda s, v: each(path_of(eng, s, v), lambda s2, k: [(s2, Opaque("pathit", (k, 0 if op == "begin" else "end")))]))


@M("std::filesystem::path::iterator::operator*", "std::filesystem::path::iterator::operator->")
def m_pathit_deref(eng, c):
    def f(s, v):
        root = ("t", c.fr.id, ("pathcomp", eng.uid()))
        s.store[root] = mk_path(("component", v.data if isinstance(v, Opaque) else eng.uid()))
        return [(s, Ptr((root,), False))]
    return each(c.obj(), f)


@M("std::filesystem::path::iterator::operator++")
def m_pathit_inc(eng, c):
    def f(s, v):
        if isinstance(v, Opaque) and v.cls == "pathit" and isinstance(v.data[1], int):
            return setobj(eng, c, s, Opaque("pathit", (v.data[0], v.data[1] + 1)), v if c.args else None)
        return [(s, c.this)]
    return each(c.obj(), f)


@M("std::error_code::error_code")
def m_ec(eng, c):
    return [(c.st, Opaque("std::error_code", ("zero",)))]


@M("std::error_code::operator bool")
def m_ec_bool(eng, c):
    return each(c.obj(), lambda s, v: [(s, False if isinstance(v, Opaque) and v.data == ("zero",) else
                                        ("atom", ("b", ("ec", v.data if isinstance(v, Opaque) else eng.uid()))))])


@M("std::error_code::message", "std::exception::what", "std::runtime_error::what", "std::system_error::what",
   "std::filesystem::filesystem_error::what", "std::error_code::value", "std::error_category::message")
def m_message(eng, c):
    if c.q.endswith("what"):
        root = ("t", c.fr.id, ("what", eng.uid()))
        c.st.store[root] = top_seq(eng, "str")
        return [(c.st, It((root,), ZERO, False))]
    return [(c.st, eng.fresh(c.t, ("imp", ("message", eng.uid())), True))]


@M("std::system_category", "std::generic_category")
def m_cat(eng, c):
    return [(c.st, Ptr((("cat", c.q),), False))]


def _exc_ctor(name):
    def f(eng, c):
        msg = None
        for i in range(len(c.args)):
            for s, v in c.val(i):
                if isinstance(v, (Seq, It)) or (isinstance(v, Ptr) and v.path and v.path[0][0] == "lit"):
                    q = as_seq(eng, s, v)[0][1]
                    msg = const_bytes(q)
        return [(c.st, Opaque(name, ("exc", msg)))]
    return f


for _n in ("runtime_error", "out_of_range", "system_error", "invalid_argument", "logic_error", "length_error",
           "domain_error", "range_error", "overflow_error", "exception"):
    MODELS["std::%s::%s" % (_n, _n)] = _exc_ctor("std::" + _n)


# ---------------------------------------------------------------------------------------- file streams
@M("std::basic_ifstream::basic_ifstream", "std::basic_ofstream::basic_ofstream", "std::basic_fstream::basic_fstream")
def m_fstream(eng, c):
    if not c.args:
        return [(c.st, Opaque("fstream", ("closed",)))]
    return each(c.val(0), lambda s, v: each(path_of(eng, s, v), lambda s2, k: [(s2, Opaque("fstream", k))]))


FS = ["std::basic_ifstream", "std::basic_ofstream", "std::basic_fstream", "std::basic_istream", "std::basic_ostream",
      "std::basic_ios"]


@M(*cls_names(FS, "is_open", "good", "operator bool", "fail", "operator!", "eof", "bad"))
def m_fs_state(eng, c):
    op = c.q.split("::")[-1]
    key = ("stream", op if op != "operator!" else "operator bool", eng.uid())
    r = ("atom", ("b", key))
    return [(c.st, ("not", r) if op in ("operator!",) else r)]


@M(*cls_names(FS, "seekg", "read", "close", "get", "seekp", "flush", "write", "rdbuf", "clear", "exceptions"))
def m_fs_op(eng, c):
    op = c.q.split("::")[-1]
    if op == "read":
        for s, p in c.val(0):
            if isinstance(p, It) and p.path is not None:
                for s1, q in eng.read(s, p.path):
                    if isinstance(q, Seq):
                        key = ("filedata", eng.uid())
                        s1 = eng.write(s1, p.path, Seq(q.kind, q.n, (("s", key, ZERO, q.n),), q.et, None))[0]
    if c.n.get("lv"):
        return [(c.st, c.this)]
    return [(c.st, VOID)]


@M("std::basic_istream::tellg", "std::basic_ostream::tellp")
def m_tellg(eng, c):
    return [(c.st, Opaque("fpos", S(memo_sym(("tellg", eng.uid()), "tellg", -1, 1 << 47, "in"))))]


@M("std::fpos::operator long")
def m_fpos(eng, c):
    return each(c.obj(), lambda s, v: [(s, v.data if isinstance(v, Opaque) and isinstance(v.data, Lin) else
                                        eng.fresh(c.t, ("imp", eng.uid()), True))])


@M("std::fpos::fpos")
def m_fpos_ctor(eng, c):
    return each(c.val(0), lambda s, v: [(s, Opaque("fpos", v))]) if c.args else [(c.st, Opaque("fpos", ZERO))]


@M("std::operator|", "std::operator&")
def m_openmode(eng, c):
    out = []
    for s, a in c.val(0):
        for s1, b in c.val(1, s):
            if isinstance(a, Lin) and isinstance(b, Lin) and not a.t and not b.t:
                out.append((s1, L(a.c | b.c) if c.q.endswith("|") else L(a.c & b.c)))
            else:
                out.append((s1, eng.fresh(c.t, ("imp", eng.uid()), True)))
    return out


@M("std::allocator::allocator", "std::hash::hash", "std::equal_to::equal_to", "std::less::less",
   "std::random_device::random_device", "std::mersenne_twister_engine::mersenne_twister_engine",
   "std::uniform_int_distribution::uniform_int_distribution")
def m_tag(eng, c):
    return [(c.st, Opaque(c.q.rsplit("::", 1)[0], ("new", 0)))]


@M("std::random_device::operator()", "std::uniform_int_distribution::operator()",
   "std::mersenne_twister_engine::operator()")
def m_random(eng, c):
    return [(c.st, eng.fresh(c.t, ("random", eng.uid())))]


@M("std::mutex::lock", "std::mutex::unlock", "std::lock_guard::lock_guard", "std::scoped_lock::scoped_lock",
   "std::unique_lock::unique_lock")
def m_lock(eng, c):
    return [(c.st, VOID if not c.ctor else Opaque("lock", 0))]


@M("std::strlen", "strlen")
def m_strlen(eng, c):
    return each(seq_val(eng, c, 0), lambda s, q: [(s, q.n)])


@M("std::isprint", "isprint", "std::isdigit", "isdigit", "std::isalpha", "isalpha", "std::iscntrl", "iscntrl",
   "std::tolower", "tolower", "std::toupper", "toupper", "std::isspace", "isspace", "std::isalnum", "isalnum",
   "std::isxdigit", "isxdigit")
def m_ctype(eng, c):
    op = c.q.split("::")[-1]

    def f(s, l):
        def g(v):
            if not 0 <= v < 256:
                return 0
            ch = chr(v)
            if op == "isprint":
                return int(32 <= v < 127)
            if op == "isdigit":
                return int(48 <= v <= 57)
            if op == "isalpha":
                return int(v < 128 and ch.isalpha())
            if op == "isalnum":
                return int(v < 128 and ch.isalnum())
            if op == "iscntrl":
                return int(v < 32 or v == 127)
            if op == "isspace":
                return int(v in (9, 10, 11, 12, 13, 32))
            if op == "isxdigit":
                return int(ch in "0123456789abcdefABCDEF")
            if op == "tolower":
                return v + 32 if 65 <= v <= 90 else v
            return v - 32 if 97 <= v <= 122 else v
        if not l.t:
            return [(s, L(g(l.c)))]
        r = V.map_small(l, g, "%s(%r)" % (op, l))
        return [(s, r if r is not None else eng.fresh(c.t, ("imp", (op, eng.uid())), True))]
    return each(int_val(eng, c, 0), f)


# ---------------------------------------------------------------------------------------- logging
def log_call(eng, c):
    """Diagnostics: no effect on the program state (the logger swallows its own errors)."""
    if c.n.get("lv"):
        return [(c.st, Ptr((("obj", ("log", eng.uid()), eng.strip(c.t)),), False))]
    t = c.t
    if t is not None and eng.T(t)["k"] != "void":
        return [(c.st, eng.fresh(t, ("log", eng.uid())))]
    return [(c.st, VOID)]


for _n in ("trace", "debug", "info", "warn", "error", "critical", "set_level", "set_pattern", "set_formatter",
           "set_default_logger", "flush_on", "shutdown", "log", "drop"):
    MODELS["spdlog::" + _n] = log_call
for _n in ("trace", "debug", "info", "warn", "error", "critical", "set_level", "set_pattern", "set_formatter",
           "flush_on", "flush", "log"):
    MODELS["spdlog::logger::" + _n] = log_call


@M("spdlog::get")
def m_spdlog_get(eng, c):
    return [(c.st, Ptr((("obj", ("logger", 0), None),), ("b", ("logger", "nul"))))]


from . import posix     # noqa: E402,F401  (registers the system-call models)


# ---------------------------------------------------------------------------------------- exception_ptr
EP = "std::__exception_ptr::"


@M("std::current_exception")
def m_cur_exc(eng, c):
    return [(c.st, Opaque("excptr", c.st.exc))]


@M(EP + "exception_ptr::exception_ptr")
def m_ep_ctor(eng, c):
    if not c.args:
        return [(c.st, Opaque("excptr", None))]
    return each(c.val(0), lambda s, v: [(s, v if isinstance(v, Opaque) and v.cls == "excptr" else Opaque("excptr", None))])


@M(EP + "exception_ptr::operator=")
def m_ep_assign(eng, c):
    return each(c.val(0), lambda s, v: [(x, c.this) for x in
                                        eng.write(s, c.this.path, v if isinstance(v, Opaque) and v.cls == "excptr" else Opaque("excptr", None))])


def ep_known(v):
    return isinstance(v, Opaque) and v.cls in ("excptr", EP + "exception_ptr")


def ep_set(v):
    return isinstance(v, Opaque) and v.cls == "excptr" and v.data is not None


@M(EP + "exception_ptr::operator bool")
def m_ep_bool(eng, c):
    return each(c.obj(), lambda s, v: [(s, ep_set(v))])


@M(EP + "operator==", EP + "operator!=", "std::operator==#ep")
def m_ep_eq(eng, c):
    out = []
    for s, a in c.val(0):
        for s1, b in c.val(1, s):
            r = (a.data if ep_set(a) else None) is (b.data if ep_set(b) else None)
            out.append((s1, r if c.q.endswith("==") else not r))
    return out


@M("std::rethrow_exception")
def m_rethrow(eng, c):
    for s, v in c.val(0):
        if not ep_set(v):
            eng.note_unmodelled("rethrow of an unknown exception", s)
            return []
        eng.raise_(s, v.data)
    return []
