"""Abstract values of the analyser and exact bit-slice arithmetic on them."""
from fractions import Fraction
from .domain import Lin, L, S, SYMS, ZERO, ONE, memo_sym, new_sym, is_small, EMPTY


class EnumV(Lin):
    """An enumeration value; definite ones distinguish abstract states."""
    __slots__ = ()


def enumv(l):
    return l if isinstance(l, EnumV) else EnumV(l.c, l.t)


class Val:
    __slots__ = ("k", "_h")
    F = ()

    def __init__(self, *a):
        self.k = a
        self._h = hash((self.__class__, a))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (self.__class__ is o.__class__ and self._h == o._h and self.k == o.k)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __getattr__(self, n):
        try:
            return self.k[self.F.index(n)]
        except ValueError:
            raise AttributeError(n)

    def rep(self, **kw):
        return self.__class__(*[kw.get(f, v) for f, v in zip(self.F, self.k)])

    def __repr__(self):
        return "%s(%s)" % (self.__class__.__name__, ", ".join("%s=%r" % x for x in zip(self.F, self.k)))


class Ptr(Val):
    """Pointer to / location of path; nul is False, True or an atom key."""
    F = ("path", "nul")


class RefV(Val):
    """What a reference variable holds."""
    F = ("loc",)


class It(Val):
    """Position in the sequence stored at path (iterator or element pointer)."""
    F = ("path", "idx", "rev")


class SpanV(Val):
    F = ("path", "off", "n")


class Seq(Val):
    """Sequence: pieces are ('c', bytes) ('v', value) ('s', base, lo, hi) ('f', n, value)."""
    F = ("kind", "n", "pieces", "et", "meas")


class Struct(Val):
    """Record; fields is a tuple of (name, value); a missing field is materialised from origin."""
    F = ("cls", "fields", "origin", "ty")

    def get(self, name):
        for n, v in self.fields:
            if n == name:
                return v
        return None

    def with_(self, name, val):
        fs = list(self.fields)
        for i, (n, _) in enumerate(fs):
            if n == name:
                fs[i] = (name, val)
                return Struct(self.cls, tuple(fs), self.origin, self.ty)
        fs.append((name, val))
        fs.sort(key=lambda x: x[0])
        return Struct(self.cls, tuple(fs), self.origin, self.ty)


class Opt(Val):
    """optional / expected; has is True, False or a condition."""
    F = ("has", "val", "err", "kind", "ty")


class Clo(Val):
    """Lambda object: caps is a tuple of (var id or 'this', value)."""
    F = ("lam", "caps", "ops")


class Fn(Val):
    F = ("u", "q")


class FnSym(Val):
    """Unknown callable."""
    F = ("key",)


class Opaque(Val):
    """A value of a library type that only its identity and history matter for."""
    F = ("cls", "data")


class MapV(Val):
    """Associative container: entries is a tuple of (key Lin, value), base an unknown remainder."""
    F = ("base", "n", "entries", "ty", "gone")


class Top(Val):
    F = ("why",)


UNINIT = Top("uninitialised")
VOID = Top("void")


# ---- conditions -----------------------------------------------------------------------------------
# True, False, ('ge', lin), ('eq', lin), ('ne', lin), ('atom', key), ('not', c), ('and', a, b), ('or', a, b)
def is_cond(v):
    return isinstance(v, bool) or (type(v) is tuple and v and v[0] in ("ge", "eq", "ne", "atom", "not", "and", "or"))


def neg(c):
    if isinstance(c, bool):
        return not c
    k = c[0]
    if k == "ge":
        return ("ge", -c[1] - 1)
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "not":
        return c[1]
    if k == "and":
        return ("or", neg(c[1]), neg(c[2]))
    if k == "or":
        return ("and", neg(c[1]), neg(c[2]))
    return ("not", c)


def ge(a, b):
    d = L(a) - L(b)
    return d.c >= 0 if not d.t else ("ge", d)


def eq(a, b):
    d = L(a) - L(b)
    return d.c == 0 if not d.t else ("eq", d)


def ne(a, b):
    return neg(eq(a, b))


# ---- bit slices -----------------------------------------------------------------------------------
def fn_sym(base, name, table):
    items = tuple(sorted(table.items()))
    s = memo_sym(("fn", base.id, items), name, min(table.values()), max(table.values()), "fn", (base.id,),
                 base.imp, base.deps)
    s.base = base
    s.table = table
    return s


def lin_sym(l, lo, hi):
    """One symbol equal to the term l."""
    s = l.single()
    if s is not None:
        return s
    s = memo_sym(("lin", l), "(" + repr(l) + ")", lo, hi, "lin", (l,), l.imprecise(), l.deps())
    s.facts = (S(s) - l, l - S(s))
    return s


def slice_sym(sym, lo, n, width):
    """Symbol for bits [lo, lo+n) of sym (0 <= sym < 2**width)."""
    if sym.kind == "bits":
        b, blo, bn, bw = sym.args
        return slice_sym(SYMS[b], blo + lo, n, bw)
    if lo == 0 and n >= width:
        return sym
    if sym.base is not None or is_small(sym):
        base = sym.base or sym
        if base is sym:
            vals = {v: v for v in range(sym.lo, sym.hi + 1)}
        else:
            vals = sym.table
        return fn_sym(base, "%s[%d:%d]" % (sym.name, lo, lo + n),
                      {k: (v >> lo) & ((1 << n) - 1) for k, v in vals.items()})
    key = ("bits", sym.id, lo, n)
    from .domain import MEMO
    s = MEMO.get(key)
    if s is not None:
        return s
    s = memo_sym(key, "%s[%d:%d]" % (sym.name, lo, lo + n), 0, (1 << n) - 1, "bits", (sym.id, lo, n, width),
                 sym.imp, sym.deps)
    # linking facts: sym = hi*2^(lo+n) + s*2^lo + low
    t = S(sym) - S(s).scale(1 << lo)
    if lo:
        low = slice_sym(sym, 0, lo, width)
        t = t - S(low)
    if lo + n < width:
        q = memo_sym(("bits", sym.id, lo + n, width - lo - n), "%s[%d:%d]" % (sym.name, lo + n, width), 0,
                     (1 << (width - lo - n)) - 1, "bits", (sym.id, lo + n, width - lo - n, width), sym.imp, sym.deps)
        t = t - S(q).scale(1 << (lo + n))
    s.facts = (t, -t)
    return s


def to_runs(l, w, facts):
    """Bits of the non-negative term l < 2**w, least significant first: ('c', v, n) / ('s', sym, lo, n)."""
    if not l.t:
        return [("c", l.c & ((1 << w) - 1), w)]
    items = []
    c = l.c
    ok = c >= 0
    for sid, k in l.t:
        s = SYMS[sid]
        lo, hi = facts.sym_bounds(sid)
        if k <= 0 or k & (k - 1) or lo is None or lo < 0 or hi is None:
            ok = False
            break
        # the declared range, not the current one, decides the width so that slices stay canonical
        hi = s.hi if s.hi is not None and s.lo is not None and s.lo >= 0 else hi
        items.append((k.bit_length() - 1, max(1, hi.bit_length()), s))
    if ok:
        items.sort(key=lambda x: x[0])
        runs = []
        pos = 0
        for p, n, s in items:
            if p < pos:
                ok = False
                break
            if p > pos:
                runs.append(("c", (c >> pos) & ((1 << (p - pos)) - 1), p - pos))
            if (c >> p) & ((1 << n) - 1):
                ok = False
                break
            if s.kind == "bits":
                b, blo, bn, bw = s.args
                runs.append(("s", SYMS[b], blo, bn, bw))
                n = bn
            else:
                runs.append(("s", s, 0, n, n))
            pos = p + n
        if ok:
            if pos < w:
                runs.append(("c", (c >> pos) & ((1 << (w - pos)) - 1), w - pos))
                pos = w
            elif c >> pos:
                ok = False
    if not ok:
        lo, hi = facts.bounds(l)
        if lo is None or lo < 0:
            return None
        hi = (1 << w) - 1 if hi is None or hi >= (1 << w) else hi
        top = l.c
        for sid, k in l.t:
            b = SYMS[sid].hi if k > 0 else SYMS[sid].lo
            top = None if top is None or b is None else top + k * b
        ww = 64 if top is None or top < 0 else max(1, top.bit_length())
        s = lin_sym(l, 0, (1 << ww) - 1)
        runs = [("s", s, 0, ww, ww)]
    return cut(runs, 0, w)


def cut(runs, lo, n):
    """Bits [lo, lo+n) of the runs."""
    res = []
    pos = 0
    for r in runs:
        ln = r[3] if r[0] == "s" else r[2]
        a, b = max(lo, pos), min(lo + n, pos + ln)
        if a < b:
            if r[0] == "c":
                res.append(("c", (r[1] >> (a - pos)) & ((1 << (b - a)) - 1), b - a))
            else:
                res.append(("s", r[1], r[2] + a - pos, b - a, r[4]))
        pos += ln
    if pos < lo + n:
        res.append(("c", 0, lo + n - max(pos, lo)))
    return merge_runs(res)


def merge_runs(runs):
    res = []
    for r in runs:
        if res:
            p = res[-1]
            if p[0] == "c" and r[0] == "c":
                res[-1] = ("c", p[1] | (r[1] << p[2]), p[2] + r[2])
                continue
            if p[0] == "s" and r[0] == "s" and p[1] is r[1] and p[2] + p[3] == r[2]:
                res[-1] = ("s", p[1], p[2], p[3] + r[3], p[4])
                continue
        res.append(r)
    return res


def runs_lin(runs):
    r = ZERO
    pos = 0
    for x in runs:
        if x[0] == "c":
            r = r + (x[1] << pos)
            pos += x[2]
        else:
            # a run reaching the top of the declared width may be shorter than the symbol
            s = slice_sym(x[1], x[2], x[3], x[4])
            r = r + S(s).scale(1 << pos)
            pos += x[3]
    return r


def run_len(r):
    return r[3] if r[0] == "s" else r[2]


def align(a, b):
    """Splits two run lists at common boundaries."""
    pts = set()
    for rs in (a, b):
        p = 0
        for r in rs:
            p += run_len(r)
            pts.add(p)
    pts = sorted(pts)
    res = []
    lo = 0
    for p in pts:
        res.append((cut(a, lo, p - lo), cut(b, lo, p - lo), p - lo))
        lo = p
    return res


def expand_const(a, b):
    """Aligned runs where every constant run is split into uniform all-0 / all-1 stretches."""
    pts = set()
    for rs in (a, b):
        p = 0
        for r in rs:
            n = run_len(r)
            pts.add(p + n)
            if r[0] == "c":
                for i in range(1, n):
                    if ((r[1] >> i) & 1) != ((r[1] >> (i - 1)) & 1):
                        pts.add(p + i)
            p += n
    lo = 0
    for p in sorted(pts):
        yield cut(a, lo, p - lo), cut(b, lo, p - lo), p - lo
        lo = p


def bitop(op, x, y, w, facts):
    """x op y for non-negative terms below 2**w; None if not expressible exactly."""
    from .domain import small_base
    if not x.t and not y.t:
        v = {"&": x.c & y.c, "|": x.c | y.c, "^": x.c ^ y.c}[op]
        return Lin(v)
    if op == "&":
        for p, q in ((x, y), (y, x)):
            if not q.t and q.c >= 0 and q.c & (q.c + 1) == 0 and (not p.t or small_base(p) is None):
                lo, hi = facts.bounds(p)
                if lo is not None and lo >= 0 and hi is not None and q.c and lo // (q.c + 1) == hi // (q.c + 1):
                    return p - lo // (q.c + 1) * (q.c + 1)
    if op in "|^":
        for p, q in ((x, y), (y, x)):
            if not q.t and q.c > 0 and (not p.t or small_base(p) is None):
                lo, hi = facts.bounds(p)
                if lo is not None and lo >= 0 and hi is not None and q.c & ((1 << hi.bit_length()) - 1) == 0:
                    return p + q.c
    a, b = to_runs(x, w, facts), to_runs(y, w, facts)
    if a is None or b is None:
        return None
    out = []
    for ra, rb, n in expand_const(a, b):
        if len(ra) != 1 or len(rb) != 1:
            return _bitop_small(op, x, y, w)
        ra, rb = ra[0], rb[0]
        if rb[0] != "c":
            ra, rb = rb, ra
        if rb[0] != "c":
            if ra == rb:
                out.append(ra if op != "^" else ("c", 0, n))
                continue
            return _bitop_small(op, x, y, w)
        ones = rb[1] != 0
        if op == "&":
            out.append(ra if ones else ("c", 0, n))
        elif op == "|":
            out.append(("c", (1 << n) - 1, n) if ones else ra)
        else:
            if not ones:
                out.append(ra)
            elif ra[0] == "c":
                out.append(("c", ra[1] ^ ((1 << n) - 1), n))
            else:
                r = _bitop_small(op, x, y, w)
                if r is not None:
                    return r
                return None
    return runs_lin(merge_runs(out))


def _bitop_small(op, x, y, w):
    from .domain import small_base, eval_small
    b1 = small_base(x) if x.t else None
    b2 = small_base(y) if y.t else None
    if (x.t and b1 is None) or (y.t and b2 is None) or (b1 is not None and b2 is not None and b1 is not b2):
        return None
    base = b1 or b2
    t = {}
    f = {"&": lambda p, q: p & q, "|": lambda p, q: p | q, "^": lambda p, q: p ^ q}[op]
    for v in range(base.lo, base.hi + 1):
        p, q = eval_small(x, v), eval_small(y, v)
        if p is None or q is None:
            continue
        t[v] = f(p, q)
    return S(fn_sym(base, "(%r%s%r)" % (x, op, y), t))


def map_small(l, f, name):
    """f applied to a term that is a function of one small symbol, else None."""
    from .domain import small_base, eval_small
    b = small_base(l)
    if b is None:
        return None
    t = {}
    for v in range(b.lo, b.hi + 1):
        p = eval_small(l, v)
        if p is not None:
            t[v] = f(p)
    if len(set(t.values())) == 1:
        return Lin(next(iter(t.values())))
    return S(fn_sym(b, name, t))


def trunc(l, w, facts):
    """l modulo 2**w for a non-negative term; None if unknown."""
    lo, hi = facts.bounds(l)
    if lo is not None and lo >= 0 and hi is not None and hi < (1 << w):
        return l
    if lo is not None and hi is not None and lo >= 0 and lo >> w == hi >> w:
        return l - ((lo >> w) << w)
    if not l.t:
        return Lin(l.c & ((1 << w) - 1))
    r = map_small(l, lambda v: v & ((1 << w) - 1), "(%r mod 2^%d)" % (l, w))
    if r is not None:
        return r
    if lo is None or lo < 0:
        return None
    ww = 64 if hi is None else max(w, hi.bit_length())
    runs = to_runs(l, ww, facts)
    if runs is None:
        return None
    return runs_lin(cut(runs, 0, w))


def shr(l, k, w, facts):
    lo, hi = facts.bounds(l)
    if lo is None or lo < 0:
        return None
    if hi is not None and lo >> k == hi >> k:
        return Lin(lo >> k)
    runs = to_runs(l, w, facts)
    if runs is None:
        return None
    return runs_lin(cut(runs, k, w - k)) if k < w else ZERO


# ---- sequences ------------------------------------------------------------------------------------
def plen(p):
    k = p[0]
    if k == "c":
        return Lin(len(p[1]))
    if k == "v":
        return ONE
    if k == "s":
        return p[3] - p[2]
    return p[1]


def mk_seq(kind, pieces, et=None, meas=None):
    ps = norm_pieces(pieces)
    n = ZERO
    for p in ps:
        n = n + plen(p)
    return Seq(kind, n, tuple(ps), et, meas)


def norm_pieces(pieces):
    res = []
    for p in pieces:
        if p[0] == "v":
            v = p[1]
            if isinstance(v, Lin):
                if not v.t and 0 <= v.c < 256:
                    p = ("c", bytes([v.c]))
                else:
                    s = v.single()
                    if s is not None and s.kind == "byte" and s.args and s.args[0] == "elem":
                        p = ("s", s.args[1], s.args[2], s.args[2] + 1)
            elif isinstance(v, Struct) and v.origin and v.origin[0] == "elem" and not v.fields:
                p = ("s", v.origin[1], v.origin[2], v.origin[2] + 1)
        n = plen(p)
        if not n.t and n.c == 0:
            continue
        if res:
            q = res[-1]
            if q[0] == "c" and p[0] == "c":
                res[-1] = ("c", q[1] + p[1])
                continue
            if q[0] == "s" and p[0] == "s" and q[1] == p[1] and q[3] == p[2]:
                res[-1] = ("s", q[1], q[2], p[3])
                continue
            if q[0] == "f" and p[0] == "f" and q[2] == p[2]:
                res[-1] = ("f", q[1] + p[1], q[2])
                continue
        res.append(p)
    return res


def const_bytes(seq):
    if not seq.pieces:
        return b""
    if len(seq.pieces) == 1 and seq.pieces[0][0] == "c":
        return seq.pieces[0][1]
    return None


def lit(s, kind="str", et=None):
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    return Seq(kind, Lin(len(s)), (("c", s),) if s else (), et, None)


# ---- floating point: a rational constant times a quotient of products of integer terms, rounding disregarded -------------------
def flt(c, num=(), den=()):
    """Opaque("fl", (constant, numerators, denominators)); constant terms are folded in."""
    c = Fraction(c)
    ns, ds = [], []
    for x in num:
        if not x.t:
            c *= x.c
        else:
            ns.append(x)
    for x in den:
        if not x.t:
            if x.c == 0:
                return Top("float")
            c /= x.c
        elif x in ns:
            ns.remove(x)
        else:
            ds.append(x)
    if c == 0:
        ns, ds = [], []
    return Opaque("fl", (c, tuple(sorted(ns, key=repr)), tuple(sorted(ds, key=repr))))


def is_flt(v):
    return isinstance(v, Opaque) and v.cls == "fl"


def as_flt(v):
    return v if is_flt(v) else flt(1, (v,)) if isinstance(v, Lin) else None


def flt_op(op, x, y):
    """The term of x op y, or None."""
    x, y = as_flt(x), as_flt(y)
    if x is None or y is None:
        return None
    (a, n, d), (b, m, e) = x.data, y.data
    if op == "*":
        return flt(a * b, n + m, d + e)
    if op == "/":
        return flt(a / b, n + e, d + m) if b else None
    if op in "+-":
        b = b if op == "+" else -b
        if not a:
            return flt(b, m, e)
        if not b:
            return flt(a, n, d)
        if d == e and n == m:
            return flt(a + b, n, d)
        if d == e and len(n) <= 1 and len(m) <= 1:
            q = a.denominator * b.denominator
            one = L(1)
            s = (n[0] if n else one).scale(a.numerator * b.denominator) + (m[0] if m else one).scale(b.numerator * a.denominator)
            return flt(Fraction(1, q), (s,), d)
    return None


def flt_cmp(op, x, y):
    """The condition x op y where both are integers or one of them is zero."""
    x, y = as_flt(x), as_flt(y)
    if x is None or y is None:
        return None
    (a, n, d), (b, m, e) = x.data, y.data
    if not d and not e and len(n) <= 1 and len(m) <= 1:
        one = L(1)
        l = (n[0] if n else one).scale(a.numerator * b.denominator)
        r = (m[0] if m else one).scale(b.numerator * a.denominator)
        return cmp_lin(op, l, r)
    return None


def cmp_lin(op, a, b):
    return {"==": lambda: eq(a, b), "!=": lambda: ne(a, b), ">=": lambda: ge(a, b), "<=": lambda: ge(b, a),
            ">": lambda: ge(a, b + 1), "<": lambda: ge(b, a + 1)}[op]()
