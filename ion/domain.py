"""Abstract domain: linear integer terms over symbols, exact value sets for small symbols, and a
Fourier-Motzkin entailment test for conjunctions of linear inequalities (polyhedra domain queries)."""
from math import gcd


class Sym:
    __slots__ = ("id", "name", "lo", "hi", "kind", "args", "imp", "deps", "base", "table", "_facts", "mask0", "kids")

    def __init__(self, id, name, lo, hi, kind, args, imp, deps):
        self.id = id
        self.name = name
        self.lo = lo
        self.hi = hi
        self.kind = kind      # 'in' input, 'phi', 'op', 'byte', 'fn', ...
        self.args = args
        self.imp = imp        # imprecise: stands for something the analysis did not interpret
        self.deps = deps      # ids of phi symbols this symbol's definition mentions
        self.base = None      # for kind 'fn': the small symbol this is a function of
        self.table = None     # for kind 'fn': dict base value -> value
        self._facts = ()      # intrinsic facts (Lin >= 0)
        self.mask0 = None     # admissible values of a small symbol that is not a full range
        self.kids = ()        # symbols whose intrinsic facts mention this one

    @property
    def facts(self):
        return self._facts

    @facts.setter
    def facts(self, fs):
        self._facts = fs
        for q in {q for f in fs for q, _ in f.t if q != self.id}:
            if self.id not in SYMS[q].kids:
                SYMS[q].kids += (self.id,)


SYMS = []
MEMO = {}
DEEP = [False]      # also use facts about symbols derived from the ones in question (slower)
EMPTY = frozenset()


FNB = {}
SMV = {}


def reset():
    SYMS.clear()
    MEMO.clear()
    FNB.clear()
    SMV.clear()


def new_sym(name, lo=None, hi=None, kind="in", args=(), imp=False, deps=EMPTY):
    s = Sym(len(SYMS), name, lo, hi, kind, args, imp, deps)
    SYMS.append(s)
    return s


def memo_sym(key, name, lo=None, hi=None, kind="op", args=(), imp=False, deps=EMPTY):
    s = MEMO.get(key)
    if s is None:
        s = new_sym(name, lo, hi, kind, args, imp, deps)
        MEMO[key] = s
    return s


class Lin:
    """const + sum coef*sym; immutable."""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t            # tuple of (symid, coef), sorted by symid, coef != 0
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self.__eq__(o)

    @property
    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                del d[s]
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, tuple((s, a * k) for s, a in self.t))

    def __repr__(self):
        return fmt(self)

    def single(self):
        """The symbol if this term is exactly one symbol, else None."""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return SYMS[self.t[0][0]]
        return None

    def deps(self):
        r = EMPTY
        for s, _ in self.t:
            r = r | SYMS[s].deps
        return r

    def subst(self, m):
        """m: symid -> Lin"""
        hit = False
        for s, _ in self.t:
            if s in m:
                hit = True
                break
        if not hit:
            return self
        r = Lin(self.c, tuple((s, k) for s, k in self.t if s not in m))
        for s, k in self.t:
            if s in m:
                r = r + m[s].scale(k)
        return r

    def imprecise(self):
        return any(SYMS[s].imp for s, _ in self.t)


ZERO = Lin(0)
ONE = Lin(1)


def L(x):
    return x if isinstance(x, Lin) else Lin(x)


def S(sym):
    return Lin(0, ((sym.id, 1),))


def fmt(l):
    if not isinstance(l, Lin):
        return repr(l)
    parts = []
    for s, k in l.t:
        n = SYMS[s].name if s < len(SYMS) else "?%d" % s
        if k == 1:
            parts.append("+" + n)
        elif k == -1:
            parts.append("-" + n)
        else:
            parts.append("%+d*%s" % (k, n))
    if l.c or not parts:
        parts.append("%+d" % l.c)
    r = " ".join(parts)
    return r[1:] if r.startswith("+") else r


def norm(l):
    """Normalises the inequality l >= 0 over the integers."""
    if not l.t:
        return l
    g = 0
    for _, k in l.t:
        g = gcd(g, abs(k))
        if g == 1:
            return l
    if g > 1:
        return Lin(l.c // g, tuple((s, k // g) for s, k in l.t))
    return l


def mask_bounds(m):
    """lowest and highest set bit"""
    lo = (m & -m).bit_length() - 1
    return lo, m.bit_length() - 1


class Facts:
    """Immutable conjunction: linear inequalities, disequalities, value sets of small symbols."""
    __slots__ = ("ge", "ne", "vs", "_cache")

    def __init__(self, ge=EMPTY, ne=EMPTY, vs=None):
        self.ge = ge          # frozenset of Lin (>= 0)
        self.ne = ne          # frozenset of Lin (!= 0)
        self.vs = vs or {}    # symid -> bitmask (value = bit index + SYM.lo)
        self._cache = {}

    def key(self):
        return (self.ge, self.ne, frozenset(self.vs.items()))

    # bounds of one symbol
    def sym_bounds(self, sid):
        s = SYMS[sid]
        lo, hi = s.lo, s.hi
        m = self.vs.get(sid, s.mask0)
        if m is not None:
            if m == 0:
                return 1, 0
            a, b = mask_bounds(m)
            lo, hi = s.lo + a, s.lo + b
        elif s.base is not None:
            bm = self.vs.get(s.base.id)
            if bm is not None:
                r = FNB.get((sid, bm))
                if r is None:
                    vals = [s.table[v] for v in mask_values(bm, s.base.lo) if v in s.table]
                    r = FNB[(sid, bm)] = (min(vals), max(vals)) if vals else (lo, hi)
                lo, hi = r
        b = self.unary().get(sid)
        if b is not None:
            if b[0] is not None and (lo is None or b[0] > lo):
                lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi):
                hi = b[1]
        return lo, hi

    def unary(self):
        """Bounds of single symbols stated by the facts."""
        r = self._cache.get("un")
        if r is None:
            r = {}
            for f in self.ge:
                if len(f.t) == 1:
                    (s, k), = f.t
                    b = r.setdefault(s, [None, None])
                    if k > 0:
                        v = -(f.c // k)
                        if b[0] is None or v > b[0]:
                            b[0] = v
                    else:
                        v = f.c // -k
                        if b[1] is None or v < b[1]:
                            b[1] = v
            self._cache["un"] = r
        return r

    def bounds(self, l):
        """cached cheap interval"""
        if len(l.t) > 1 or (l.t and SYMS[l.t[0][0]].base is not None):
            b = small_base(l)
            if b is not None:
                vals = self.small_values(l, b)
                return (min(vals), max(vals)) if vals else (1, 0)
        lo = hi = l.c
        for s, k in l.t:
            a, b = self.sym_bounds(s)
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + a * k
            hi = None if hi is None or b is None else hi + b * k
        return lo, hi

    def small_values(self, l, b):
        m = self.vs.get(b.id)
        if m is None:
            m = full_mask(b)
        r = SMV.get((l, m))
        if r is None:
            r = [eval_small(l, v) for v in mask_values(m, b.lo)]
            r = SMV[(l, m)] = [x for x in r if x is not None]
        return r

    def values(self, l, limit=256):
        """The exact finite set of values l can have, if it is a function of one small symbol."""
        if not l.t:
            return [l.c]
        b = small_base(l)
        if b is None:
            return None
        r = sorted(set(self.small_values(l, b)))
        return r if len(r) <= limit else None

    def gather(self, l, extra=()):
        """All facts connected with the symbols of l."""
        seen = set()
        work = [s for s, _ in l.t]
        res = []
        used = set()
        index = self._cache.get("ix")
        if index is None:
            index = {}
            for f in self.ge:
                for s, _ in f.t:
                    index.setdefault(s, []).append(f)
            self._cache["ix"] = index
        while work:
            s = work.pop()
            if s in seen:
                continue
            seen.add(s)
            sy = SYMS[s]
            for f in index.get(s, ()):
                if f not in used:
                    used.add(f)
                    res.append(f)
                    for q, _ in f.t:
                        if q not in seen:
                            work.append(q)
            for f in sy._facts:
                if f not in used:
                    used.add(f)
                    res.append(f)
                    for q, _ in f.t:
                        if q not in seen:
                            work.append(q)
            if DEEP[0]:
                for q in sy.kids:
                    if q in index and q not in seen:
                        work.append(q)
        for s in seen:
            lo, hi = self.sym_bounds(s)
            if lo is not None:
                res.append(Lin(-lo, ((s, 1),)))
            if hi is not None:
                res.append(Lin(hi, ((s, -1),)))
        return res

    def implies(self, l):
        """Proves l >= 0."""
        if not l.t:
            return l.c >= 0
        lo, _ = self.bounds(l)
        if lo is not None and lo >= 0:
            return True
        if l in self.ge:
            return True
        r = self._cache.get((l, DEEP[0]))
        if r is None:
            neg = norm(-l - 1)
            r = fm_infeasible(self.gather(l) + [neg])
            if not r and self.ne:
                # l == some term forced away from its boundary: l >= -1 together with l + 1 != 0
                b = l + 1
                if (b in self.ne or (-b) in self.ne):
                    r = self.implies(b)
            self._cache[(l, DEEP[0])] = r
        return r

    def refutes(self, l):
        """Proves that l >= 0 cannot hold."""
        return self.implies(-l - 1)

    def is_zero(self, l):
        return self.implies(l) and self.implies(-l)

    def nonzero(self, l):
        if not l.t:
            return l.c != 0
        if l in self.ne or (-l) in self.ne:
            return True
        b = small_base(l)
        if b is not None:
            return 0 not in self.small_values(l, b)
        return self.implies(l - 1) or self.implies(-l - 1)

    def add(self, l):
        """Returns Facts with l >= 0 added, or None if infeasible."""
        l = norm(l)
        if not l.t:
            return self if l.c >= 0 else None
        lo, hi = self.bounds(l)
        if lo is not None and lo >= 0:
            return self
        if hi is not None and hi < 0:
            return None
        r = self
        # small symbols: filter value sets exactly
        b = small_base(l)
        if b is not None:
            return self.filter_vs(b, lambda v: (eval_small(l, v) or 0) >= 0 and eval_small(l, v) is not None)
        if self.implies(-l - 1):
            return None
        if len(l.t) > 1 and self.implies(l):
            return self                 # (bounds of single symbols are kept: bounds() looks for them)
        r = Facts(self.ge | {l}, self.ne, self.vs)
        # boundary sharpening with disequalities
        for n in self.ne:
            if n == l or -n == l:
                r = Facts((r.ge - {l}) | {norm(l - 1)}, r.ne, r.vs)
        return r

    def filter_vs(self, s, pred):
        m = self.vs.get(s.id)
        if m is None:
            m = full_mask(s)
        nm = 0
        for v in mask_values(m, s.lo):
            if pred(v):
                nm |= 1 << (v - s.lo)
        if nm == 0:
            return None
        if nm == m:
            return self
        vs = dict(self.vs)
        vs[s.id] = nm
        r = Facts(self.ge, self.ne, vs)
        # consistency with the linear part
        for f in self.ge:
            if any(q == s.id or SYMS[q].base is s for q, _ in f.t):
                if r.refutes(f):
                    return None
        return r

    def add_eq(self, l):
        b = small_base(l)
        if b is not None:
            return self.filter_vs(b, lambda v: eval_small(l, v) == 0)
        r = self.add(l)
        if r is None:
            return None
        return r.add(-l)

    def add_ne(self, l):
        if not l.t:
            return self if l.c != 0 else None
        if l.t and l.t[0][1] < 0:
            l = -l
        b = small_base(l)
        if b is not None:
            return self.filter_vs(b, lambda v: eval_small(l, v) not in (0, None))
        if self.implies(l) and self.implies(-l):
            return None
        if self.implies(l):
            return self.add(l - 1)
        if self.implies(-l):
            return self.add(-l - 1)
        return Facts(self.ge, self.ne | {l}, self.vs)


def is_small(s):
    return s.kind in ("byte", "small") and s.lo is not None and s.hi is not None and s.hi - s.lo < 1024


def full_mask(s):
    if s.mask0 is not None:
        return s.mask0
    return (1 << (s.hi - s.lo + 1)) - 1


def small_base(l):
    """The one small symbol every symbol of l is a function of, or None."""
    b = None
    for sid, _ in l.t:
        s = SYMS[sid]
        x = s.base if s.base is not None else (s if is_small(s) else None)
        if x is None or (b is not None and b is not x):
            return None
        b = x
    return b


def eval_small(l, v):
    """Value of l when its small base symbol has value v (None: outside the table)."""
    r = l.c
    for sid, k in l.t:
        s = SYMS[sid]
        if s.base is None:
            r += k * v
        else:
            x = s.table.get(v)
            if x is None:
                return None
            r += k * x
    return r


MV = {}


def mask_values(m, lo):
    r = MV.get((m, lo))
    if r is None:
        r = MV[(m, lo)] = tuple(mask_values1(m, lo))
    return r


def mask_values1(m, lo):
    v = lo
    while m:
        if m & 1:
            yield v
        m >>= 1
        v += 1


FM_CAP = 350


def fm_infeasible(cs):
    """True if the conjunction (each >= 0) has no rational (hence no integer) solution."""
    work = set()
    for c in cs:
        c = norm(c)
        if not c.t:
            if c.c < 0:
                return True
            continue
        work.add(c)
    # drop dominated constraints (same terms, larger constant)
    work = dominated(work)
    while work:
        # choose the variable with the least fill-in
        pos, neg = {}, {}
        for c in work:
            for s, k in c.t:
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        best = None
        for s in set(pos) | set(neg):
            p, n = pos.get(s, 0), neg.get(s, 0)
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, s)
        s = best[1]
        P, N, rest = [], [], set()
        for c in work:
            k = 0
            for q, a in c.t:
                if q == s:
                    k = a
                    break
            if k > 0:
                P.append((k, c))
            elif k < 0:
                N.append((-k, c))
            else:
                rest.add(c)
        for kp, cp in P:
            for kn, cn in N:
                g = gcd(kp, kn)
                r = norm(cp.scale(kn // g) + cn.scale(kp // g))
                if not r.t:
                    if r.c < 0:
                        return True
                    continue
                rest.add(r)
        work = dominated(rest)
        if len(work) > FM_CAP:
            return False
    return False


def dominated(work):
    best = {}
    for c in work:
        o = best.get(c.t)
        if o is None or c.c < o:
            best[c.t] = c.c
    return {Lin(c, t) for t, c in best.items()}


def lin_syms(x):
    if isinstance(x, Lin):
        return [s for s, _ in x.t]
    if isinstance(x, tuple):
        return [s for y in x for s in lin_syms(y)]
    return []


def evaluate(x, m):
    """x with every term whose symbols are assigned replaced by its value."""
    if isinstance(x, Lin):
        if all(s in m for s, _ in x.t):
            return x.c + sum(k * m[s] for s, k in x.t)
        return x
    if isinstance(x, tuple):
        return tuple(evaluate(y, m) for y in x)
    return x


def resolve(x, m):
    """Like evaluate, but terms over unassigned symbols are named by what the symbols stand for."""
    if isinstance(x, Lin):
        v = evaluate(x, m)
        if isinstance(v, int):
            return v
        r = [x.c]
        for s, k in x.t:
            if s in m:
                r[0] += k * m[s]
            else:
                r.append((k, resolve(SYMS[s].args, m) if SYMS[s].args else s))
        return tuple([r[0]] + sorted(r[1:], key=repr))
    if isinstance(x, tuple):
        return tuple(resolve(y, m) for y in x)
    return x


def coherent(m, atoms):
    """The same datum named in two ways must have one value."""
    seen = {}
    for s, v in m.items():
        a = SYMS[s].args
        if not a:
            continue
        if a[0] == "elem" or (a[0] == "in" and len(a) > 1 and isinstance(a[1], tuple) and lin_syms(a[1])):
            k = evaluate(a, m)
            if seen.setdefault(k, v) != v:
                return False
        elif a[0] == "sel":
            i = evaluate(a[2], m)
            if isinstance(i, int) and (not 0 <= i < len(a[1]) or a[1][i] != v):
                return False
    if atoms:
        seen = {}
        for k, v in atoms.items():
            if lin_syms(k) or k[0] == "streq":
                e = evaluate(k, m)
                if seen.setdefault(e, v) != v:
                    return False
    return True


# ---- concretisation: one integer point of an abstract state (used to report a violation) -----------
def find_model(facts, extra=(), budget=4000, atoms=None):
    """A concrete assignment {symid: int} of the conjunction, or None if none was found."""
    cons = set(facts.ge) | set(extra)
    nes = list(facts.ne)
    syms = set()
    work = [s for c in cons for s, _ in c.t] + [s for c in nes for s, _ in c.t] + list(facts.vs)
    while work:
        s = work.pop()
        if s in syms:
            continue
        syms.add(s)
        sy = SYMS[s]
        if sy.base is not None:
            work.append(sy.base.id)
        if sy.args and sy.args[0] in ("elem", "sel"):
            work.extend(lin_syms(sy.args))
        for f in sy.facts:
            if f not in cons:
                cons.add(f)
                work.extend(q for q, _ in f.t)
    cons = list(cons)
    bysym = {}
    for c in cons:
        for s, _ in c.t:
            bysym.setdefault(s, []).append(c)
    dom = {}
    for s in syms:
        sy = SYMS[s]
        lo, hi = facts.sym_bounds(s)
        if lo is None:
            lo = -(1 << 62)
        if hi is None:
            hi = 1 << 62
        dom[s] = (lo, hi)
    masks = {s: facts.vs.get(s, SYMS[s].mask0) for s in syms if SYMS[s].base is None}

    def propagate(dom, changed):
        work = list(changed) if changed is not None else list(cons)
        n = 0
        inq = set(work)
        while work:
            n += 1
            if n > 3000:
                return True
            c = work.pop()
            inq.discard(c)
            hi = c.c
            for s, k in c.t:
                a, b = dom[s]
                hi += k * (b if k > 0 else a)
            if hi < 0:
                return False
            for s, k in c.t:
                a, b = dom[s]
                top = k * (b if k > 0 else a)
                rest = hi - top          # max of the others + const ; need k*x >= -rest
                if k > 0:
                    na = -(rest // k)
                    if na > a:
                        if na > b:
                            return False
                        dom[s] = (na, b)
                        for d in bysym.get(s, ()):
                            if d not in inq:
                                inq.add(d)
                                work.append(d)
                else:
                    nb = rest // (-k)
                    if nb < b:
                        if nb < a:
                            return False
                        dom[s] = (a, nb)
                        for d in bysym.get(s, ()):
                            if d not in inq:
                                inq.add(d)
                                work.append(d)
        return True

    left = [budget]
    bases = {SYMS[q].base.id for q in syms if SYMS[q].base is not None}
    import time
    end = time.time() + 4

    def fnsync(dom):
        """values of function symbols whose base is fixed"""
        for s in syms:
            sy = SYMS[s]
            if sy.base is not None:
                a, b = dom[sy.base.id]
                if a == b:
                    v = sy.table.get(a)
                    if v is None:
                        return False
                    x, y = dom[s]
                    if not (x <= v <= y):
                        return False
                    dom[s] = (v, v)
        return True

    def solve(dom):
        left[0] -= 1
        if left[0] < 0 or time.time() > end:
            left[0] = -1
            return None
        for s, (a, b) in dom.items():
            if a == b and masks.get(s) is not None:
                o = a - SYMS[s].lo
                if o < 0 or not (masks[s] >> o) & 1:
                    return None
        if not fnsync(dom):
            return None
        for c in nes:
            if all(dom[s][0] == dom[s][1] for s, _ in c.t):
                if c.c + sum(k * dom[s][0] for s, k in c.t) == 0:
                    return None
        pick = None
        for s, (a, b) in dom.items():
            if a != b and SYMS[s].base is None:
                key = (0 if s in bases and is_small(SYMS[s]) else 1, b - a)
                if pick is None or key < pick[0]:
                    pick = (key, s)
        if pick is None:
            for c in cons:
                if c.c + sum(k * dom[s][0] for s, k in c.t) < 0:
                    return None
            m = {s: a for s, (a, b) in dom.items()}
            return m if coherent(m, atoms) else None
        s = pick[1]
        a, b = dom[s]
        m = masks.get(s)
        if m is not None:
            vals = [v for v in mask_values(m, SYMS[s].lo) if a <= v <= b]
        elif b - a < 300:
            vals = range(a, b + 1)
        else:
            mid = (a + b) // 2
            vals = [a, a + 1, a + 2, b, b - 1, mid, 0, 1, 32, 100, 4096, 16384, 65536]
        seen = set()
        for v in vals:
            if v in seen or v < a or v > b:
                continue
            seen.add(v)
            d = dict(dom)
            d[s] = (v, v)
            if propagate(d, bysym.get(s, ())):
                r = solve(d)
                if r is not None:
                    return r
            if left[0] < 0:
                return None
        return None

    if not propagate(dom, None):
        return None
    return solve(dom)
