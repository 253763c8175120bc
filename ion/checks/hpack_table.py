"""C06: histories of public DynamicTable operations against a reference list."""
from .util import *

CT = "ion::DynamicTable::DynamicTable"
MAXTAB = 65536


def header(i):
    """A header whose name and value are unknown strings."""
    ps = {}
    for part in ("name", "value"):
        n = S(memo_sym(("hlen", i, part), "|h%d.%s|" % (i, part), 0, 1 << 20))
        ps[part] = Seq("str", n, (("s", ("h", i, part), ZERO, n),), None, None)
    return Struct("ion::HttpHeader", (("name", ps["name"]), ("value", ps["value"])), None, None)


def hsize(i):
    return sum((S(memo_sym(("hlen", i, p), "|h%d.%s|" % (i, p), 0, 1 << 20)) for p in ("name", "value")), L(32))


class RefTable:
    """newest first"""

    def __init__(self, ents, mx):
        self.ents = tuple(ents)
        self.max = mx

    def size(self, ents=None):
        return sum((hsize(i) for i in (self.ents if ents is None else ents)), ZERO)

    def shrink(self, eng, st, room):
        """[(state, entries)] after evicting the oldest until size <= room"""
        out = []
        live = [(st, self.ents)]
        while live:
            s, es = live.pop()
            if not es:
                out.append((s, es))
                continue
            T, F = eng.branch(s, ge(room, self.size(es)))
            out += [(x, es) for x in T]
            live += [(x, es[:-1]) for x in F]
        return out

    def insert(self, eng, st, i):
        out = []
        T, F = eng.branch(st, ge(self.max, hsize(i)))
        out += [(x, RefTable((), self.max)) for x in F]
        for x in T:
            out += [(y, RefTable((i,) + es, self.max)) for y, es in self.shrink(eng, x, self.max - hsize(i))]
        return out

    def limit(self, eng, st, mx):
        return [(y, RefTable(es, mx)) for y, es in self.shrink(eng, st, mx)]


def start(D, budget):
    eng = Engine(D, peel=8, budget=budget)
    eng.maxstates = 50000
    st = St()
    mx = S(new_sym("max", 0, MAXTAB))
    this = var(st, "table", eng.zero(eng.find_type("ion::DynamicTable")) if False else
               Struct("ion::DynamicTable", (), "raw", None))
    res, exc = eng.run(CT, st, this, [mx], 1)
    return eng, this, mx, [s for s, _ in res], exc


def observe(rep, eng, s, this, ref, w, label):
    """size(), count() and every get(i) against the reference."""
    res, exc = eng.run("ion::DynamicTable::size", s, this, [])
    for x, v in res:
        rep.judge("size", eng, x, eq(v, ref.size()), "ion::DynamicTable::size", w, "%s: size() is %r, the entries add up to %r" % (label, v, ref.size()))
        rep.judge("bound", eng, x, ge(ref.max, v), "ion::DynamicTable::size", w, "%s: size() %r exceeds the maximum" % (label, v))
        res2, _ = eng.run("ion::DynamicTable::count", x, this, [])
        for y, c in res2:
            if not rep.judge("entries", eng, y, eq(c, len(ref.ents)), "ion::DynamicTable::count", w,
                             "%s: count() is %r, %d entries remain" % (label, c, len(ref.ents))):
                continue
            for i, h in enumerate(ref.ents):
                r3, _ = eng.run("ion::DynamicTable::get", y, this, [L(i)])
                for z, e in r3:
                    ok = True
                    for nm in ("name", "value"):
                        for z1, q in field(eng, z, e, nm):
                            r = same_seq(eng, z1, q, dict(header(h).fields)[nm]) \
                                if isinstance(q, Seq) else None
                            if r is None:
                                rep.undecided("entries", "%s: entry %d not expressible" % (label, i))
                                ok = False
                            elif r is False:
                                rep.judge("entries", eng, z1, False, "ion::DynamicTable::get", w, "%s: get(%d).%s is not that of the %s entry" % (
                                    label, i, nm, "newest" if i == 0 else "%d-th newest" % i))
                                ok = False
                    if ok:
                        rep.ok("entries")


def history(rep, D, ops, budget):
    eng, this, mx, live, exc = start(D, budget)
    w = where_fn(eng, "ion::DynamicTable::insert")
    live = [(s, RefTable((), mx)) for s in live]
    done = []
    for k, op in enumerate(ops):
        nxt = []
        for s, ref in live:
            if op == "insert":
                hv = header(k)
                p = var(s, "arg%d" % k, hv)
                res, exc = eng.run("ion::DynamicTable::insert", s, this, [p], 1)
            else:
                m2 = S(memo_sym(("setmax", k), "max%d" % k, 0, MAXTAB))
                res, exc = eng.run("ion::DynamicTable::set_max_table_size", s, this, [m2], 1)
            for x in exc:
                rep.judge("entries", eng, x, False, "ion::DynamicTable::" + op, x.exc.where, "throws %s" % x.exc.ty)
            for x, _ in res:
                nxt += ref.insert(eng, x, k) if op == "insert" else ref.limit(eng, x, m2)
        live = nxt
        done.append(op)
        rep.count("histories_states", len(live))
    for s, ref in live:
        observe(rep, eng, s, this, ref, w, " ".join(done))
    rep.sample("entries", "history %s: %d abstract cases" % (" ".join(done), len(live)))
    rep.engine(eng, ("bounds", "null"), "in-bounds")


def histories(k):
    if k == 0:
        return [()]
    out = []
    for h in histories(k - 1):
        out += [h + ("insert",), h + ("limit",)]
    return out


def c06(D, rep, tier):
    rep.rule("size", "size() equals the sum over the entries of name + value + 32 after every history of insertions and limit changes")
    rep.rule("bound", "size() never exceeds the current maximum")
    rep.rule("entries", "count() and get(i) are those of the list kept newest first with oldest-first, minimal eviction")
    rep.rule("in-bounds", "table accesses stay inside the table")
    deep = tier == "thorough"
    for k in range(1, 6 if deep else 4):
        for h in histories(k):
            if deep and k == 5 and h.count("limit") > 2:
                continue
            if "insert" in h and h[0] != "limit":
                history(rep, D, h, 20000000 if deep else 4000000)
