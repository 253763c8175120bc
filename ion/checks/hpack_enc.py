"""C05 (and the encoder half of C01, C04): what HeaderBlockEncoder emits, read back by the RFC 7541 reference."""
from .util import *
from .hpack_dec import Ref, events, epoch, oracle_table, show
from ..values import map_small, bitop, shr
from .. import rfc7541

ENC = "ion::HeaderBlockEncoder::encode"
INT = "ion::IntegerEncoder::encode"


def skey(eng, st, v):
    for s, q in as_seq(eng, st, v):
        return tuple(drop_empty(eng, s, q.pieces))


def count_sym(ep):
    return S(memo_sym(("dyncount", ep), "table count", 0, 1 << 20))


def idx_sym(what, ep, key):
    return S(memo_sym((what, ep, key), "%s index" % what, 0, 1 << 20))


def install(eng):
    """DynamicTable and BitWriter, each analysed on its own, are replaced by summaries that record their use."""
    def insert(e, c):
        out = []
        for s, v in c.val(0):
            for s1, n in field(e, s, v, "name"):
                for s2, x in field(e, s1, v, "value"):
                    s2.ghost["ev"] = events(s2) + (("insert", n, x),)
                    out.append((s2, VOID))
        return out

    def limit(e, c):
        out = []
        for s, v in c.val(0):
            s.ghost["ev"] = events(s) + (("limit", v),)
            out.append((s, VOID))
        return out

    def opt_index(e, c, s, what, key):
        ep = epoch(s)
        t = e.strip(c.f["r"])
        T, F = e.branch(s, ("atom", ("b", (what, ep, key))))
        i = idx_sym(what, ep, key)
        out = []
        for x in T:
            e.assume(x, ge(count_sym(ep) - 1, i))
            x.ghost["found"] = x.ghost.get("found", ()) + ((what, ep, key),)
            out.append((x, Opt(True, i, None, "opt", t)))
        return out + [(x, Opt(False, VOID, None, "opt", t)) for x in F]

    def find(e, c):
        out = []
        for s, v in c.val(0):
            for s1, n in field(e, s, v, "name"):
                for s2, x in field(e, s1, v, "value"):
                    out += opt_index(e, c, s2, "find", (skey(e, s2, n), skey(e, s2, x)))
        return out

    def find_name(e, c):
        out = []
        for s, v in c.val(0):
            out += opt_index(e, c, s, "find_name", (skey(e, s, v),))
        return out

    def bits(st, p):
        return st.ghost.get(("bw", p), ())

    def bpath(c):
        return c.this.path if isinstance(c.this, Ptr) else None

    def wbits(e, c):
        out = []
        for s, v in c.val(0):
            for s1, n in c.val(1, s):
                s1.ghost[("bw", bpath(c))] = bits(s1, bpath(c)) + ((v, n),)
                out.append((s1, VOID))
        return out

    def fin(e, c):
        s = c.st
        key = ("bw", bits(s, bpath(c)))
        t = e.strip(c.f["r"])
        total = sum((n for _, n in key[1] if isinstance(n, Lin)), ZERO)
        n = S(memo_sym(("len", key), "|huffman code|", 0, 4 * len(key[1]) + 1))
        s.ghost[("bw", bpath(c))] = ()
        return [(s, Seq("vec", n, (("s", key, ZERO, n),), e.elem_type(t), None))]
    D = "ion::DynamicTable::"
    eng.hooks[D + "insert"] = insert
    eng.hooks[D + "set_max_table_size"] = limit
    eng.hooks[D + "find"] = find
    eng.hooks[D + "find_name"] = find_name
    eng.hooks[D + "count"] = lambda e, c: [(c.st, count_sym(epoch(c.st)))]
    eng.hooks["ion::BitWriter::write_bits"] = wbits
    eng.hooks["ion::BitWriter::finalize"] = fin


def header(eng, i, nlen, vlen):
    ps = []
    for part, n in (("name", nlen), ("value", vlen)):
        q = lit(n, "str") if isinstance(n, str) else Seq("str", L(n), (("s", ("mem", "h%d.%s" % (i, part), None, L(n)), ZERO, L(n)),) if n else (), None, None)
        ps.append((part, q))
    return Struct("ion::HttpHeader", tuple(ps), None, eng.find_type("ion::HttpHeader"))


class RefOut(Ref):
    """Reads emitted octets."""

    def __init__(self, eng, out, table, headers):
        self.eng, self.img, self.n, self.table = eng, out, out.n, table
        self.base = None

    def string(self, st, pos):
        eng = self.eng
        out = []
        have, not_ = eng.branch(st, ge(self.n - 1, pos))
        out += [(x, None, pos) for x in not_]
        for s in have:
            for s1, b in self.byte(s, pos):
                hs, ps = eng.branch(s1, ge(b, 128))
                for huff, xs in ((True, hs), (False, ps)):
                    for x in xs:
                        for y, ln, p, may in self.integer(x, pos, 7):
                            if ln is None:
                                out.append((y, None, p))
                                continue
                            fit, over = eng.branch(y, ge(self.n - p, ln))
                            out += [(z, None, p) for z in over]
                            for z in fit:
                                for z1, q in as_pairs(eng.seq_slice(z, self.img, p, p + ln), z):
                                    out.append((z1, ("huff" if huff else "raw", q), p + ln))
        return out


def as_pairs(r, st):
    """seq_slice gives [(state, pieces)]"""
    return [(s, q if isinstance(q, Seq) else mk_seq("str", q)) for s, q in r]


class Judge:
    def __init__(self, rep, eng, table, headers):
        self.rep, self.eng, self.table, self.headers = rep, eng, table, headers
        self.w = where_fn(eng, ENC)

    def bad(self, rid, st, text):
        self.rep.judge(rid, self.eng, st, False, ENC, self.w, text)

    def string_is(self, st, got, want, what):
        """Whether emitted string `got` denotes `want`; reports."""
        eng, rep = self.eng, self.rep
        kind, q = got
        if kind == "raw":
            r = same_seq(eng, st, Seq("str", q.n, q.pieces, None, None), want)
            if r is True:
                rep.ok("string")
            elif r is None:
                rep.undecided("string", "%s: %s %s not comparable" % (self.w, what, show(q)))
            else:
                self.bad("string", st, "%s is written as octets %s, the header has %s" % (what, show(q), show(want)))
            return
        ps = drop_empty(eng, st, q.pieces)
        if len(ps) != 1 or ps[0][0] != "s" or not isinstance(ps[0][1], tuple) or ps[0][1][0] != "bw":
            if eng.decide(st, eq(want.n, 0)) is True and not ps:
                rep.ok("string")
                return
            rep.undecided("string", "%s: Huffman string %s is not what a BitWriter produced" % (self.w, what))
            return
        if eng.decide(st, eq(ps[0][2], 0)) is not True or eng.decide(st, eq(ps[0][3], S(memo_sym(("len", ps[0][1]), "", 0, 0)))) is not True:
            self.bad("string", st, "%s: only octets %r..%r of the %r of the Huffman code are written" % (what, ps[0][2], ps[0][3], S(memo_sym(("len", ps[0][1]), "", 0, 0))))
            return
        codes = ps[0][1][1]
        n = want.n
        if not rep.judge("string", eng, st, eq(n, len(codes)), ENC, self.w, "%s: %d Huffman codes written for %r characters" % (what, len(codes), n)):
            return
        live = [st]
        for i, (code, ln) in enumerate(codes):
            nxt = []
            for s in live:
                for s1, ch in eng.seq_get(s, want, L(i)):
                    wc = wl = None
                    if isinstance(ch, Lin):
                        wc = map_small(ch, lambda v: rfc7541.HUFFMAN[v & 255][0], "code of %r" % ch) if ch.t else L(rfc7541.HUFFMAN[ch.c & 255][0])
                        wl = map_small(ch, lambda v: rfc7541.HUFFMAN[v & 255][1], "code length of %r" % ch) if ch.t else L(rfc7541.HUFFMAN[ch.c & 255][1])
                    if wc is None or not isinstance(code, Lin) or not isinstance(ln, Lin):
                        rep.undecided("string", "%s: character %d of %s not expressible" % (self.w, i, what))
                        nxt.append(s1)
                        continue
                    rep.judge("string", eng, s1, eq(code, wc), ENC, self.w, "%s: character %d is coded %r, RFC 7541 says %r" % (what, i, code, wc))
                    rep.judge("string", eng, s1, eq(ln, wl), ENC, self.w, "%s: character %d has code length %r, RFC 7541 says %r" % (what, i, ln, wl))
                    nxt.append(s1)
            live = nxt

    def index_is(self, st, index, hdr, ep, name_only):
        """The field index denotes an entry matching hdr at this point."""
        eng, rep = self.eng, self.rep
        name, value = hdr
        rid = "index"
        zero, pos = eng.branch(st, eq(index, 0))
        for s in zero:
            self.bad(rid, s, "index 0 is emitted")
        stat, dyn = [], []
        for s in pos:
            t, f = eng.branch(s, ge(len(rfc7541.STATIC), index))
            stat += t
            dyn += f
        for s in stat:
            for s1, h in eng.seq_get(s, self.table, index - 1):
                for s2, a in field(eng, s1, h, "name"):
                    for s3, b in field(eng, s2, h, "value"):
                        pairs = [(a, name)] + ([] if name_only else [(b, value)])
                        for x, y in pairs:
                            self.text_is(s3, x, y, index)
        for s in dyn:
            i = index - (len(rfc7541.STATIC) + 1)
            found = False
            for what, e, key in s.ghost.get("found", ()):
                if e != ep:
                    continue
                if what == "find_name" and not name_only:
                    continue
                if not same_base(eng, s, key[0], skey(eng, s, name)) or (
                        what == "find" and not name_only and not same_base(eng, s, key[1], skey(eng, s, value))):
                    continue
                if eng.decide(s, eq(i, idx_sym(what, e, key))) is True:
                    found = True
            if found:
                rep.ok(rid)
            else:
                self.bad(rid, s, "index %r does not denote a table entry found to match the header%s" % (index, " name" if name_only else ""))

    def text_is(self, st, a, b, index):
        eng, rep = self.eng, self.rep
        for s1, x in as_seq(eng, st, a):
            for s2, y in as_seq(eng, s1, b):
                c = value_eq(eng, s2, x, y)
                cases = c if isinstance(c, list) else [(s2, c)]
                for s3, cond in cases:
                    rep.judge("index", eng, s3, cond, ENC, self.w, "the static entry at index %r is %s, the header has %s" % (index, show(x), show(y)))

    def run(self, st, out, pos=ZERO, nev=0):
        eng, rep = self.eng, self.rep
        live = [(st, pos, nev)]         # state, position, events so far
        r = RefOut(eng, out, self.table, None)
        for k, h in enumerate(self.headers):
            hdr = dict(h.fields)
            hdr = (hdr["name"], hdr["value"])
            nxt = []
            for s, pos, nev in live:
                nxt += self.one(r, s, pos, nev, hdr, k)
            live = nxt
        for s, pos, nev in live:
            rep.judge("representation", eng, s, eq(out.n, pos), ENC, self.w, "octets follow the last header's representation (%r of %r)" % (pos, out.n))
            if len(events(s)) == nev:
                rep.ok("table-sync")
            else:
                self.bad("table-sync", s, "the encoder changes its table %d times, the emitted representations do %d times" % (len(events(s)), nev))

    def one(self, r, st, pos, nev, hdr, k):
        eng, rep = self.eng, self.rep
        nxt = []
        have, none = eng.branch(st, ge(out_n(r) - 1, pos))
        for s in none:
            self.bad("representation", s, "no representation is emitted for header %d" % k)
        for s in have:
            for s1, b in r.byte(s, pos):
                rest = [s1]
                for lo, bits, kind in ((128, 7, "indexed"), (64, 6, "incremental"), (32, 5, "limit"), (16, 4, "never"), (0, 4, "plain")):
                    T, F = [], []
                    for x in rest:
                        t, f = eng.branch(x, ge(b, lo))
                        T += t
                        F += f
                    rest = F
                    for x in T:
                        for y, v, p, may in r.integer(x, pos, bits):
                            if v is None:
                                self.bad("representation", y, "a prefix integer runs past the end of the block")
                                continue
                            if kind == "limit":
                                self.bad("representation", y, "a table size update is emitted where header %d is due" % k)
                                continue
                            rep.ok("representation")
                            rep.sample("representation", "header %d as %s, index %r" % (k, kind, v))
                            if kind == "indexed":
                                self.index_is(y.copy(), v, hdr, nev, False)
                                nxt.append((y, p, nev))
                                continue
                            zero, nz = eng.branch(y, eq(v, 0))
                            names = [(z, p) for z in nz]
                            for z in nz:
                                self.index_is(z.copy(), v, hdr, nev, True)
                            for z in zero:
                                for z1, sv, p1 in r.string(z, p):
                                    if sv is None:
                                        self.bad("representation", z1, "the name runs past the end of the block")
                                    else:
                                        self.string_is(z1.copy(), sv, hdr[0], "name")
                                        names.append((z1, p1))
                            for z, q in names:
                                for z1, sv, p1 in r.string(z, q):
                                    if sv is None:
                                        self.bad("representation", z1, "the value runs past the end of the block")
                                        continue
                                    self.string_is(z1.copy(), sv, hdr[1], "value")
                                    if kind != "incremental":
                                        nxt.append((z1, p1, nev))
                                        continue
                                    ev = events(z1)
                                    if len(ev) <= nev or ev[nev][0] != "insert":
                                        self.bad("table-sync", z1, "header %d is emitted with incremental indexing but not added to the table" % k)
                                        continue
                                    for i, nm in ((1, "name"), (2, "value")):
                                        for z2, g in as_seq(eng, z1, ev[nev][i]):
                                            e = same_seq(eng, z2, g, hdr[i - 1])
                                            if e is True:
                                                rep.ok("table-sync")
                                            elif e is None:
                                                rep.undecided("table-sync", "%s: inserted %s not comparable" % (self.w, nm))
                                            else:
                                                self.bad("table-sync", z2, "the %s added to the table is not the one emitted" % nm)
                                    nxt.append((z1, p1, nev + 1))
        return nxt


def out_n(r):
    return r.n


def encoder(eng, st):
    """An encoder just constructed over a table (whose use is recorded)."""
    this = var(st, "enc", Struct("ion::HeaderBlockEncoder", (), "raw", None))
    tab = obj(st, "table", "ion::DynamicTable")
    live, _ = eng.run("ion::HeaderBlockEncoder::HeaderBlockEncoder", st, this, [tab], 1)
    if len(live) != 1:
        raise AnalysisBroken("the encoder cannot be constructed")
    return this, live[0][0]


def encode(rep, D, shapes, budget, want_bounds=True):
    eng = Engine(D, peel=8, budget=budget)
    eng.maxstates = 50000
    install(eng)
    st = St()
    this, st = encoder(eng, st)
    hs = [header(eng, i, a, b) for i, (a, b) in enumerate(shapes)]
    t = eng.find_type("ion::HttpHeader")
    arg = var(st, "hdrs", mk_seq("vec", [("v", h) for h in hs], t))
    res, exc = eng.run(ENC, st, this, [arg], 1)
    w = where_fn(eng, ENC)
    for s in exc:
        rep.judge("in-bounds", eng, s, False, ENC, s.exc.where, "encoding throws %s" % s.exc.ty)
    table = oracle_table(eng)
    rep.count("encoder_final_states", len(res))
    for s, v in res:
        if isinstance(v, Ptr):
            v = eng.read(s, v.path)[0][1]
        if not isinstance(v, Seq):
            rep.undecided("representation", "%s: result not expressible" % w)
            continue
        Judge(rep, eng, table, hs).run(s, v)
    rep.engine(eng, ("bounds", "null", "opt"), "in-bounds")
    return eng


def integers(rep, D, tier):
    """IntegerEncoder::encode against the reference reader, every prefix width, every 32-bit value."""
    rid = "integer"
    for bits in range(1, 9):
        eng = Engine(D, peel=8, budget=2000000)
        st = St()
        v = S(new_sym("value", 0, (1 << 32) - 1))
        res, exc = eng.run(INT, st, None, [v, L(bits)], 2)
        w = where_fn(eng, INT)
        for s in exc:
            rep.judge(rid, eng, s, False, INT, s.exc.where, "encoding an integer throws %s" % s.exc.ty)
        for s, q in res:
            if isinstance(q, Ptr):
                q = eng.read(s, q.path)[0][1]
            if not isinstance(q, Seq):
                rep.undecided(rid, "%s: result not expressible" % w)
                continue
            r = RefOut(eng, q, None, None)
            have, none = eng.branch(s, ge(q.n, 1))
            for x in none:
                rep.judge(rid, eng, x, False, INT, w, "no octet is emitted")
            for x in have:
                for s0, b0 in r.byte(x, ZERO):
                    rep.judge(rid, eng, s0, ge((1 << bits) - 1, b0), INT, w, "the first octet uses bits outside the %d-bit prefix" % bits)
                    for y, got, p, may in r.integer(s0, ZERO, bits):
                        if got is None:
                            rep.judge(rid, eng, y, False, INT, w, "the emitted integer is incomplete")
                            continue
                        rep.judge(rid, eng, y, eq(got, v), INT, w, "%d-bit prefix: emitted integer reads as %r, value is %r" % (bits, got, v))
                        rep.judge(rid, eng, y, eq(q.n, p), INT, w, "%d-bit prefix: octets follow the integer" % bits)
                        rep.sample(rid, "%d-bit prefix, %r octets" % (bits, p))
        rep.engine(eng, ("bounds", "null"), "in-bounds")



def find(rep, D):
    """find()/find_name() on tables of up to three entries."""
    from .hpack_table import start, header as entry
    for k in range(0, 4):
        eng, this, mx, live, exc = start(D, 4000000)
        for i in range(k):
            nxt = []
            for s in live:
                a = var(s, "arg%d" % i, entry(i))
                res, _ = eng.run("ion::DynamicTable::insert", s, this, [a], 1)
                # keep the cases where the whole table fits
                for x, _ in res:
                    r2, _ = eng.run("ion::DynamicTable::count", x, this, [])
                    for y, n in r2:
                        nxt += eng.branch(y, eq(n, i + 1))[0]
            live = nxt
        q = entry(99)
        for fn, parts in (("find", ("name", "value")), ("find_name", ("name",))):
            name = "ion::DynamicTable::" + fn
            w = where_fn(eng, name, 1)
            for s0 in live:
                s = s0.copy()
                a = var(s, "q", q if fn == "find" else dict(q.fields)["name"])
                res, exc = eng.run(name, s, this, [a], 1)
                for x in exc:
                    rep.judge("find", eng, x, False, name, x.exc.where, "throws %s" % x.exc.ty)
                for x, v in res:
                    if isinstance(v, Ptr):
                        v = eng.read(x, v.path)[0][1]
                    if not isinstance(v, Opt):
                        rep.undecided("find", "%s: result not expressible" % w)
                        continue
                    T, F = eng.branch(x, v.has)
                    conds = []
                    for i in range(k):
                        h = dict(entry(k - 1 - i).fields)
                        conds.append([streq(eng, x, h[p], dict(q.fields)[p]) for p in parts])
                    for y in T:
                        if not rep.judge("find", eng, y, ge(k - 1, v.val), name, w, "index %r of a table with %d entries" % (v.val, k)):
                            continue
                        for i in range(k):
                            for z in eng.branch(y.copy(), eq(v.val, i))[0]:
                                for p, c in zip(parts, conds[i]):
                                    rep.judge("find", eng, z, c, name, w, "entry %d is returned though its %s differs" % (i, p))
                    for y in F:
                        for i in range(k):
                            zs = [y.copy()]
                            for c in conds[i]:
                                zs = [t for z in zs for t in eng.branch(z, c)[0]]
                            if not zs:
                                rep.ok("find")
                            for z in zs:
                                rep.judge("find", eng, z, False, name, w, "nothing is returned though entry %d matches" % i)
        rep.absorb(eng)


def bit_writer(rep, D, tier):
    name = "ion::BitWriter::write_bits"
    rid = "bit-writer"
    # write_bits hands its bits, most significant first, to write_bit
    for n in range(0, 33):
        eng = Engine(D, peel=40, budget=400000)
        f, _ = eng.fn(name, 2)
        w = where_fn(eng, name, 2)
        seen = []
        eng.hooks["ion::BitWriter::write_bit"] = lambda e, c: each(c.val(0), lambda s, v: [rec_bit(s, v)])
        st = St()
        this = obj(st, "bw", "ion::BitWriter")
        v = S(new_sym("v", 0, (1 << 32) - 1))
        res, exc = eng.run(name, st, this, [v, L(n)], 2)
        direct = False
        for s, _ in res:
            got = s.ghost.get("bits", ())
            if n and not got:
                direct = True
                continue
            if len(got) != n:
                rep.judge(rid, eng, s, False, name, w, "%d bits of %d are written" % (len(got), n))
                continue
            for i, b in enumerate(got):
                want = bitop("&", shr(v, n - 1 - i, 32, s.facts), L(1), 32, s.facts)
                c = eng.cond_of(b) if not isinstance(b, Lin) else ne(b, 0)
                T, F = eng.branch(s.copy(), c)
                for t in T:
                    rep.judge(rid, eng, t, eq(want, 1), name, w, "bit %d of a %d-bit code is not the one given" % (i, n))
                for t in F:
                    rep.judge(rid, eng, t, eq(want, 0), name, w, "bit %d of a %d-bit code is not the one given" % (i, n))
        rep.absorb(eng)
        if direct and n > 8:
            break
    # up to 17 single bits, then finalize
    for n in list(range(0, 11)) + ([17] if tier == "thorough" else []):
        eng = Engine(D, peel=40, budget=40000000)
        eng.maxstates = 1 << 20
        st = St()
        this = var(st, "bw", Struct("ion::BitWriter", (), "raw", None))
        live = [x for x, _ in construct_default(eng, st, this)]
        v = S(new_sym("v", 0, (1 << max(n, 1)) - 1))
        if n:
            live = [y for x in live for y, _ in eng.run(name, x, this, [v, L(n)], 2)[0]]
        for s in live:
            res, exc = eng.run("ion::BitWriter::finalize", s, this, [])
            for x, q in res:
                if isinstance(q, Ptr):
                    q = eng.read(x, q.path)[0][1]
                if not isinstance(q, Seq):
                    rep.undecided(rid, "finalize: result not expressible")
                    continue
                w = where_fn(eng, "ion::BitWriter::finalize")
                if not rep.judge(rid, eng, x, eq(q.n, (n + 7) // 8), "ion::BitWriter::finalize", w, "%r octets for %d bits" % (q.n, n)):
                    continue
                pad = -n % 8
                for z, num in be(eng, x, q, ZERO, (n + 7) // 8):
                    rep.judge(rid, eng, z, eq(num, v.scale(1 << pad) + ((1 << pad) - 1)) if n else eq(num, 0), "ion::BitWriter::finalize", w,
                              "%d bits are not written most significant first, padded with ones" % n)
        rep.absorb(eng)


def rec_bit(s, v):
    s.ghost["bits"] = s.ghost.get("bits", ()) + (v,)
    return (s, VOID)


def construct_default(eng, st, this):
    """Default member initialisers of a class without a constructor body."""
    name = "ion::BitWriter"
    fs = eng.by_name.get(name + "::BitWriter")
    z = eng.zero(eng.find_type(name))
    st.store[this.path[0]] = z
    return [(st, VOID)]


RULES = {
    "representation": "every final state's output parses, from first to last octet, as one RFC 7541 field representation per header, in order",
    "index": "each emitted index denotes a table entry whose name (and value, for an indexed field) the path has found equal to the header's",
    "string": "each emitted string literal denotes the header's own octets: plain octets, or the appendix B code of each character in order",
    "table-sync": "the encoder's table is changed exactly by the literals with incremental indexing that were emitted, with the same header",
    "integer": "for every 32-bit value and every prefix width the emitted octets read back, as RFC 7541 section 5.1 says, as that value",
    "in-bounds": "every access on every encoder path is inside its object and nothing is thrown",
    "find": "find() and find_name() return the index of an entry equal to what was looked up, and nothing when there is none",
    "bit-writer": "BitWriter emits the given bits most significant first and pads the last octet with ones",
}

SHAPES = [[(0, 0)], [(1, 2)], [(4, 3)], [(3, 4)], [(7, 3)], [(":status", 3)], [("server", 5)], [(12, 1)]]
DEEP = [[(":status", "200")], [(5, 6)], [(10, 4)], [(13, 9)], [(4, 3), (4, 3)], [("x-abcd", 1), ("x-abcd", 2)], [(1, 1), (1, 1), (1, 1)]]


def c05(D, rep, tier):
    for k in ("representation", "index", "string", "table-sync", "integer", "find", "bit-writer"):
        rep.rule(k, RULES[k])
    rep.rule("in-bounds", RULES["in-bounds"])
    integers(rep, D, tier)
    find(rep, D)
    bit_writer(rep, D, tier)
    for sh in SHAPES + [[("x-abcd", 1), ("x-abcd", 2)]] + (DEEP if tier == "thorough" else []):
        encode(rep, D, sh, 20000000 if tier == "thorough" else 3000000)


def c01(D, rep, tier):
    """The encoder's accesses: all byte values in response headers."""
    rep.rule("in-bounds", RULES["in-bounds"])
    from ..report import Report
    from .hpack_tables import take
    sub = Report(rep.prop, tier, 1)
    for sh in SHAPES:
        encode(sub, D, sh, 3000000)
    take(rep, sub, "in-bounds")


def c04(D, rep, tier):
    """The encoder writes strings with the appendix B code of each character."""
    rep.rule("string", RULES["string"])
    from ..report import Report
    from .hpack_tables import take
    sub = Report(rep.prop, tier, 1)
    for sh in SHAPES:
        encode(sub, D, sh, 3000000)
    take(rep, sub, "string")
