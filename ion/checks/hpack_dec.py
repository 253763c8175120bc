"""C01, C02, C03, C13 (part): the header block decoder against an RFC 7541 reference reading of the same abstract input."""
from .util import *
from ..values import bitop
from .. import rfc7541

INT_LIMIT = 1 << 28      # larger integers may be refused (RFC 7541 section 5.1 allows implementation limits)
STRING_LIMIT = 4096


def events(st):
    return st.ghost.get("ev", ())


def epoch(st):
    return len(events(st))


def install(eng, huffman=True):
    """Replaces the table and the Huffman tree (analysed on their own) by summaries that record their use."""
    def rec(name):
        def h(e, c):
            out = []
            for s, v in c.val(0):
                if isinstance(v, Struct):
                    for s1, n in field(e, s, v, "name"):
                        for s2, x in field(e, s1, v, "value"):
                            s2.ghost["ev"] = events(s2) + ((name, n, x),)
                            out.append((s2, VOID))
                else:
                    s.ghost["ev"] = events(s) + ((name, v),)
                    out.append((s, VOID))
            return out
        return h

    def count(e, c):
        return [(c.st, S(memo_sym(("dyncount", epoch(c.st)), "table count", 0, 1 << 20)))]

    def get(e, c):
        out = []
        for s, i in c.val(0):
            n = S(memo_sym(("dyncount", epoch(s)), "table count", 0, 1 << 20))
            i = e.as_int(s, i) if not isinstance(i, Lin) else i
            for s2 in e.oblige(s, "bounds", ge(n - 1, i), c.n, c.fr, "dynamic table index is below the number of entries"):
                out.append((s2, Struct("ion::HttpHeader", (), ("dyn", epoch(s2), e.canon(s2, i)), e.strip(c.f["r"]))))
        return out

    def huff(e, c):
        out = []
        for s, v in c.val(0):
            for s1, q in as_seq(e, s, v):
                key = ("huff", tuple(drop_empty(e, s1, q.pieces)))
                T, F = e.branch(s1, ("atom", ("b", key)))
                t = e.strip(c.f["r"])
                n = S(memo_sym(("len", key), "|huffman text|", 0, 1 << 40))
                vt = e.targ(t, 0)
                for x in T:
                    x.ghost["huff"] = x.ghost.get("huff", ()) + (key,)
                    out.append((x, Opt(True, Seq("vec", n, (("s", key, ZERO, n),), e.elem_type(vt), None), None, "exp", t)))
                for x in F:
                    x.ghost["huff"] = x.ghost.get("huff", ()) + (key,)
                    out.append((x, Opt(False, VOID, ZERO, "exp", t)))
        return out
    eng.hooks["ion::DynamicTable::insert"] = rec("insert")
    eng.hooks["ion::DynamicTable::set_max_table_size"] = rec("limit")
    eng.hooks["ion::DynamicTable::count"] = count
    eng.hooks["ion::DynamicTable::get"] = get
    if huffman:
        eng.hooks["ion::HuffmanTree::decode"] = huff


class Ref:
    """RFC 7541 reading of the abstract input: forks states where the input leaves a choice."""

    def __init__(self, eng, img, n, table):
        self.eng = eng
        self.img = img
        self.n = n
        self.base = img.pieces[0][1]
        self.table = table

    def byte(self, st, pos):
        return self.eng.seq_get(st, self.img, pos)

    def integer(self, st, pos, bits):
        """[(state, value or None, pos, may_refuse)]"""
        eng = self.eng
        out = []
        for s, b in self.byte(st, pos):
            mask = (1 << bits) - 1
            pre = bitop("&", b, L(mask), 8, s.facts)
            less, full = eng.branch(s, ge(mask - 1, pre))
            for x in less:
                out.append((x, pre, pos + 1, False))
            live = [(x, L(mask), pos + 1, 0) for x in full]
            while live:
                nxt = []
                for x, acc, p, shift in live:
                    if shift > 70:
                        out.append((x, acc, p, True))
                        continue
                    have, not_ = eng.branch(x, ge(self.n - 1, p))
                    for y in not_:
                        out.append((y, None, p, True))
                    for y in have:
                        for z, c in self.byte(y, p):
                            low = bitop("&", c, L(127), 8, z.facts)
                            more, done = eng.branch(z, ge(c, 128))
                            for w in done:
                                out.append((w, acc + (c if low is None else low).scale(1 << shift), p + 1, shift >= 28))
                            for w in more:
                                nxt.append((w, acc + (c - 128 if low is None else low).scale(1 << shift), p + 1, shift + 7))
                live = nxt
        return out

    def string(self, st, pos):
        """[(state, Seq or None, pos, may_refuse, too_long)]"""
        eng = self.eng
        out = []
        have, not_ = eng.branch(st, ge(self.n - 1, pos))
        out += [(x, None, pos, False) for x in not_]
        for s in have:
            for s1, b in self.byte(s, pos):
                hs, ps = eng.branch(s1, ge(b, 128))
                for huff, xs in ((True, hs), (False, ps)):
                    for x in xs:
                        for y, ln, p, may in self.integer(x, pos, 7):
                            if ln is None:
                                out.append((y, None, p, False))
                                continue
                            fit, over = eng.branch(y, ge(self.n - p, ln))
                            out += [(z, None, p, False) for z in over]
                            for z in fit:
                                if may:
                                    z.ghost["may"] = True
                                raw = mk_seq("str", [("s", self.base, p, p + ln)])
                                if not huff:
                                    ok, big = eng.branch(z, ge(STRING_LIMIT, ln))
                                    out += [(w, raw, p + ln, False) for w in ok]
                                    out += [(w, None, p, "limit") for w in big]
                                    continue
                                want = ("huff", tuple(drop_empty(eng, z, raw.pieces)))
                                key = next((k for k in z.ghost.get("huff", ()) if same_base(eng, z, k, want)), want)
                                T, F = eng.branch(z, ("atom", ("b", key)))
                                out += [(w, None, p, False) for w in F]
                                tl = S(memo_sym(("len", key), "|huffman text|", 0, 1 << 40))
                                for w in T:
                                    ok, big = eng.branch(w, ge(STRING_LIMIT, tl))
                                    out += [(v, Seq("str", tl, (("s", key, ZERO, tl),), None, None), p + ln, False) for v in ok]
                                    out += [(v, None, p, "limit") for v in big]
        return out

    def entry(self, st, index, evs, name_only):
        """[(state, (name, value) or None)] for table index >= 1; evs = operations on the table so far"""
        eng = self.eng
        out = []
        stat, dyn = eng.branch(st, ge(len(rfc7541.STATIC), index))
        for s in stat:
            for s1, h in eng.seq_get(s, self.table, index - 1):
                for s2, a in field(eng, s1, h, "name"):
                    for s3, b in field(eng, s2, h, "value"):
                        out.append((s3, (a, b)))
        for s in dyn:
            i = index - (len(rfc7541.STATIC) + 1)
            n = S(memo_sym(("dyncount", evs), "table count", 0, 1 << 20))
            T, F = eng.branch(s, ge(n - 1, i))
            out += [(x, None) for x in F]
            for x in T:
                h = Struct("ion::HttpHeader", (), ("dyn", evs, eng.canon(x, i)), None)
                for s2, a in field(eng, x, h, "name"):
                    for s3, b in field(eng, s2, h, "value"):
                        out.append((s3, (a, b)))
        return out

    def block(self, st, accepted=True, fields=8):
        """[(state, 'ok'|'bad'|'limit', headers, events)]"""
        eng = self.eng
        out = []
        live = [(st, ZERO, (), ())]
        while live:
            nxt = []
            for s, pos, hs, evs in live:
                if not accepted and s.ghost.get("may"):
                    out.append((s, "ok", hs, evs))      # refusing this block is allowed, whatever follows
                    continue
                if len(hs) + len(evs) > 8:
                    out.append((s, "deep", hs, evs))
                    continue
                if not accepted and len(hs) + sum(1 for e in evs if e[0] == "limit") > fields:
                    continue    # every shorter reading of this prefix has been judged at the field boundaries
                have, done = eng.branch(s, ge(self.n - 1, pos))
                out += [(x, "ok", hs, evs) for x in done]
                for x in have:
                    for s1, b in self.byte(x, pos):
                        nxt += self.one(s1, b, pos, hs, evs, out)
            live = nxt
        return out

    def one(self, st, b, pos, hs, evs, out):
        eng = self.eng
        nxt = []
        rest = [st]
        for lo, bits, kind in ((128, 7, "indexed"), (64, 6, "incremental"), (32, 5, "limit"), (16, 4, "never"), (0, 4, "plain")):
            T, F = [], []
            for s in rest:
                t, f = eng.branch(s, ge(b, lo))
                T += t
                F += f
            rest = F
            for s in T:
                for x, v, p, may in self.integer(s, pos, bits):
                    if v is None:
                        out.append((x, "bad", hs, evs))
                        continue
                    if may:
                        x.ghost["may"] = True
                    if kind == "limit":
                        ok, big = eng.branch(x, ge(65536, v))
                        out += [(y, "badlimit", hs, evs) for y in big]
                        for y in ok:
                            below, above = eng.branch(y, ge(4096, v))
                            for z in above:
                                z.ghost["may"] = True      # above the default of SETTINGS_HEADER_TABLE_SIZE
                            nxt += [(z, p, hs, evs + (("limit", v),)) for z in below + above]
                        continue
                    zero, pos_ = eng.branch(x, eq(v, 0))
                    if kind == "indexed":
                        out += [(y, "bad", hs, evs) for y in zero]
                        for y in pos_:
                            for z, e in self.entry(y, v, len(evs), False):
                                if e is None:
                                    out.append((z, "bad", hs, evs))
                                else:
                                    nxt.append((z, p, hs + (e,), evs))
                        continue
                    names = []
                    for y in zero:
                        names += self.string(y, p)
                    for y in pos_:
                        for z, e in self.entry(y, v, len(evs), True):
                            names.append((z, None if e is None else e[0], p, False))
                    for y, nm, q, why in names:
                        if nm is None:
                            out.append((y, "limit" if why == "limit" else "bad", hs, evs))
                            continue
                        for z, val, r, why2 in self.string(y, q):
                            if val is None:
                                out.append((z, "limit" if why2 == "limit" else "bad", hs, evs))
                                continue
                            e2 = evs + ((("insert", nm, val),) if kind == "incremental" else ())
                            nxt.append((z, r, hs + ((nm, val),), e2))
        return nxt


ENTRY = "ion::HeaderBlockDecoder::decode"


def oracle_table(eng):
    t = eng.find_type("ion::StaticHttpHeader")
    return mk_seq("arr", [("v", Struct("ion::StaticHttpHeader", (("name", lit(n, "view")), ("value", lit(v, "view"))), None, t))
                          for n, v in rfc7541.STATIC], t)


def analyse(D, peel, ipeel, budget, pre=None):
    eng = Engine(D, peel=peel, budget=budget)
    eng.maxstates = 20000
    eng.loop_k[("ion::IntegerDecoder::decode", None)] = ipeel
    st = St()
    install(eng)
    this = obj(st, "dec", "ion::HeaderBlockDecoder")
    sp = span_in("in")
    if pre:
        pre(eng, st, sp)
    res, exc = eng.run(ENTRY, st, this, [sp])
    return eng, sp, res, exc


def same_pair(rep, eng, st, got, want, rid, w, what):
    ok = True
    for nm, g, x in (("name", got[0], want[0]), ("value", got[1], want[1])):
        for s1, gq in seq_of(eng, st, g):
            for s2, wq in seq_of(eng, s1, x):
                r = same_seq(eng, s2, gq, wq)
                if r is True:
                    continue
                ok = False
                text = "%s: %s is %s, RFC 7541 gives %s" % (what, nm, show(gq), show(wq))
                if r is None:
                    rep.undecided(rid, "%s: %s" % (w, text))
                else:
                    rep.judge(rid, eng, s2, False, ENTRY, w, text)
    if ok:
        rep.ok(rid)
    return ok


def show(q):
    return ",".join("%s" % (p[1] if p[0] in "c" else "%s[%r..%r]" % (str(p[1])[:60], p[2], p[3]) if p[0] == "s" else str(p)[:60])
                    for p in q.pieces) or "''"


def compare(rep, D, peel, ipeel, budget, label, pre=None, want=("C01", "C02", "C03", "C13")):
    eng, sp, res, exc = analyse(D, peel, ipeel, budget, pre)
    w = where_fn(eng, ENTRY)
    n = sp.n
    rep.count("decode_final_states_" + label, len(res))
    table = oracle_table(eng)
    for s in exc:
        if "C02" in want or "C01" in want:
            rep.judge("no-throw", eng, s, False, ENTRY, s.exc.where, "decoding throws %s" % s.exc.ty)
    for s0, v in res:
        if sum(v["count"] for v in rep.viol) >= 4:
            rep.note("stopped comparing after four violations")
            break
        if isinstance(v, Ptr):
            v = eng.read(s0, v.path)[0][1]
        if not isinstance(v, Opt):
            rep.undecided("reject", "%s: result not expressible: %s" % (w, type(v).__name__))
            continue
        img = eng.read(s0, sp.path)[0][1]
        T, F = eng.branch(s0.copy(), v.has)
        for got_ok, ss in ((True, T), (False, F)):
            for s in ss:
                for x, verdict, hs, evs in Ref(eng, img, n, table).block(s, got_ok, peel + 1):
                    rep.count("reference_comparisons")
                    judge_one(rep, eng, x, verdict, hs, evs, got_ok, v, w, want)
    if "C01" in want:
        rep.engine(eng, ("bounds", "null", "opt", "map"), "in-bounds")
    else:
        rep.absorb(eng)
    return eng


def judge_one(rep, eng, x, verdict, hs, evs, got_ok, v, w, want):
    may = x.ghost.get("may")
    if verdict == "deep":
        rep.undecided("reject", "%s: the reference reading does not end with the implementation's" % w)
        return
    if verdict == "badlimit" and "C06" in want:
        if got_ok:
            rep.judge("hard-limit", eng, x, False, ENTRY, w, "a table size update above 65536 octets is accepted")
        else:
            rep.ok("hard-limit")
        return
    if verdict in ("bad", "badlimit"):
        if "C02" in want:
            if got_ok:
                rep.judge("reject", eng, x, False, ENTRY, w, "a block RFC 7541 calls undecodable is accepted")
            else:
                rep.ok("reject")
        return
    if verdict == "limit":
        if "C13" in want:
            if got_ok:
                rep.judge("string-limit", eng, x, False, ENTRY, w, "a header string longer than 4096 octets is accepted")
            else:
                rep.ok("string-limit")
        return
    if not got_ok:
        if "C03" in want:
            if may:
                rep.ok("accept")
            else:
                rep.judge("accept", eng, x, False, ENTRY, w, "a well-formed block is refused")
        return
    if "C03" not in want:
        return
    rep.ok("accept")
    q = v.val
    if isinstance(q, Ptr):
        q = eng.read(x, q.path)[0][1]
    if not isinstance(q, Seq):
        rep.undecided("headers", "%s: header list not expressible" % w)
        return
    if not rep.judge("headers", eng, x, eq(q.n, len(hs)), ENTRY, w,
                     "the block holds %d header fields, %r are returned" % (len(hs), q.n)):
        return
    for i, h in enumerate(hs):
        for s1, e in eng.seq_get(x, q, L(i)):
            for s2, a in field(eng, s1, e, "name"):
                for s3, b in field(eng, s2, e, "value"):
                    same_pair(rep, eng, s3, (a, b), h, "headers", w, "header %d" % i)
    got = events(x)
    kinds = [e[0] for e in got]
    wk = [e[0] for e in evs]
    if kinds != wk:
        rep.judge("table-ops", eng, x, False, ENTRY, w, "dynamic table operations are %s, RFC 7541 requires %s" % (kinds, wk))
        return
    for g, e in zip(got, evs):
        if g[0] == "limit":
            rep.judge("table-ops", eng, x, eq(g[1], e[1]) if isinstance(g[1], Lin) else False, ENTRY, w,
                      "table limit set to %r, the block says %r" % (g[1], e[1]))
        else:
            same_pair(rep, eng, x, (g[1], g[2]), (e[1], e[2]), "table-ops", w, "inserted entry")
    rep.sample("headers", "%d header(s), table operations %s" % (len(hs), wk))


RULES = {
    "no-throw": "no exception leaves the decoder for any input",
    "reject": "every final state whose input RFC 7541 calls undecodable returns an error",
    "string-limit": "every final state with a decoded string above 4096 octets returns an error",
    "accept": "every final state whose input is well-formed returns a header list",
    "headers": "the returned headers are, name and value, those the RFC 7541 reading of the same input gives, in order",
    "table-ops": "the operations on the dynamic table are exactly those RFC 7541 prescribes, with the same operands",
    "integer": "for every prefix width and every octet string the decoded integer and the octets consumed are those of RFC 7541 section 5.1; incomplete ones are refused",
    "hard-limit": "every final state whose input sets the table limit above 65536 returns an error; every other size update sets exactly the limit sent",
    "in-bounds": "every access to the input, the tables and optional/expected results is inside its object on every path",
}


def integers(rep, D, tier):
    """IntegerDecoder::decode on its own: every prefix width, up to 6 octets."""
    name = "ion::IntegerDecoder::decode"
    for bits in range(1, 9):
        eng = Engine(D, peel=8, budget=4000000)
        st = St()
        sp = span_in("in")
        rd = var(st, "reader", Struct("ByteReader", (), "raw", None))
        live, _ = eng.run("ByteReader::ByteReader", st, rd, [sp], 1)
        w = where_fn(eng, name)
        for s0, _ in live:
            res, exc = eng.run(name, s0, None, [rd, L(bits)], 2)
            for x in exc:
                rep.judge("integer", eng, x, False, name, x.exc.where, "throws %s" % x.exc.ty)
            for x, v in res:
                if isinstance(v, Ptr):
                    v = eng.read(x, v.path)[0][1]
                if not isinstance(v, Opt):
                    rep.undecided("integer", "%s: result not expressible" % w)
                    continue
                img = eng.read(x, sp.path)[0][1]
                have, none = eng.branch(x, ge(sp.n, 1))
                for y in none:
                    rep.judge("integer", eng, y, neg(v.has) if not isinstance(v.has, bool) else not v.has, name, w, "an integer is read from no octets")
                for y in have:
                    for z, val, p, may in Ref(eng, img, sp.n, None).integer(y, ZERO, bits):
                        T, F = eng.branch(z, v.has)
                        for t in F:
                            if val is None or may:
                                rep.ok("integer")
                                continue
                            big = eng.branch(t, ge(val, 1 << 28))
                            for u in big[1]:
                                rep.judge("integer", eng, u, False, name, w, "%d-bit prefix: the complete integer %r is refused" % (bits, val))
                            if not big[1]:
                                rep.ok("integer")
                        for t in T:
                            if val is None:
                                rep.judge("integer", eng, t, False, name, w, "%d-bit prefix: an incomplete integer is accepted" % bits)
                                continue
                            rep.judge("integer", eng, t, eq(v.val, val), name, w, "%d-bit prefix: octets denote %r, decoded as %r" % (bits, val, v.val))
                            r2, _ = eng.run("ByteReader::has_bytes", t, rd, [sp.n - p], 1)
                            for u, h in r2:
                                rep.judge("integer", eng, u, h, name, w, "octets after the integer are consumed")
                            r3, _ = eng.run("ByteReader::has_bytes", t, rd, [sp.n - p + 1], 1)
                            for u, h in r3:
                                rep.judge("integer", eng, u, (not h) if isinstance(h, bool) else neg(h), name, w, "octets of the integer are left unread")
                            rep.sample("integer", "%d-bit prefix: %r" % (bits, val))
        rep.engine(eng, ("bounds", "opt", "null"), "in-bounds")


def rules(rep, *ids):
    for i in ids:
        rep.rule(i, RULES[i])


def run_all(D, rep, tier, want):
    deep = tier == "thorough"
    compare(rep, D, 1, 3 if deep else 2, 80000000, "one_field", None, want)
    compare(rep, D, 2, 0, 80000000, "two_fields", None, want)


def c01(D, rep, tier):
    rules(rep, "in-bounds", "no-throw")
    run_all(D, rep, tier, ("C01",))


def c02(D, rep, tier):
    rules(rep, "reject", "no-throw", "integer")
    integers(rep, D, tier)
    run_all(D, rep, tier, ("C02",))


def c03(D, rep, tier):
    rules(rep, "accept", "headers", "table-ops", "integer")
    integers(rep, D, tier)
    run_all(D, rep, tier, ("C03",))


def c06(D, rep, tier):
    rules(rep, "hard-limit", "table-ops")

    def pre(eng, st, sp):
        eng.assume(st, ge(sp.n, 1))
        img = eng.read(st, sp.path)[0][1]
        for s, b in eng.seq_get(st, img, ZERO):
            eng.assume(s, ge(b, 32))
            eng.assume(s, ge(63, b))
    compare(rep, D, 0, 6, 80000000, "size_update", pre, ("C06", "C03"))


def c13(D, rep, tier):
    rules(rep, "string-limit")
    run_all(D, rep, tier, ("C13",))
