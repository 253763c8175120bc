"""C04: the static table and the Huffman code, read from the compiler's constants and from the tree the decoder's constructor builds."""
from .util import *
from ..values import bitop, shr
from .. import rfc7541


def consts(D, eng, elem):
    """Globals and static members of the program that are arrays of this record, with their compile-time value."""
    out = []
    for g, v in D["globals"].items():
        if v.get("apv") is None or v.get("t") is None:
            continue
        t = eng.strip(v["t"])
        if elem in eng.T(t).get("s", ""):
            out.append((g, v, t))
    return out


def text(eng, st, v):
    for s, q in as_seq(eng, st, v):
        b = const_bytes(q)
        return b if b is None or isinstance(b, bytes) else bytes(b)
    return None


def static_table(D, rep, eng):
    gs = consts(D, eng, "StaticHttpHeader")
    if not gs:
        raise AnalysisBroken("no constant table of StaticHttpHeader found")
    for g, v, t in gs:
        st = St()
        q = eng.global_value(st, g)
        where = ":".join(g.split("@")[-1].split(":")[:2])
        where = relfile(where)
        if not isinstance(q, Seq):
            rep.undecided("static-table", "%s is not a constant" % g)
            continue
        rep.judge("static-table", eng, st, eq(q.n, len(rfc7541.STATIC)), g.split("@")[0], where,
                  "the table has %r entries, RFC 7541 appendix A has %d" % (q.n, len(rfc7541.STATIC)))
        for i, (n, val) in enumerate(rfc7541.STATIC):
            if eng.decide(st, ge(q.n, i + 1)) is not True:
                break
            for s, e in eng.seq_get(st, q, L(i)):
                for s1, a in field(eng, s, e, "name"):
                    for s2, b in field(eng, s1, e, "value"):
                        x, y = text(eng, s2, a), text(eng, s2, b)
                        if x is None or y is None:
                            rep.undecided("static-table", "entry %d of %s is not constant" % (i + 1, g))
                        elif (x, y) == (n.encode(), val.encode()):
                            rep.ok("static-table")
                        else:
                            rep.violation("static-table", g.split("@")[0], where, "entry %d is (%r, %r), RFC 7541 appendix A says (%r, %r)" % (
                                i + 1, x.decode("latin1"), y.decode("latin1"), n, val))
        rep.sample("static-table", "%s: %d entries compared" % (g.split("@")[0], len(rfc7541.STATIC)))


def code_table(D, rep, eng):
    gs = consts(D, eng, "HuffmanCode")
    if not gs:
        raise AnalysisBroken("no constant table of HuffmanCode found")
    for g, v, t in gs:
        st = St()
        q = eng.global_value(st, g)
        where = relfile(":".join(g.split("@")[-1].split(":")[:2]))
        if not isinstance(q, Seq):
            rep.undecided("huffman-table", "%s is not a constant" % g)
            continue
        rep.judge("huffman-table", eng, st, eq(q.n, 256), g.split("@")[0], where, "the table has %r entries" % q.n)
        for i, (code, ln) in enumerate(rfc7541.HUFFMAN):
            if eng.decide(st, ge(q.n, i + 1)) is not True:
                break
            for s, e in eng.seq_get(st, q, L(i)):
                fs = dict(e.fields)
                vals = sorted(int(x.c) for x in fs.values() if isinstance(x, Lin) and not x.t)
                if len(vals) != 2:
                    rep.undecided("huffman-table", "entry %d of %s is not constant" % (i, g))
                elif vals == sorted([code, ln]):
                    rep.ok("huffman-table")
                else:
                    rep.violation("huffman-table", g.split("@")[0], where, "symbol %d has %s, RFC 7541 appendix B says %#x/%d" % (
                        i, {k: repr(x) for k, x in fs.items()}, code, ln))
        rep.sample("huffman-table", "%s: 256 codes compared" % g.split("@")[0])


def build_tree(D, budget=4000000):
    """[(eng, state, HuffmanTree pointer)] after the decoder's constructor."""
    eng = Engine(D, peel=4, budget=budget)
    st = St()
    this = var(st, "dec", Struct("ion::HeaderBlockDecoder", (), "raw", None))
    tab = obj(st, "table", "ion::DynamicTable")
    res, exc = eng.run("ion::HeaderBlockDecoder::HeaderBlockDecoder", st, this, [tab], 1)
    return eng, this, [s for s, _ in res], exc


def find_root(eng, st, v, seen=None):
    """The Huffman tree object among an object's fields."""
    out = []
    for s, x in deref(eng, st, v):
        if isinstance(x, Struct):
            if clean(x.cls).endswith("HuffmanTree"):
                return [x]
            for _, y in x.fields:
                out += find_root(eng, s, y)
    return out


def nodes(eng, st, ptr, path, out, depth=0):
    """Collects (path of bits, symbol) of every terminal node; returns the number of nodes."""
    if depth > 40:
        return 0
    v = ptr
    if isinstance(v, Ptr):
        if v.path is None or v.nul is True:
            return 0
        rs = eng.read(st, v.path)
        v = rs[0][1]
    if not isinstance(v, Struct):
        out.append((path, None))
        return 0
    n = 1
    kids = {}
    for f in ("left", "right"):
        kids[f] = v.get(f)
    sym = v.get("symbol")
    if isinstance(sym, Opt):
        if sym.has is True:
            out.append((path, int(sym.val.c) if isinstance(sym.val, Lin) and not sym.val.t else None))
        elif sym.has is not False:
            out.append((path, None))
    for f, b in (("left", "0"), ("right", "1")):
        n += nodes(eng, st, kids[f], path + b, out, depth + 1)
    return n


def tree(D, rep):
    eng, this, states, exc = build_tree(D)
    name = "ion::HeaderBlockDecoder::HeaderBlockDecoder"
    w = where_fn(eng, name, 1)
    for s in exc:
        rep.judge("huffman-tree", eng, s, False, name, s.exc.where, "building the decoder throws %s" % s.exc.ty)
    want = {format(c, "0%db" % ln): i for i, (c, ln) in enumerate(rfc7541.HUFFMAN)}
    for s in states:
        roots = find_root(eng, s, this) or find_root(eng, s, eng.read(s, this.path)[0][1])
        if not roots:
            raise AnalysisBroken("the decoder holds no HuffmanTree")
        for r in roots:
            tops = [x for _, x in r.fields if isinstance(x, Ptr)]
            got = []
            for p in tops:
                nodes(eng, s, p, "", got)
            for path, sym in got:
                if sym is None:
                    rep.undecided("huffman-tree", "node %s is not a constant" % path)
                elif want.get(path) == sym:
                    rep.ok("huffman-tree")
                else:
                    rep.violation("huffman-tree", name, w, "code %s decodes to symbol %s, RFC 7541 appendix B says %s" % (path, sym, want.get(path)))
            missing = sorted(set(want) - {p for p, _ in got})
            if missing and not any(x is None for _, x in got):
                rep.violation("huffman-tree", name, w, "the tree has no node for %d codes, first %s (symbol %d)" % (len(missing), missing[0], want[missing[0]]))
            rep.sample("huffman-tree", "%d terminal nodes compared" % len(got))
    rep.absorb(eng)


def c04(D, rep, tier):
    rep.rule("static-table", "each of the 61 entries of the compiled static table equals RFC 7541 appendix A, in order")
    rep.rule("huffman-table", "each of the 256 compiled Huffman codes (bits and length) equals RFC 7541 appendix B")
    rep.rule("huffman-tree", "the tree left by the decoder's constructor has a terminal node at exactly the appendix B code of each symbol")
    eng = Engine(D, budget=200000)
    static_table(D, rep, eng)
    code_table(D, rep, eng)
    tree(D, rep)


# ---- Huffman strings --------------------------------------------------------------------------------
CODES = {(ln, code): sym for sym, (code, ln) in enumerate(rfc7541.HUFFMAN)}


def ref_decode(bits):
    """RFC 7541 section 5.2 on a tuple of bits: list of symbols, or None when it must be refused."""
    out = []
    cur = n = 0
    for b in bits:
        cur, n = cur * 2 + b, n + 1
        if (n, cur) in CODES:
            out.append(CODES[(n, cur)])
            cur = n = 0
        elif n >= 30:
            return None
    return None if n > 7 or cur != (1 << n) - 1 else out


def huffman_strings(rep, D, tier, want):
    eng, this, states, exc = build_tree(D)
    name = "ion::HuffmanTree::decode"
    w = where_fn(eng, name)
    f = None
    for s in states:
        v = eng.read(s, this.path)[0][1]
        f = next((k for k, x in v.fields if isinstance(x, Struct) and clean(x.cls).endswith("HuffmanTree")), None)
    if f is None:
        raise AnalysisBroken("the decoder holds no HuffmanTree")
    tree = Ptr(this.path + (f,), False)
    families = [(0, 0), (0, 1), (1, 1), (2, 1), (3, 1), (4, 0), (5, 0)]     # octets 0xff, then unknown octets
    if tier == "thorough":
        families += [(0, 2), (3, 2), (8, 0), (4, 1)]
    eng.peel, eng.budget, eng.maxstates = 200, 10 ** 8, 10 ** 6
    for ones, free in families:
        s = states[0].copy()
        sp = span_in("h%d_%d" % (ones, free), ones + free)
        img = eng.read(s, sp.path)[0][1]
        live = [s]
        for i in range(ones):
            live = [z for x in live for y, b in eng.seq_get(x, img, L(i)) for z in eng.branch(y, eq(b, 255))[0]]
        for s in live:
            res, exc = eng.run(name, s, tree, [sp])
            for x in exc:
                rep.judge("no-throw", eng, x, False, name, x.exc.where, "decoding throws %s" % x.exc.ty)
            for x, v in res:
                if isinstance(v, Ptr):
                    v = eng.read(x, v.path)[0][1]
                cases = [(x, [])]
                for i in range(ones + free):
                    nxt = []
                    for y, bs in cases:
                        for z, b in eng.seq_get(y, img, L(i)):
                            for val in z.facts.values(b) or range(256):
                                nxt += [(t, bs + [val]) for t in (eng.branch(z.copy(), eq(b, val))[0] if b.t else [z])]
                    cases = nxt
                for y, bs in cases:
                    exp = ref_decode([(b >> (7 - k)) & 1 for b in bs for k in range(8)])
                    rep.count("huffman_cases")
                    if not isinstance(v, Opt):
                        rep.undecided("huffman-reject", "%s: result not expressible" % w)
                        continue
                    T, F = eng.branch(y, v.has)
                    hx = bytes(bs).hex()
                    for z in F:
                        if exp is None:
                            rep.ok("huffman-reject")
                        else:
                            rep.judge("huffman-decode", eng, z, False, name, w, "octets %s are refused, they encode %r" % (hx, bytes(exp)))
                    for z in T:
                        if exp is None:
                            rep.judge("huffman-reject", eng, z, False, name, w, "octets %s are accepted, RFC 7541 section 5.2 refuses them" % hx)
                            continue
                        for z1, q in as_seq(eng, z, v.val):
                            got = const_bytes(q)
                            if got is None:
                                ok = same_seq(eng, z1, q, lit(bytes(exp).decode("latin1")))
                                got = bytes(exp) if ok else b"?" if ok is False else None
                            if got is None:
                                rep.undecided("huffman-decode", "%s: text of %s not expressible" % (w, hx))
                            elif bytes(got) == bytes(exp):
                                rep.ok("huffman-decode")
                            else:
                                rep.judge("huffman-decode", eng, z1, False, name, w, "octets %s decode to %r, RFC 7541 says %r" % (hx, bytes(got), bytes(exp)))
        rep.sample("huffman-reject", "%d octets 0xff followed by %d arbitrary octets" % (ones, free))
    rep.engine(eng, ("bounds", "null", "opt"), "in-bounds")


HR = {"huffman-decode": "every accepted octet string decodes to the symbols whose appendix B codes it concatenates",
      "huffman-reject": "octet strings that hold EOS, an incomplete code, or padding that is longer than 7 bits or not all ones are refused",
      "in-bounds": "no null tree node and no octet outside the string is accessed", "no-throw": "decoding throws nothing"}


def bit_reader(D, rep, tier):
    """The bit source at an arbitrary position: bit p is bit 7 - p%8 of octet p/8, and the next read is at p + 1."""
    cls = "ion::BitReader"
    name = cls + "::read_bit"
    rep.rule("bit-order", "at every position p of a string of any length the bit read is bit 7 - p%8 of octet p/8, and the position advances by one")
    eng = Engine(D, peel=4, budget=2000000)
    try:
        w = where_fn(eng, name)
    except AnalysisBroken:
        rep.note("no separate bit reader: bit order is judged by the decoded strings only")
        return
    st = St()
    sp = span_in("bits")
    this = var(st, "br", Struct(cls, (), "raw", None))
    live, _ = eng.run(cls + "::BitReader", st, this, [sp], 1)
    for s in [x for x, _ in live]:
        v = eng.read(s, this.path)[0][1]
        cur = [k for k, x in v.fields if isinstance(x, Lin)]
        if len(cur) != 1:
            rep.note("the bit reader's position is not a single number: judged by the decoded strings only")
            return
        t = s.copy()
        for k in range(9):      # is the field the position?
            eng.assume(t, ge(sp.n, k // 8 + 1))
            r = [(y, eng.read(y, this.path + (cur[0],))[0][1]) for y, _ in eng.run(name, t.copy(), this, [], 0)[0]]
            if not r or any(x != L(k + 1) for _, x in r):
                rep.note("the bit reader's field does not count the bits read: judged by the decoded strings only")
                return
            t = r[0][0]
        img = eng.read(s, sp.path)[0][1]
        for k in range(8):
            q = S(new_sym("octet number", 0, 1 << 37))
            x = s.copy()
            eng.assume(x, ge(sp.n - 1, q))
            eng.write(x, this.path + (cur[0],), q.scale(8) + k)
            res, exc = eng.run(name, x, this, [], 0)
            for y in exc:
                rep.judge("bit-order", eng, y, False, name, y.exc.where, "throws")
            for y, got in res:
                rep.judge("bit-order", eng, y, eq(eng.read(y, this.path + (cur[0],))[0][1], q.scale(8) + k + 1), name, w, "the position does not advance by one bit")
                for z, b in eng.seq_get(y, img, q):
                    want = bitop("&", shr(b, 7 - k, 8, z.facts), L(1), 8, z.facts)
                    T, F = eng.branch(z, eq(want, 1))
                    for u in T:
                        rep.judge("bit-order", eng, u, got if not isinstance(got, Lin) else ne(got, 0), name, w, "bit %d of an octet is 1 and is read as 0" % k)
                    for u in F:
                        rep.judge("bit-order", eng, u, (not got) if isinstance(got, bool) else eq(got, 0) if isinstance(got, Lin) else neg(got), name, w, "bit %d of an octet is 0 and is read as 1" % k)
    rep.engine(eng, ("bounds",), "in-bounds")


def c30(D, rep, tier):
    for k, t in HR.items():
        rep.rule(k, t)
    huffman_strings(rep, D, tier, ())


def c01(D, rep, tier):
    rep.rule("in-bounds", HR["in-bounds"])
    from ..report import Report
    sub = Report(rep.prop, tier, 1)
    huffman_strings(sub, D, tier, ())
    take(rep, sub, "in-bounds")


def take(rep, sub, *rules):
    """Only these rules of a sub-report."""
    for r in rules:
        a = rep.rules.setdefault(r, [0, 0, 0])
        for i, n in enumerate(sub.rules.get(r, [0, 0, 0])):
            a[i] += n
    rep.viol += [v for v in sub.viol if v["rule"] in rules]
    for k, n in sub.und.items():
        if k[0] in rules:
            rep.und[k] = rep.und.get(k, 0) + n
    rep.functions |= sub.functions
