"""C07: frame fields are laid out as RFC 9113 defines (bit-slice abstract interpretation of parse and serialize)."""
from .util import *
from ..values import to_runs, runs_lin, cut

# record -> total octets, [(field, byte offset, octets, significant low bits)]; RFC 9113 sections 4.1, 6.5.1, 6.8, 6.9
LAYOUT = {
    "ion::Http2FrameHeader": (9, [("length", 0, 3, 24), ("type", 3, 1, 8), ("flags", 4, 1, 8), ("stream_id", 5, 4, 31)]),
    "ion::Http2Setting": (6, [("identifier", 0, 2, 16), ("value", 2, 4, 32)]),
    "ion::Http2GoAwayPayload": (8, [("last_stream_id", 0, 4, 31), ("error_code", 4, 4, 32)]),
    "ion::Http2WindowUpdate": (4, [("window_size_increment", 0, 4, 31)]),
}


def low_bits(eng, st, v, k):
    """The value of the k least significant bits of the term."""
    runs = to_runs(v, 64, st.facts)
    return None if runs is None else runs_lin(cut(runs, 0, k))


def layout(D, rep, tier):
    rep.rule("parse", "for every field of every frame structure, the value parse() stores is, bit for bit, the big-endian "
             "number at the field's RFC 9113 offset with reserved bits dropped")
    rep.rule("serialize", "every octet serialize() writes is the RFC 9113 big-endian octet of its field with reserved bits 0; "
             "no octet is left unwritten")
    rep.rule("wire-bounds", "every read and write lies inside the fixed-size wire image")
    for cls, (size, fields) in LAYOUT.items():
        eng = Engine(D, budget=200000)
        st = St()
        sp = span_in("wire", size)
        res, exc = eng.run(cls + "::parse", st, None, [sp])
        w = where_fn(eng, cls + "::parse")
        rep.count("parse_states", len(res))
        for s, v in res:
            if isinstance(v, Ptr):
                v = eng.read(s, v.path)[0][1]
            for f, off, n, bits in fields:
                got = v.get(f) if isinstance(v, Struct) else None
                img = eng.read(s, sp.path)[0][1]
                for s2, num in be(eng, s, img, off, n):
                    want = low_bits(eng, s2, num, bits)
                    if not isinstance(got, Lin) or want is None:
                        rep.undecided("parse", "%s::parse: value of %s not expressible: %r" % (cls, f, got))
                        continue
                    rep.judge("parse", eng, s2, eq(got, want), cls + "::parse", w,
                              "field %s is %r, RFC 9113 says %r" % (f, got, want))
                    rep.sample("parse", "%s.%s = %r" % (cls, f, got))
        rep.engine(eng, ("bounds", "null", "opt"), "wire-bounds")

        eng = Engine(D, budget=200000)
        st = St()
        vals = {}
        ft = eng.field_types(cls)
        for f, off, n, bits in fields:
            if f not in ft:
                raise AnalysisBroken("%s has no field %s" % (cls, f))
            vals[f] = eng.fresh(ft[f], ("in", f))
        this = obj(st, "frame", cls, **vals)
        root = ("v", 0, "out")
        st.store[root] = Seq("arr", L(size), (("s", "old", ZERO, L(size)),), None, None)
        res, exc = eng.run(cls + "::serialize", st, this, [SpanV((root,), ZERO, L(size))])
        w = where_fn(eng, cls + "::serialize")
        rep.count("serialize_states", len(res))
        for s, _ in res:
            q = s.store[root]
            for f, off, n, bits in fields:
                runs = to_runs(low_bits(eng, s, vals[f], bits), 8 * n, s.facts)
                for i in range(n):
                    want = runs_lin(cut(runs, 8 * (n - 1 - i), 8))
                    for s2, got in eng.seq_get(s, q, L(off + i)):
                        if not isinstance(got, Lin):
                            rep.undecided("serialize", "%s octet %d not expressible: %r" % (cls, off + i, got))
                            continue
                        rep.judge("serialize", eng, s2, eq(got, want), cls + "::serialize", w,
                                  "octet %d (field %s) is %r, RFC 9113 says %r" % (off + i, f, got, want))
                        rep.sample("serialize", "%s octet %d = %r" % (cls, off + i, got))
        rep.engine(eng, ("bounds", "null", "opt"), "wire-bounds")
