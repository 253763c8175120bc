"""Files served from disk: the file system as a set of unknown facts (C23, C24)."""
from .util import *
from ..models import Exc, path_of, mk_path, path_seq, dec_seq, starts, throw, setobj, seq_path_key, substr, int_val, map_key
from ..values import Clo

SFH = "ion::StaticFileHandler"
RES = ("canonical", "weakly_canonical")
REQ = ("in", "reqpath")
ROOT = ("in", "root")
KINDS = ("missing", "regular", "directory", "other")
MODE = {"regular": 0o100644, "directory": 0o040755, "other": 0o010644}


# ---- locations
def strip(k):
    """The location a path key names, however it was resolved on the way."""
    while isinstance(k, tuple) and k and (k[0] in RES + ("absolute", "make_preferred") or k[0] == "lexnorm" and resolved(k[1])):
        k = k[1]
    if isinstance(k, tuple) and k:
        if k[0] == "join" and len(k) == 3:
            return ("join", strip(k[1]), k[2])
        if k[0] == "of" and isinstance(k[1], tuple) and k[1] and isinstance(k[1][0], tuple):
            return ("of", tuple(("s", ("path", strip(p[1][1])), p[2], p[3]) if p[0] == "s" and isinstance(p[1], tuple) and p[1][:1] == ("path",)
                                else p for p in k[1]))
    return k


def resolved(k):
    """Whether every symbolic link and dot segment of the key has been followed."""
    while isinstance(k, tuple) and k and k[0] in ("absolute", "make_preferred", "parent_path", "lexnorm"):
        k = k[1]
    return isinstance(k, tuple) and bool(k) and k[0] in RES


def mentions(k, what):
    if k == what:
        return True
    return isinstance(k, tuple) and any(mentions(x, what) for x in k)


def unknown(k):
    return isinstance(k, tuple) and bool(k) and (k[0] in ("imp", "top") or any(unknown(x) for x in k))


def atom(*k):
    return ("atom", ("b", k))


class Files:
    """The file system. Facts about a location are chosen once and kept."""

    def __init__(self, eng, rep, peel=3):
        self.e, self.rep, self.peel = eng, rep, peel
        self.confined = None            # the key of the root
        self.contain = False            # whether used locations have to lie in it
        h = eng.hooks
        FS = "std::filesystem::"
        for q in ("stat", "lstat", "access", "realpath", "open", "fopen", "opendir", "eaccess", "faccessat", "open64", "stat64", "lstat64"):
            h[q] = getattr(self, "c_" + q.replace("64", ""), self.c_other)
            h["std::" + q] = h[q]
        for q in ("exists", "is_regular_file", "is_directory", "is_other", "is_empty", "is_fifo", "is_socket", "is_block_file", "is_character_file"):
            h[FS + q] = self.f_pred
        h["stat::stat"] = lambda e, c: [(c.st, Struct("stat", (), "raw", None))]
        h[FS + "is_symlink"] = self.f_link
        h[FS + "status"] = h[FS + "symlink_status"] = self.f_status
        h[FS + "file_size"] = self.f_size
        h[FS + "file_status::type"] = self.f_type
        h[FS + "status_known"] = lambda e, c: [(c.st, True)]
        for q in RES + ("absolute",):
            h[FS + q] = self.f_resolve
        h[FS + "relative"] = h[FS + "proximate"] = self.f_relative
        h[FS + "path::lexically_relative"] = h[FS + "path::lexically_proximate"] = self.p_lexrel
        for q in ("last_write_time", "hard_link_count", "read_symlink", "equivalent", "permissions", "create_directories", "remove", "remove_all",
                  "copy", "copy_file", "rename", "resize_file", "create_directory"):
            h[FS + q] = self.f_other
        P = FS + "path::"
        for q in ("begin", "end"):
            h[P + q] = self.p_begin
        h[P + "iterator::operator*"] = h[P + "iterator::operator->"] = self.it_deref
        h[P + "iterator::operator++"] = h[P + "iterator::operator--"] = self.it_step
        for q in (FS + "operator==", P + "iterator::operator==", P + "operator==", "std::operator==", FS + "operator!=", "std::operator!="):
            h[q] = self.eq
        h[P + "compare"] = self.p_compare
        h["<range>"] = self.p_range
        h[P + "is_absolute"] = h[P + "is_relative"] = self.p_absolute
        h["std::mismatch"] = h["std::ranges::mismatch"] = h["std::ranges::__mismatch_fn::operator()"] = self.mismatch
        h["std::equal"] = h["std::ranges::equal"] = self.equal
        h["std::distance"] = h["std::ranges::distance"] = self.distance
        h["std::next"] = h["std::prev"] = h["std::advance"] = self.advance
        h["std::error_code::operator bool"] = self.ec_bool
        h["std::error_code::clear"] = lambda e, c: setobj(e, c, c.st, Opaque("std::error_code", ("zero",)), VOID)
        S_ = "std::basic_"
        for q in ("ifstream", "fstream", "ofstream"):
            h[S_ + q + "::basic_" + q] = self.s_ctor
            h[S_ + q + "::open"] = self.s_open
            h[S_ + q + "::is_open"] = self.s_is_open
            h[S_ + q + "::close"] = lambda e, c: [(c.st, VOID)]
        for cls in ("ifstream", "fstream", "istream", "ios", "filebuf"):
            for q, f in (("operator bool", self.s_ok), ("good", self.s_ok), ("operator!", self.s_bad), ("fail", self.s_bad), ("bad", self.s_bad),
                         ("eof", self.s_eof), ("read", self.s_read), ("seekg", self.s_seek), ("tellg", self.s_tell), ("gcount", self.s_gcount)):
                h[S_ + cls + "::" + q] = f
        h["std::istreambuf_iterator::istreambuf_iterator"] = self.b_iter
        self.prev = {q: h.get(q) for q in ("std::vector::vector", "std::basic_string::basic_string")}
        h["std::vector::vector"] = h["std::basic_string::basic_string"] = self.from_stream

    # ---- facts
    def fact(self, st, k, name, choices):
        d = st.ghost.setdefault("fs", ())
        for x, v in d:
            if x == (k, name):
                return [(st, v)]
        out = []
        for i, v in enumerate(choices):
            s = st.copy() if i < len(choices) - 1 else st
            s.ghost["fs"] = d + (((k, name), v),)
            out.append((s, v))
        return out

    def kind(self, st, k):
        return self.fact(st, strip(k), "kind", KINDS)

    @staticmethod
    def known(st, k, name):
        for x, v in st.ghost.get("fs", ()):
            if x == (strip(k), name):
                return v
        return None

    def size(self, k):
        return S(memo_sym(("file_size", strip(k)), "size of the file", 0, 1 << 40, "in"))

    def readable(self, st, k):
        """[(state, whether opening for reading is permitted)] of an existing file."""
        out = []
        for s, t in self.kind(st, k):
            out += [(s, False)] if t == "missing" else self.fact(s, strip(k), "readable", (True, False))
        return out

    # ---- use of a location
    def use(self, e, c, st, what, k):
        self.rep.count("file_uses")
        st.ghost["used"] = st.ghost.get("used", ()) + ((what, strip(k)),)
        if not self.contain:
            return
        fr = c.fr
        while fr is not None and fr.fn is None:
            fr = fr.parent
        fn, at = clean(fr.fn["q"]) if fr is not None else "?", e.where(c.n, c.fr)
        if not self.derived(k):
            if unknown(k):
                self.rep.undecided("contained", "%s: the path is not tracked" % at)
            return
        if unknown(k):
            self.rep.undecided("contained", "%s: part of the path is not tracked" % at)
            return
        self.rep.judge("contained", e, st, self.inside(st, k), fn, at,
                       "%s of a location derived from the request that is not shown to lie inside the resolved root: %s" % (what, text(k)))
        self.rep.sample("contained", "%s: %s of %s" % (at, what, text(k)))

    def derived(self, k):
        """Whether the location depends on the request: it is neither the root itself nor a constant."""
        k = strip(k)
        return k != self.confined and (mentions(k, REQ) or self.confined is not None and mentions(k, self.confined))

    def inside(self, st, k):
        """Whether the path taken so far shows that location k lies inside the root."""
        e = self.e
        want = strip(k)
        for ev in st.ghost.get("cmp", ()):
            kind, f, b = ev[:3]
            if not (resolved(f) and strip_parents(f) == want and self.is_root(b)):
                continue
            if kind == "comps":
                if self.by_components(st, f, b):
                    return True
            elif kind == "same":
                if e.decide(st, atom("patheq", *order(f, b))) is True:
                    return True
            elif kind == "mismatch":
                if e.decide(st, eq(self.mis(f, b), self.ncomp(b))) is True:
                    return True
            elif kind == "prefix":
                if e.decide(st, atom("prefix", f, b)) is True:
                    return True
            elif kind == "rel":
                if self.by_relative(st, f, b):
                    return True
        return self.by_string(st, want)

    def is_root(self, b):
        return resolved(b) and strip(b) == self.confined

    def note_cmp(self, st, *ev):
        have = st.ghost.get("cmp", ())
        if ev not in have:
            st.ghost["cmp"] = have + (ev,)

    def by_components(self, st, f, b):
        e = self.e
        n = None
        for i in range(1, self.peel + 2):
            if e.decide(st, eq(self.ncomp(b), i)) is True:
                n = i
        if n is None or e.decide(st, ge(self.ncomp(f), n)) is not True:
            return False
        return all(e.decide(st, atom("compeq", *order((f, L(i)), (b, L(i))))) is True for i in range(n))

    def by_relative(self, st, f, b):
        e = self.e
        r = ("rel", f, b)
        up = Seq("str", L(2), (("c", b".."),), None, None)
        if e.decide(st, atom("compeq", *order(("lit", b".."), (r, ZERO)))) is False:
            return True
        q = path_seq(mk_path(r))
        updir = Seq("str", L(3), (("c", b"../"),), None, None)
        no = lambda p: self.begins(st, q, p) is False
        return no(up) or no(updir) and e.decide(st, streq(e, st, q, up)) is False

    def begins(self, st, q, p):
        """Whether text q begins with text p, as far as the path taken shows."""
        e = self.e
        rs = {x if isinstance(x, bool) else e.decide(s, x) for s, x in starts(e, None, st.copy(), q, p, "starts_with")}
        if len(rs) == 1 and None not in rs:
            return rs.pop()
        key = ("find", canon_seq(q), canon_seq(p), None)
        found = e.decide(st, atom("found", *key))
        if found is True:
            return e.decide(st, eq(S(memo_sym(("findpos", key), "", 0, 1 << 48, "in", ("find", key))), 0))
        return None

    def by_string(self, st, want):
        """The text of the location starts with the text of the root and a separator."""
        e = self.e
        made = st.ghost.get("made", ())
        for f, b in [(x, y) for x in made if strip(x) == want for y in made if self.is_root(y)]:
            q, p = path_seq(mk_path(f)), path_seq(mk_path(b))
            sep = Seq("str", p.n + 1, p.pieces + (("c", b"/"),), None, None)
            if self.begins(st, q, sep) is True or self.begins(st, q, p) is True and self.separated(st, q, p):
                return True
        return False

    def separated(self, st, q, p):
        """The text ends where the root ends, or goes on with a separator there."""
        e = self.e
        if e.decide(st, eq(q.n, p.n)) is True:
            return True
        slash = Seq("str", ONE, (("c", b"/"),), None, None)
        if e.decide(st, streq(e, st, p, slash)) is True or \
                all(x is not False and e.decide(s, x) is True for s, x in starts(e, None, st.copy(), p, slash, "ends_with")):
            return True
        ok_ = True
        T, F = e.branch(st.copy(), eq(q.n, p.n))
        for s in F:
            for s2 in e.assume(s, ge(q.n, p.n + 1)):
                for s3, x in e.seq_get(s2, q, p.n):
                    ok_ = ok_ and isinstance(x, Lin) and e.decide(s3, eq(x, 47)) is True
        return ok_

    # ---- path comparison
    def ncomp(self, k):
        return S(memo_sym(("ncomp", k), "number of components of %s" % text(k), 1 if resolved(k) or k[0] == "rel" else 0, 1 << 16, "in"))

    def mis(self, f, b):
        return S(memo_sym(("mismatch", f, b), "first difference", 0, 1 << 16, "in"))

    def comp(self, k, i):
        return mk_path(("component", k, i))

    def p_begin(self, e, c):
        op = c.q.split("::")[-1]
        return each(c.obj(), lambda s, v: each(path_of(e, s, v), lambda s2, k: [(s2, Opaque("pathit", (k, ZERO if op == "begin" else self.ncomp(k))))]))

    def p_range(self, e, st, v, p, n, fr):
        """for (x : path)"""
        if not (isinstance(v, Opaque) and v.cls == "std::filesystem::path"):
            return None
        k, out, live, i = v.data, [], [st], 0
        while live:
            nxt = []
            entry = []
            for s in live:
                T, F = e.branch(s, ge(self.ncomp(k), i + 1))
                entry += T
                out += [("n", x, None) for x in F]
            if i >= self.peel:
                entry = e.loop_cut(n, entry, fr, None, n["b"], None, out)
            for s in entry:
                root = ("v", fr.id, ("comp", id(n)))
                s.store[root] = self.comp(k, L(i))
                for s1 in e.bind_loop_var(n["var"], s, fr, (root,)):
                    for kk, s2, x in e.ex(n["b"], s1, fr):
                        if kk in ("n", "c"):
                            nxt.append(s2)
                        else:
                            out.append(("n", s2, None) if kk == "b" else (kk, s2, x))
            live = nxt
            i += 1
        return out

    def it_deref(self, e, c):
        def f(s, v):
            if not (isinstance(v, Opaque) and v.cls == "pathit"):
                return NotImplemented
            k, i = v.data
            root = ("t", c.fr.id, ("pathcomp", e.uid()))
            s.store[root] = self.comp(k, e.canon(s, i))
            return [(s, Ptr((root,), False))]
        return each(c.obj(), f)

    def it_step(self, e, c):
        d = 1 if c.q.endswith("++") else -1

        def f(s, v):
            n = Opaque("pathit", (v.data[0], v.data[1] + d))
            return setobj(e, c, s, n, v if c.args else None)
        return each(c.obj(), f)

    def pair_of(self, e, c):
        for s, a in (c.obj() if c.this is not None else c.val(0)):
            for s1, b in c.val(0 if c.this is not None else 1, s):
                yield s1, a, b

    def eq(self, e, c):
        out = []
        for s, a, b in self.pair_of(e, c):
            pa, pb = [isinstance(x, Opaque) and x.cls == "std::filesystem::path" for x in (a, b)]
            ia, ib = [isinstance(x, Opaque) and x.cls == "pathit" for x in (a, b)]
            if ia and ib:
                r = eq(a.data[1], b.data[1]) if a.data[0] == b.data[0] else atom("imp", e.uid())
                out.append((s, r))
            elif (pa or pb) and (pa or isinstance(a, (Seq, It, Ptr, SpanV))) and (pb or isinstance(b, (Seq, It, Ptr, SpanV))):
                for s1, ka in path_of(e, s, a):
                    for s2, kb in path_of(e, s1, b):
                        out.append((s2, self.same(s2, ka, kb)))
            else:
                return NotImplemented
        if c.q.endswith("!="):
            out = [(s, (not r) if isinstance(r, bool) else ("not", r)) for s, r in out]
        return out

    def same(self, st, a, b):
        """Condition: two path values are equal."""
        ca, cb = comp_of(a), comp_of(b)
        if ca is not None and cb is not None:
            if isinstance(ca[0], tuple) and isinstance(cb[0], tuple) and ca[0] != "lit" and cb[0] != "lit":
                self.note_cmp(st, "comps", ca[0], cb[0])
                self.note_cmp(st, "comps", cb[0], ca[0])
            for x in (ca, cb):
                if isinstance(x[0], tuple) and x[0] and x[0][0] == "rel":
                    self.note_cmp(st, "rel", x[0][1], x[0][2])
            if ca == cb:
                return True
            if ca[0] == cb[0] == "lit":
                return ca[1] == cb[1]
            return atom("compeq", *order(ca, cb))
        if a == b:
            return True
        self.note_cmp(st, "same", a, b)
        self.note_cmp(st, "same", b, a)
        return atom("patheq", *order(a, b))

    def p_absolute(self, e, c):
        rel = c.q.endswith("is_relative")

        def g(s, k):
            if k == ("of", ()):
                r = False
            elif k[0] == "of" and k[1][:1] == ("c",):
                r = k[1][1].startswith(b"/")
            elif resolved(k):
                r = True
            else:
                r = atom("is_absolute", k)
            return [(s, ((not r) if isinstance(r, bool) else ("not", r)) if rel else r)]
        return each(c.obj(), lambda s, v: each(path_of(e, s, v), g))

    def p_compare(self, e, c):
        out = []
        for s, a, b in self.pair_of(e, c):
            for s1, ka in path_of(e, s, a):
                for s2, kb in path_of(e, s1, b):
                    T, F = e.branch(s2, self.same(s2, ka, kb))
                    k = S(memo_sym(("pathcmp", ka, kb), "compare", -1, 1, "in"))
                    out += [(x, ZERO) for x in T] + [(y, k) for x in F for y in e.assume(x, ne(k, 0))]
        return out

    def mismatch(self, e, c):
        vs = [c.val(i)[0][1] for i in range(len(c.args))]
        if not all(isinstance(v, Opaque) and v.cls in ("pathit", "std::filesystem::path") for v in vs[:2]):
            return NotImplemented
        ks = self.range_keys(e, c.st, vs)
        if ks is None:
            return NotImplemented
        (a, _), (b, bounded) = ks
        st = c.st
        m = self.mis(a, b)
        self.note_cmp(st, "mismatch", b, a)
        m2 = self.mis(b, a)
        self.note_cmp(st, "mismatch", a, b)
        out = []
        for s in e.assume(st, ("and", ge(self.ncomp(a), m), ("and", eq(m, m2), ge(self.ncomp(b), m) if bounded else True))):
            x, y = Opaque("pathit", (a, m)), Opaque("pathit", (b, m))
            f = ("first", "second") if "ranges" not in c.q else ("in1", "in2")
            out.append((s, Struct("std::pair", tuple(zip(f, (x, y))), ("mismatch",), c.n.get("t"))))
        return out

    def range_keys(self, e, st, vs):
        """[(key, bounded)] of the two component ranges of a call."""
        if all(v.cls == "std::filesystem::path" for v in vs[:2]):
            return [(vs[0].data, True), (vs[1].data, True)]
        its = [v for v in vs if isinstance(v, Opaque) and v.cls == "pathit"]
        if len(its) < 3 or its[0].data[0] != its[1].data[0]:
            return None
        whole = e.decide(st, eq(its[0].data[1], 0)) is True and e.decide(st, eq(its[2].data[1], 0)) is True and \
            e.decide(st, eq(its[1].data[1], self.ncomp(its[0].data[0]))) is True
        if not whole:
            return None
        return [(its[0].data[0], True), (its[2].data[0], len(its) > 3)]

    def equal(self, e, c):
        vs = [c.val(i)[0][1] for i in range(min(len(c.args), 4))]
        if not vs or not all(isinstance(v, Opaque) and v.cls in ("pathit", "std::filesystem::path") for v in vs[:2]):
            return NotImplemented
        ks = self.range_keys(e, c.st, vs)
        if ks is None:
            return [(c.st, atom("imp", e.uid()))]
        (a, _), (b, bounded) = ks
        if bounded:
            return [(c.st, self.same(c.st, a, b))]
        if e.decide(c.st, ge(self.ncomp(b), self.ncomp(a))) is not True:
            self.rep.undecided("contained", "%s: std::equal may run past the end of the second path" % e.where(c.n, c.fr))
            return [(c.st, atom("imp", e.uid()))]
        self.note_cmp(c.st, "prefix", b, a)
        return [(c.st, atom("prefix", b, a))]

    def distance(self, e, c):
        vs = [c.val(i)[0][1] for i in range(len(c.args))]
        if len(vs) == 2 and all(isinstance(v, Opaque) and v.cls == "pathit" for v in vs) and vs[0].data[0] == vs[1].data[0]:
            return [(c.st, vs[1].data[1] - vs[0].data[1])]
        if len(vs) == 1 and isinstance(vs[0], Opaque) and vs[0].cls == "std::filesystem::path":
            return [(c.st, self.ncomp(vs[0].data))]
        return NotImplemented

    def advance(self, e, c):
        v = c.val(0)[0][1]
        if not (isinstance(v, Opaque) and v.cls == "pathit"):
            return NotImplemented
        d = c.val(1)[0][1] if len(c.args) > 1 else ONE
        if c.q == "std::prev":
            d = -d
        n = Opaque("pathit", (v.data[0], v.data[1] + d))
        if c.q == "std::advance":
            return [(s, VOID) for s in e.write(c.st, c.args[0].path, n)]
        return [(c.st, n)]

    # ---- std::filesystem
    def keys(self, e, c, i=0):
        return each(c.val(i), lambda s, v: path_of(e, s, v))

    @staticmethod
    def ec_arg(e, c, first=1):
        for i in range(first, len(c.args)):
            a = c.args[i]
            if isinstance(a, Ptr) and a.path is not None:
                v = e.read(c.st, a.path)[0][1]
                if isinstance(v, Opaque) and v.cls == "std::error_code":
                    return a
        return None

    def outcome(self, e, c, st, failed, what, ec):
        """[state] going on after a call that reports failure through ec, or throws."""
        if ec is None:
            if failed:
                st.log(e.where(c.n, c.fr), what + " reports a file system error")
                throw(e, c, st, "std::filesystem::filesystem_error")
                return []
            return [st]
        return e.write(st, ec.path, Opaque("std::error_code", ("set", what) if failed else ("zero",)))

    def fails(self, st, what, k):
        return self.fact(st, strip(k), "error in " + what, (False, True))

    def f_pred(self, e, c):
        op = c.q.split("::")[-1]
        out = []
        v0 = c.val(0)[0][1]
        if isinstance(v0, Opaque) and v0.cls == "file_status":
            for s, t in self.kind(c.st, v0.data):
                out.append((s, self.test(op, t)))
            return out
        ec = self.ec_arg(e, c)
        for s, k in self.keys(e, c):
            self.use(e, c, s, op, k)
            for s1, bad in self.fails(s, op, k):
                if bad:
                    out += [(x, False) for x in self.outcome(e, c, s1, True, op, ec)]
                    continue
                for s2, t in self.kind(s1, k):
                    out += [(x, self.test(op, t)) for x in self.outcome(e, c, s2, False, op, ec)]
        return out

    @staticmethod
    def test(op, t):
        if op == "exists":
            return t != "missing"
        if op == "is_regular_file":
            return t == "regular"
        if op == "is_directory":
            return t == "directory"
        if op == "is_other":
            return t == "other"
        return False if t in ("missing", "regular", "directory") and op != "is_empty" else atom("imp", op)

    def f_link(self, e, c):
        out = []
        for s, k in self.keys(e, c):
            self.use(e, c, s, "is_symlink", k)
            out.append((s, False if resolved(k) else atom("symlink", k)))
        return out

    def f_status(self, e, c):
        out = []
        for s, k in self.keys(e, c):
            self.use(e, c, s, "status", k)
            out.append((s, Opaque("file_status", k)))
        return out

    def f_type(self, e, c):
        t = {"missing": -1, "regular": 1, "directory": 2, "other": 6}
        out = []
        for s, v in c.obj():
            for s1, x in self.kind(s, v.data):
                out.append((s1, L(t[x])))
        return out

    def f_size(self, e, c):
        out = []
        ec = self.ec_arg(e, c)
        for s, k in self.keys(e, c):
            self.use(e, c, s, "file_size", k)
            for s1, t in self.kind(s, k):
                good = t == "regular"
                out += [(x, self.size(k) if good else L((1 << 64) - 1)) for x in self.outcome(e, c, s1, not good, "file_size", ec)]
        return out

    def f_resolve(self, e, c):
        out = self.resolve(e, c)
        for s, v in out:
            if resolved(v.data) and v.data not in s.ghost.get("made", ()):
                s.ghost["made"] = s.ghost.get("made", ()) + (v.data,)
        return out

    def resolve(self, e, c):
        op = c.q.split("::")[-1]
        out = []
        ec = self.ec_arg(e, c)
        for s, k in self.keys(e, c):
            for s1, bad in self.fails(s, op, k):
                if not bad and op == "canonical":
                    for s2, t in self.kind(s1, k):
                        gone = t == "missing"
                        out += [(x, mk_path(("of", ("c", b"")) if gone else (op, k))) for x in self.outcome(e, c, s2, gone, op, ec)]
                    continue
                out += [(x, mk_path(("of", ("c", b"")) if bad else (op, k))) for x in self.outcome(e, c, s1, bad, op, ec)]
        return out

    def f_relative(self, e, c):
        out = []
        ec = self.ec_arg(e, c, 2)
        for s, k in self.keys(e, c):
            for s1, b in each(c.val(1, s), lambda x, v: path_of(e, x, v)):
                for s2, bad in self.fails(s1, "relative", k):
                    fr = ("rel", k if resolved(k) else ("weakly_canonical", k), b if resolved(b) else ("weakly_canonical", b))
                    self.note_cmp(s2, "rel", fr[1], fr[2])
                    out += [(x, mk_path(("of", ("c", b"")) if bad else fr)) for x in self.outcome(e, c, s2, bad, "relative", ec)]
        return out

    def p_lexrel(self, e, c):
        out = []
        for s, v in c.obj():
            for s1, k in path_of(e, s, v):
                for s2, b in self.keys(e, c) if s1 is c.st else each(c.val(0, s1), lambda x, y: path_of(e, x, y)):
                    self.note_cmp(s2, "rel", k, b)
                    out.append((s2, mk_path(("rel", k, b))))
        return out

    def f_other(self, e, c):
        for s, k in self.keys(e, c):
            self.use(e, c, s, c.q.split("::")[-1], k)
        return NotImplemented

    def ec_bool(self, e, c):
        def f(s, v):
            if isinstance(v, Opaque) and v.data[0] in ("zero", "set"):
                return [(s, v.data[0] == "set")]
            return [(s, atom("ec", v.data if isinstance(v, Opaque) else e.uid()))]
        return each(c.obj(), f)

    # ---- POSIX
    def c_stat(self, e, c):
        op = c.q.split("::")[-1]
        out = []
        for s, k in self.keys(e, c):
            self.use(e, c, s, op, k)
            for s1, t in self.kind(s, k):
                if t == "missing":
                    s1.ghost["errno"] = 2
                    out.append((s1, L(-1)))
                    continue
                p = c.args[1]
                if isinstance(p, Ptr) and p.path is not None:
                    for s2, v in e.read(s1, p.path):
                        if isinstance(v, Struct):
                            v = v.with_("st_mode", L(MODE[t])).with_("st_size", self.size(k))
                        out += [(s3, ZERO) for s3 in e.write(s2, p.path, v)]
        return out

    c_lstat = c_stat

    def c_access(self, e, c):
        out = []
        for s, k in self.keys(e, c):
            self.use(e, c, s, c.q, k)
            for s1, mode in int_val(e, c, 1, s):
                for s2, t in self.kind(s1, k):
                    if t == "missing":
                        out.append((s2, L(-1)))
                    elif not mode.t and not mode.c & 4:
                        out.append((s2, ZERO))
                    else:
                        out += [(s3, ZERO if r else L(-1)) for s3, r in self.readable(s2, k)]
        return out

    c_eaccess = c_access

    def c_realpath(self, e, c):
        out = []
        for s, k in self.keys(e, c):
            for s1, t in self.kind(s, k):
                if t == "missing":
                    out.append((s1, Ptr(None, True)))
                    continue
                q = path_seq(mk_path(("canonical", k)))
                s1.ghost["made"] = s1.ghost.get("made", ()) + (("canonical", k),)
                buf = c.args[1]
                if isinstance(buf, (Ptr, It)) and buf.path is not None:
                    root = buf.path
                    for s2 in e.write(s1, root, q):
                        out.append((s2, It(root, ZERO, False)))
                else:
                    root = ("t", 0, ("realpath", e.uid()))
                    s1.store[root] = q
                    out.append((s1, It((root,), ZERO, False)))
        return out

    def c_other(self, e, c):
        for s, k in self.keys(e, c):
            self.use(e, c, s, c.q, k)
        return NotImplemented

    c_open = c_fopen = c_opendir = c_other

    # ---- streams: Opaque("fstream", (key, position, open, failed, short read))
    def s_new(self, e, c, st, k, mode):
        """[(state, stream)] opened for reading."""
        self.use(e, c, st, "open", k)
        out = []
        for s, r in self.readable(st, k):
            if not r:
                out.append((s, Opaque("fstream", (k, ZERO, False, True, ZERO))))
                continue
            for s1, bad in self.fact(s, strip(k), "open error", (False, True)):
                end = mode is not None and bool(mode.c & self.ate(e))
                out.append((s1, Opaque("fstream", (k, ZERO if bad or not end else self.size(k), not bad, bad, ZERO))))
        return out

    def ate(self, e):
        return 2            # std::ios::ate in libstdc++

    def mode(self, e, c, i):
        for j in range(i, len(c.args)):
            v = c.val(j)[0][1]
            if isinstance(v, Lin) and not v.t:
                return v
        return None

    def s_ctor(self, e, c):
        if not c.args or "ofstream" in c.q and False:
            return [(c.st, Opaque("fstream", (None, ZERO, False, False, ZERO)))]
        out = []
        for s, k in self.keys(e, c):
            out += self.s_new(e, c, s, k, self.mode(e, c, 1))
        return out

    def s_open(self, e, c):
        out = []
        for s, k in self.keys(e, c):
            for s1, v in self.s_new(e, c, s, k, self.mode(e, c, 1)):
                out += setobj(e, c, s1, v, VOID)
        return out

    def stream(self, c):
        for s, v in c.obj():
            if not (isinstance(v, Opaque) and v.cls == "fstream" and len(v.data) == 5):
                raise Giveup("a stream that is not tracked")
            yield s, v

    def s_is_open(self, e, c):
        return [(s, v.data[2]) for s, v in self.stream(c)]

    def s_ok(self, e, c):
        return [(s, v.data[2] and not v.data[3]) for s, v in self.stream(c)]

    def s_bad(self, e, c):
        return [(s, v.data[3]) for s, v in self.stream(c)]

    def s_eof(self, e, c):
        return [(s, v.data[3]) for s, v in self.stream(c)]

    def s_seek(self, e, c):
        out = []
        for s, v in self.stream(c):
            k, pos, op, bad, got = v.data
            at = c.val(0, s)[0][1]
            at = at.data if isinstance(at, Opaque) and at.cls == "fpos" else at
            way = c.val(1, s)[0][1].c if len(c.args) > 1 else 0
            pos = at if way == 0 else pos + at if way == 1 else self.size(k) + at
            out += setobj(e, c, s, Opaque("fstream", (k, pos, op, bad, got)))
        return out

    def s_tell(self, e, c):
        out = []
        for s, v in self.stream(c):
            k, pos, op, bad, got = v.data
            if not op or bad:
                out.append((s, Opaque("fpos", L(-1))))
                continue
            for s1, t in self.kind(s, k):
                for s2, err in self.fact(s1, strip(k), "tell error", (False, True)) if t == "regular" else [(s1, True)]:
                    out.append((s2, Opaque("fpos", L(-1) if err else pos)))
        return out

    def s_read(self, e, c):
        out = []
        for s, v in self.stream(c):
            k, pos, op, bad, got = v.data
            for s1, n in int_val(e, c, 1, s) if not isinstance(c.val(1, s)[0][1], Opaque) else [(s, c.val(1, s)[0][1].data)]:
                if not op or bad:
                    out += setobj(e, c, s1, Opaque("fstream", (k, pos, op, True, ZERO)))
                    continue
                for s2, err in self.fact(s1, strip(k), "read error", (False, True)):
                    if err:
                        out += setobj(e, c, s2, Opaque("fstream", (k, pos, op, True, ZERO)))
                        continue
                    T, F = e.branch(s2, ge(self.size(k), pos + n))
                    for x in F:
                        left = self.size(k) - pos
                        for y in self.put(e, c, x, k, pos, left):
                            out += setobj(e, c, y, Opaque("fstream", (k, self.size(k), op, True, left)))
                    for x in T:
                        for y in self.put(e, c, x, k, pos, n):
                            out += setobj(e, c, y, Opaque("fstream", (k, pos + n, op, False, n)))
        return out

    def put(self, e, c, st, k, pos, n):
        """[state] with n octets of the file from pos on in the buffer."""
        p = c.val(0, st)[0][1]
        if isinstance(p, (Ptr, It)) and p.path is not None:
            out = []
            off = p.idx if isinstance(p, It) else ZERO
            for s, q in e.read(st, p.path):
                if not isinstance(q, Seq):
                    raise Giveup("a file is read into an object that is not tracked")
                piece = ("s", ("filedata", strip(k)), pos, pos + n)
                for s1, a in e.seq_slice(s, q, ZERO, off):
                    for s2, b in e.seq_slice(s1, q, off + n, q.n):
                        ps = tuple(x for x in tuple(a) + (piece,) + tuple(b) if e.decide(s2, eq(plen(x), 0)) is not True)
                        out += e.write(s2, p.path, Seq(q.kind, q.n, ps, q.et, None))
            return out
        return [st]

    def s_gcount(self, e, c):
        return [(s, v.data[4]) for s, v in self.stream(c)]

    def b_iter(self, e, c):
        if not c.args:
            return [(c.st, Opaque("bufit", None))]
        for s, v in c.val(0):
            if isinstance(v, Opaque) and v.cls == "fstream":
                return [(s, Opaque("bufit", v.data))]
        return [(c.st, Opaque("bufit", c.args[0]))]

    def from_stream(self, e, c):
        if c.args:
            v = c.val(0)[0][1]
            if isinstance(v, Opaque) and v.cls == "bufit" and isinstance(v.data, tuple):
                k, pos, op, bad, got = v.data
                t = c.f.get("clst")
                t = c.n.get("t") if t is None else t
                kind = "vec" if "vector" in c.q else "str"
                et = e.elem_type(t)
                if not op or bad:
                    return [(c.st, Seq(kind, ZERO, (), et, None))]
                out = []
                for s, err in self.fact(c.st, strip(k), "read error", (False, True)):
                    for s1, tk in self.kind(s, k):
                        if err or tk != "regular":
                            m = S(memo_sym(("partial", strip(k)), "octets read before the error", 0, 1 << 40, "in"))
                            for s2 in e.assume(s1, ge(self.size(k), m + 1)):
                                out.append((s2, Seq(kind, m, (("s", ("filedata", strip(k)), ZERO, m),), et, None)))
                        else:
                            n = self.size(k) - pos
                            out.append((s1, Seq(kind, n, (("s", ("filedata", strip(k)), pos, self.size(k)),), et, None)))
                return out
        p = self.prev.get(c.q)
        return p(e, c) if p else NotImplemented


def order(a, b):
    return (a, b) if repr(a) <= repr(b) else (b, a)


def comp_of(k):
    """(path key, index) of a component, ("lit", text) of a constant one."""
    if isinstance(k, tuple) and k[0] == "component":
        return (k[1], k[2])
    if isinstance(k, tuple) and k[0] == "of" and isinstance(k[1], tuple) and k[1][:1] == ("c",):
        return ("lit", k[1][1].rstrip(b"\0"))
    return None


def strip_parents(k):
    while isinstance(k, tuple) and k and k[0] == "parent_path":
        k = k[1]
    return strip(k)


def text(k):
    if k == REQ:
        return "request"
    if k == ROOT:
        return "root"
    if isinstance(k, tuple) and k:
        if k[0] == "of":
            return text(k[1])
        if k[0] == "c" and len(k) == 2:
            return repr(k[1].decode("latin1"))
        if k[0] == "path":
            return text(k[1])
        if k[0] == "s":
            return "part of " + text(k[1])
        if k[0] == "join":
            return "%s / %s" % (text(k[1]), text(k[2]))
        if isinstance(k[0], str):
            return "%s(%s)" % (k[0], ", ".join(text(x) for x in k[1:] if isinstance(x, tuple)))
        return " + ".join(text(x) for x in k)
    return str(k)


# ---- the handler
def unknown_text(name, key, most=1 << 12):
    n = S(new_sym("|%s|" % name, 0, most))
    return Seq("str", n, (("s", key, ZERO, n),), None, None)


class Serve:
    """A static file handler over unknown prefix, root and request path."""

    def __init__(self, D, rep):
        self.e = e = Engine(D, 3, budget=3000000)
        e.opaque_prefix = ("spdlog::", "fmt::")
        self.rep = rep
        self.fs = Files(e, rep)
        self.at = where_fn(e, SFH + "::handle")

    def start(self):
        """[(state, handler, path pointer)] for a request the handler takes."""
        e = self.e
        st = St()
        st.ghost["fs"] = ()
        root = unknown_text("root", ROOT)
        self.fs.confined = strip(seq_path_key(root))
        made, _ = make(e, st, "handler", SFH, [var(st, "prefix", unknown_text("prefix", ("in", "prefix"))), var(st, "root", root)])
        out = []
        for s, this in made:
            p = var(s, "path", unknown_text("path", REQ))
            live, _ = e.run(SFH + "::matches", s, this, [p], 1)
            for s1, r in live:
                out += [(x, this, p) for x in e.branch(s1, r if isinstance(r, (bool, tuple)) else ne(r, 0))[0]]
        return out

    def ask(self, st, this, p, head):
        return self.e.run(SFH + "::handle", st, this, [p, bool(head)], 2)


def headers(e, st, r):
    """{name: value} of a response, None if not tracked."""
    out = {}
    h = r.get("headers")
    if not isinstance(h, Seq):
        return None
    for p in h.pieces:
        if p[0] != "v" or not isinstance(p[1], Struct):
            return None
        n = as_seq(e, st, p[1].get("name"))[0][1]
        v = as_seq(e, st, p[1].get("value"))[0][1]
        b = const_bytes(n)
        if b is None:
            return None
        out[b.lower()] = v
    return out


def c23(D, rep, tier):
    rep.rule("contained", "every location derived from the request that is opened, examined or served is the fully resolved one, and the path taken shows it "
             "inside the fully resolved root")
    rep.rule("refused", "a request whose location was not used is answered with an error status")
    w = Serve(D, rep)
    e = w.e
    served = 0
    w.fs.contain = True
    for st, this, p in w.start():
        for head in (False, True):
            live, exc = w.ask(st.copy(), this, p, head)
            for s, r in live:
                served += refused(w, s, r)
            for s in exc:
                rep.judge("refused", e, s, False, s.exc.where and SFH + "::handle", w.at, "an exception (%s) leaves the handler" % s.exc.ty)
    rep.engine(e, {"bounds", "null", "opt", "map"}, "refused")
    rep.absorb(e)
    if not served:
        rep.undecided("contained", "no path serves a file")


# ---- the same behind the router, in the running program
ROOT_DIR = b"/given/www"


def program(D, rep, opts):
    """The started program, its file system unknown: (run, files)."""
    from . import app
    r = app.Run(D, rep, "start", dict({"--cleartext": True}, **opts), (), [])
    r.e.budget, r.e.maxstates = max(r.e.budget, 3000000), 60000
    fs = Files(r.e, rep)
    fs.confined = ("of", ("c", ROOT_DIR))
    return r, fs


def request(r, st, path, method):
    """[(state, response)] of the program to a request; path is text."""
    from . import app
    e = r.e
    e.steps = 0
    m = Seq("str", L(len(method)), (("c", method),), None, None)
    out = []
    for s, h in app.handler(r, st, path, method):
        req, _ = make(e, s, "request", "ion::HttpRequest")
        for s1, p in req:
            for s2 in e.write(s1, p.path + ("method",), m):
                for s3 in e.write(s2, p.path + ("path",), path):
                    n = {"k": "Call", "l": [0, 0]}
                    out += e.call_value(s3, h, [p], n, Frame(e.fid(None, ("entry", "ask")), None, None, None, None, None), None)
    return out


def const(b):
    return Seq("str", L(len(b)), (("c", b),), None, None)


def static_path():
    q = unknown_text("path", REQ)
    return Seq("str", q.n + 8, (("c", b"/static/"),) + q.pieces, None, None)


def c23_program(D, rep, tier):
    from . import app
    for opts in (app.STATIC, dict(app.STATIC, **{"--custom-404-file-path": b"/given/404.html"})):
        r, fs = program(D, rep, opts)
        fs.contain = True
        n = 0
        for st in r.ends if tier != "quick" else r.ends[:1]:
            for method in (b"GET", b"HEAD"):
                s0 = st.copy()
                s0.ghost.update(fs=(), used=(), cmp=(), made=())
                n += len(request(r, s0, static_path(), method))
        rep.count("program_requests", n)
        rep.absorb(r.e)


def c24_program(D, rep, tier):
    from . import app
    page = {"--custom-404-file-path": b"/given/404.html"}
    for opts, path in ((page, b"/nothing"), (app.STATIC, b"/static/file.txt"), (dict(app.STATIC, **page), b"/static/file.txt")):
        r, fs = program(D, rep, opts)
        seen = set()
        for st in r.ends[:1]:
            st.ghost.update(fs=(), used=(), cmp=(), made=())
            for s, get in request(r, st.copy(), const(path), b"GET"):
                for s2, head in request(r, s.copy(), const(path), b"HEAD"):
                    used = [u[1] for u in s2.ghost["used"] if u[1] != fs.confined]
                    d = dict(s2.ghost["fs"])
                    f = {n: v for (x, n), v in d.items() if x == used[-1]} if used else None
                    if used and "--custom-404-file-path" in opts and used[-1] != ("of", ("c", page["--custom-404-file-path"])) and \
                            fact_bad(f):
                        f = None
                    seen |= mirror(rep, r.e, s2, get, head, "main", r.at, f)
        if not seen:
            rep.undecided("mirror", "no path of the program serves %s" % path.decode())
        rep.absorb(r.e)


def fact_bad(f):
    return f.get("kind", "regular") != "regular" or f.get("readable") is False


def refused(w, s, r):
    e, rep = w.e, w.rep
    code = r.get("status_code") if isinstance(r, Struct) else None
    if not isinstance(code, Lin):
        rep.undecided("refused", "the status is not tracked")
        return 0
    used = [u for u in s.ghost.get("used", ()) if w.fs.derived(u[1])]
    if used:
        return 1 if e.decide(s, ge(L(399), code)) is True else 0
    rep.judge("refused", e, s, ge(code, 400), SFH + "::handle", w.at, "a request is answered with success although no file was looked at")
    return 0


def c24(D, rep, tier):
    rep.rule("mirror", "for a readable file HEAD yields the status and content-type of GET and a content-length equal to the size of GET's body")
    rep.rule("no-body", "a HEAD response has no body")
    rep.rule("error", "a file that is missing, not a regular file, not readable, or fails to be read yields an error status")
    w = Serve(D, rep)
    e = w.e
    seen = set()
    for st, this, p in w.start():
        live, exc = w.ask(st, this, p, False)
        done = set()
        for s, get in live:
            sig = (s.ghost["fs"], get)
            if tier == "quick" and sig in done:
                continue
            done.add(sig)
            live2, exc2 = w.ask(s.copy(), this, p, True)
            for s2, head in live2:
                seen |= mirror(w.rep, w.e, s2, get, head, SFH + "::handle", w.at, facts(w.fs, s2))
            exc += exc2
        for s in exc:
            rep.judge("error", e, s, False, SFH + "::handle", w.at, "an exception (%s) leaves the handler" % s.exc.ty)
    rep.engine(e, {"bounds", "null", "opt", "map"}, "error")
    rep.absorb(e)
    if "served" not in seen:
        rep.undecided("mirror", "no path serves a file")


def facts(fs, st):
    """What the file system said of the file that was looked at last."""
    d = dict(st.ghost.get("fs", ()))
    used = [u[1] for u in st.ghost.get("used", ()) if fs.derived(u[1])]
    if not used:
        return None
    k = used[-1]
    return {n: v for (x, n), v in d.items() if x == k}


def mirror(rep, e, st, get, head, fn, at, f):
    seen = set()
    if not isinstance(get, Struct) or not isinstance(head, Struct):
        rep.undecided("mirror", "the response is not tracked")
        return seen
    hb, gb = head.get("body"), get.get("body")
    if not isinstance(hb, Seq) or not isinstance(gb, Seq):
        rep.undecided("no-body", "the body is not tracked")
        return seen
    rep.count("pairs")
    rep.judge("no-body", e, st, eq(hb.n, 0), fn, at, "a HEAD response carries a body")
    gc, hc = get.get("status_code"), head.get("status_code")
    bad = f is not None and (f.get("kind", "regular") != "regular" or f.get("readable") is False)
    failed = f is not None and (f.get("open error") or f.get("read error") or f.get("tell error"))
    odd = f is not None and any(v is True and n.startswith("error in") for n, v in f.items())
    if f is None or bad:
        rep.judge("error", e, st, ge(gc, 400), fn, at, "GET reports success for a file that %s" % why(f))
        rep.judge("error", e, st, ge(hc, 400), fn, at, "HEAD reports success for a file that %s" % why(f))
        return seen
    if failed:
        rep.judge("error", e, st, ge(gc, 400), fn, at, "GET reports success although the file cannot be read to its end")
        return seen
    if odd:
        return seen
    rep.judge("mirror", e, st, eq(gc, hc), fn, at, "HEAD and GET answer with different statuses")
    if e.decide(st, ge(L(399), gc)) is not True and e.decide(st, eq(gb.n, 0)) is True:
        return seen
    seen.add("served")
    compare(rep, e, st, get, head, gb, fn, at)
    return seen


def compare(rep, e, st, get, head, gb, fn, at):
    gh, hh = headers(e, st, get), headers(e, st, head)
    if gh is None or hh is None:
        rep.undecided("mirror", "the header fields are not tracked")
        return
    a, b = gh.get(b"content-type"), hh.get(b"content-type")
    if (a is None) != (b is None):
        rep.judge("mirror", e, st, False, fn, at, "only one of GET and HEAD has a content-type")
    elif a is not None:
        r = same_seq(e, st, a, b)
        if r is None:
            rep.undecided("mirror", "the content-type is not tracked")
        else:
            rep.judge("mirror", e, st, r, fn, at, "HEAD and GET answer with different content-types")
    n = hh.get(b"content-length")
    if n is None:
        rep.judge("mirror", e, st, False, fn, at, "HEAD has no content-length")
        return
    want = dec_seq(e, st, gb.n)
    for s, q in want if isinstance(want, list) else [(st, want)]:
        r = same_seq(e, s, n, q)
        if r is None:
            rep.undecided("mirror", "the content-length is not tracked")
        else:
            rep.judge("mirror", e, s, r, fn, at, "HEAD's content-length is not the size of the body GET sends")
    whole = [p for p in gb.pieces if p[0] == "s" and p[1][0] == "filedata"]
    if len(whole) != len(gb.pieces) or len(whole) != 1:
        if e.decide(st, eq(gb.n, 0)) is not True:
            rep.judge("error", e, st, False if not any(unknown(p[1]) for p in gb.pieces if p[0] == "s") else ("atom", ("imp", e.uid())), fn, at,
                      "the body of GET is not the file's content")
        return
    p = whole[0]
    size = S(memo_sym(("file_size", p[1][1]), "size of the file", 0, 1 << 40, "in"))
    rep.judge("error", e, st, ("and", eq(p[2], 0), eq(p[3], size)), fn, at, "the body of GET is not the whole file")


def why(f):
    if f is None:
        return "was not looked at"
    return {"missing": "does not exist", "directory": "is a directory", "other": "is not a regular file"}.get(f.get("kind"), "cannot be read")
