"""Abstract interpreter over the extracted syntax trees (trace partitioning, relational numeric facts,
symbolic sequences).  ev() yields (state, value) pairs, ex() yields (outcome, state, value) triples."""
import sys
import re
from fractions import Fraction
from .domain import (Lin, L, S, SYMS, ZERO, ONE, Facts, memo_sym, new_sym, small_base, eval_small, find_model,
                     EMPTY, full_mask, mask_values, is_small)
from .values import *
from .values import is_cond, neg, ge, eq, ne
from . import values as V

sys.setrecursionlimit(200000)
MAXSIZE = 1 << 48
NULLP = Ptr(None, True)


class Giveup(Exception):
    """The analysis of this entry is abandoned (budget, unmodelled construct of the language)."""


class St:
    __slots__ = ("store", "facts", "atoms", "ghost", "trace", "widened", "imp", "exc", "own")

    def __init__(self):
        self.store = {}
        self.facts = Facts()
        self.atoms = {}
        self.ghost = {}
        self.trace = None
        self.widened = False
        self.imp = None
        self.exc = None
        self.own = None

    def copy(self):
        n = St.__new__(St)
        n.store = dict(self.store)
        n.facts = self.facts
        n.atoms = dict(self.atoms)
        n.ghost = dict(self.ghost)
        n.trace = self.trace
        n.widened = self.widened
        n.imp = self.imp
        n.exc = self.exc
        n.own = self.own
        return n

    def log(self, loc, what):
        self.trace = (self.trace, loc, what)

    def path_list(self, limit=60):
        r = []
        t = self.trace
        while t is not None and len(r) < limit:
            r.append("%s %s" % (t[1], t[2]))
            t = t[0]
        r.reverse()
        return r


class Frame:
    __slots__ = ("id", "fn", "this", "clo", "parent", "node", "depth", "args")

    def __init__(self, id, fn, this, clo, parent, node):
        self.id = id
        self.fn = fn
        self.this = this
        self.clo = clo
        self.parent = parent
        self.node = node
        self.depth = parent.depth + 1 if parent else 0
        self.args = None


class Exc:
    """A thrown exception."""

    def __init__(self, ty, val, where):
        self.ty = ty
        self.val = val
        self.where = where


_clean_cache = {}


def clean(q):
    """Qualified name without template arguments and inline namespaces."""
    r = _clean_cache.get(q)
    if r is not None:
        return r
    s = q
    op = ""
    m = re.search(r"operator(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>)", s)
    if m:
        op = s[m.start():m.end()]
        s = s[:m.start()] + "@OP@" + (s[m.end():] if not s[m.end():].startswith("<") else "")
    out = []
    d = 0
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    s = "".join(out).replace("@OP@", op).replace("__cxx11::", "").replace("__1::", "")
    _clean_cache[q] = s
    return s


STRUCT_SEQ = {"std::vector": "vec", "std::basic_string": "str", "std::basic_string_view": "view",
              "std::deque": "deq", "std::array": "arr", "std::initializer_list": "list", "std::list": "deq"}
SMART = ("std::unique_ptr", "std::shared_ptr")
HOLDERS = ("std::optional", "std::expected", "std::vector", "std::deque", "std::list", "std::map", "std::unordered_map", "std::array",
           "std::pair")
MAPS = ("std::map", "std::unordered_map", "std::set", "std::unordered_set", "std::multimap")


class Engine:
    def __init__(self, D, peel=3, mode="witness", budget=200000):
        from . import models
        self.D = D
        self.types = D["types"]
        self.F = D["functions"]
        self.R = D["records"]
        self.G = D["globals"]
        self.E = {}
        for u, e in D["enums"].items():
            self.E.setdefault(u, list(e.values()))
            self.E.setdefault(clean(u), list(e.values()))
        self.peel = peel
        self.mode = mode
        self.budget = budget
        self.steps = 0
        self.maxstates = 4000
        self.hooks = {}          # clean name -> fn(eng, call) replacing the callee
        self.pre = {}            # clean name -> fn(eng, call) monitor before the call
        self.post = {}           # clean name -> fn(eng, call, st, val) monitor after the call
        self.models = models.MODELS
        self.monitors = []       # fn(event, st, info)
        self.throws = [[]]
        self.run_dtors = True
        self.temps = [[]]
        self.unmodelled = {}
        self.called = {}
        self.cuts = {}
        self.obl = {}            # (prop kind, fn, line, text) -> [n_checked, n_failed_paths]
        self.fail = []           # definite / indefinite failures
        self.collect = True
        self.fids = {}
        self.frames = []
        self.ctr = 0
        self.rec_by_name = {}
        for u, r in self.R.items():
            if r:
                self.rec_by_name.setdefault(r.get("name", u), r)
                self.rec_by_name.setdefault(clean(r.get("name", u)), r)
        self.by_name = {}
        for u, f in self.F.items():
            self.by_name.setdefault(clean(f["q"]), []).append(u)
        self.overriders = {}
        for u, f in self.F.items():
            for o in f.get("overrides", ()):
                self.overriders.setdefault(o, []).append(u)
        self.gcache = {}
        self.loop_k = {}
        self.oblig_on = {"bounds": True}
        self.anyfail = []
        self.gone_uses = []      # uses of map elements after their removal: (state, key, where)
        self.here = None
        self.kept = None         # list: collects the states given up at a loop's peeling limit

    # ---------------------------------------------------------------- types
    def T(self, i):
        return self.types[i] if i is not None and i >= 0 else {"k": "void", "s": "?"}

    def strip(self, i):
        t = self.T(i)
        while t["k"] in ("lref", "rref"):
            i = t["to"]
            t = self.T(i)
        return i

    def tname(self, i):
        t = self.T(self.strip(i))
        return clean(t.get("name", t.get("s", "?")).replace("const ", "")) if t["k"] == "rec" else t["k"]

    def targ(self, i, n=0):
        t = self.T(self.strip(i))
        a = t.get("targs") or ()
        if n < len(a):
            return a[n].get("t", a[n].get("i"))
        return None

    def elem_type(self, i):
        t = self.T(self.strip(i))
        if t["k"] == "carray":
            return t["to"]
        a = t.get("targs") or ()
        return a[0]["t"] if a and "t" in a[0] else None

    def find_type(self, s):
        c = self.__dict__.setdefault("_ft", {})
        if s in c:
            return c[s]
        for i, t in enumerate(self.types):
            if t.get("s") == s and not t.get("const"):
                c[s] = i
                return i
        for i, t in enumerate(self.types):
            if clean(t.get("s", "").replace("const ", "")) == s and t["k"] == "rec":
                c[s] = i
                return i
        c[s] = None
        return None

    def intinfo(self, i):
        t = self.T(self.strip(i))
        if t["k"] in ("int", "enum"):
            return t["w"], t.get("sg", False)
        if t["k"] == "bool":
            return 1, False
        return None

    def is_signed8(self, i):
        x = self.intinfo(i)
        return x is not None and x[0] == 8 and x[1]

    # ---------------------------------------------------------------- symbols and fresh values
    def uid(self):
        self.ctr += 1
        return self.ctr

    def fresh(self, t, key, imp=False):
        """Unknown value of type t, deterministic in key."""
        t = self.strip(t)
        ty = self.T(t)
        k = ty["k"]
        nm = keyname(key)
        if k == "bool":
            return ("atom", ("b", key) if not imp else ("imp", key))
        if k in ("int", "enum"):
            w, sg = ty["w"], ty.get("sg", False)
            if k == "enum":
                vals = self.enum_values(ty)
                if vals and max(vals) - min(vals) < 512:
                    s = memo_sym(("fresh", key), nm, min(vals), max(vals), "small", ("in", key), imp)
                    s.mask0 = 0
                    for v in vals:
                        s.mask0 |= 1 << (v - min(vals))
                    return S(s)
            if w == 8:
                args = key if isinstance(key, tuple) and key and key[0] == "elem" else ("in", key)
                return S(memo_sym(("fresh", key), nm, 0, 255, "byte", args, imp))
            if sg:
                return S(memo_sym(("fresh", key), nm, -(1 << (w - 1)), (1 << (w - 1)) - 1, "in", ("in", key), imp))
            return S(memo_sym(("fresh", key), nm, 0, (1 << w) - 1, "in", ("in", key), imp))
        if k == "rec":
            cn = clean(ty.get("name", ""))
            if cn in STRUCT_SEQ:
                et = self.elem_type(t)
                n = None
                if cn == "std::array":
                    n = self.targ(t, 1)
                    n = L(n) if isinstance(n, int) else None
                if n is None:
                    n = S(memo_sym(("len", key), "|%s|" % nm, 0, MAXSIZE, "in", ("len", key), imp))
                return Seq(STRUCT_SEQ[cn], n, (("s", key, ZERO, n),) if not (not n.t and n.c == 0) else (), et, None)
            if cn == "std::span":
                et = self.elem_type(t)
                n = self.targ(t, 1)
                n = L(n) if isinstance(n, int) and 0 <= n < (1 << 40) else S(
                    memo_sym(("len", key), "|%s|" % nm, 0, MAXSIZE, "in", ("len", key), imp))
                return SpanV((("mem", key, et, n),), ZERO, n)
            if cn in ("std::optional", "std::expected"):
                vt = self.targ(t, 0)
                val = VOID if vt is None or self.T(vt)["k"] == "void" else self.fresh(vt, (key, "*"), imp)
                err = None
                if cn == "std::expected":
                    err = self.fresh(self.targ(t, 1), (key, "err"), imp)
                return Opt(("atom", ("b", (key, "has")) if not imp else ("imp", (key, "has"))), val, err,
                           "opt" if cn == "std::optional" else "exp", t)
            if cn in SMART:
                return Ptr((("obj", key, self.targ(t, 0)),), ("b", (key, "nul")) if not imp else ("imp", (key, "nul")))
            if cn in MAPS:
                n = S(memo_sym(("len", key), "|%s|" % nm, 0, MAXSIZE, "in", ("len", key), imp))
                return MapV(key, n, (), t, ())
            if cn == "std::function":
                return FnSym(key)
            if cn == "std::pair":
                return Struct("std::pair", (("first", self.fresh(self.targ(t, 0), (key, "first"), imp)),
                                            ("second", self.fresh(self.targ(t, 1), (key, "second"), imp))), None, t)
            if cn == "std::atomic":
                return self.fresh(self.targ(t, 0), key, imp)
            if cn in self.rec_by_name:
                return Struct(cn, (), ("imp", key) if imp and not (isinstance(key, tuple) and key and key[0] == "imp")
                              else key, t)
            return Opaque(cn, key)
        if k == "ptr":
            return Ptr((("obj", key, ty["to"]),), ("b", (key, "nul")) if not imp else ("imp", (key, "nul")))
        if k == "carray":
            n = L(ty.get("n", 0))
            return Seq("arr", n, (("s", key, ZERO, n),), ty["to"], None)
        if k == "nullptr":
            return NULLP
        if k == "void":
            return VOID
        return Top(k)

    def enum_values(self, ty):
        n = ty.get("name") or ""
        return self.E.get(n) or self.E.get(clean(n))

    def rec(self, name):
        return self.rec_by_name.get(name) or self.rec_by_name.get(clean(name or ""))

    def field_types(self, cls):
        """name -> type index of all fields including bases."""
        c = self.__dict__.setdefault("_fty", {})
        if cls in c:
            return c[cls]
        r = {}
        rec = self.rec(cls)
        if rec:
            for b in rec.get("bases", ()):
                bn = b if isinstance(b, str) else b.get("name")
                r.update(self.field_types(clean(bn or "")))
            for f in rec.get("fields", ()):
                r[f["name"]] = f["t"]
        c[cls] = r
        return r

    def zero(self, t):
        """Value-initialised value."""
        t = self.strip(t)
        ty = self.T(t)
        k = ty["k"]
        if k == "bool":
            return False
        if k in ("int", "enum"):
            return ZERO
        if k == "rec":
            cn = clean(ty.get("name", ""))
            if cn in STRUCT_SEQ:
                if cn == "std::array":
                    n = self.targ(t, 1)
                    return self.fill_seq("arr", n if isinstance(n, int) else 0, self.zero(self.elem_type(t)),
                                         self.elem_type(t))
                return Seq(STRUCT_SEQ[cn], ZERO, (), self.elem_type(t), None)
            if cn == "std::span":
                return SpanV(None, ZERO, ZERO)
            if cn == "std::optional":
                return Opt(False, VOID, None, "opt", t)
            if cn == "std::expected":
                vt = self.targ(t, 0)
                return Opt(True, VOID if vt is None or self.T(vt)["k"] == "void" else self.zero(vt), None, "exp", t)
            if cn in SMART or cn == "std::function":
                return NULLP
            if cn in MAPS:
                return MapV(None, ZERO, (), t, ())
            if cn == "std::pair":
                return Struct("std::pair", (("first", self.zero(self.targ(t, 0))),
                                            ("second", self.zero(self.targ(t, 1)))), None, t)
            if cn == "std::atomic":
                return self.zero(self.targ(t, 0))
            if self.rec(cn):
                return Struct(cn, tuple(sorted((n, self.zero(ft)) for n, ft in self.field_types(cn).items())), None, t)
            if is_pod_c(cn):
                return Struct(cn, (), ("zero",), t)
            return Opaque(cn, ("zero",))
        if k == "ptr" or k == "nullptr":
            return NULLP
        if k == "carray":
            return self.fill_seq("arr", ty.get("n", 0), self.zero(ty["to"]), ty["to"])
        if k == "void":
            return VOID
        return Top("zero " + k)

    def fill_seq(self, kind, n, v, et):
        n = L(n)
        return Seq(kind, n, tuple(V.norm_pieces([("f", n, v)])), et, None)

    def oracle(self, name, lo, hi, kind="in"):
        return S(new_sym(name, lo, hi, kind))

    # ---------------------------------------------------------------- states, conditions
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Giveup("step budget exhausted")

    def cond_of(self, v):
        """Truth of a scalar value."""
        if isinstance(v, bool) or is_cond(v):
            return v
        if isinstance(v, Lin):
            return ne(v, 0)
        if isinstance(v, Ptr):
            if v.nul is True or v.nul is False:
                return not v.nul
            return ("not", ("atom", v.nul))
        if isinstance(v, It):
            return True
        if isinstance(v, (Fn, Clo, FnSym)):
            return True
        return ("atom", ("imp", ("truth", self.uid())))

    def branch(self, st, c):
        """Splits a state on a condition: (true states, false states)."""
        if c is True:
            return [st], []
        if c is False:
            return [], [st]
        k = c[0]
        if k == "not":
            t, f = self.branch(st, c[1])
            return f, t
        if k == "and":
            t1, f1 = self.branch(st, c[1])
            T, F = [], f1
            for s in t1:
                t, f = self.branch(s, c[2])
                T += t
                F = F + f
            return T, F
        if k == "or":
            t1, f1 = self.branch(st, c[1])
            T, F = t1, []
            for s in f1:
                t, f = self.branch(s, c[2])
                T = T + t
                F += f
            return T, F
        if k == "atom":
            key = c[1]
            v = self.atom_value(st, key)
            if v is None:
                o = st.copy()
                T, F = [], []
                if self.assume_atom(st, key, True):
                    T.append(st)
                if self.assume_atom(o, key, False):
                    F.append(o)
                return T, F
            return ([st], []) if v else ([], [st])
        f = st.facts
        l = c[1]
        if k == "ge":
            ft, ff = f.add(l), f.add(-l - 1)
        elif k == "eq":
            ft, ff = f.add_eq(l), f.add_ne(l)
        else:
            ft, ff = f.add_ne(l), f.add_eq(l)
        if ft is None and ff is None:
            return [], []
        imp = l.imprecise()
        if ft is None:
            st.facts = ff
            return [], [st]
        if ff is None:
            st.facts = ft
            return [st], []
        o = st.copy()
        st.facts = ft
        o.facts = ff
        if imp:
            why = next((SYMS[s].name for s, _ in l.t if SYMS[s].imp), "?")
            st.imp = st.imp or why
            o.imp = o.imp or why
        return [st], [o]

    def atom_value(self, st, key):
        v = st.atoms.get(key)
        if v is not None:
            return v
        if key[0] == "streq":
            a, b = key[1], key[2]
            for (k2, v2) in st.atoms.items():
                if k2[0] == "streq":
                    if v2 and k2[1] == a and k2[2] != b and k2[2][0] == "c" and b[0] == "c":
                        return False
        return None

    def assume_atom(self, st, key, val):
        if key[0] == "imp":
            st.imp = st.imp or keyname(key[1])
        if key[0] == "streq" and val:
            la, lb = key[3], key[4]
            f = st.facts.add_eq(la - lb)
            if f is None:
                return False
            st.facts = f
            if isinstance(key[2], tuple) and len(key[2]) == 2 and key[2][0] == "c" and 0 < len(key[2][1]) <= 40:
                # the octets of an unknown sequence are now known
                base, lo = key[1], ZERO
                if isinstance(base, tuple) and len(base) == 1 and isinstance(base[0], tuple) and len(base[0]) == 4 and base[0][0] == "s":
                    base, lo = base[0][1], base[0][2]
                if isinstance(base, tuple) and base and isinstance(base[0], str):
                    for i, b in enumerate(key[2][1]):
                        x = self.elem_val(st, base, lo + i, None) if b < 128 else None
                        if isinstance(x, Lin):
                            f = st.facts.add_eq(x - b)
                            if f is None:
                                return False
                            st.facts = f
        if key[0] == "streq" and not val and len(key) > 5:
            # empty literal: inequality means non-empty
            if key[2] == ("c", b""):
                f = st.facts.add(key[3] - 1)
                if f is None:
                    return False
                st.facts = f
        st.atoms[key] = val
        return True

    def assume(self, st, c):
        """States in which the condition holds."""
        return self.branch(st, c)[0]

    def decide(self, st, c):
        """True / False / None without splitting."""
        if isinstance(c, bool):
            return c
        k = c[0]
        if k == "not":
            v = self.decide(st, c[1])
            return None if v is None else not v
        if k == "and":
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == "or":
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        if k == "atom":
            return self.atom_value(st, c[1])
        l = c[1]
        f = st.facts
        if k == "ge":
            if f.implies(l):
                return True
            return False if f.refutes(l) else None
        z = f.is_zero(l)
        n = False if z else f.nonzero(l)
        r = True if z else (False if n else None)
        if k == "ne" and r is not None:
            r = not r
        return r

    def definite(self, st, extra=()):
        """A concrete point of this state (dict) if the state is exact, else None."""
        if st.imp:
            return None
        return self.model(st, extra)

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, kind, c, node, fr, text):
        """Checks that c holds; returns the states in which it does."""
        if c is True:
            self.count(kind, node, fr, text, True)
            return [st]
        if c is not False and self.decide(st, c):
            self.count(kind, node, fr, text, True)
            return [st]
        bad_st = st.copy()
        good, _ = self.branch(st, c)
        _, bad = self.branch(bad_st, c)
        live = False
        for b in bad:
            m = None if b.imp else self.model(b)
            if m is not None or b.imp:
                live = True
                self.failure(kind, b, node, fr, text, m)
        self.count(kind, node, fr, text, not live)
        return good

    def where(self, node, fr):
        f = fr.fn
        ln = node.get("l") if node else None
        return "%s:%s" % (relfile(f.get("file", "?")) if f else "?", ln[0] if ln else (f or {}).get("line", "?"))

    def count(self, kind, node, fr, text, ok):
        if not self.collect:
            return
        key = (kind, clean(fr.fn["q"]) if fr.fn else "?", self.where(node, fr), text)
        o = self.obl.setdefault(key, [0, 0])
        o[0] += 1
        if not ok:
            o[1] += 1

    def failure(self, kind, st, node, fr, text, model=None):
        if not self.collect:
            return
        self.fail.append({"kind": kind, "fn": clean(fr.fn["q"]) if fr and fr.fn else "?",
                          "where": self.where(node, fr) if fr else "?", "text": text,
                          "definite": model is not None and not st.imp and not st.widened,
                          "imp": st.imp, "widened": st.widened,
                          "model": model_text(model) if model else None, "path": st.path_list(), "st": st})

    # ---------------------------------------------------------------- memory
    def root_value(self, st, root):
        v = st.store.get(root)
        if v is not None:
            return v
        k = root[0]
        if k == "obj":
            v = self.fresh(root[2], root[1])
            st.store[root] = v
            return v
        if k == "mem":
            _, key, et, n = root
            return Seq("mem", n, (("s", key, ZERO, n),) if not (not n.t and n.c == 0) else (), et, None)
        if k == "lit":
            b = root[1]
            return Seq("arr", L(len(b) + 1), (("c", b + b"\0"),), root[2], None)
        if k == "g":
            return self.global_value(st, root[1])
        return None

    def global_value(self, st, gid):
        if gid in self.gcache:
            return self.gcache[gid]
        g = self.G.get(gid)
        if g is None:
            v = Opaque(gid.split("@")[0], ("g", gid))
        elif g.get("apv") is not None:
            v = self.from_apv(g["apv"], g["t"])
        elif g.get("init") is not None:
            v = None
            fr = Frame(self.fid(None, ("glob", gid)), {"q": gid, "file": g.get("file", "?"), "line": 0}, None, None,
                       None, None)
            s0 = St()
            r = self.ev(g["init"], s0, fr)
            if len(r) == 1:
                v = r[0][1]
                if isinstance(v, Ptr) and v.path is not None and self.T(g["t"])["k"] not in ("ptr",) and \
                        not self.tname(g["t"]).startswith("std::atomic"):
                    rr = self.read(r[0][0], v.path)
                    v = rr[0][1]
                for k, x in r[0][0].store.items():
                    st.store.setdefault(k, x)
            if v is None:
                v = self.fresh(g["t"], ("g", gid))
        else:
            v = self.zero(g["t"])
        const = self.T(self.strip(g["t"])).get("const") if g else True
        if g and (const or g.get("constexpr")):
            self.gcache[gid] = v
        else:
            st.store[("g", gid)] = v
        return v

    def from_apv(self, a, t):
        t = self.strip(t)
        ty = self.T(t)
        if isinstance(a, bool):
            return a if ty["k"] == "bool" else L(int(a))
        if isinstance(a, int):
            if ty["k"] == "bool":
                return bool(a)
            if ty["k"] == "int" and ty["w"] == 8:
                a &= 255
            return L(a)
        if isinstance(a, list):
            et = self.elem_type(t)
            return V.mk_seq("arr", [("v", self.from_apv(x, et)) for x in a], et)
        if isinstance(a, dict):
            if "str" in a:
                cn = clean(ty.get("name", ""))
                b = a["str"].encode("utf-8", "surrogateescape") if isinstance(a["str"], str) else bytes(a["str"])
                return Seq("str" if cn == "std::basic_string" else "view", L(len(b)), (("c", b),) if b else (),
                           self.elem_type(t), None)
            if "cstr" in a:
                return It((("lit", a["cstr"].encode("utf-8", "surrogateescape"), None),), ZERO, False)
            if "rec" in a:
                cn = clean(ty.get("name", ""))
                r = a["rec"]
                if cn == "std::array":
                    et = self.elem_type(t)
                    inner = next(iter(r.values())) if isinstance(r, dict) else r
                    if isinstance(inner, list):
                        return V.mk_seq("arr", [("v", self.from_apv(x, et)) for x in inner], et)
                if cn == "std::chrono::duration":
                    inner = next(iter(r.values())) if isinstance(r, dict) and r else r
                    from .models import ns_of
                    return Opaque("dur", L(inner * ns_of(self, t)) if isinstance(inner, int) else S(new_sym("dur", None, None, "in", (), True)))
                ft = self.field_types(cn)
                if isinstance(r, dict):
                    return Struct(cn, tuple(sorted((n, self.from_apv(x, ft[n])) for n, x in r.items() if n in ft)),
                                  None, t)
        return Top("apv")

    def read(self, st, path):
        """[(state, value)] of the object at path."""
        if path is None:
            return [(st, Top("null read"))]
        if path[0][0] == "mapent":
            p2 = self.map_path(path)
            if p2 is None:
                return self.map_pair(st, path)
            path = p2
        v = self.root_value(st, path[0])
        if v is None:
            return [(st, self.dangling(st, path))]
        if len(path) == 1:
            return [(st, v)]
        res = [(st, v)]
        for i, c in enumerate(path[1:]):
            nxt = []
            for s, x in res:
                nxt += self.get(s, x, c, path[:i + 1])
            res = nxt
        return res

    def map_path(self, path):
        """Where the mapped value of a map element lives; None for the element itself or its key."""
        if len(path) > 1 and path[1] == "second":
            return path[0][1] + (("m", path[0][2]),) + path[2:]
        return None

    def map_pair(self, st, path):
        _, where, k = path[0]
        kv = k
        if isinstance(k, tuple) and k[:1] == ("c",):
            kv = Seq("str", L(len(k[1])), (k,), None, None)
        elif not isinstance(k, (Lin, V.Val)):
            kv = Top("map key")
        res = []
        for s, v in self.read(st, where + (("m", k),)):
            x = Struct("std::pair", (("first", kv), ("second", v)), None, None)
            vals = [(s, x)]
            for i, c in enumerate(path[1:]):
                vals = [r for s1, y in vals for r in self.get(s1, y, c, path[:i + 1])]
            res += vals
        return res

    def use_gone(self, st, v, k):
        """An element that was erased is used."""
        self.gone_uses.append((st.copy(), k, self.where(*self.here) if self.here else "?"))

    def dangling(self, st, path):
        st.imp = st.imp or "dangling"
        return Top("dangling")

    def canon(self, st, l):
        if not l.t:
            return l
        lo, hi = st.facts.bounds(l)
        if lo is not None and lo == hi:
            return Lin(lo)
        c = l.c
        t = []
        for s, k in l.t:
            a, b = st.facts.sym_bounds(s)
            if a is not None and a == b:
                c += k * a
            else:
                t.append((s, k))
        return l if len(t) == len(l.t) else Lin(c, tuple(t))

    def model(self, st, extra=()):
        """A concrete point of the state, or None."""
        return find_model(st.facts, extra, atoms=st.atoms)

    def get(self, st, v, c, at):
        if isinstance(v, RefV):
            r = []
            for s, x in self.read(st, v.loc.path):
                r += self.get(s, x, c, v.loc.path)
            return r
        if type(c) is str:
            if isinstance(v, Struct):
                x = v.get(c)
                if x is not None:
                    return [(st, x)]
                return [(st, self.materialise(v, c))]
            if isinstance(v, Opt):
                if c == "*":
                    return [(st, v.val)]
                if c == "err":
                    return [(st, v.err if v.err is not None else Top("no error"))]
            if isinstance(v, Opaque):
                return [(st, Opaque(v.cls + "." + c, (v.data, c)))]
            return [(st, Top("field %s of %s" % (c, type(v).__name__)))]
        k = c[0]
        if k == "i":
            if isinstance(v, Seq):
                return self.seq_get(st, v, c[1])
            return [(st, Top("index of " + type(v).__name__))]
        if k == "cap":
            if isinstance(v, Clo):
                for n, x in v.caps:
                    if n == c[1]:
                        return [(st, x)]
            return [(st, Top("capture"))]
        if k == "m":
            if isinstance(v, MapV):
                for n, x in v.entries:
                    if n == c[1]:
                        return [(st, x)]
                if c[1] in v.gone or v.base is None:
                    self.use_gone(st, v, c[1])
                    return [(st, Top("erased element"))]
                vt = self.map_val_type(v)
                return [(st, self.fresh(vt, ("mapval", v.base, c[1])))]
            return [(st, Top("map"))]
        return [(st, Top("component"))]

    def map_val_type(self, m):
        n = self.tname(m.ty)
        return self.targ(m.ty, 1) if n in ("std::map", "std::unordered_map") else self.targ(m.ty, 0)

    def materialise(self, s, name):
        ft = self.field_types(s.cls)
        if s.origin is None:
            return UNINIT
        if s.origin == ("zero",):
            return self.zero(ft[name]) if name in ft else ZERO
        if name in ft:
            imp = s.origin[0] == "imp" if isinstance(s.origin, tuple) else False
            t = ft[name]
            if self.T(t)["k"] in ("lref", "rref"):
                return RefV(Ptr((("obj", (s.origin, name), self.strip(t)),), False))
            return self.fresh(t, (s.origin, name), imp)
        t = None
        if s.cls in ("std::pair",):
            t = self.targ(s.ty, 0 if name == "first" else 1)
            return self.fresh(t, (s.origin, name))
        cf = C_FIELDS.get((s.cls, name))
        if cf:
            return self.c_field(cf, (s.origin, name))
        return Top("field %s::%s" % (s.cls, name))

    def c_field(self, cf, key):
        if cf[0] == "int":
            w, sg = cf[1], cf[2]
            if w == 8:
                return S(memo_sym(("fresh", key), keyname(key), 0, 255, "byte", ("in", key)))
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            return S(memo_sym(("fresh", key), keyname(key), lo, hi, "in", ("in", key)))
        return Struct(cf[1], (), key, None)

    def elem_val(self, st, base, idx, et):
        idx = self.canon(st, idx)
        if et is not None and self.T(self.strip(et))["k"] == "rec":
            cn = self.tname(et)
            if cn in self.rec_by_name:
                return Struct(cn, (), ("elem", base, idx), self.strip(et))
        if et is None:
            return S(memo_sym(("fresh", ("elem", base, idx)), "%s[%r]" % (keyname(base), idx), 0, 255, "byte",
                              ("elem", base, idx)))
        return self.fresh(et, ("elem", base, idx))

    def select(self, st, vals, idx, hint):
        """vals[idx] for a symbolic index."""
        v0 = vals[0]
        if all(v == v0 for v in vals):
            return v0
        if all(isinstance(v, Lin) for v in vals):
            if all(not v.t for v in vals):
                b = small_base(idx)
                if b is not None:
                    t = {}
                    for x in range(b.lo, b.hi + 1):
                        e = eval_small(idx, x)
                        if e is not None and 0 <= e < len(vals):
                            t[x] = vals[e].c
                    if t and len(set(t.values())) == 1:
                        return L(next(iter(t.values())))
                    if t:
                        return S(V.fn_sym(b, "%s[%r]" % (hint, idx), t))
                lo, hi = min(v.c for v in vals), max(v.c for v in vals)
                return S(memo_sym(("sel", tuple(v.c for v in vals), idx), "%s[%r]" % (hint, idx), lo, hi, "op",
                                  ("sel", tuple(v.c for v in vals), idx), idx.imprecise(), idx.deps()))
            return S(memo_sym(("selv", tuple(vals), idx), "%s[%r]" % (hint, idx), None, None, "op", (), True,
                              idx.deps()))
        if all(isinstance(v, Struct) for v in vals):
            names = [n for n, _ in v0.fields]
            return Struct(v0.cls, tuple((n, self.select(st, [v.get(n) for v in vals], idx, hint + "." + n))
                                        for n in names), None, v0.ty)
        if all(isinstance(v, Seq) for v in vals):
            cs = [V.const_bytes(v) for v in vals]
            if all(c is not None for c in cs):
                key = ("sel", tuple(cs), idx)
                n = self.select(st, [L(len(c)) for c in cs], idx, "|" + hint + "|")
                return Seq(v0.kind, n, (("s", key, ZERO, n),), v0.et, None)
        return Top("select")

    def seq_get(self, st, seq, idx, hint="seq"):
        idx = self.canon(st, idx)
        res = []
        off = ZERO
        cur = st
        pieces = seq.pieces
        if idx.t and len(pieces) > 4 and all(p[0] == "v" for p in pieces):
            return [(st, self.select(st, [p[1] for p in pieces], idx, hint))]
        for j, p in enumerate(pieces):
            n = V.plen(p)
            c = ge(off + n - 1, idx)
            if j == len(pieces) - 1:
                T, F = [cur], []
            else:
                T, F = self.branch(cur, c)
            for s in T:
                res += self.piece_get(s, seq, p, idx - off)
            if not F:
                return res
            cur = F[0]
            off = off + n
        if not pieces:
            return [(st, Top("element of empty sequence"))]
        return res

    def piece_get(self, st, seq, p, i):
        i = self.canon(st, i)
        k = p[0]
        if k == "v":
            return [(st, p[1])]
        if k == "f":
            return [(st, p[2])]
        if k == "s":
            return [(st, self.elem_val(st, p[1], p[2] + i, seq.et))]
        b = p[1]
        if not i.t:
            if 0 <= i.c < len(b):
                return [(st, L(b[i.c]))]
            return [(st, Top("outside"))]
        return [(st, self.select(st, [L(x) for x in b], i, "bytes"))]

    def cut_at(self, st, seq, idx):
        """Splits the pieces of seq at index idx: [(state, left, right)]."""
        idx = self.canon(st, idx)
        out = []
        left = []
        off = ZERO
        cur = st
        ps = list(seq.pieces)
        for j, p in enumerate(ps):
            n = V.plen(p)
            d = idx - off
            # idx <= off: cut here
            z = self.decide(cur, eq(d, 0)) if True else None
            if z:
                out.append((cur, left, ps[j:]))
                return out
            # does idx fall at or behind the end of this piece?
            T, F = self.branch(cur, ge(d, n))
            if not n.t and n.c == 1 and self.decide(st, ge(idx, 0)):
                # one element: it can only be cut at its start
                out += [(x, left, ps[j:]) for s in F for x in self.assume(s, eq(d, 0))]
                F = []
            for s in F:
                # strictly inside (or at the start of) this piece
                out.append((s, left + [self.sub_piece(p, ZERO, d)], [self.sub_piece(p, d, n)] + ps[j + 1:]))
            if not T:
                return out
            cur = T[0]
            left = left + [p]
            off = off + n
        out.append((cur, left, []))
        return out

    def sub_piece(self, p, lo, hi):
        k = p[0]
        if k == "c":
            if not lo.t and not hi.t:
                return ("c", p[1][max(0, lo.c):max(0, hi.c)])
            return ("s", ("bytes", p[1]), lo, hi)
        if k == "v":
            if not lo.t and not hi.t:
                return p if hi.c > lo.c else ("c", b"")
            return p if not lo.t and lo.c == 0 and hi.t == () else ("f", hi - lo, p[1])
        if k == "s":
            return ("s", p[1], p[2] + lo, p[2] + hi)
        return ("f", hi - lo, p[2])

    def seq_slice(self, st, seq, lo, hi):
        """[(state, pieces)] of seq[lo:hi]."""
        res = []
        for s, l, r in self.cut_at(st, seq, lo):
            rest = Seq(seq.kind, ZERO, tuple(V.norm_pieces(r)), seq.et, None)
            for s2, l2, r2 in self.cut_at(s, rest, self.canon(s, hi - lo)):
                res.append((s2, V.norm_pieces(l2)))
        return res

    def write(self, st, path, val):
        """[(state)] after storing val at path."""
        if path is None:
            return [st]
        if path[0][0] == "mapent":
            p2 = self.map_path(path)
            if p2 is None:
                return [st]
            path = p2
        if len(path) == 1:
            st.store[path[0]] = val
            return [st]
        root = self.root_value(st, path[0])
        if root is None:
            st.store[path[0]] = root = Struct("?", (), None, None)
        out = []
        for s, nv in self.put(st, root, path[1:], val, path[:1]):
            if nv is not None:
                s.store[path[0]] = nv
            out.append(s)
        return out

    def put(self, st, v, comps, val, at):
        """[(state, new value of v)] with val stored at comps."""
        if isinstance(v, RefV):
            return [(s, None) for s in self.write(st, v.loc.path + tuple(comps), val)]
        c = comps[0]
        last = len(comps) == 1
        if type(c) is tuple and c[0] == "i":
            if not isinstance(v, Seq):
                return [(st, v)]
            idx = self.canon(st, c[1])
            res = []
            if last:
                for s, l, r in self.cut_at(st, v, idx):
                    rest = Seq(v.kind, ZERO, tuple(V.norm_pieces(r)), v.et, None)
                    for s2, l2, r2 in self.cut_at(s, rest, ONE):
                        res.append((s2, Seq(v.kind, v.n, tuple(V.norm_pieces(l + [("v", val)] + r2)), v.et, v.meas)))
                return res
            for s, old in self.seq_get(st, v, idx):
                for s1, nv in self.put(s, old, comps[1:], val, at):
                    if nv is None:
                        res.append((s1, v))
                    else:
                        res += self.put(s1, v, (c,), nv, at)
            return res
        if last:
            return [(st, self.put1(st, v, c, val))]
        res = []
        for s, old in self.get(st, v, c, at):
            for s1, nv in self.put(s, old, comps[1:], val, at + (c,)):
                res.append((s1, v if nv is None else self.put1(s1, v, c, nv)))
        return res

    def put1(self, st, v, c, val):
        if type(c) is str:
            if isinstance(v, Struct):
                return v.with_(c, val)
            if isinstance(v, Opt):
                return v.rep(val=val) if c == "*" else v.rep(err=val)
            return v
        if c[0] == "cap" and isinstance(v, Clo):
            return Clo(v.lam, tuple((n, val if n == c[1] else x) for n, x in v.caps), v.ops)
        if c[0] == "m" and isinstance(v, MapV):
            if any(n == c[1] for n, _ in v.entries):
                return v.rep(entries=tuple((n, val if n == c[1] else x) for n, x in v.entries))
            if c[1] in v.gone or v.base is None:
                self.use_gone(st, v, c[1])
                return v
            return v.rep(entries=v.entries + ((c[1], val),))
        return v

    # ---------------------------------------------------------------- frames
    def fid(self, parent, node):
        key = (parent, id(node) if isinstance(node, dict) else node)
        r = self.fids.get(key)
        if r is None:
            r = self.fids[key] = len(self.fids) + 1
        return r

    def drop_frame(self, st, fid):
        ks = [k for k in st.store if (k[0] == "v" or k[0] == "t") and k[1] == fid]
        for k in ks:
            del st.store[k]

    # ---------------------------------------------------------------- expressions
    def ev(self, n, st, fr, dest=None):
        self.steps += 1
        if self.steps > self.budget:
            raise Giveup("step budget exhausted")
        k = n["k"]
        if "cv" in n and k != "Construct":
            t = self.T(n["t"])
            if t["k"] == "bool":
                return [(st, bool(n["cv"]))]
            v = n["cv"]
            if isinstance(v, dict):
                v = int(v["big"])
            if t["k"] in ("int",) and t["w"] == 8:
                v &= 255
            elif t["k"] in ("int", "enum") and not t.get("sg", False) and v < 0:
                v &= (1 << t["w"]) - 1
            return [(st, L(v))]
        m = getattr(self, "ev_" + k, None)
        if m is None:
            return self.ev_Unknown(n, st, fr)
        return m(n, st, fr, dest)

    def evs(self, ns, st, fr):
        """Evaluates a list of expressions left to right: [(state, [values])]."""
        res = [(st, [])]
        for n in ns:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(n, s, fr):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def rv(self, n, st, fr):
        """Evaluates n as a value: glvalues are read."""
        r = self.ev(n, st, fr)
        if n.get("lv"):
            out = []
            for s, v in r:
                if isinstance(v, Ptr):
                    out += self.read(s, v.path)
                else:
                    out.append((s, v))
            return out
        return r

    def loc(self, n, st, fr):
        """Evaluates n as a location: prvalues are materialised."""
        r = self.ev(n, st, fr)
        if n.get("lv"):
            return r
        out = []
        for s, v in r:
            root = ("t", fr.id, id(n))
            s.store[root] = v
            out.append((s, Ptr((root,), False)))
        if self.run_dtors and r and n.get("t") is not None and self.needs_destroy(n["t"]):
            self.temps[-1].append((root, n["t"]))
        return out

    def ev_Unknown(self, n, st, fr, dest=None):
        self.note_unmodelled("construct " + n.get("sk", n["k"]), st)
        t = n.get("t")
        if n.get("lv"):
            return [(st, Ptr((("obj", ("imp", self.uid()), self.strip(t)),), False))]
        return [(st, self.fresh(t, ("imp", ("unk", self.uid())), True) if t is not None else VOID)]

    def note_unmodelled(self, what, st):
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1

    def ev_Int(self, n, st, fr, dest=None):
        v = n["v"]
        t = self.T(n["t"])
        if t["k"] == "int" and t["w"] == 8:
            v &= 255
        return [(st, L(v))]

    def ev_Bool(self, n, st, fr, dest=None):
        return [(st, n["v"])]

    def ev_Float(self, n, st, fr, dest=None):
        return [(st, flt(Fraction(repr(n["v"]))) if isinstance(n.get("v"), (int, float)) else Top("float"))]

    def ev_Str(self, n, st, fr, dest=None):
        b = bytes(n["raw"]) if n.get("raw") else n.get("v", "").encode("utf-8", "surrogateescape")
        et = self.elem_type(n["t"]) if n.get("t") is not None else None
        return [(st, Ptr((("lit", b, et),), False))]

    def ev_Null(self, n, st, fr, dest=None):
        return [(st, NULLP)]

    def ev_This(self, n, st, fr, dest=None):
        f = fr
        if f.this is None and f.clo is not None:
            r = []
            for s, v in self.read(st, f.clo + (("cap", "this"),)):
                r.append((s, v))
            return r
        return [(st, f.this if f.this is not None else NULLP)]

    def ev_ZeroInit(self, n, st, fr, dest=None):
        return [(st, self.zero(n["t"]))]

    def ev_Ref(self, n, st, fr, dest=None):
        rk = n["rk"]
        if rk == "enumc":
            return [(st, L(n["cv"]))]
        if rk == "func":
            return [(st, Fn(n["f"]["u"], clean(n["f"]["q"])))]
        if rk in ("param", "local"):
            if fr.clo is not None and n.get("cap"):
                path = fr.clo + (("cap", n["id"]),)
                r = []
                for s, v in self.read(st, path):
                    if isinstance(v, RefV):
                        r.append((s, v.loc))
                    elif isinstance(v, Top) and v.why == "capture" and n.get("apv") is not None:
                        root = ("ca", id(n))
                        s.store[root] = self.from_apv(n["apv"], n["t"])
                        r.append((s, Ptr((root,), False)))
                    else:
                        r.append((s, Ptr(path, False)))
                return r
            root = ("v", fr.id, n["id"])
            v = st.store.get(root)
            if isinstance(v, RefV):
                return [(st, v.loc)]
            if v is None and n.get("apv") is not None:
                st.store[root] = self.from_apv(n["apv"], n["t"])
            elif v is None:
                st.store[root] = UNINIT
            return [(st, Ptr((root,), False))]
        if rk == "global":
            v = st.store.get(("g", n["id"]))
            if isinstance(v, RefV):
                return [(st, v.loc)]
            return [(st, Ptr((("g", n["id"]),), False))]
        return self.ev_Unknown(n, st, fr)

    def ev_Member(self, n, st, fr, dest=None):
        rk = n["rk"]
        if rk == "global":
            return [(st, Ptr((("g", n["id"]),), False))]
        if rk == "method":
            return [(st, Fn(n["f"]["u"], clean(n["f"]["q"])))]
        out = []
        for s, b in (self.ev(n["b"], st, fr) if n.get("arrow") or n["b"].get("lv") else self.loc(n["b"], st, fr)):
            if isinstance(b, It):
                b = Ptr(b.path + (("i", b.idx),), False)
            if not isinstance(b, Ptr) or b.path is None:
                if isinstance(b, Ptr) and n.get("arrow"):
                    self.null_deref(s, n, fr, b)
                    continue
                out.append((s, Ptr((("obj", ("imp", self.uid()), self.strip(n["t"])),), False)))
                continue
            ss = [s]
            if n.get("arrow") and b.nul is not False:
                ss = self.nonnull(s, b, n, fr)
            for s2 in ss:
                p = b.path + (n["n"],)
                # reference members
                ft = self.field_types(clean(n.get("own", ""))).get(n["n"])
                if ft is not None and self.T(ft)["k"] in ("lref", "rref"):
                    for s3, v in self.read(s2, p):
                        out.append((s3, v.loc if isinstance(v, RefV) else v if isinstance(v, Ptr) else
                                    Ptr((("obj", ("imp", self.uid()), self.strip(ft)),), False)))
                else:
                    out.append((s2, Ptr(p, False)))
        return out

    def null_deref(self, st, n, fr, p):
        self.oblige(st, "null", False, n, fr, "pointer dereferenced is not null")

    def nonnull(self, st, p, n, fr):
        c = self.cond_of(p)
        return self.oblige(st, "null", c, n, fr, "pointer dereferenced is not null")

    def deref(self, st, v, n, fr):
        """Location a pointer value denotes: [(state, Ptr)]."""
        if isinstance(v, It):
            ix = v.idx
            path = v.path
            if path is None:
                self.null_deref(st, n, fr, NULLP)
                return []
            return self.at_index(st, path, ix, n, fr)
        if isinstance(v, Ptr):
            if v.nul is False:
                return [(st, v)]
            if v.path is None:
                self.null_deref(st, n, fr, v)
                return []
            return [(s, Ptr(v.path, False)) for s in self.nonnull(st, v, n, fr)]
        return [(st, Ptr((("obj", ("imp", self.uid()), self.strip(n.get("t"))),), False))]

    def at_index(self, st, path, idx, n, fr, what=None):
        """Location of element idx of the sequence at path, with the bounds obligation."""
        out = []
        for s, q in self.read(st, path):
            if not isinstance(q, Seq):
                out.append((s, Ptr(path + (("i", idx),), False)))
                continue
            c = ("and", ge(idx, 0), ge(q.n - 1, idx)) if not (isinstance(ge(idx, 0), bool) and ge(idx, 0)) \
                else ge(q.n - 1, idx)
            if isinstance(idx, Lin) and not idx.t and idx.c < 0:
                c = False
            for s2 in self.oblige(s, "bounds", simp(c), n, fr, what or "element index is inside the sequence"):
                out.append((s2, Ptr(path + (("i", self.canon(s2, idx)),), False)))
        return out

    def ev_Temp(self, n, st, fr, dest=None):
        root = ("t", fr.id, id(n))
        out = []
        for s, v in self.ev(n["e"], st, fr, (root,)):
            if n["e"].get("lv") and isinstance(v, Ptr):
                out.append((s, v))
                continue
            s.store[root] = v
            out.append((s, Ptr((root,), False)))
        return out

    def ev_Cast(self, n, st, fr, dest=None):
        ck = n["ck"]
        e = n["e"]
        if ck == "LValueToRValue":
            out = []
            for s, v in self.ev(e, st, fr):
                if isinstance(v, Ptr):
                    for s2, x in self.read(s, v.path):
                        if x is UNINIT:
                            x = self.fresh(n["t"], ("imp", ("uninit", self.uid())), True)
                        elif isinstance(x, Top) and self.T(n["t"])["k"] in ("int", "enum", "bool"):
                            x = self.fresh(n["t"], ("imp", (x.why, self.uid())), True)
                        elif isinstance(x, RefV):
                            for s3, y in self.read(s2, x.loc.path):
                                out.append((s3, y))
                            continue
                        out.append((s2, x))
                else:
                    out.append((s, v))
            return out
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "UncheckedDerivedToBase", "DerivedToBase",
                  "BitCast", "FunctionToPointerDecay", "BaseToDerived", "LValueBitCast", "Dynamic"):
            r = self.ev(e, st, fr, dest)
            if n.get("lv") and not e.get("lv"):
                return self.loc(e, st, fr)
            return r
        if ck == "ArrayToPointerDecay":
            return [(s, It(v.path, ZERO, False) if isinstance(v, Ptr) else v) for s, v in self.ev(e, st, fr)]
        if ck == "NullToPointer":
            return [(st, NULLP)]
        if ck == "ToVoid":
            return [(s, VOID) for s, v in self.ev(e, st, fr)]
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return [(s, self.cond_of(v)) for s, v in self.ev(e, st, fr)]
        if ck == "IntegralCast":
            out = []
            for s, v in self.ev(e, st, fr):
                out += self.int_cast(s, v, e["t"], n["t"])
            return out
        if ck in ("IntegralToFloating", "FloatingToIntegral", "FloatingCast"):
            out = []
            for s, v in self.ev(e, st, fr):
                if self.T(n["t"])["k"] in ("int", "enum"):
                    out.append((s, self.fresh(n["t"], ("imp", ("float", self.uid())), True)))
                elif isinstance(v, Lin):
                    out.append((s, flt(1, (v,))))
                else:
                    out.append((s, v if is_flt(v) else Top("float")))
            return out
        if ck == "IntegralToPointer":
            return [(s, Ptr(None, True) if v == ZERO else Ptr((("addr", v.c),), False) if isinstance(v, Lin) and not v.t else
                     self.fresh(n["t"], ("imp", (ck, self.uid())), True)) for s, v in self.ev(e, st, fr)]
        if ck == "PointerToIntegral":
            return [(s, self.fresh(n["t"], ("imp", (ck, self.uid())), True)) for s, v in self.ev(e, st, fr)]
        return self.ev_Unknown(n, st, fr)

    def as_int(self, st, v, t=None):
        """[(state, Lin)] of a scalar."""
        if isinstance(v, Lin):
            return [(st, v)]
        if isinstance(v, bool):
            return [(st, ONE if v else ZERO)]
        if is_cond(v):
            T, F = self.branch(st, v)
            return [(s, ONE) for s in T] + [(s, ZERO) for s in F]
        return [(st, S(new_sym("?" + (v.why if isinstance(v, Top) else type(v).__name__), None, None, "in", (), True)))]

    def int_cast(self, st, v, t1, t2):
        out = []
        i1, i2 = self.intinfo(t1), self.intinfo(t2)
        if i2 is None:
            return [(st, v)]
        if self.T(self.strip(t2))["k"] == "bool":
            return [(st, self.cond_of(v))]
        for s, l in self.as_int(st, v):
            if i1 and i1[0] == 8 and i1[1]:
                # signed char patterns
                if i2[0] == 8:
                    out.append((s, l))
                    continue
                r = V.map_small(l, lambda x: x - 256 if x >= 128 else x, "schar(%r)" % l) if l.t else \
                    L(l.c - 256 if l.c >= 128 else l.c)
                if r is not None:
                    out += self.fit(s, r, i2[0], i2[1])
                    continue
                T, F = self.branch(s, ge(l, 128))
                for q in T:
                    out += self.fit(q, l - 256, i2[0], i2[1])
                for q in F:
                    out += self.fit(q, l, i2[0], i2[1])
                continue
            out += self.fit(s, l, i2[0], i2[1])
        return out

    def fit(self, st, l, w, sg):
        """Reduces l to the range of an integer type."""
        if w == 8:
            sg = False
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        if not l.t:
            v = l.c & ((1 << w) - 1)
            if sg and v > hi:
                v -= 1 << w
            return [(st, L(v))]
        a, b = st.facts.bounds(l)
        if a is not None and b is not None and lo <= a and b <= hi:
            return [(st, l)]
        f = st.facts
        if w > 8 and f.implies(hi - l) and f.implies(l - lo):
            return [(st, l)]
        r = V.map_small(l, lambda v: wrapv(v, w, sg), "(%r as %s%d)" % (l, "i" if sg else "u", w))
        if r is not None:
            return [(st, r)]
        okl = f.implies(l - lo)
        okh = f.implies(hi - l)
        if okl and okh:
            return [(st, l)]
        if not sg and okl:
            t = V.trunc(l, w, f)
            if b is not None and b < (1 << (w + 1)):
                # at most one wrap: split exactly
                T, F = self.branch(st, ge(l, 1 << w))
                return [(s, l - (1 << w)) for s in T] + [(s, l) for s in F]
            if t is not None:
                return [(st, t)]
        out = []
        T, F = self.branch(st, ge(l, lo))
        for s in T:
            T2, F2 = self.branch(s, ge(hi, l))
            for s2 in T2:
                out.append((s2, l))
            for s2 in F2:
                d = l - (1 << w)
                if s2.facts.implies(hi - d):
                    out.append((s2, d))
                else:
                    t = V.trunc(l, w, s2.facts) if not sg else None
                    out.append((s2, t if t is not None else self.opaque_int(("wrap", l, w), w, sg, l)))
        for s in F:
            d = l + (1 << w)
            if s.facts.implies(d - lo):
                out.append((s, d))
            else:
                out.append((s, self.opaque_int(("wrap", l, w), w, sg, l)))
        return out

    def opaque_int(self, key, w, sg, *ls):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        deps = EMPTY
        for l in ls:
            deps = deps | l.deps()
        return S(memo_sym(("op", key), keyname(key), lo, hi, "op", key, True, deps))

    def ev_Un(self, n, st, fr, dest=None):
        op = n["op"]
        e = n["e"]
        if op == "&":
            out = []
            if e["k"] == "Ref" and e.get("rk") == "other" and "::" in e.get("q", ""):
                return [(st, Opaque("memptr", e["n"]))]
            for s, v in self.ev(e, st, fr):
                if isinstance(v, Ptr) and v.path and type(v.path[-1]) is tuple and v.path[-1][0] == "i":
                    v = It(v.path[:-1], v.path[-1][1], False)
                out.append((s, v))
            return out
        if op == "*":
            out = []
            for s, v in self.ev(e, st, fr):
                out += self.deref(s, v, n, fr)
            return out
        if op in ("++", "--"):
            out = []
            d = 1 if op == "++" else -1
            for s, p in self.ev(e, st, fr):
                if not isinstance(p, Ptr):
                    out.append((s, p))
                    continue
                for s2, v in self.read(s, p.path):
                    if isinstance(v, It):
                        nv = [(s2, v.rep(idx=v.idx + d))]
                    elif self.T(e["t"])["k"] in ("int", "enum"):
                        nv = []
                        w, sg = self.intinfo(e["t"])
                        if not isinstance(v, Lin):
                            v = self.fresh(e["t"], ("imp", ("incr", self.uid())), True)
                        if self.is_signed8(e["t"]) or not sg:
                            nv += self.fit(s2, v + d, w, sg)
                        else:
                            nv.append((s2, v + d))
                    else:
                        nv = [(s2, Top("++"))]
                    for s3, x in nv:
                        for s4 in self.write(s3, p.path, x):
                            out.append((s4, v if n.get("post") else p))
            return out
        out = []
        for s, v in self.rv(e, st, fr):
            if op == "!":
                out.append((s, simp(("not", self.cond_of(v))) if not isinstance(self.cond_of(v), bool)
                            else not self.cond_of(v)))
                continue
            if isinstance(v, Top):
                out.append((s, v))
                continue
            for s2, l in self.as_int(s, v):
                if op == "+":
                    out.append((s2, l))
                elif op == "-":
                    w, sg = self.intinfo(n["t"]) or (64, True)
                    out += [(s2, -l)] if sg else self.fit(s2, -l, w, sg)
                elif op == "~":
                    w, sg = self.intinfo(n["t"])
                    out.append((s2, -l - 1) if sg and w != 8 else (s2, L((1 << w) - 1) - l))
                else:
                    out.append((s2, Top("unary " + op)))
        return out

    def ev_Bin(self, n, st, fr, dest=None):
        op = n["op"]
        if op == "&&" or op == "||":
            out = []
            for s, x in self.rv(n["x"], st, fr):
                c = self.cond_of(x)
                if op == "&&":
                    go, stop, r = *self.br(s, c, n["x"], fr), False
                else:
                    stop, go = self.br(s, c, n["x"], fr)
                    r = True
                for s2 in stop:
                    out.append((s2, r))
                for s2 in go:
                    for s3, y in self.rv(n["y"], s2, fr):
                        out.append((s3, self.cond_of(y)))
            return out
        if op == ",":
            out = []
            for s, _ in self.ev(n["x"], st, fr):
                out += self.ev(n["y"], s, fr)
            return out
        if op == "=":
            out = []
            for s, v in self.ev(n["y"], st, fr):
                if n["y"].get("lv") and isinstance(v, Ptr):
                    rs = self.read(s, v.path)
                else:
                    rs = [(s, v)]
                for s1, w in rs:
                    for s2, p in self.ev(n["x"], s1, fr):
                        if isinstance(p, Ptr):
                            for s3 in self.write(s2, p.path, w):
                                out.append((s3, p))
                        else:
                            out.append((s2, p))
            return out
        out = []
        for s, x in self.rv(n["x"], st, fr):
            for s2, y in self.rv(n["y"], s, fr):
                out += self.binop(s2, op, x, y, n, fr)
        return out

    def br(self, st, c, node, fr):
        T, F = self.branch(st, c)
        if T and F:
            w = self.where(node, fr)
            for s in T:
                s.log(w, "taken")
            for s in F:
                s.log(w, "not taken")
        return T, F

    def binop(self, st, op, x, y, n, fr):
        t = n["t"]
        if isinstance(x, (It,)) or isinstance(y, It) or isinstance(x, Ptr) or isinstance(y, Ptr):
            return self.ptrop(st, op, x, y, n)
        if is_flt(x) or is_flt(y):
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return [(st, flt_cmp(op, x, y) or ("atom", ("imp", ("cmp", self.uid()))))]
            if self.T(t)["k"] in ("int", "enum"):
                return [(st, self.fresh(t, ("imp", ("op", self.uid())), True))]
            return [(st, flt_op(op, x, y) or Top("float"))]
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if isinstance(x, Top) or isinstance(y, Top):
                return [(st, ("atom", ("imp", ("cmp", self.uid()))))]
            if isinstance(x, (Fn, Clo, FnSym)) or isinstance(y, (Fn, Clo, FnSym)):
                return [(st, (x == y) == (op == "=="))]
            if (is_cond(x) and not isinstance(y, Lin)) and (is_cond(y)) and op in ("==", "!="):
                if isinstance(y, bool):
                    return [(st, x if y == (op == "==") else simp(("not", x)))]
                if isinstance(x, bool):
                    return [(st, y if x == (op == "==") else simp(("not", y)))]
            out = []
            for s, a in self.as_int(st, x):
                for s2, b in self.as_int(s, y):
                    out.append((s2, cmp(op, a, b)))
            return out
        if isinstance(x, Top) or isinstance(y, Top):
            if self.T(t)["k"] in ("int", "enum"):
                return [(st, self.fresh(t, ("imp", ("op", self.uid())), True))]
            return [(st, Top("float"))]
        w, sg = self.intinfo(t) or (64, True)
        out = []
        for s, a in self.as_int(st, x):
            for s2, b in self.as_int(s, y):
                out += self.arith(s2, op, a, b, w, sg, n)
        return out

    def arith(self, st, op, a, b, w, sg, n=None):
        f = st.facts
        if op == "+" or op == "-":
            r = a + b if op == "+" else a - b
            if sg and w != 8:
                return [(st, r)]
            return self.fit(st, r, w, sg)
        if op == "*":
            if b.t and not a.t:
                a, b = b, a
            if not b.t:
                r = a.scale(b.c)
                return [(st, r)] if sg else self.fit(st, r, w, sg)
            va, vb = f.values(a, 16), f.values(b, 16)
            vs = va or vb
            if vs:
                l, o = (a, b) if va else (b, a)
                out = []
                for v in vs:
                    c = st.copy()
                    for s in self.assume(c, eq(l, v)):
                        out += self.arith(s, "*", o, L(v), w, sg, n)
                return out
            return [(st, self.opaque_int(("mul", a, b), w, sg, a, b))]
        if op in ("/", "%"):
            if not b.t:
                c = b.c
                if c == 0:
                    return [(st, self.opaque_int(("div0", self.uid()), w, sg, a))]
                if not a.t:
                    q = abs(a.c) // abs(c) * (1 if (a.c < 0) == (c < 0) else -1)
                    return [(st, L(q if op == "/" else a.c - q * c))]
                if c > 0:
                    r = V.map_small(a, lambda v: (abs(v) // c * (1 if v >= 0 else -1)) if op == "/" else
                                    (abs(v) % c * (1 if v >= 0 else -1)), "(%r %s %d)" % (a, op, c))
                    if r is not None:
                        return [(st, r)]
                    if f.implies(a):
                        if c & (c - 1) == 0:
                            kk = c.bit_length() - 1
                            r = V.shr(a, kk, 64, f) if op == "/" else V.trunc(a, kk, f)
                            if r is not None and (op == "%" or True):
                                return [(st, r)]
                        # exact multiples
                        if all(k % c == 0 for _, k in a.t) and f.implies(a):
                            q = Lin(a.c // c, tuple((s_, k // c) for s_, k in a.t))
                            return [(st, q if op == "/" else L(a.c % c))]
                        q = self.quotient(a, c, f)
                        return [(st, q if op == "/" else a - q.scale(c))]
            return [(st, self.opaque_int((op, a, b), w, sg, a, b))]
        if op in ("<<", ">>"):
            if b.t:
                vs = f.values(b, 64)
                if vs is None:
                    lo, hi = f.bounds(b)
                    if lo is not None and hi is not None and hi - lo < 64:
                        vs = list(range(lo, hi + 1))
                if vs is None:
                    return [(st, self.opaque_int((op, a, b), w, sg, a, b))]
                out = []
                for v in vs:
                    for s in self.assume(st.copy(), eq(b, v)):
                        out += self.arith(s, op, a, L(v), w, sg, n)
                return out
            k = b.c
            if k < 0 or k >= max(w, 32):
                return [(st, self.opaque_int((op, a, b), w, sg, a))]
            if op == "<<":
                r = a.scale(1 << k)
                if sg:
                    lo, hi = f.bounds(r)
                    if hi is not None and hi < (1 << (w - 1)) and lo is not None and lo >= 0:
                        return [(st, r)]
                    return self.fit(st, r, w, sg)
                return self.fit(st, r, w, sg)
            if not a.t:
                return [(st, L(a.c >> k))]
            r = V.map_small(a, lambda v: v >> k, "(%r>>%d)" % (a, k))
            if r is None and f.implies(a):
                r = V.shr(a, k, 64, f)
            return [(st, r if r is not None else self.opaque_int((">>", a, b), w, sg, a))]
        if op in ("&", "|", "^"):
            if not a.t and not b.t:
                r = {"&": a.c & b.c, "|": a.c | b.c, "^": a.c ^ b.c}[op]
                return self.fit(st, L(r), w, sg)
            if op == "&":
                if not a.t and a.c < 0:
                    a = L(a.c & ((1 << w) - 1))
                if not b.t and b.c < 0:
                    b = L(b.c & ((1 << w) - 1))
            r = None
            if f.implies(a) and f.implies(b):
                r = V.bitop(op, a, b, w, f)
            if r is None:
                r = V._bitop_small(op, a, b, w)
            if r is not None:
                return [(st, r)]
            for l, o in ((a, b), (b, a)):
                vs = f.values(l, 16)
                if vs and l.t:
                    out = []
                    for v in vs:
                        for s in self.assume(st.copy(), eq(l, v)):
                            out += self.arith(s, op, L(v), o, w, sg, n)
                    return out
            k = ("bit" + op,) + tuple(sorted((a, b), key=repr))
            return [(st, self.opaque_int(k, w, sg, a, b))]
        return [(st, self.opaque_int((op, a, b), w, sg, a, b))]

    def quotient(self, a, c, f):
        lo, hi = f.bounds(a)
        q = memo_sym(("div", a, c), "(%r/%d)" % (a, c), 0, None if hi is None else max(0, hi // c), "div", (a, c),
                     a.imprecise(), a.deps())
        q.facts = (a - S(q).scale(c), S(q).scale(c) + (c - 1) - a)
        return S(q)

    def ptrop(self, st, op, x, y, n):
        if op in ("+", "-"):
            if isinstance(x, It) and isinstance(y, It):
                if x.path == y.path:
                    return [(st, x.idx - y.idx)]
                return [(st, self.fresh(n["t"], ("imp", ("ptrdiff", self.uid())), True))]
            if isinstance(y, It) and op == "+":
                x, y = y, x
            if isinstance(x, It):
                return [(s, x.rep(idx=x.idx + (l if op == "+" else -l))) for s, l in self.as_int(st, y)]
            if isinstance(x, Ptr):
                return [(st, It(x.path, L(0), False))] if False else [(st, Top("pointer arithmetic"))]
            return [(st, Top("pointer arithmetic"))]
        if op in ("==", "!=", "<", ">", "<=", ">="):
            r = self.ptr_eq(st, x, y)
            if isinstance(x, It) and isinstance(y, It) and x.path == y.path:
                return [(st, cmp(op, x.idx, y.idx))]
            if op in ("==", "!="):
                return [(st, r if op == "==" else simp(("not", r)) if not isinstance(r, bool) else not r)]
            return [(st, ("atom", ("imp", ("ptrcmp", self.uid()))))]
        return [(st, Top("pointer op"))]

    def ptr_eq(self, st, x, y):
        def isnull(p):
            return isinstance(p, Ptr) and p.nul is True
        if isnull(x) and isnull(y):
            return True
        if isnull(x):
            x, y = y, x
        if isnull(y):
            c = self.cond_of(x)
            return (not c) if isinstance(c, bool) else simp(("not", c))
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.path == y.path:
                return True
            if x.path and y.path and x.path[0][0] in ("v", "t", "heap", "obj") and \
                    y.path[0][0] in ("v", "t", "heap", "obj") and x.path[0] != y.path[0] and \
                    not (x.path[0][0] == "obj" and y.path[0][0] == "obj"):
                if x.nul is False or y.nul is False:
                    return False
            return ("atom", ("ptreq", x, y))
        if isinstance(x, Lin) or isinstance(y, Lin):
            return ("atom", ("imp", ("ptrint", self.uid())))
        return ("atom", ("imp", ("ptreq", self.uid())))

    def ev_CAssign(self, n, st, fr, dest=None):
        op = n["op"]
        op = op[:-1] if op.endswith("=") else op
        out = []
        for s, y in self.rv(n["y"], st, fr):
            for s1, p in self.ev(n["x"], s, fr):
                if not isinstance(p, Ptr):
                    out.append((s1, p))
                    continue
                for s2, x in self.read(s1, p.path):
                    if isinstance(x, It):
                        rs = self.ptrop(s2, op, x, y, n)
                    elif isinstance(x, Top) and self.intinfo(n["x"]["t"]) is None:
                        rs = [(s2, x)]
                    else:
                        if isinstance(x, Top):
                            x = self.fresh(n["x"]["t"], ("imp", ("undef", self.uid())), True)
                        clt = n.get("clt", n["t"])
                        ct = n.get("ct", n["t"])
                        w, sg = self.intinfo(ct) or (64, True)
                        rs = []
                        if is_flt(x) or is_flt(y):
                            rs = [(s2, flt_op(op, x, y) or Top("float"))] if self.intinfo(n["x"]["t"]) is None else \
                                [(s2, self.fresh(n["x"]["t"], ("imp", ("op", self.uid())), True))]
                        elif isinstance(y, Top):
                            rs = [(s2, self.fresh(n["x"]["t"], ("imp", ("op", self.uid())), True))]
                        else:
                            for s3, a in self.int_cast(s2, x, n["x"]["t"], clt):
                                for s4, a1 in self.as_int(s3, a):
                                    for s5, b in self.as_int(s4, y):
                                        for s6, r in self.arith(s5, op, a1, b, w, sg, n):
                                            rs += self.int_cast(s6, r, ct, n["x"]["t"])
                    for s3, r in rs:
                        for s4 in self.write(s3, p.path, r):
                            out.append((s4, p))
        return out

    def ev_Cond(self, n, st, fr, dest=None):
        out = []
        for s, c in self.rv(n["c"], st, fr):
            T, F = self.br(s, self.cond_of(c), n["c"], fr)
            for s2 in T:
                out += self.ev(n["x"], s2, fr)
            for s2 in F:
                out += self.ev(n["y"], s2, fr)
        return out

    def ev_Subscript(self, n, st, fr, dest=None):
        out = []
        for s, b in self.ev(n["b"], st, fr):
            for s1, i in self.rv(n["i"], s, fr):
                for s2, l in self.as_int(s1, i):
                    if isinstance(b, It):
                        out += self.at_index(s2, b.path, b.idx + l, n, fr)
                    elif isinstance(b, Ptr) and b.path is not None:
                        out += self.at_index(s2, b.path, l, n, fr)
                    else:
                        out.append((s2, Ptr((("obj", ("imp", self.uid()), self.strip(n["t"])),), False)))
        return out

    def ev_InitList(self, n, st, fr, dest=None):
        t = self.strip(n["t"])
        ty = self.T(t)
        a = n["a"]
        if ty["k"] == "carray":
            out = []
            for s, vs in self.evs_val(a, st, fr):
                ps = [("v", v) for v in vs]
                nn = ty.get("n", len(vs))
                if n.get("fill") is not None and nn > len(vs):
                    ps.append(("f", L(nn - len(vs)), self.zero(ty["to"])))
                out.append((s, V.mk_seq("arr", ps, ty["to"])))
            return out
        if ty["k"] == "rec":
            cn = clean(ty.get("name", ""))
            if cn == "std::array":
                if not a:
                    return [(st, self.zero(t))]
                r = []
                for s, v in self.ev(a[0], st, fr):
                    r.append((s, v.rep(kind="arr", et=self.elem_type(t)) if isinstance(v, Seq) else v))
                return r
            if len(a) == 1 and a[0] is not None and self.tname(a[0].get("t", t)) == cn:
                return self.ev(a[0], st, fr, dest) if not a[0].get("lv") else self.rv(a[0], st, fr)
            fn = n.get("fn", [])
            ft = self.field_types(cn)
            res = [(st, [])]
            for nm, e in zip(fn, a):
                nxt = []
                for s, vs in res:
                    if e is None:
                        nxt.append((s, vs))
                        continue
                    isref = nm in ft and self.T(ft[nm])["k"] in ("lref", "rref")
                    if isref:
                        for s2, v in self.loc(e, s, fr):
                            nxt.append((s2, vs + [(nm, RefV(v))]))
                    else:
                        for s2, v in self.rv(e, s, fr):
                            nxt.append((s2, vs + [(nm, v)]))
                res = nxt
            return [(s, Struct(cn, tuple(sorted(vs, key=lambda x: x[0])), None, t)) for s, vs in res]
        if not a:
            return [(st, self.zero(t))]
        return self.ev(a[0], st, fr)

    def evs_val(self, ns, st, fr):
        res = [(st, [])]
        for n in ns:
            nxt = []
            for s, vs in res:
                for s2, v in self.rv(n, s, fr):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ev_Lambda(self, n, st, fr, dest=None):
        res = [(st, [])]
        for c in n["caps"]:
            nxt = []
            for s, cs in res:
                if c.get("this"):
                    for s2, v in self.ev_This(n, s, fr):
                        if c.get("copy") and isinstance(v, Ptr):
                            for s3, x in self.read(s2, v.path):
                                nxt.append((s3, cs + [("this", x)]))
                        else:
                            nxt.append((s2, cs + [("this", v)]))
                elif c.get("init") is None:
                    nxt.append((s, cs))
                elif c.get("ref"):
                    for s2, v in self.loc(c["init"], s, fr):
                        nxt.append((s2, cs + [(c["id"], RefV(v))]))
                else:
                    for s2, v in self.rv(c["init"], s, fr):
                        nxt.append((s2, cs + [(c["id"], v)]))
            res = nxt
        for s, cs in res:
            self.event("lambda", s, n, fr, cs)
        return [(s, Clo(n["id"], tuple(cs), tuple(n["ops"]))) for s, cs in res]

    def ev_New(self, n, st, fr, dest=None):
        root = ("heap", fr.id, id(n), self.uid())
        if n.get("e") is None:
            st.store[root] = self.zero(n["at"])
            return [(st, Ptr((root,), False))]
        out = []
        for s, v in self.ev(n["e"], st, fr, (root,)):
            s.store[root] = v
            out.append((s, Ptr((root,), False)))
        return out

    def ev_Delete(self, n, st, fr, dest=None):
        out = []
        for s, v in self.ev(n["e"], st, fr):
            out += [(s2, VOID) for s2 in self.destroy_ptr(s, v, fr)]
        return out

    def ev_Throw(self, n, st, fr, dest=None):
        if n.get("e") is None:
            if st.exc is not None:
                self.raise_(st, st.exc)
            return []
        for s, v in self.rv(n["e"], st, fr):
            self.raise_(s, Exc(self.tname(n["e"]["t"]), v, self.where(n, fr)))
        return []

    def raise_(self, st, exc):
        st.exc = exc
        self.throws[-1].append(st)

    def ev_SizeOf(self, n, st, fr, dest=None):
        return [(st, self.fresh(n["t"], ("imp", ("sizeof", self.uid())), True))]

    def ev_ArrayCopy(self, n, st, fr, dest=None):
        return self.rv(n["e"], st, fr)

    def ev_StmtExpr(self, n, st, fr, dest=None):
        return [(s, VOID) for k, s, v in self.ex(n["b"], st, fr) if k == "n"]

    # ---------------------------------------------------------------- calls
    def ev_Construct(self, n, st, fr, dest=None):
        f = n["f"]
        cn = clean(f["cls"]) if f.get("cls") else ""
        ct = f.get("ct")
        args = n["a"]
        if f.get("lam"):
            # copying / moving a closure
            return self.rv(args[0], st, fr) if args else [(st, Top("lambda"))]
        if ct in ("copy", "move") and len(args) >= 1 and not (f.get("body") and not f.get("df")):
            h = self.hooks.get(cn + "::" + cn.split("::")[-1])
            if h is None:
                if not args[0].get("lv"):
                    return self.ev(args[0], st, fr, dest)
                if ct == "copy" or not self.has_move(cn):
                    r = self.rv(args[0], st, fr)
                    return [(s, v) for s, v in r]
                # implicit / library move: value moves, source becomes empty
                out = []
                for s, p in self.ev(args[0], st, fr):
                    if not isinstance(p, Ptr):
                        out.append((s, p))
                        continue
                    for s2, v in self.read(s, p.path):
                        out += self.move_value(s2, p.path, v, n, fr)
                return out
        return self.do_call(n, f, None, args, st, fr, dest, ctor=True)

    def has_move(self, cn):
        return True

    def move_ctor(self, cls):
        """The user-provided move constructor of a class of the program, or None."""
        c = self.__dict__.setdefault("_mc", {})
        if cls not in c:
            c[cls] = None
            for u, f in self.F.items():
                if f.get("ctor") and f.get("body") and not f.get("df") and clean(f.get("cls", "")) == cls and len(f["params"]) == 1 and \
                        self.T(f["params"][0]["t"])["k"] == "rref" and self.tname(f["params"][0]["t"]) == cls:
                    c[cls] = f
        return c[cls]

    def move_value(self, st, path, v, n, fr):
        """The value moved out of the object at path: [(state, value)]."""
        if self.run_dtors and isinstance(v, Struct) and v.cls in self.rec_by_name:
            f = self.move_ctor(v.cls)
            if f is not None:
                tmp = ("t", fr.id, ("mv", id(n), self.uid()))
                st.store[tmp] = Struct(v.cls, (), None, v.ty)
                f2 = Frame(self.fid(fr.id, ("mv", id(n))), f, Ptr((tmp,), False), None, fr, n)
                st.store[("v", f2.id, f["params"][0]["id"])] = RefV(Ptr(path, False))
                out = []
                c = Call(self, n, {"q": f["q"], "clst": v.ty, "r": f["ret"]}, f["q"], f2.this, [Ptr(path, False)], [n], st, fr, (tmp,), True)
                for s, _ in self.run_ctor(c, f, f2, f2.this):
                    x = s.store.pop(tmp)
                    out.append((s, x))
                return out
            if any(self.needs_destroy(t) for t in self.field_types(v.cls).values()):
                res = [(st, v)]
                for nm, t in self.field_types(v.cls).items():
                    nx = []
                    for s, acc in res:
                        x = acc.get(nm)
                        if x is None:
                            nx.append((s, acc))
                            continue
                        nx += [(s2, acc.with_(nm, y)) for s2, y in self.move_value(s, path + (nm,), x, n, fr)]
                    res = nx
                return res
        if self.run_dtors and isinstance(v, Opt) and isinstance(v.val, Struct) and v.has is not False:
            T, F = self.branch(st, v.has)
            out = [(s, v) for s in F]
            for s in T:
                out += [(s2, Opt(True, y, v.err, v.kind, v.ty)) for s2, y in self.move_value(s, path + ("*",), v.val, n, fr)]
            return out
        return [(s, v) for s in self.move_out(st, path, v)]

    def move_out(self, st, path, v):
        """Moved-from source."""
        if isinstance(v, Seq) and v.kind in ("vec", "str", "deq"):
            return self.write(st, path, Seq(v.kind, ZERO, (), v.et, None))
        if isinstance(v, Ptr) and v.path is not None:
            return self.write(st, path, NULLP)
        if isinstance(v, MapV):
            return self.write(st, path, MapV(None, ZERO, (), v.ty, ()))
        if isinstance(v, Opt) and v.val is not None and v.val is not VOID:
            return self.move_out(st, path + ("*",), v.val)
        if isinstance(v, Struct) and (v.fields or v.origin) and v.cls in self.rec_by_name:
            nv = v
            for nm in self.field_types(v.cls):
                x = v.get(nm)
                if x is None and v.origin is not None:
                    x = self.materialise(v, nm)
                if isinstance(x, Seq) and x.kind in ("vec", "str", "deq"):
                    nv = nv.with_(nm, Seq(x.kind, ZERO, (), x.et, None))
                elif isinstance(x, Ptr) and self.tname(self.field_types(v.cls)[nm]) in SMART:
                    nv = nv.with_(nm, NULLP)
            return self.write(st, path, nv)
        return [st]

    def ev_Call(self, n, st, fr, dest=None):
        if "f" not in n:
            out = []
            for s, fv in self.rv(n["fe"], st, fr):
                for s2, vs in self.args(n["a"], None, s, fr):
                    out += self.call_value(s2, fv, vs, n, fr, dest)
            return out
        return self.do_call(n, n["f"], None, n["a"], st, fr, dest)

    def ev_MCall(self, n, st, fr, dest=None):
        if "f" not in n:
            return self.ev_Unknown(n, st, fr)
        return self.do_call(n, n["f"], n.get("b"), n["a"], st, fr, dest)

    def ev_OpCall(self, n, st, fr, dest=None):
        f = n.get("f")
        if f is None:
            return self.ev_Unknown(n, st, fr)
        if f.get("m") and not f.get("st"):
            return self.do_call(n, f, n["a"][0], n["a"][1:], st, fr, dest)
        return self.do_call(n, f, None, n["a"], st, fr, dest)

    def args(self, ns, ptypes, st, fr):
        """Evaluates arguments: references as locations, the rest as values."""
        res = [(st, [])]
        for i, a in enumerate(ns):
            isref = None
            if ptypes is not None and i < len(ptypes):
                isref = self.T(ptypes[i])["k"] in ("lref", "rref")
            nxt = []
            for s, vs in res:
                if isref or (isref is None and a.get("lv")):
                    for s2, v in self.loc(a, s, fr):
                        nxt.append((s2, vs + [v]))
                else:
                    for s2, v in self.rv(a, s, fr):
                        nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def do_call(self, n, f, obj, argn, st, fr, dest, ctor=False):
        q = clean(f["q"])
        if q in self.skip_calls():
            return [(st, VOID)]
        pts = f.get("p")
        res = []
        if obj is not None:
            if obj.get("lv") or n.get("k") == "OpCall" or not self.is_ptr_expr(obj):
                objs = self.loc(obj, st, fr)
            else:
                objs = []
                for s, v in self.ev(obj, st, fr):
                    if isinstance(v, It):
                        v = Ptr(v.path + (("i", v.idx),), False)
                    if isinstance(v, Ptr) and v.nul is not False and obj["k"] != "This":
                        if v.path is None:
                            self.null_deref(s, n, fr, v)
                            continue
                        for s2 in self.nonnull(s, v, n, fr):
                            objs.append((s2, Ptr(v.path, False)))
                    else:
                        objs.append((s, v))
        else:
            objs = [(st, None)]
        for s, this in objs:
            for s2, vs in self.args(argn, pts, s, fr):
                c = Call(self, n, f, q, this, vs, argn, s2, fr, dest, ctor)
                res += self.dispatch(c)
        if len(res) > self.maxstates:
            raise Giveup("too many states at " + self.where(n, fr))
        return res

    def is_ptr_expr(self, e):
        return self.T(e["t"])["k"] == "ptr"

    def skip_calls(self):
        return SKIP

    def dispatch(self, c):
        q = c.q
        self.called[q] = self.called.get(q, 0) + 1
        m = self.pre.get(q)
        if m is not None:
            r = m(self, c)
            if r is not None:
                return self.finish(c, r)
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, c)
            if r is not NotImplemented:
                return self.finish(c, r)
        f = c.f
        # closures called directly
        if f.get("lam") and f.get("m") and c.this is not None:
            out = []
            for s, v in self.read(c.st, c.this.path) if isinstance(c.this, Ptr) else [(c.st, c.this)]:
                out += self.call_closure(s, v, c.this.path if isinstance(c.this, Ptr) else None, c.args, c.n, c.fr,
                                         c.dest, f["u"])
            return self.finish(c, out)
        if f.get("vt") and not c.n.get("qual") and c.this is not None and not c.ctor:
            r = self.virtual(c)
            if r is not None:
                return self.finish(c, r)
        fn = self.F.get(f["u"]) if f.get("body") or f["u"] in self.F else None
        if fn is not None and fn.get("body") is not None and q not in self.models_first():
            return self.finish(c, self.inline(c, fn))
        m = self.models.get(q)
        if m is not None:
            r = m(self, c)
            if r is not NotImplemented:
                return self.finish(c, r)
        if q.startswith(self.opaque_prefix):
            return self.finish(c, self.opaque_call(c))
        return self.finish(c, self.unknown_call(c))

    opaque_prefix = ("opentelemetry::",)     # instrumentation: its values reach nothing the properties speak of

    def opaque_call(self, c):
        t = c.n.get("t", c.f.get("r"))
        if c.n.get("lv"):
            return [(c.st, Ptr((("obj", ("opaque", c.q), self.strip(t)),), False))]
        if t is None or self.T(t)["k"] == "void":
            return [(c.st, VOID)]
        if self.T(t)["k"] == "ptr":
            return [(c.st, Ptr((("obj", ("opaque", c.q), self.T(t)["to"]),), False))]
        return [(c.st, Opaque(c.q, ("opaque", c.q)))]

    def models_first(self):
        return ()

    def finish(self, c, r):
        p = self.post.get(c.q)
        if p is not None:
            for s, v in r:
                p(self, c, s, v)
        return r

    def virtual(self, c):
        """Resolves a virtual call by the dynamic class of the object."""
        if not isinstance(c.this, Ptr):
            return None
        out = None
        for s, v in self.read(c.st, c.this.path):
            cls = v.cls if isinstance(v, Struct) else None
            u = self.find_override(c.f, cls)
            if u is None:
                return None
            c2 = c.on(s)
            c2.q = clean(self.F[u]["q"])
            h = self.hooks.get(c2.q)
            r = h(self, c2) if h is not None else NotImplemented
            if r is NotImplemented:
                r = self.inline(c2, self.F[u])
            out = (out or []) + r
        return out

    def find_override(self, f, cls):
        if cls is None:
            return None
        fn = self.F.get(f["u"])
        if fn is not None and clean(fn.get("cls", "")) == cls:
            return f["u"]
        for u in self.overriders.get(f["u"], ()):
            if clean(self.F[u].get("cls", "")) == cls:
                return u
            r = self.find_override({"u": u}, cls)
            if r:
                return r
        return None

    def inline(self, c, fn):
        if c.fr.depth > 60:
            raise Giveup("call depth")
        st, fr = c.st, c.fr
        # recursion guard
        p, rec = fr, 0
        while p is not None:
            if p.fn is fn:
                rec += 1
            p = p.parent
        if rec > 3:
            self.note_unmodelled("recursion " + c.q, st)
            return self.unknown_call(c)
        f2 = Frame(self.fid(fr.id, c.n), fn, None, None, fr, c.n)
        this = c.this
        troot = None
        if c.ctor:
            if c.dest is not None:
                this = Ptr(c.dest, False)
            else:
                troot = ("t", fr.id, id(c.n))
                this = Ptr((troot,), False)
        f2.this = this
        f2.args = c.args
        for p, v in zip(fn["params"], c.args):
            if self.T(p["t"])["k"] in ("lref", "rref"):
                st.store[("v", f2.id, p["id"])] = RefV(v) if isinstance(v, Ptr) else v
            else:
                st.store[("v", f2.id, p["id"])] = v
        if c.ctor:
            return self.run_ctor(c, fn, f2, this)
        if fn.get("df") and fn["body"].get("k") == "Block" and not fn["body"].get("c") and fn.get("name") == "operator=":
            return self.default_assign(c)
        return self.run_body(st, fn, f2, c)

    def default_assign(self, c):
        out = []
        for s, v in self.read(c.st, c.args[0].path) if isinstance(c.args[0], Ptr) else [(c.st, c.args[0])]:
            for s2 in self.write(s, c.this.path, v):
                out.append((s2, c.this))
        return out

    def run_body(self, st, fn, f2, c=None):
        out = []
        self.event("enter", st, c.n if c else None, f2, None)
        ret_ref = self.T(fn["ret"])["k"] in ("lref", "rref")
        res = None
        if self.run_dtors:
            ids = [(p["id"], p["t"]) for p in fn.get("params", ()) if self.needs_destroy(p["t"])]
            if ids:
                res = self.scoped(ids, st, f2, lambda s: self.ex(fn["body"], s, f2))
        for k, s, v in self.ex(fn["body"], st, f2) if res is None else res:
            if k == "n" or k == "r":
                if v is None:
                    v = VOID
                self.event("leave", s, c.n if c else None, f2, v)
                self.drop_frame(s, f2.id)
                out.append((s, v))
        return out

    def run_ctor(self, c, fn, f2, this):
        cls = clean(fn["cls"])
        st = c.st
        path = this.path
        t = c.f.get("clst")
        states = []
        cur = st.store.get(path[0]) if len(path) == 1 else None
        for s in self.write(st, path, Struct(cls, (), None, t)) if not c.n.get("_base") else [st]:
            states.append(s)
        self.throws.append([])
        for i in fn.get("inits", ()):
            nxt = []
            for s in states:
                nxt += self.run_init(i, s, f2, path, cls)
            states = nxt
        out = []
        for s in states:
            for s2, v in self.run_body(s, fn, f2, c):
                for s3, x in self.read(s2, path):
                    if path[0][0] == "t" and len(path) == 1 and c.dest is None:
                        s3.store.pop(path[0], None)
                    out.append((s3, x))
        thrown = self.throws.pop()
        for s in thrown:
            self.throws[-1] += self.abandon(s, cls, path, f2) if self.run_dtors else [s]
        return out

    def abandon(self, s, cls, path, fr):
        """The constructor failed: the members that were constructed are destroyed, not the object itself."""
        saved, s.exc = s.exc, None
        states = [s]
        ft = self.field_types(cls)
        for nm in reversed(list(ft)):
            if self.needs_destroy(ft[nm]):
                nx = []
                for q in states:
                    v = self.read(q, path)[0][1]
                    x = v.get(nm) if isinstance(v, Struct) else None
                    nx += self.destroy(q, path + (nm,), fr, ft[nm]) if x is not None else [q]
                states = nx
        for q in states:
            q.exc = saved
        return states

    def run_init(self, i, s, f2, path, cls):
        if i.get("e") is None:
            return [s]
        if i.get("base") is not None:
            e = i["e"]
            if e["k"] == "Construct" and e["f"].get("u") in self.F and self.F[e["f"]["u"]].get("body") is not None:
                e = dict(e)
                e["_base"] = True
                return [x for x, _ in self.ev(e, s, f2, path)]
            return [x for x, _ in self.ev(e, s, f2)]
        if i.get("deleg"):
            return [x for x, _ in self.ev(i["e"], s, f2, path)]
        nm = i["field"]
        ft = self.field_types(cls).get(nm)
        out = []
        if ft is not None and self.T(ft)["k"] in ("lref", "rref"):
            for s2, v in self.loc(i["e"], s, f2):
                out += self.write(s2, path + (nm,), RefV(v))
            return out
        e = i["e"]
        r = self.ev(e, s, f2, path + (nm,)) if not e.get("lv") else self.rv(e, s, f2)
        for s2, v in r:
            out += self.write(s2, path + (nm,), v)
        return out

    def call_closure(self, st, clo, path, args, n, fr, dest, u=None):
        if isinstance(clo, Clo):
            ops = clo.ops
            if u is None or u not in self.F:
                u = ops[0] if ops else None
                if len(ops) > 1:
                    for o in ops:
                        fn = self.F.get(o)
                        if fn and len(fn["params"]) == len(args):
                            u = o
                            break
            fn = self.F.get(u)
            if fn is None:
                return [(st, Top("closure body"))]
            if path is None:
                root = ("t", fr.id, ("clo", id(n)))
                st.store[root] = clo
                path = (root,)
            f2 = Frame(self.fid(fr.id, (id(n), u)), fn, None, path, fr, n)
            for p, v in zip(fn["params"], args):
                if self.T(p["t"])["k"] in ("lref", "rref"):
                    if not isinstance(v, Ptr):
                        root = ("t", fr.id, ("arg", id(n), p["id"]))
                        st.store[root] = v
                        v = Ptr((root,), False)
                    st.store[("v", f2.id, p["id"])] = RefV(v)
                else:
                    if isinstance(v, Ptr) and self.T(p["t"])["k"] != "ptr" and self.tname(p["t"]) not in SMART:
                        rr = self.read(st, v.path)
                        st, v = rr[0]
                    st.store[("v", f2.id, p["id"])] = v
            r = self.run_body(st, fn, f2)
            return r
        return self.call_value(st, clo, args, n, fr, dest)

    def call_value(self, st, fv, args, n, fr, dest):
        """Calls a callable value."""
        if isinstance(fv, Ptr) and fv.path is not None:
            out = []
            for s, v in self.read(st, fv.path):
                out += self.call_closure(s, v, fv.path, args, n, fr, dest) if isinstance(v, Clo) else \
                    self.call_value(s, v, args, n, fr, dest)
            return out
        if isinstance(fv, Clo):
            return self.call_closure(st, fv, None, args, n, fr, dest)
        if isinstance(fv, Fn):
            fn = self.F.get(fv.u)
            if fn is not None:
                f = {"q": fn["q"], "u": fv.u, "p": [p["t"] for p in fn["params"]], "r": fn["ret"], "body": True}
                c = Call(self, n, f, fv.q, None, args, [], st, fr, dest, False)
                return self.dispatch(c)
            if fv.q in self.hooks or fv.q in self.models:
                return self.dispatch(Call(self, n, {"q": fv.q, "u": fv.u, "p": [], "r": n.get("t")}, fv.q, None, args, [], st, fr, dest, False))
        if isinstance(fv, Opaque) and fv.cls == "memptr" and args and isinstance(args[0], Ptr) and args[0].path is not None:
            return [(st, Ptr(args[0].path + (fv.data,), False))]
        h = self.hooks.get("<callable>")
        if h is not None:
            return h(self, st, fv, args, n, fr)
        if isinstance(fv, FnSym):
            t = n.get("t")
            self.note_unmodelled("callable %s" % keyname(fv.key), st)
            return [(st, self.fresh(t, ("call", fv.key, self.uid())) if t is not None else VOID)]
        if isinstance(fv, Ptr) and fv.nul is True:
            self.raise_(st, Exc("std::bad_function_call", None, self.where(n, fr)))
            return []
        self.note_unmodelled("call of " + type(fv).__name__, st)
        t = n.get("t")
        return [(st, self.fresh(t, ("imp", ("call", self.uid())), True) if t is not None else VOID)]

    def unknown_call(self, c):
        self.note_unmodelled(c.q, c.st)
        st = c.st
        # anything passed by non-const reference or pointer may change
        ps = c.f.get("p") or []
        states = [st]
        for i, v in enumerate(c.args):
            if i < len(ps):
                t = self.T(ps[i])
                if t["k"] in ("lref", "ptr") and not self.T(t["to"]).get("const"):
                    tgt = v.path if isinstance(v, (Ptr, It)) else None
                    if tgt:
                        nx = []
                        for s in states:
                            nx += self.havoc(s, tgt, t["to"])
                        states = nx
        if c.this is not None and c.f.get("m") and not c.f.get("cm") and isinstance(c.this, Ptr) and not c.ctor:
            nx = []
            for s in states:
                for s1, v in self.read(s, c.this.path):
                    if isinstance(v, (Struct, Seq, Opt, MapV)):
                        nx += self.havoc(s1, c.this.path, c.f.get("clst"))
                    else:
                        nx.append(s1)
            states = nx
        t = c.n.get("t", c.f.get("r"))
        if c.ctor:
            return [(s, Opaque(clean(c.f.get("cls", "")), ("imp", self.uid()))) for s in states]
        if c.n.get("lv"):
            return [(s, Ptr((("obj", ("imp", ("ret", c.q, self.uid())), self.strip(t)),), False)) for s in states]
        return [(s, self.fresh(t, ("imp", ("ret", c.q, self.uid())), True)) for s in states]

    def havoc(self, st, path, t):
        if path[0][0] in ("lit",):
            return [st]
        return self.write(st, path, self.fresh(t, ("imp", ("havoc", self.uid())), True))

    def event(self, kind, st, n, fr, info):
        for m in self.monitors:
            m(kind, st, n, fr, info)

    # ---------------------------------------------------------------- destructors
    def destroy(self, st, path, fr, t=None):
        """Runs the destructor of the object at path: [states]."""
        out = []
        for s, v in self.read(st, path):
            out += self.destroy_value(s, v, path, fr, t)
        return out

    def destroy_value(self, st, v, path, fr, t=None):
        if isinstance(v, Struct):
            states = [st]
            d = self.dtor_of(v.cls)
            if d is not None:
                f2 = Frame(self.fid(fr.id, ("dtor", path)), d, Ptr(path, False), None, fr, None)
                nx = []
                for s in states:
                    nx += [x for x, _ in self.run_body(s, d, f2)]
                states = nx
            elif self.lost_dtor(v.cls):
                self.note_unmodelled("destructor of " + v.cls, st)
                st.imp = st.imp or "destructor"
            ft = self.field_types(v.cls)
            for nm in reversed(list(ft)):
                nx = []
                for s in states:
                    nx += self.destroy(s, path + (nm,), fr, ft[nm]) if self.needs_destroy(ft[nm]) else [s]
                states = nx
            for b in self.bases_of(v.cls):
                d = self.dtor_of(b)
                if d is not None and (d["body"].get("c") or not d.get("df")):
                    f2 = Frame(self.fid(fr.id, ("dtor", b, path)), d, Ptr(path, False), None, fr, None)
                    states = [x for s in states for x, _ in self.run_body(s, d, f2)]
            return states
        if isinstance(v, Opt):
            T, F = self.branch(st, v.has)
            out = list(F)
            for s in T:
                out += self.destroy_value(s, v.val, path + ("*",), fr, self.targ(t, 0) if t is not None else None)
            return out
        if isinstance(v, Ptr) and t is not None and self.tname(t) == "std::unique_ptr":
            return self.destroy_ptr(st, v, fr, t)
        if isinstance(v, Seq) and t is not None and self.needs_destroy(t):
            et = self.targ(t, 0)
            states = [st]
            at = ZERO
            for p in v.pieces:
                if p[0] == "v":
                    q = path + (("i", at),)
                    states = [y for x in states for y in self.destroy_value(x, p[1], q, fr, et)]
                at = at + plen(p)
            return states
        if isinstance(v, MapV) and t is not None and self.needs_destroy(t):
            states = [st]
            et = self.targ(t, 1)
            for k, x in v.entries:
                states = [z for y in states for z in self.destroy_value(y, x, (("mapent", path, k), "second"), fr, et)]
            return states
        return [st]

    def destroy_ptr(self, st, v, fr, t=None):
        """Destroys what an owning pointer (of type t) points to."""
        if not isinstance(v, Ptr) or v.path is None:
            return [st]
        T, F = self.branch(st, self.cond_of(v))
        out = list(F)
        dl = self.targ(t, 1) if t is not None and self.tname(t) == "std::unique_ptr" else None
        if dl is not None and self.tname(dl) not in ("std::default_delete", None, ""):
            op = None
            for u, f in self.F.items():
                if f.get("name") == "operator()" and clean(f.get("cls", "")) == self.tname(dl) and f.get("body"):
                    op = f
            if op is None and T and ("deleter", v.path) in T[0].store:
                for s in T:
                    fv = s.store[("deleter", v.path)]
                    out += [x for x, _ in self.call_value(s, fv, [v], {"k": "call", "l": None, "t": None}, fr, None)]
                return out
            if op is None:
                raise Giveup("a std::unique_ptr with the deleter %s" % self.tname(dl))
            for s in T:
                f2 = Frame(self.fid(fr.id, ("del", v.path)), op, None, None, fr, None)
                s.store[("v", f2.id, op["params"][0]["id"])] = v
                out += [x for x, _ in self.run_body(s, op, f2)]
            return out
        for s in T:
            to = self.targ(t, 0) if t is not None else None
            for x in self.destroy(s, v.path, fr, to):
                if self.run_dtors and len(v.path) == 1 and v.path[0][0] == "heap":
                    x.store.pop(v.path[0], None)
                out.append(x)
        return out

    def needs_destroy(self, t):
        """Whether destroying an object of type t can run code of the program."""
        c = self.__dict__.setdefault("_nd", {})
        if t in c:
            return c[t]
        c[t] = False
        k = self.T(t)["k"]
        if k in ("lref", "rref", "ptr"):
            return False
        n = self.tname(t)
        r = False
        if n in ("std::unique_ptr",):
            r = True
        elif n in HOLDERS:
            r = any(self.needs_destroy(a["t"]) for a in (self.T(self.strip(t)).get("targs") or ())[:2] if "t" in a)
        elif n in self.rec_by_name:
            r = self.dtor_of(n) is not None or any(self.needs_destroy(x) for x in self.field_types(n).values()) or \
                any(self.dtor_of(b) is not None for b in self.bases_of(n))
        if n in self.rec_by_name and self.lost_dtor(n):
            r = True
        c[t] = r
        return r

    def bases_of(self, cls):
        out = []
        todo = [cls]
        while todo:
            r = self.rec(todo.pop())
            for b in (r or {}).get("bases", ()):
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def lost_dtor(self, cls):
        """The program's class has a destructor of its own whose body is not known."""
        c = self.__dict__.setdefault("_ldt", {})
        if cls not in c:
            r = self.rec(cls)
            c[cls] = bool(r) and any(m.get("kind") == "dtor" and not m.get("def") and not m.get("implicit") for m in r.get("methods", ()))
        return c[cls]

    def dtor_of(self, cls):
        c = self.__dict__.setdefault("_dt", {})
        if cls not in c:
            c[cls] = None
            for u, f in self.F.items():
                if f.get("dtor") and clean(f.get("cls", "")) == cls and f.get("body"):
                    c[cls] = f
        return c[cls]

    # ---------------------------------------------------------------- statements
    def ex(self, n, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Giveup("step budget exhausted")
        k = n["k"]
        if k != "Block":
            self.here = (n, fr)
        m = getattr(self, "ex_" + k, None)
        if m is not None:
            if self.run_dtors and k in ("Decl", "Return"):
                return self.full(n, st, fr, lambda: m(n, st, fr))
            return m(n, st, fr)
        if self.run_dtors:
            return self.full(n, st, fr, lambda: [("n", s, None) for s in self.discard(n, st, fr)])
        return [("n", s, None) for s, _ in self.ev(n, st, fr)]

    def discard(self, n, st, fr):
        out = []
        t = n.get("t")
        own = t is not None and not n.get("lv") and self.needs_destroy(t)
        for s, v in self.ev(n, st, fr):
            if own and isinstance(v, (Struct, Opt, Ptr, Seq, MapV)):
                root = ("t", fr.id, ("dv", id(n)))
                s.store[root] = v
                self.temps[-1].append((root, t))
            out.append(s)
        return out

    def ex_NullStmt(self, n, st, fr):
        return [("n", st, None)]

    def ex_Block(self, n, st, fr):
        if self.run_dtors:
            return self.ex_block_dtors(n, st, fr)
        return self.ex_seq(n["c"], st, fr)

    def ex_seq(self, stmts, st, fr):
        live = [st]
        out = []
        for x in stmts:
            nxt = []
            for s in live:
                for o in self.ex(x, s, fr):
                    if o[0] == "n":
                        nxt.append(o[1])
                    else:
                        out.append(o)
            live = nxt
            if not live:
                break
        return out + [("n", s, None) for s in live]

    def owned(self, stmts):
        """Declarations whose objects must be destroyed at the end of the scope."""
        ids = []
        for x in stmts:
            if x is not None and x["k"] == "Decl":
                for d in x["d"]:
                    if d.get("static"):
                        continue
                    if self.T(d["t"])["k"] in ("lref", "rref"):
                        if self.needs_destroy(self.strip(d["t"])):
                            ids.append((d["id"], self.strip(d["t"])))
                    elif self.needs_destroy(d["t"]):
                        ids.append((d["id"], d["t"]))
        return ids

    def ex_block_dtors(self, n, st, fr):
        return self.scoped(self.owned(n["c"]), st, fr, lambda s: self.ex_seq(n["c"], s, fr))

    def scoped(self, ids, st, fr, body):
        if not ids:
            return body(st)
        self.throws.append([])
        res = body(st)
        thrown = self.throws.pop()
        out = []
        for k, s, v in res:
            for s2 in self.unwind(s, ids, fr):
                out.append((k, s2, v))
        for s in thrown:
            saved, s.exc = s.exc, None
            for s2 in self.unwind(s, ids, fr):
                s2.exc = saved
                self.throws[-1].append(s2)
        return out

    def destroy_root(self, st, this, cls):
        """Ends the life of an object the analysis made: [states]."""
        fr = Frame(self.fid(None, ("entry", "destroy")), None, None, None, None, None)
        return self.destroy(st, this.path, fr, self.find_type(cls))

    def unwind(self, s, ids, fr):
        states = [s]
        for i, t in reversed(ids):
            root = ("v", fr.id, i)
            nx = []
            for q in states:
                v = q.store.get(root)
                at = root
                if isinstance(v, RefV):
                    p = v.loc.path if isinstance(v.loc, Ptr) else None
                    if p is None or len(p) != 1 or p[0][0] != "t" or p[0][1] != fr.id or p[0] not in q.store:
                        nx.append(q)
                        continue
                    at = p[0]
                    v = q.store[at]
                if v is None or v is UNINIT:
                    nx.append(q)
                    continue
                for q2 in self.destroy(q, (at,), fr, t):
                    q2.store.pop(at, None)
                    q2.store.pop(root, None)
                    nx.append(q2)
            states = nx
        return states

    def full(self, n, st, fr, body):
        """A full expression or simple statement: its temporaries are destroyed at its end."""
        self.temps.append([])
        self.throws.append([])
        res = body()
        thrown = self.throws.pop()
        temps = self.temps.pop()
        if not temps:
            self.throws[-1] += thrown
            return res
        keep = set()
        if n["k"] == "Decl":
            keep = {("v", fr.id, d["id"]) for d in n["d"]}
        out = []
        for o in res:
            s = o[1] if isinstance(o[0], str) else o[0]
            held = set()
            for r in keep:
                v = s.store.get(r)
                if isinstance(v, RefV) and isinstance(v.loc, Ptr) and v.loc.path:
                    held.add(v.loc.path[0])
            for s2 in self.drop_temps(s, temps, held, fr):
                out.append((o[0], s2, o[2]) if isinstance(o[0], str) else (s2, o[1]))
        for s in thrown:
            saved, s.exc = s.exc, None
            for s2 in self.drop_temps(s, temps, (), fr):
                s2.exc = saved
                self.throws[-1].append(s2)
        return out

    def drop_temps(self, s, temps, held, fr):
        states = [s]
        done = set()
        for root, t in reversed(temps):
            if root in held or root in done:
                continue
            done.add(root)
            nx = []
            for q in states:
                if q.store.get(root) is None:
                    nx.append(q)
                    continue
                for q2 in self.destroy(q, (root,), fr, t):
                    q2.store.pop(root, None)
                    nx.append(q2)
            states = nx
        return states

    def ex_Decl(self, n, st, fr):
        live = [st]
        for d in n["d"]:
            nxt = []
            for s in live:
                nxt += self.decl(d, s, fr, n)
            live = nxt
        return [("n", s, None) for s in live]

    def decl(self, d, st, fr, n):
        root = ("v", fr.id, d["id"])
        isref = self.T(d["t"])["k"] in ("lref", "rref")
        if d.get("static"):
            gid = d["id"]
            g = self.G.get(gid)
            if g is not None and g.get("apv") is None and d.get("init") is not None and ("g", gid) not in st.store and gid not in self.gcache and \
                    self.runs_code(d["init"]):
                out = []
                for s, x in self.rv(d["init"], st, fr):
                    s.store[("g", gid)] = x
                    s.store[root] = RefV(Ptr((("g", gid),), False))
                    out.append(s)
                return out
            v = self.root_value(st, ("g", gid)) if gid in self.G else None
            if v is None and d.get("init") is not None:
                if ("g", gid) not in st.store:
                    out = []
                    for s, x in self.rv(d["init"], st, fr):
                        s.store[("g", gid)] = x
                        s.store[root] = RefV(Ptr((("g", gid),), False))
                        out.append(s)
                    return out
            st.store[root] = RefV(Ptr((("g", gid),), False))
            return [st]
        if d.get("apv") is not None and not isref:
            v = self.from_apv(d["apv"], d["t"])
            if not isinstance(v, Top):
                st.store[root] = v
                return [st]
        if d.get("init") is None:
            st.store[root] = self.uninit(d["t"])
            return [st]
        out = []
        if isref:
            for s, v in self.loc(d["init"], st, fr):
                s.store[root] = RefV(v) if isinstance(v, Ptr) else v
                out.append(s)
        else:
            e = d["init"]
            r = self.ev(e, st, fr, (root,)) if not e.get("lv") else self.rv(e, st, fr)
            for s, v in r:
                s.store[root] = v
                out.append(s)
        if d.get("bind"):
            return self.bind(d, out, fr, root)
        return out

    def runs_code(self, n):
        """Whether an initialiser calls the program's functions or the C library."""
        if isinstance(n, dict):
            f = n.get("f")
            if isinstance(f, dict) and "q" in f and n.get("k") != "Ref" and (f.get("u") in self.F or "::" not in f["q"] or f.get("lam")):
                return True
            return any(self.runs_code(v) for k, v in n.items() if k != "f" and isinstance(v, (dict, list)))
        if isinstance(n, list):
            return any(self.runs_code(x) for x in n)
        return False

    def bind(self, d, states, fr, root):
        """Structured bindings."""
        out = []
        for s in states:
            base = s.store[root]
            path = base.loc.path if isinstance(base, RefV) else (root,)
            t = self.strip(d["t"])
            cn = self.tname(t)
            names = list(self.field_types(cn)) if cn in self.rec_by_name else None
            rs = [s]
            for i, b in enumerate(d["bind"]):
                nx = []
                for q in rs:
                    if cn == "std::pair":
                        comp = "first" if i == 0 else "second"
                        q.store[("v", fr.id, b["id"])] = RefV(Ptr(path + (comp,), False))
                        nx.append(q)
                    elif names is not None and i < len(names):
                        q.store[("v", fr.id, b["id"])] = RefV(Ptr(path + (names[i],), False))
                        nx.append(q)
                    else:
                        q.store[("v", fr.id, b["id"])] = self.fresh(b["t"], ("imp", ("bind", self.uid())), True)
                        nx.append(q)
                rs = nx
            out += rs
        return out

    def uninit(self, t):
        ty = self.T(self.strip(t))
        if ty["k"] == "rec":
            cn = clean(ty.get("name", ""))
            if cn == "std::array":
                n = self.targ(t, 1)
                return Seq("arr", L(n), (("s", ("uninit", self.uid()), ZERO, L(n)),), self.elem_type(t), None)
            if cn in STRUCT_SEQ or cn in MAPS or cn in SMART or cn in ("std::optional", "std::expected", "std::span"):
                return self.zero(t)
            if self.rec(cn):
                return Struct(cn, (), None, t)
            return Struct(cn, (), ("imp", ("uninit", self.uid())), t) if is_pod_c(cn) else Opaque(cn, ("new", self.uid()))
        if ty["k"] == "carray":
            return Seq("arr", L(ty.get("n", 0)), (("s", ("uninit", self.uid()), ZERO, L(ty.get("n", 0))),), ty["to"],
                       None)
        return UNINIT

    def ex_If(self, n, st, fr):
        if self.run_dtors:
            ids = self.owned([n.get("init"), n.get("cvar")])
            if ids:
                return self.scoped(ids, st, fr, lambda s: self.ex_if(n, s, fr))
        return self.ex_if(n, st, fr)

    def cond(self, n, s, fr):
        if self.run_dtors:
            return self.full(n, s, fr, lambda: self.rv(n, s, fr))
        return self.rv(n, s, fr)

    def ex_if(self, n, st, fr):
        states = [st]
        out = []
        for pre in ("init", "cvar"):
            if n.get(pre):
                nx = []
                for s in states:
                    for k, s2, v in self.ex(n[pre], s, fr):
                        if k == "n":
                            nx.append(s2)
                        else:
                            out.append((k, s2, v))
                states = nx
        for s in states:
            for s1, c in self.cond(n["c"], s, fr):
                T, F = self.br(s1, self.cond_of(c), n["c"], fr)
                for s2 in T:
                    out += self.ex(n["x"], s2, fr) if n.get("x") else [("n", s2, None)]
                for s2 in F:
                    out += self.ex(n["y"], s2, fr) if n.get("y") else [("n", s2, None)]
        return out

    def ex_Return(self, n, st, fr):
        if n.get("e") is None:
            return [("r", st, VOID)]
        e = n["e"]
        ret_ref = fr.fn is not None and "ret" in fr.fn and self.T(fr.fn["ret"])["k"] in ("lref", "rref")
        if ret_ref:
            return [("r", s, v) for s, v in self.loc(e, st, fr)]
        return [("r", s, v) for s, v in self.rv(e, st, fr)]

    def ex_Break(self, n, st, fr):
        return [("b", st, None)]

    def ex_Continue(self, n, st, fr):
        return [("c", st, None)]

    def ex_Switch(self, n, st, fr):
        if self.run_dtors:
            ids = self.owned([n.get("init"), n.get("cvar")])
            if ids:
                return self.scoped(ids, st, fr, lambda s: self.ex_switch(n, s, fr))
        return self.ex_switch(n, st, fr)

    def ex_switch(self, n, st, fr):
        states = [st]
        out = []
        for pre in ("init", "cvar"):
            if n.get(pre):
                nx = []
                for s in states:
                    nx += [s2 for k, s2, v in self.ex(n[pre], s, fr)]
                states = nx
        body = n["b"]["c"] if n["b"]["k"] == "Block" else [n["b"]]
        # flatten labels
        flat = []
        labels = []     # (kind, value, value2, index)
        for x in body:
            while x is not None and x["k"] in ("Case", "Default"):
                if x["k"] == "Case":
                    labels.append(("v", x.get("v"), x.get("v2"), len(flat)))
                else:
                    labels.append(("d", None, None, len(flat)))
                x = x["b"]
            if x is not None:
                flat.append(x)
        for s in states:
            for s1, v in self.rv(n["c"], s, fr):
                for s2, l in self.as_int(s1, v):
                    rest = [s2]
                    starts = []
                    for kind, a, b, ix in labels:
                        if kind == "d" or a is None:
                            continue
                        nr = []
                        for q in rest:
                            c = eq(l, a) if b is None else ("and", ge(l, a), ge(L(b), l))
                            T, F = self.branch(q, c)
                            for t in T:
                                t.log(self.where(n, fr), "case %d" % a)
                                starts.append((t, ix))
                            nr += F
                        rest = nr
                    dix = next((ix for kind, a, b, ix in labels if kind == "d"), None)
                    for q in rest:
                        if dix is None:
                            out.append(("n", q, None))
                        else:
                            q.log(self.where(n, fr), "default case")
                            starts.append((q, dix))
                    for q, ix in starts:
                        for k, q2, val in self.ex_seq(flat[ix:], q, fr):
                            out.append(("n", q2, None) if k == "b" else (k, q2, val))
        return out

    def ex_Case(self, n, st, fr):
        return self.ex(n["b"], st, fr) if n.get("b") else [("n", st, None)]

    ex_Default = ex_Case

    def ex_Unknown(self, n, st, fr):
        self.note_unmodelled("statement " + n.get("sk", "?"), st)
        st.imp = st.imp or ("statement " + n.get("sk", "?"))
        return [("n", st, None)]

    # ---- loops
    def ex_While(self, n, st, fr):
        return self.loop(n, [st], fr, n.get("cvar"), n["c"], n["b"], None)

    def ex_For(self, n, st, fr):
        states = [st]
        out = []
        if n.get("init"):
            states = [s for k, s, v in self.ex(n["init"], st, fr) if k == "n"]
        return self.loop(n, states, fr, n.get("cvar"), n.get("c"), n["b"], n.get("inc"))

    def ex_Do(self, n, st, fr):
        out = []
        again = []
        for k, s, v in self.ex(n["b"], st, fr):
            if k in ("n", "c"):
                for s1, c in self.rv(n["c"], s, fr):
                    T, F = self.br(s1, self.cond_of(c), n["c"], fr)
                    again += T
                    out += [("n", x, None) for x in F]
            elif k == "b":
                out.append(("n", s, None))
            else:
                out.append((k, s, v))
        if again:
            out += self.loop(n, again, fr, None, n["c"], n["b"], None, first=True)
        return out

    def loop(self, n, states, fr, cvar, cond, body, inc, first=False):
        out = []
        live = states
        soft = 0
        it = 0
        kmax = self.loop_k.get((clean(fr.fn["q"]) if fr.fn else "", None), self.peel)
        if cond is not None and cond.get("k") in ("Bool", "Int") or cond is not None and cond.get("cv"):
            if cond.get("cv", cond.get("v")):
                cond = None
        while live:
            it += 1
            if it > 6000:
                raise Giveup("loop does not terminate at " + self.where(n, fr))
            entry = []
            split = False
            for s in live:
                ss = [s]
                if cvar is not None:
                    ss = [x for k, x, v in self.ex(cvar, s, fr)]
                for q in ss:
                    if cond is None or (first and it == 1):
                        entry.append(q)
                        if not first:
                            split = True
                        continue
                    for s1, c in self.rv(cond, q, fr):
                        T, F = self.br(s1, self.cond_of(c), cond, fr)
                        if T and F or not isinstance(self.cond_of(c), bool) and T and self.undetermined(c):
                            split = True
                        entry += T
                        out += [("n", x, None) for x in F]
            if split:
                soft += 1
            if soft > kmax:
                entry = self.loop_cut(n, entry, fr, cond, body, inc, out)
                if not entry:
                    break
            nxt = []
            for s in entry:
                for k, s2, v in self.ex(body, s, fr):
                    if k in ("n", "c"):
                        if inc is not None:
                            nxt += [x for x, _ in self.ev(inc, s2, fr)]
                        else:
                            nxt.append(s2)
                    elif k == "b":
                        out.append(("n", s2, None))
                    else:
                        out.append((k, s2, v))
            live = nxt
            if len(live) > self.maxstates:
                raise Giveup("too many states in loop at " + self.where(n, fr))
        return out

    def undetermined(self, c):
        return False

    def loop_cut(self, n, entry, fr, cond, body, inc, out):
        """What happens to the states that want to iterate beyond the peeling limit."""
        if entry:
            key = "%s %s" % (clean(fr.fn["q"]) if fr.fn else "?", self.where(n, fr))
            self.cuts[key] = self.cuts.get(key, 0) + len(entry)
            if self.kept is not None:
                self.kept += [(s, key) for s in entry]
        return []

    def ex_RangeFor(self, n, st, fr):
        states = [st]
        if n.get("init"):
            states = [s for k, s, v in self.ex(n["init"], st, fr) if k == "n"]
        out = []
        for s in states:
            for s1, p in self.loc(n["r"], s, fr):
                out += self.range_loop(n, s1, fr, p)
        return out

    def range_view(self, st, v, p):
        """(container path, start, end, reversed) of a range value, or None."""
        if isinstance(v, Seq):
            return p.path, ZERO, v.n, False
        if isinstance(v, SpanV):
            return v.path, v.off, v.off + v.n, False
        if isinstance(v, Opaque) and v.cls == "view":
            return v.data
        return None

    def range_loop(self, n, st, fr, p):
        out = []
        for s, v in self.read(st, p.path) if isinstance(p, Ptr) else [(st, p)]:
            h = self.hooks.get("<range>")
            if h is not None:
                r = h(self, s, v, p, n, fr)
                if r is not None:
                    out += r
                    continue
            if isinstance(v, MapV):
                out += self.range_map(n, s, fr, p, v)
                continue
            w = self.range_view(s, v, p)
            if w is None:
                self.note_unmodelled("range over " + (v.cls if isinstance(v, Opaque) else type(v).__name__), s)
                s.imp = s.imp or "range"
                out.append(("n", s, None))
                continue
            path, lo, hi, rev = w
            if path is None:
                out.append(("n", s, None))
                continue
            # synthesise an iterator variable
            root = ("v", fr.id, ("it", id(n)))
            s.store[root] = It(path, lo if not rev else hi, rev)
            out += self.range_iter(n, s, fr, root, path, lo, hi, rev)
        return out

    def range_iter(self, n, st, fr, root, path, lo, hi, rev):
        """Loop over element locations; iterator index kept in the store at root."""
        out = []
        live = [st]
        soft = 0
        it = 0
        d = n["var"]
        while live:
            it += 1
            if it > 6000:
                raise Giveup("loop does not terminate at " + self.where(n, fr))
            entry = []
            split = False
            for s in live:
                i = s.store[root].idx
                c = ge(hi - 1, i) if not rev else ge(i - 1, lo)
                T, F = self.branch(s, c)
                split = split or bool(T and F) or not isinstance(c, bool)
                for q in T:
                    q.log(self.where(n, fr), "iteration")
                entry += T
                out += [("n", x, None) for x in F]
            if split:
                soft += 1
            if soft > self.peel:
                entry = self.loop_cut(n, entry, fr, None, n["b"], None, out)
                if not entry:
                    break
            nxt = []
            for s in entry:
                i = s.store[root].idx
                ix = i if not rev else i - 1
                for s1 in self.bind_loop_var(d, s, fr, path + (("i", self.canon(s, ix)),)):
                    for k, s2, v in self.ex(n["b"], s1, fr):
                        if k in ("n", "c"):
                            s2.store[root] = It(path, i + 1 if not rev else i - 1, rev)
                            nxt.append(s2)
                        elif k == "b":
                            out.append(("n", s2, None))
                        else:
                            out.append((k, s2, v))
            live = nxt
            if len(live) > self.maxstates:
                raise Giveup("too many states in loop at " + self.where(n, fr))
        return out

    def bind_loop_var(self, d, s, fr, path):
        root = ("v", fr.id, d["id"])
        isref = self.T(d["t"])["k"] in ("lref", "rref")
        if isref:
            s.store[root] = RefV(Ptr(path, False))
            sts = [s]
        else:
            sts = []
            for s1, v in self.read(s, path):
                s1.store[root] = v
                sts.append(s1)
        if d.get("bind"):
            return self.bind(d, sts, fr, root)
        return sts

    def range_map(self, n, st, fr, p, m):
        """Iteration over a map, element by element."""
        from .models import map_first, map_after
        out = []
        d = n["var"]
        root = ("v", fr.id, ("it", id(n)))
        live = []
        for s, it in map_first(self, st, p.path, m):
            s.store[root] = it
            live.append(s)
        rnd = 0
        while live:
            entry = [s for s in live if s.store[root].data[1] != ("end",)]
            out += [("n", s, None) for s in live if s.store[root].data[1] == ("end",)]
            rnd += m.base is not None
            if rnd > self.peel:
                self.loop_cut(n, entry, fr, None, n["b"], None, out)
                break
            nxt = []
            for s in entry:
                k = s.store[root].data[1]
                for s1 in self.bind_loop_var(d, s, fr, (("mapent", p.path, k),)):
                    for kind, s2, v in self.ex(n["b"], s1, fr):
                        if kind in ("n", "c"):
                            for s3, m3 in self.read(s2, p.path):
                                if isinstance(m3, MapV) and k in m3.gone:
                                    self.use_gone(s3, m3, k)
                                    continue
                                for s4, it in map_after(self, s3, p.path, m3, k):
                                    s4.store[root] = it
                                    nxt.append(s4)
                        elif kind == "b":
                            out.append(("n", s2, None))
                        else:
                            out.append((kind, s2, v))
            live = nxt
            if len(live) > self.maxstates:
                raise Giveup("too many states in loop at " + self.where(n, fr))
        return out

    # ---- exceptions
    def ex_Try(self, n, st, fr):
        self.throws.append([])
        out = self.ex(n["b"], st, fr)
        thrown = self.throws.pop()
        for s in thrown:
            caught = False
            for h in n["h"]:
                m = True if h.get("all") else self.exc_matches(s.exc.ty, self.tname(h["t"]))
                if m:
                    caught = True
                    saved = s.exc
                    if h.get("id"):
                        v = saved.val
                        s.store[("v", fr.id, h["id"])] = v if v is not None and not isinstance(v, Top) else \
                            Opaque(saved.ty, ("exc", saved.where))
                    s.log(self.where({"l": h["l"]}, fr), "caught " + saved.ty)
                    for k, s2, v in self.ex(h["b"], s, fr):
                        if s2.exc is saved:
                            s2.exc = None
                        out.append((k, s2, v))
                    break
            if not caught:
                self.throws[-1].append(s)
        return out

    def exc_matches(self, ty, handler):
        if ty == handler:
            return True
        if ty == "foreign":
            return False
        p = EXC_BASE.get(ty)
        while p is not None:
            if p == handler:
                return True
            p = EXC_BASE.get(p)
        rec = self.rec(ty)
        if rec:
            for b in rec.get("bases", ()):
                bn = clean(b if isinstance(b, str) else b.get("name", ""))
                if self.exc_matches(bn, handler):
                    return True
        if handler == "std::exception" and ty not in EXC_BASE and not rec and \
                (ty.startswith("std::") or ty.startswith("spdlog::") or ty.startswith("CLI::")) and ty != "std::basic_string":
            return True
        return False

    # ---------------------------------------------------------------- entry helper
    def fn(self, name, nparams=None):
        """Body of the function with this clean qualified name."""
        if isinstance(name, dict):
            return name, next(u for u, f in self.F.items() if f is name)
        us = [u for u in self.by_name.get(name, ()) if self.F[u].get("body") is not None]
        us.sort(key=lambda u: self.F[u].get("ct") in ("copy", "move") or bool(
            self.F[u].get("ctor") and len(self.F[u]["params"]) == 1 and self.tname(self.F[u]["params"][0]["t"]) == clean(self.F[u].get("cls", ""))))
        if nparams is not None:
            us = [u for u in us if len(self.F[u]["params"]) == nparams]
        if not us:
            from .facts import AnalysisBroken
            raise AnalysisBroken("anchor function %s not found in the program" % name)
        return self.F[us[0]], us[0]

    def run(self, name, st, this, args, nparams=None):
        """Analyses a function from an entry state: (normal [(st,val)], escaped exceptions [st])."""
        fn, u = self.fn(name, nparams)
        self.throws = [[]]
        fr = Frame(self.fid(None, ("entry", fn["q"])), None, None, None, None, None)
        f = {"q": fn["q"], "u": u, "p": [p["t"] for p in fn["params"]], "r": fn["ret"], "body": True, "m": bool(fn.get("cls"))}
        c = Call(self, {"k": "Call", "l": None, "t": fn["ret"]}, f, clean(fn["q"]), this, args, [], st, fr, None,
                 bool(fn.get("ctor")))
        if c.ctor:
            c.dest = this.path
        self.called[c.q] = self.called.get(c.q, 0) + 1
        res = self.inline(c, fn)
        return res, self.throws[0]


class Call:
    __slots__ = ("eng", "n", "f", "q", "this", "args", "argn", "st", "fr", "dest", "ctor")

    def __init__(self, eng, n, f, q, this, args, argn, st, fr, dest, ctor):
        self.eng = eng
        self.n = n
        self.f = f
        self.q = q
        self.this = this
        self.args = args
        self.argn = argn
        self.st = st
        self.fr = fr
        self.dest = dest
        self.ctor = ctor

    def on(self, st):
        return Call(self.eng, self.n, self.f, self.q, self.this, self.args, self.argn, st, self.fr, self.dest, self.ctor)

    @property
    def t(self):
        return self.n.get("t", self.f.get("r"))

    def val(self, i, st=None):
        """[(state, value)] of argument i, read if it is a location."""
        st = st or self.st
        v = self.args[i]
        ps = self.f.get("p") or []
        isref = i < len(ps) and self.eng.T(ps[i])["k"] in ("lref", "rref")
        if isinstance(v, Ptr) and (isref or (i >= len(ps) and self.argn and self.argn[i].get("lv"))):
            return self.eng.read(st, v.path)
        return [(st, v)]

    def obj(self, st=None):
        st = st or self.st
        if isinstance(self.this, Ptr):
            return self.eng.read(st, self.this.path)
        return [(st, self.this)]


SKIP = frozenset()
EXC_BASE = {"std::runtime_error": "std::exception", "std::logic_error": "std::exception",
            "std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error",
            "std::length_error": "std::logic_error", "std::domain_error": "std::logic_error",
            "std::system_error": "std::runtime_error", "std::range_error": "std::runtime_error",
            "std::overflow_error": "std::runtime_error", "std::underflow_error": "std::runtime_error",
            "std::bad_alloc": "std::exception", "std::bad_optional_access": "std::exception",
            "std::bad_expected_access": "std::exception", "std::bad_function_call": "std::exception",
            "std::format_error": "std::runtime_error", "std::bad_cast": "std::exception",
            "std::filesystem::filesystem_error": "std::system_error", "std::ios_base::failure": "std::system_error",
            "spdlog::spdlog_ex": "std::exception", "std::regex_error": "std::runtime_error",
            "CLI::Error": "std::runtime_error", "CLI::ParseError": "CLI::Error",
            "CLI::ValidationError": "CLI::ParseError", "std::exception": None}

C_FIELDS = {("epoll_event", "events"): ("int", 32, False), ("epoll_event", "data"): ("rec", "epoll_data"),
            ("epoll_data", "fd"): ("int", 32, True), ("pollfd", "fd"): ("int", 32, True),
            ("pollfd", "events"): ("int", 16, True), ("pollfd", "revents"): ("int", 16, True),
            ("sockaddr_storage", "ss_family"): ("int", 16, False), ("stat", "st_mode"): ("int", 32, False),
            ("sockaddr_in", "sin_family"): ("int", 16, False), ("sockaddr_in", "sin_port"): ("int", 16, False),
            ("sockaddr_in", "sin_addr"): ("rec", "in_addr"), ("in_addr", "s_addr"): ("int", 32, False),
            ("stat", "st_size"): ("int", 64, True)}
C_PODS = {"epoll_event", "epoll_data", "pollfd", "sockaddr_storage", "sockaddr_in", "sockaddr_in6", "sockaddr", "stat",
          "in_addr", "in6_addr", "tm", "sigaction", "timeval", "timespec", "linger"}


def is_pod_c(cn):
    return cn in C_PODS or cn.startswith("epoll_data")


def wrapv(v, w, sg):
    v &= (1 << w) - 1
    if sg and v >= (1 << (w - 1)):
        v -= 1 << w
    return v


def simp(c):
    if isinstance(c, bool):
        return c
    if c[0] == "not":
        x = simp(c[1])
        return (not x) if isinstance(x, bool) else neg(x)
    if c[0] == "and":
        a, b = simp(c[1]), simp(c[2])
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return ("and", a, b)
    if c[0] == "or":
        a, b = simp(c[1]), simp(c[2])
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
        return ("or", a, b)
    return c


def cmp(op, a, b):
    if op == "==":
        return eq(a, b)
    if op == "!=":
        return ne(a, b)
    if op == "<":
        return ge(b - 1, a)
    if op == ">":
        return ge(a - 1, b)
    if op == "<=":
        return ge(b, a)
    return ge(a, b)


def keyname(key):
    if isinstance(key, str):
        return key
    if isinstance(key, tuple):
        if key and key[0] == "elem":
            return "%s[%s]" % (keyname(key[1]), keyname(key[2]))
        if len(key) == 2 and isinstance(key[1], str):
            return "%s.%s" % (keyname(key[0]), key[1])
        return "(" + ",".join(keyname(k) for k in key if not isinstance(k, (bytes,)))[:80] + ")"
    return str(key)[:60]


_repo = None


def relfile(f):
    for m in ("/lib/", "/app/"):
        i = f.rfind(m)
        if i >= 0:
            return f[i + 1:]
    return f


def model_text(m, limit=24):
    r = {}
    for s, v in sorted(m.items()):
        sy = SYMS[s]
        if sy.base is None and sy.kind in ("in", "byte", "small", "phi"):
            r[sy.name] = v
        if len(r) >= limit:
            break
    return r
