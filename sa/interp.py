"""Abstract interpreter over the exported MIR: partitioned states over an affine relational domain,
joins at control-flow merges and widening with candidate invariants at loop heads."""
import sys
import time
from . import terms as T
from .terms import Lin, Sym, sym, var
from .cons import Store
from .vals import *
from .state import *
from .mir import cfg

UNIQUE = ("alloc::boxed::BoxRaw",)
TRANSPARENT = {
    "core::ptr::unique::Unique", "core::ptr::non_null::NonNull", "core::mem::manually_drop::ManuallyDrop",
    "core::mem::maybe_dangling::MaybeDangling", "core::mem::maybe_uninit::MaybeUninit",
    "core::num::wrapping::Wrapping", "core::cell::UnsafeCell", "core::ops::try_trait::NeverShortCircuit",
}
VEC = "alloc::vec::Vec"
VECPARTS = {VEC, "alloc::raw_vec::RawVec", "alloc::raw_vec::RawVecInner"}
RANGES = {"librezip::Ref": {0: (1, 32768)}}
OPAQUE_ADT = ("anyhow::", "core::fmt::", "std::fmt::", "alloc::fmt::")


class Frame:
    __slots__ = ("fn", "cfg", "depth", "body", "name")

    def __init__(self, fn, depth):
        self.fn = fn
        self.cfg = cfg(fn)
        self.depth = depth
        self.body = fn.body


class Finding:
    def __init__(self, kind, fn, line, msg, st=None, chain=()):
        self.kind = kind
        self.fn = fn
        self.line = line
        self.msg = msg
        self.chain = chain

    def key(self):
        return "%s in %s: %s" % (self.kind, self.fn, self.msg)


class Interp:
    def __init__(self, crate, cfg_=None):
        self.cr = crate
        self.types = crate.types
        self.hooks = {}          # path -> f(self, st, callee, args, retty) -> [(st, ret)]
        self.on_set = None          # called with every value written into a sequence: (I, st, position, value, count)
        self.on_agg = None          # called with every aggregate built: (I, st, type, value)
        self.on_field = None        # called with every aggregate of which a field was assigned: (I, st, type, function reading it)
        self.on_push = None         # called with every value pushed onto a vector
        self.on_extend = None       # called with every sequence appended to a vector at once
        self.env_hooks = {}
        self.code_consts = {}
        self.findings = []
        self.panics = []
        self.stack = []
        self.consts = {}
        self.widen_after = 2
        self.max_states = 600
        self.max_depth = 60
        self.unroll_cap = 400
        self.stats = {"functions": set(), "blocks": 0, "loops": 0, "calls": 0, "joins": 0, "checks": 0}
        self.on_panic = None
        self.memory_facts = None
        self.line = 0
        self.no_merge = False
        self.trace = False
        self.deadline = None
        self.small_body = 90
        self.max_unroll = 400
        self.peel = 0
        self.no_unroll = set()
        self.ghost_types = {}
        self.loc_types = {}
        self.slice_types = {}
        self.mat_over = {}       # adt path -> f(I, ty, key): value of an unknown of that type
        self.anchors = set()     # functions replaced by models: must exist and be reached
        self.reached = set()
        from . import models
        models.install(self)
        from . import collect
        collect.install(self)

    # ------------------------------------------------------------ reporting
    def report(self, kind, msg, st=None):
        fr = self.stack[-1] if self.stack else None
        # attribute to the innermost local function
        name, line = None, 0
        for f, l in reversed(self.stack):
            if f.fn.local:
                name, line = f.fn.path, l[0]
                file = f.fn.file
                break
        chain = tuple(f.fn.path for f, _ in self.stack if f.fn.local)
        fd = Finding(kind, name, line, msg, st, chain)
        self.findings.append(fd)
        return fd

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.types[i]

    def is_transparent(self, t):
        t = self.types[t] if isinstance(t, int) else t
        return t["k"] == "adt" and t["path"] in TRANSPARENT

    def int_range(self, t):
        t = self.types[t]
        k = t["k"]
        if k == "int":
            n = t["bits"]
            if t["signed"]:
                return -(1 << (n - 1)), (1 << (n - 1)) - 1
            return 0, (1 << n) - 1
        if k == "char":
            return 0, 0x10FFFF
        if k == "bool":
            return 0, 1
        raise AnalysisError("not an integer type " + t["name"])

    def fresh_key(self, name):
        T._n[0] += 1
        return ("fr", name, T._n[0])

    def unknown(self, ty, name):
        return self.mat(ty, self.fresh_key(name))

    def mat(self, ty, key, rng=None):
        """The value of an unknown of type ty identified by key."""
        t = self.types[ty]
        k = t["k"]
        if k == "int" or k == "char":
            lo, hi = rng or self.int_range(ty)
            return var(sym(key, lo, hi))
        if k == "bool":
            return F("bit", var(sym(key, 0, 1)))
        if k == "adt":
            p = t["path"]
            if p in self.mat_over:
                return self.mat_over[p](self, ty, key)
            if p.startswith(OPAQUE_ADT):
                if p == "anyhow::Error":
                    return ERR
                return U(ty, key)
            if p in TRANSPARENT:
                return self.mat(self.field_ty(t, 0, 0), key, rng)
            if t.get("box"):
                return N("box", (self.mat(t["args"][0], ("bx", key)),))
            if p == VEC:
                return N("vec", (S((("o", key, 0, self.lensym(key), t["args"][0]),)),))
            if t["akind"] == "struct" and t["variants"]:
                fs = t["variants"][0]["fields"]
                rg = RANGES.get(p, {})
                return N("agg", tuple(self.mat(ft, ("f", key, None, i), rg.get(i)) for i, (_, ft) in enumerate(fs)))
            return U(ty, key)
        if k == "tuple":
            return N("agg", tuple(self.mat(ft, ("f", key, None, i)) for i, ft in enumerate(t["fields"])))
        if k == "closure":
            return N(("clo", ty), tuple(self.mat(ft, ("f", key, None, i)) for i, ft in enumerate(t["fields"])))
        if k in ("ref", "ptr"):
            to = self.types[t["to"]]
            loc = ("u", key, t["to"])
            if to["k"] == "slice":
                return P(loc, (), 0, self.lensym(("deref", key)))
            if to["k"] == "str":
                return P(loc, (), 0, self.lensym(("deref", key)))
            return P(loc)
        if k == "array":
            return S((("o", key, 0, t["len"], t["elem"]),))
        if k == "slice":
            return S((("o", key, 0, self.lensym(key), t["elem"]),))
        if k == "fndef":
            return N(("fn", t["inst"], ty))
        return U(ty, key)

    def lensym(self, key):
        return var(sym(("len", key), 0, LENMAX))

    def field_ty(self, t, variant, i):
        return t["variants"][variant]["fields"][i][1]

    def zst(self, ty):
        t = self.types[ty]
        k = t["k"]
        if k == "fndef":
            return N(("fn", t["inst"], ty))
        if k == "closure":
            return N(("clo", ty), tuple(self.zst(f) for f in t["fields"]))
        if k == "tuple":
            return N("agg", tuple(self.zst(f) for f in t["fields"]))
        if k == "adt":
            if t["path"] in TRANSPARENT:
                return self.zst(self.field_ty(t, 0, 0))
            if t["akind"] == "struct":
                return N("agg", tuple(self.zst(f[1]) for f in t["variants"][0]["fields"]))
            if t["akind"] == "enum":
                return U(ty, ("zst", ty))
        if k == "array":
            return S(())
        return UNIT

    # ------------------------------------------------------------ memory
    def load(self, st, loc):
        v = st.mem.get(loc)
        if v is None:
            if loc[0] == "u":
                return self.mat(loc[2], ("deref", loc[1]))
            if loc[0] == "k":
                return self.consts[loc]
            return UNINIT
        return v

    def sub(self, st, v, e):
        """One projection step on a value."""
        k = e[0]
        if k == "f":
            if isinstance(v, N):
                if v.tag == "agg" or v.tag[0] in ("enm", "clo"):
                    if isinstance(v.tag, tuple) and v.tag[0] == "enm" and e[2] is not None and v.tag[1] != e[2]:
                        raise Infeasible()
                    return v.kids[e[1]]
                if v is UNINIT or v == UNINIT:
                    return UNINIT
                raise AnalysisError("field %s of %r" % (e, v))
            if isinstance(v, U):
                key = ("f", v.key, e[2], e[1])
                t = self.types[v.ty]
                rng = None
                if t["k"] == "adt" and t["path"] in RANGES:
                    rng = RANGES[t["path"]].get(e[1])
                return self.mat(e[3], key, rng)
            raise AnalysisError("field %r of %r" % (e, v))
        if k == "x":
            if isinstance(v, S):
                return self.seq_get(st, v, e[1])
            if v == UNINIT:
                return UNINIT
            raise AnalysisError("index of %r" % (v,))
        if k == "b":
            if isinstance(v, N) and v.tag == "box":
                return v.kids[0]
            raise AnalysisError("box deref of %r" % (v,))
        if k == "s":
            if isinstance(v, N) and v.tag == "vec":
                return v.kids[0]
            raise AnalysisError("vec contents of %r" % (v,))
        raise AnalysisError("projection %r" % (e,))

    def seq_get(self, st, s, i):
        i = st.c.norm(i)
        o = 0
        n = len(s.segs)
        for k, x in enumerate(s.segs):
            ln = seglen(x)
            e = T.add(o, ln)
            last = k == n - 1
            if st.need(fge(T.sub(T.sub(e, 1), i))):
                if x[0] == "r":
                    return x[1]
                return self.mat(x[4], ("el", x[1], st.c.norm(T.add(x[2], T.sub(i, o)))))
            o = e
        raise AnalysisError("sequence index %r out of range of %r" % (i, s))

    def read(self, st, loc, path):
        v = self.load(st, loc)
        for e in path:
            v = self.sub(st, v, e)
        return v

    def write(self, st, loc, path, val):
        if not path:
            st.mem[loc] = val
            return
        st.mem[loc] = self.upd(st, self.load(st, loc), path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        k = e[0]
        if k == "f":
            if isinstance(v, U):
                t = self.types[v.ty]
                vv = e[2] or 0
                fs = t["variants"][vv]["fields"]
                kids = tuple(self.mat(ft, ("f", v.key, e[2], i)) for i, (_, ft) in enumerate(fs))
                v = N(("enm", vv) if t["akind"] == "enum" else "agg", kids)
            if v == UNINIT:
                v = N("agg" if e[2] is None else ("enm", e[2]), ())
            kids = list(v.kids)
            while len(kids) <= e[1]:
                kids.append(UNINIT)
            kids[e[1]] = self.upd(st, kids[e[1]], path[1:], val)
            return N(v.tag, tuple(kids))
        if k == "x":
            if v == UNINIT:
                raise AnalysisError("write into uninitialised sequence")
            if len(path) > 1:
                val = self.upd(st, self.seq_get(st, v, e[1]), path[1:], val)
            if self.on_set is not None and len(path) == 1:
                g = self.on_set(self, st, e[1], val, 1)
                if g is not None:
                    a, b = seq_split(st, v, e[1])
                    return seq(*(a.segs + g + seq_split(st, b, 1)[1].segs))
            return seq_set(st, v, e[1], val, self.seq_ty(v))
        if k == "b":
            return N("box", (self.upd(st, v.kids[0] if v.kids else UNINIT, path[1:], val),))
        if k == "s":
            return N("vec", (self.upd(st, v.kids[0], path[1:], val),))
        raise AnalysisError("update %r" % (e,))

    def seq_ty(self, s):
        for x in s.segs:
            if x[0] == "o":
                return x[4]
        return None

    # ------------------------------------------------------------ places
    def place(self, st, fr, p):
        """-> (loc, path, slice(idx,len)|None, ty, rvalue|None)"""
        loc = (fr.depth, p[0])
        path = ()
        sl = None
        ty = fr.body["locals"][p[0]]
        variant = None
        rv = None
        for e in p[1:]:
            k = e[0]
            t = self.types[ty] if ty is not None else None
            if k == "*":
                if rv is not None:
                    v = rv
                    rv = None
                else:
                    v = self.read(st, loc, path)
                if isinstance(v, N) and v.tag == "box":
                    path = path + (("b",),)
                    ty = t["args"][0]
                    if self.types[ty]["k"] == "slice":
                        sl = (0, seq_len(st, self.read(st, loc, path)))
                    continue
                if not isinstance(v, P):
                    raise AnalysisError("deref of %r" % (v,))
                loc, path, sl = v.loc, v.path, None
                if v.idx is not None:
                    if v.len is not None:
                        sl = (v.idx, v.len)
                    else:
                        path = path + (("x", v.idx),)
                ty = t["to"] if t["k"] in ("ref", "ptr") else t["args"][0] if t.get("box") else None
            elif k == "f":
                if t is not None and t["k"] == "adt" and t["path"] in TRANSPARENT:
                    ty = e[2]
                    continue
                if t is not None and t["k"] == "adt" and t["path"] in VECPARTS and rv is None:
                    n = t["variants"][0]["fields"][e[1]][0]
                    ty = e[2]
                    if n == "len":
                        v = self.read(st, loc, path)
                        rv = seq_len(st, v.kids[0]) if isinstance(v, N) and v.tag == "vec" else UNINIT
                    elif n == "ptr":
                        rv = P(loc, path + (("s",),), 0)
                    elif n not in ("buf", "inner"):
                        rv = UNIT
                    continue
                if t is not None and t["k"] == "adt" and t.get("box"):
                    if e[1] != 0:
                        rv = UNIT
                        continue
                    bv = self.read(st, loc, path)
                    if isinstance(bv, P):
                        rv, ty = bv, e[2]
                        continue
                    rv = P(loc, path + (("b",),))
                    to = self.types[t["args"][0]]
                    if to["k"] == "slice":
                        rv = P(loc, path + (("b",),), 0, seq_len(st, self.read(st, loc, path + (("b",),))))
                    if to["k"] == "dyn":
                        bv = self.read(st, loc, path)
                        rv.vt = bv.kids[1].tag[1] if len(bv.kids) > 1 else None
                    ty = e[2]
                    continue
                if rv is not None:
                    if not (isinstance(rv, P) and e[1] == 0 and t is not None and t.get("path") in UNIQUE):
                        rv = self.sub(st, rv, ("f", e[1], variant, e[2]))
                else:
                    path = path + (("f", e[1], variant, e[2]),)
                ty = e[2]
                variant = None
            elif k == "d":
                variant = e[1]
            elif k in ("i", "ci"):
                if k == "i":
                    i = self.load(st, (fr.depth, e[1]))
                    i = st.c.norm(i) if isinstance(i, Lin) else i
                else:
                    i = e[1]
                    if e[2]:
                        n = sl[1] if sl else seq_len(st, self.read(st, loc, path))
                        i = T.sub(n, i)
                if sl is not None:
                    i = st.c.norm(T.add(sl[0], i))
                    sl = None
                path = path + (("x", i),)
                ty = t.get("elem")
            elif k == "ss":
                a, b, fe = e[1], e[2], e[3]
                n = sl[1] if sl else seq_len(st, self.read(st, loc, path))
                base = sl[0] if sl else 0
                end = T.sub(n, b) if fe else b
                sl = (T.add(base, a), T.sub(end, a))
            else:
                raise AnalysisError("place elem %r" % (e,))
        return loc, path, sl, ty, rv

    def rd(self, st, fr, p):
        if len(p) == 1:
            v = st.mem.get((fr.depth, p[0]), UNINIT)
        else:
            loc, path, sl, ty, rv = self.place(st, fr, p)
            if rv is not None:
                return rv
            v = self.read(st, loc, path)
            if sl is not None:
                v = seq_slice(st, v, sl[0], sl[1])
        if isinstance(v, Lin):
            return st.c.norm(v)
        return v

    def wr(self, st, fr, p, val):
        if len(p) == 1:
            st.mem[(fr.depth, p[0])] = val
            return
        loc, path, sl, ty, rv = self.place(st, fr, p)
        if rv is not None or sl is not None:
            raise AnalysisError("write to an odd place")
        self.write(st, loc, path, val)

    def op(self, st, fr, o):
        k = o[0]
        if k == "cp" and len(o[1]) > 1:
            loc, path, sl, ty, rv = self.place(st, fr, o[1])
            if rv is None and sl is None and ty is not None and self.types[ty].get("box"):
                # a box is never copied: this is its pointer
                v = self.read(st, loc, path)
                if isinstance(v, N) and v.tag == "box":
                    to = self.types[self.types[ty]["args"][0]]
                    q = path + (("b",),)
                    w = P(loc, q, 0, seq_len(st, v.kids[0])) if to["k"] == "slice" else P(loc, q)
                    if to["k"] == "dyn" and len(v.kids) > 1:
                        w.vt = v.kids[1].tag[1]
                    return w
                return v
        if k in ("cp", "mv"):
            return self.rd(st, fr, o[1])
        if k == "c":
            return self.const(o[1])
        raise AnalysisError("operand %r" % (o,))

    def const(self, c):
        k = c["k"]
        if k == "int":
            t = self.types[c["ty"]] if "ty" in c else None
            v = c["v"]
            if isinstance(v, str):
                v = int(v)
            if t is not None and t["k"] == "bool":
                return bool(v)
            if t is not None and t["k"] in ("ref", "ptr", "fnptr"):
                return v
            return v
        if k == "fn":
            t = self.types[c["ty"]]
            return N(("fn", t["inst"], c["ty"]))
        if k == "str":
            v = c.get("v") or ""
            loc = ("k", "str", v)
            if loc not in self.consts:
                self.consts[loc] = seq(*[("r", x, 1) for x in v.encode()])
            return P(loc, (), 0, len(v.encode()))
        if k == "zst":
            return self.zst(c["ty"])
        if k == "agg":
            t = self.types[c["ty"]]
            kids = tuple(self.const(x) for x in c["fields"])
            if t["k"] == "array":
                return seq(*[("r", x, 1) for x in kids])
            if t["k"] == "adt" and t["path"] in TRANSPARENT:
                return kids[0]
            if t["k"] == "adt" and t["akind"] == "enum":
                return N(("enm", c["variant"] or 0), kids)
            if t["k"] == "adt" and t["path"] == VEC:
                return N("vec", (S(()),))
            return N("agg", kids)
        if k == "bytes":
            v = c["v"]
            return seq(*[("r", x, 1) for x in v])
        if k in ("ref", "slice"):
            inner = c["to"]
            v = self.const(inner)
            loc = ("k", "const", v)
            self.consts[loc] = v
            if k == "slice":
                return P(loc, (), 0, v.length())
            return P(loc)
        if k == "static":
            loc = ("k", "static", c["path"])
            if loc not in self.consts:
                self.consts[loc] = self.const(c["v"]) if c.get("v") else N(("tok", "static " + c["path"]))
            return P(loc)
        if k == "opaque":
            return N(("tok", "opaque const"))
        raise AnalysisError("const %r" % (c,))

    # ------------------------------------------------------------ integers
    def wrapfork(self, st, v, ty):
        """v reduced into the range of ty (two's complement)."""
        lo, hi = self.int_range(ty)
        v = st.c.norm(v)
        if isinstance(v, int):
            n = hi - lo + 1
            return (v - lo) % n + lo
        l, h = st.c.interval(v)
        if l >= lo and h <= hi:
            return v
        n = hi - lo + 1
        a = st.decide(fge(T.sub(v, lo)))
        b = st.decide(fge(T.sub(hi, v)))
        if a and b:
            return v
        kl = (l - lo) // n
        kh = (h - lo) // n
        if kh - kl > 4:
            q, r = self.divmod(st, T.sub(v, lo), n)
            return T.add(r, lo)
        if a is None:
            raise Fork([fge(T.sub(v, lo)), fnot(fge(T.sub(v, lo)))])
        if b is None:
            raise Fork([fge(T.sub(hi, v)), fnot(fge(T.sub(hi, v)))])
        if not a:
            return self.wrapfork(st, T.add(v, n), ty)
        return self.wrapfork(st, T.sub(v, n), ty)

    def divmod(self, st, v, d):
        """(floor quotient, remainder) of v by the positive constant d."""
        v = st.c.norm(v)
        if isinstance(v, int):
            return v // d, v % d
        if d == 1:
            return v, 0
        q0 = v.c // d
        m = {}
        r0 = {}
        for s, k in v.t:
            if k % d == 0:
                m[s] = k // d
            else:
                r0[s] = k
        q = T.mk(q0, m)
        r = T.mk(v.c % d, r0)
        # coefficients larger than d in absolute value: take out multiples when helpful
        l, h = st.c.interval(r)
        if l >= 0 and h < d:
            return q, r
        if l // d == h // d:
            k = l // d
            return T.add(q, k), T.sub(r, k * d)
        # bits: peel multiples
        if isinstance(r, Lin):
            m2, r2 = {}, {}
            for s, k in r.t:
                kk = k // d
                if k > d and kk:
                    m2[s] = kk
                    r2[s] = k - kk * d
                else:
                    r2[s] = k
            if m2:
                q = T.add(q, T.mk(0, m2))
                r = T.mk(r.c, r2)
                l, h = st.c.interval(r)
                if l >= 0 and h < d:
                    return q, r
        if d & (d - 1) == 0 and l >= 0 and h < (1 << 20) and isinstance(r, Lin):
            b = self.bits(st, r, max(h, 1).bit_length(), soft=True)
            if b is not None:
                k = d.bit_length() - 1
                return T.add(q, self.unbits(b[k:])), self.unbits(b[:k])
        d1 = st.decide(fge(r))
        d2 = st.decide(fge(T.sub(d - 1, r)))
        if d1 and d2:
            return q, r
        # definitional quotient
        y = sym(("div", r, d), l // d, h // d)
        if y.id not in T.AXIOMS:
            e = T.sub(r, T.scale(var(y), d))
            T.AXIOMS[y.id] = [e, T.sub(d - 1, e)]
            # other symbols of r: let queries about them find the axiom through y only
        yv = st.c.norm(var(y))
        return T.add(q, yv), T.sub(r, T.scale(yv, d))

    def bits(self, st, v, n, soft=False):
        """Low n bits of non-negative v (< 2^n), as 0/1 terms; least significant first."""
        v = st.c.norm(v)
        if isinstance(v, int):
            return [(v >> j) & 1 for j in range(n)]
        b = self._bits_of(st, v, n)
        if b is not None:
            return b
        if len(v.t) == 1 and v.t[0][1] > 0 and v.c >= 0:
            s, k = v.t[0]
            y = Sym.table[s]
            if k & (k - 1) == 0 and v.c == 0 and y.lo >= 0 and y.hi < (1 << 20) and y.key[0] != "bit" and y.hi > 1:
                lo, hi = st.c.bounds1(s)
                T.explode(y)
                e = T.EXPLODED[s]
                if lo > 0:
                    st.c.ge0(T.sub(e, lo))
                if hi < (1 << y.hi.bit_length()) - 1:
                    st.c.ge0(T.sub(hi, e))
                st.c.memo = {}
                return self._bits_of(st, st.c.norm(v), n)
        if soft:
            return None
        # name the value and explode the name
        key = ("nm", v)
        y = sym(key, 0, (1 << n) - 1)
        T.explode(y)
        e = T.EXPLODED.get(y.id, var(y))
        if not st.c.eq0(T.sub(v, e)):
            raise Infeasible()
        r = self._bits_of(st, e, n) if isinstance(e, Lin) else None
        if r is not None:
            return r
        r = [0] * n
        for s, k in (e.t if isinstance(e, Lin) else ()):
            if k <= 0 or k & (k - 1) or k.bit_length() > n:
                raise AnalysisError("bits of %r" % (v,))
            r[k.bit_length() - 1] = st.c.norm(Lin(0, ((s, 1),)))
        return r

    def _bits_of(self, st, v, n):
        if isinstance(v, int):
            return [(v >> j) & 1 for j in range(n)]
        if v.c < 0:
            # maybe contains complemented bits: c + sum k(…)
            pass
        out = [0] * n
        c = v.c
        for s, k in v.t:
            if st.c.bounds1(s) != (0, 1):
                return None
            a = abs(k)
            if a & (a - 1):
                return None
            j = a.bit_length() - 1
            if j >= n or out[j] != 0:
                return None
            if k > 0:
                out[j] = Lin(0, ((s, 1),))
            else:
                out[j] = Lin(1, ((s, -1),))
                c -= a
        if c < 0 or c >> n:
            return None
        for j in range(n):
            if (c >> j) & 1:
                if out[j] != 0:
                    return None
                out[j] = 1
        return out

    def unbits(self, b):
        r = 0
        for j, x in enumerate(b):
            r = T.add(r, T.scale(x, 1 << j))
        return r

    def width(self, ty):
        t = self.types[ty]
        return 1 if t["k"] == "bool" else t["bits"]

    def binop(self, st, op, a, b, ty):
        t = self.types[ty] if ty is not None else {"k": "int"}
        if isinstance(a, P) or isinstance(b, P):
            return self.ptrop(st, op, a, b, ty)
        if t["k"] == "bool" or isinstance(a, (bool, F)) or isinstance(b, (bool, F)):
            return self.boolop(st, op, boolval(a), boolval(b))
        if t["k"] not in ("int", "char"):
            if isinstance(a, (U, N)) or isinstance(b, (U, N)):
                if op in ("Eq", "Ne"):
                    r = self.veq(st, a, b)
                    if r is None:
                        raise AnalysisError("compare %r %r" % (a, b))
                    return fnot(r) if op == "Ne" else r
                raise AnalysisError("binop %s on %r, %r" % (op, a, b))
        if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
            raise AnalysisError("binop %s on %r, %r" % (op, a, b))
        a = st.c.norm(a)
        b = st.c.norm(b)
        if op == "Eq":
            return feq(T.sub(a, b))
        if op == "Ne":
            return fne(T.sub(a, b))
        if op == "Lt":
            return fge(T.sub(T.sub(b, a), 1))
        if op == "Le":
            return fge(T.sub(b, a))
        if op == "Gt":
            return fge(T.sub(T.sub(a, b), 1))
        if op == "Ge":
            return fge(T.sub(a, b))
        if op == "Cmp":
            if st.need(fge(T.sub(T.sub(b, a), 1))):
                return self.ordering(-1)
            if st.need(feq(T.sub(a, b))):
                return self.ordering(0)
            return self.ordering(1)
        base = op
        wo = False
        for suf in ("WithOverflow", "Unchecked"):
            if op.endswith(suf):
                base = op[:-len(suf)]
                wo = suf == "WithOverflow"
        if base in ("Add", "Sub", "Mul"):
            if base == "Add":
                v = T.add(a, b)
            elif base == "Sub":
                v = T.sub(a, b)
            elif isinstance(a, int) or isinstance(b, int):
                v = T.scale(b, a) if isinstance(a, int) else T.scale(a, b)
            else:
                v = self.mulsym(st, a, b, ty)
            if not wo:
                return self.wrapfork(st, v, ty)
            lo, hi = self.int_range(ty)
            v = st.c.norm(v)
            l, h = st.c.interval(v)
            if l >= lo and h <= hi:
                return N("agg", (v, False))
            for x in (a, b):            # operands are values of the type
                if isinstance(x, Lin):
                    xl, xh = st.c.interval(x)
                    if xl < lo:
                        st.assume(fge(T.sub(x, lo)))
                    if xh > hi:
                        st.assume(fge(T.sub(hi, x)))
            if st.c.bad:
                raise Infeasible()
            v = st.c.norm(v)
            inr = fand(fge(T.sub(v, lo)), fge(T.sub(hi, v)))
            if st.need(inr):
                return N("agg", (v, False))
            return N("agg", (self.wrapfork(st, v, ty), True))
        if base in ("Div", "Rem"):
            if isinstance(b, int):
                if b == 0:
                    raise AnalysisError("division by zero")
                l, h = st.c.interval(a)
                if b < 0 or l < 0:
                    if not st.need(fge(a)) or b < 0:
                        if isinstance(a, int):
                            q = abs(a) // abs(b)
                            q = q if (a < 0) == (b < 0) else -q
                            return q if base == "Div" else a - q * b
                        q, r = self.divmod(st, T.neg(a), abs(b))
                        q = q if b < 0 else T.neg(q)
                        return q if base == "Div" else T.neg(r)
                q, r = self.divmod(st, a, b)
                return q if base == "Div" else r
            return self.divsym(st, base, a, b, ty)
        if base in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(st, base, a, b, ty)
        if base in ("Shl", "Shr"):
            if not isinstance(b, int):
                b = st.concretise(b)
            n = self.width(ty)
            b %= n
            if base == "Shl":
                lo, hi = self.int_range(ty)
                v = T.scale(a, 1 << b)
                if isinstance(v, int):
                    return (v - lo) % (hi - lo + 1) + lo
                l, h = st.c.interval(v)
                if lo <= l and h <= hi:
                    return v
                if lo == 0:
                    _, low = self.divmod(st, a, 1 << (n - b))
                    return T.scale(low, 1 << b)
                return self.wrapfork(st, v, ty)
            return self.divmod(st, a, 1 << b)[0]
        raise AnalysisError("binop " + op)

    def mulsym(self, st, a, b, ty):
        for x, y in ((a, b), (b, a)):
            l, h = st.c.interval(x)
            if h - l <= 16:
                st.concretise(x)
        l1, h1 = st.c.interval(a)
        l2, h2 = st.c.interval(b)
        c = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
        k = tuple(sorted((a, b), key=lambda z: (z.c, z.t)))
        return var(sym(("mul",) + k, min(c), max(c)))

    def divsym(self, st, base, a, b, ty):
        """a (>=0) by a symbolic positive b"""
        if not st.holds(fge(T.sub(b, 1))):
            raise AnalysisError("division by possibly zero %r" % (b,))
        if not st.holds(fge(a)):
            st.need(fge(a))
            raise AnalysisError("negative dividend")
        if st.need(fge(T.sub(T.sub(b, a), 1))):
            return 0 if base == "Div" else a
        if st.need(fge(T.sub(T.sub(T.scale(b, 2), a), 1))):
            return 1 if base == "Div" else T.sub(a, b)
        la, ha = st.c.interval(a)
        if base == "Rem":
            y = sym(("rem", a, b), 0, st.c.interval(b)[1])
            T.AXIOMS.setdefault(y.id, [T.sub(T.sub(b, var(y)), 1), var(y), T.sub(a, var(y))])
            return st.c.norm(var(y))
        y = sym(("quo", a, b), 0, ha)
        T.AXIOMS.setdefault(y.id, [T.sub(a, var(y))])
        return st.c.norm(var(y))

    def bitop(self, st, op, a, b, ty):
        if isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
        n = self.width(ty)
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << n) - 1
            x, y = a & m, b & m
            r = x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y
            lo, hi = self.int_range(ty)
            return r if r <= hi else r - (1 << n)
        lo, _ = self.int_range(ty)
        if lo < 0:
            if not st.need(fge(a)) or not st.need(fge(b)):
                return self.unint(st, op, a, b, ty)
        if isinstance(b, int):
            if op == "BitAnd":
                if b == 0:
                    return 0
                if b & (b + 1) == 0:
                    return self.divmod(st, a, b + 1)[1]
            elif b == 0:
                return a
            elif op == "BitXor" and b == (1 << n) - 1:
                return T.sub(b, a)
            elif op == "BitOr" and b == (1 << n) - 1:
                return b
        if a == b:
            return 0 if op == "BitXor" else a
        la, ha = st.c.interval(a)
        lb, hb = st.c.interval(b)
        w = max(ha.bit_length(), hb.bit_length(), 1)
        if op in ("BitOr", "BitXor") and la >= 0 and lb >= 0:
            # disjoint: multiple of 2^k plus something below 2^k
            for x, y, hy in ((a, b, hb), (b, a, ha)):
                if isinstance(x, int) and x == 0:
                    return y
                k = max(hy.bit_length(), 0)
                if self.divisible(x, 1 << k):
                    return T.add(x, y)
        if w > 20:
            if op == "BitAnd" and isinstance(b, int) and b.bit_length() <= 20:
                a = self.divmod(st, a, 1 << b.bit_length())[1]
                w = b.bit_length()
            else:
                return self.unint(st, op, a, b, ty)
        x = self.bits(st, a, w)
        y = self.bits(st, b, w)
        if x is None or y is None:
            return self.unint(st, op, a, b, ty)
        out = []
        for j in range(w):
            p, q = x[j], y[j]
            if not isinstance(p, int):
                p, q = q, p
            if isinstance(p, int):
                if op == "BitAnd":
                    out.append(q if p else 0)
                elif op == "BitOr":
                    out.append(1 if p else q)
                else:
                    out.append(T.sub(1, q) if p else q)
            elif p == q:
                out.append(0 if op == "BitXor" else p)
            else:
                k = tuple(sorted((p, q), key=lambda z: (z.c, z.t)))
                z = sym((op, k[0], k[1]), 0, 1)
                if z.id not in T.AXIOMS:
                    zv = Lin(0, ((z.id, 1),))
                    if op == "BitAnd":
                        T.AXIOMS[z.id] = [T.sub(p, zv), T.sub(q, zv), T.add(T.sub(T.sub(zv, p), q), 1)]
                    elif op == "BitOr":
                        T.AXIOMS[z.id] = [T.sub(zv, p), T.sub(zv, q), T.sub(T.add(p, q), zv)]
                    else:
                        T.AXIOMS[z.id] = [T.sub(T.add(p, q), zv), T.sub(T.sub(2, zv), T.add(p, q)),
                                          T.add(T.sub(p, q), zv), T.add(T.sub(q, p), zv)]
                out.append(st.c.norm(var(z)))
        return self.unbits(out)

    def divisible(self, x, d):
        if isinstance(x, int):
            return x % d == 0
        return x.c % d == 0 and all(k % d == 0 for _, k in x.t)

    def unint(self, st, op, a, b, ty):
        lo, hi = self.int_range(ty)
        return var(sym((op, a, b), lo, hi))

    def ordering(self, d):
        return N(("enm", d + 1))

    def boolop(self, st, op, a, b):
        if op == "BitAnd":
            return fand(a, b)
        if op == "BitOr":
            return for_(a, b)
        if op in ("BitXor", "Ne"):
            if a is True:
                return fnot(b)
            if b is True:
                return fnot(a)
            if a is False:
                return b
            if b is False:
                return a
            x, y = boolint(a), boolint(b)
            if x is not None and y is not None:
                return fne(T.sub(x, y))
            return self.boolop(st, op, st.need(a), b)
        if op == "Eq":
            return fnot(self.boolop(st, "Ne", a, b))
        x, y = int(st.need(a)), int(st.need(b))
        return {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]

    def ptrop(self, st, op, a, b, ty):
        if op == "Offset":
            i = a.idx
            if i is None:
                if iszero(st.c.norm(b)):
                    return a
                # pointer to an array or single object: view as element 0
                v = self.read(st, a.loc, a.path)
                if isinstance(v, S):
                    return P(a.loc, a.path, st.c.norm(b), None, a.vt)
                raise AnalysisError("offset of a pointer to %r" % (v,))
            return P(a.loc, a.path, st.c.norm(T.add(i, b)), None, a.vt)
        if isinstance(a, P) and isinstance(b, P):
            if a.loc == b.loc and len(a.path) == len(b.path):
                if a.path == b.path:
                    d = T.sub(a.idx or 0, b.idx or 0)
                    if op == "Eq":
                        return feq(d)
                    if op == "Ne":
                        return fne(d)
                    if op == "Lt":
                        return fge(T.sub(-1, d))
                    if op == "Le":
                        return fge(T.neg(d))
                    if op == "Gt":
                        return fge(T.sub(d, 1))
                    if op == "Ge":
                        return fge(d)
        if op in ("Eq", "Ne") and (isinstance(a, int) or isinstance(b, int)):
            return op == "Ne"       # a reference is never null
        if op == "BitAnd" and isinstance(b, int) and b in (1, 3, 7, 15) and isinstance(a, P):
            return 0                # references are aligned
        raise AnalysisError("pointer op %s on %r %r" % (op, a, b))

    # ------------------------------------------------------------ equality of values
    def veq(self, st, a, b):
        """A formula (True/False/F) for a == b, or None if not expressible."""
        if a is b:
            return True
        if isinstance(a, (bool, F)) or isinstance(b, (bool, F)):
            try:
                return self.boolop(st, "Eq", boolval(a), boolval(b))
            except AnalysisError:
                return None
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            d = st.c.norm(T.sub(a, b))
            if isinstance(d, Lin) and len(d.t) == 2 and d.c == 0 and d.t[0][1] == -d.t[1][1] and \
                    self.keq(st, T.Sym.table[d.t[0][0]].key, T.Sym.table[d.t[1][0]].key):
                return True         # the same element, at a position written in two ways
            return feq(d)
        if isinstance(a, U) and isinstance(b, U):
            if a == b:
                return True
            ka, kb = st.c, None
            if self.keq(st, a.key, b.key):
                return True
            return None
        if isinstance(a, N) and isinstance(b, U):
            a, b = b, a
        if isinstance(a, U) and isinstance(b, N):
            t = self.types[a.ty]
            if t["k"] == "adt" and t["akind"] == "enum" and isinstance(b.tag, tuple) and b.tag[0] == "enm":
                v = b.tag[1]
                out = [feq(st.c.norm(T.sub(self.variant(st, a), v)))]
                for i, x in enumerate(b.kids):
                    fv = self.sub(st, a, ("f", i, v, self.field_ty(t, v, i)))
                    r = self.veq(st, fv, x)
                    if r is None:
                        return None
                    out.append(r)
                return fand(*out)
            return None
        if isinstance(a, N) and isinstance(b, N):
            if a == b:
                return True
            if a.tag != b.tag:
                if isinstance(a.tag, tuple) and isinstance(b.tag, tuple) and a.tag[0] == b.tag[0] == "enm":
                    return False
                return None
            if a.tag[0] == "tok" or len(a.kids) != len(b.kids):
                return None
            out = []
            for x, y in zip(a.kids, b.kids):
                r = self.veq(st, x, y)
                if r is None:
                    return None
                if r is False:
                    return False
                out.append(r)
            return fand(*out)
        if isinstance(a, S) and isinstance(b, S):
            return self.seq_eq(st, a, b)
        if isinstance(a, P) and isinstance(b, P):
            if a.loc == b.loc and a.path == b.path and a.len is None and b.len is None:
                return feq(st.c.norm(T.sub(a.idx or 0, b.idx or 0)))
            return None
        return None

    def keq(self, st, a, b):
        """Keys equal up to entailed integer equalities."""
        if a == b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(self.keq(st, x, y) for x, y in zip(a, b))
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            return st.c.entails_eq0(T.sub(a, b))
        return False

    def seq_eq(self, st, a, b):
        """Equality of sequences: True, False, or None (unknown)."""
        a = list(norm_seq(st, a).segs)
        b = list(norm_seq(st, b).segs)
        guard = 0
        conds = []
        while a or b:
            guard += 1
            if guard > 2000:
                return None
            if not a or not b:
                rest = a or b
                n = 0
                for x in rest:
                    n = T.add(n, seglen(x))
                f = feq(st.c.norm(n))
                d = st.decide(f)
                if d is True:
                    break
                return False if d is False else None
            x, y = a[0], b[0]
            n, m = seglen(x), seglen(y)
            if st.decide(feq(st.c.norm(n))) is True:
                a.pop(0)
                continue
            if st.decide(feq(st.c.norm(m))) is True:
                b.pop(0)
                continue
            # common part
            if st.holds(fge(T.sub(m, n))):
                k = n
            elif st.holds(fge(T.sub(n, m))):
                k = m
            else:
                return None
            if x[0] == "o" and y[0] == "o" and x[1] == y[1] and st.c.entails_eq0(T.sub(x[2], y[2])):
                pass
            elif x[0] == "o" and y[0] == "o" and self.keq(st, x[1], y[1]) and st.c.entails_eq0(T.sub(x[2], y[2])):
                pass
            else:
                k1 = st.c.norm(k)
                if not (isinstance(k1, int) and k1 == 1):
                    if x[0] == "r" and y[0] == "r":
                        pass
                    elif isinstance(k1, int) and k1 <= 64:
                        k = 1
                    else:
                        return None
                vx = x[1] if x[0] == "r" else self.mat(x[4], ("el", x[1], st.c.norm(x[2])))
                vy = y[1] if y[0] == "r" else self.mat(y[4], ("el", y[1], st.c.norm(y[2])))
                r = self.veq(st, vx, vy)
                if r is None:
                    return None
                d = st.decide(r)
                if d is False:
                    return False if isinstance(k, int) and k > 0 else None
                if d is None:
                    conds.append(r)
            for lst, z in ((a, x), (b, y)):
                ln = st.c.norm(T.sub(seglen(z), k))
                if iszero(ln) or st.decide(feq(ln)) is True:
                    lst.pop(0)
                elif z[0] == "r":
                    lst[0] = ("r", z[1], ln)
                else:
                    lst[0] = ("o", z[1], st.c.norm(T.add(z[2], k)), ln, z[4])
        return fand(*conds) if conds else True

    def variant(self, st, v):
        """Variant index (int term) of an enum value."""
        if isinstance(v, N):
            if v.tag[0] == "enm":
                return v.tag[1]
            raise AnalysisError("variant of %r" % (v,))
        t = self.types[v.ty]
        n = len(t["variants"])
        if n == 1:
            return 0
        return st.c.norm(var(sym(("var", v.key), 0, n - 1)))

    def inhabited(self, ty):
        t = self.types[ty]
        return t["k"] != "never" and not (t["k"] == "adt" and t["akind"] == "enum" and not t["variants"])

    def discr(self, st, v, ty):
        t = self.types[ty]
        if isinstance(v, N) and v.tag[0] == "enm":
            vs = t.get("variants")
            return vs[v.tag[1]]["discr"] if vs else v.tag[1]
        if isinstance(v, U):
            tt = self.types[v.ty]
            if tt["k"] == "adt" and tt["akind"] == "enum":
                vs = tt["variants"]
                x = self.variant(st, v)
                if isinstance(x, int):
                    return vs[x]["discr"]
                d0 = vs[0]["discr"]
                if all(w["discr"] == d0 + i for i, w in enumerate(vs)):
                    return T.add(x, d0)
                return vs[st.concretise(x)]["discr"]
        if t["k"] != "adt":
            return 0
        live = [w for w in t.get("variants", ()) if all(self.inhabited(x) for _, x in w["fields"])]
        if len(live) == 1 and all(not w["fields"] for w in live):
            return live[0]["discr"]         # the only possible value has no representation
        raise AnalysisError("discriminant of %r : %s" % (v, t["name"]))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.op(st, fr, r[1])
        if k == "ref" or k == "raw":
            p = r[1]
            loc, path, sl, ty, rv = self.place(st, fr, p)
            if rv is not None:
                raise AnalysisError("ref of rvalue")
            if sl is not None:
                return P(loc, path, sl[0], sl[1])
            # reborrow: keep fat-pointer metadata
            if len(p) > 1 and p[-1][0] == "*":
                v = self.rd(st, fr, p[:-1])
                if isinstance(v, P):
                    return v
                if isinstance(v, N) and v.tag == "box":
                    vt = v.kids[1].tag[1] if len(v.kids) > 1 else None
                    return P(loc, path, None, None, vt)
            if path and path[-1][0] == "x":
                return P(loc, path[:-1], path[-1][1])
            return P(loc, path)
        if k == "bin":
            a = self.op(st, fr, r[2])
            b = self.op(st, fr, r[3])
            return self.binop(st, r[1], a, b, r[4])
        if k == "un":
            a = self.op(st, fr, r[2])
            if r[1] == "Not":
                if self.types[r[3]]["k"] == "bool":
                    return fnot(boolval(a))
                lo, hi = self.int_range(r[3])
                return T.sub(hi, a) if lo == 0 else T.sub(-1, a)
            if r[1] == "Neg":
                return self.wrapfork(st, T.neg(a), r[3])
            if r[1] == "PtrMetadata":
                if isinstance(a, P):
                    return a.len if a.len is not None else UNIT
            raise AnalysisError("unary %s of %r" % (r[1], a))
        if k == "cast":
            return self.cast(st, r, self.op(st, fr, r[2]))
        if k == "discr":
            v = self.rd(st, fr, r[1])
            return self.discr(st, v, r[2])
        if k == "agg":
            v = self.aggregate(st, r, [self.op(st, fr, o) for o in r[3]])
            if self.on_agg is not None:
                self.on_agg(self, st, r[4] if len(r) > 4 else None, v)
            return v
        if k == "repeat":
            v = self.op(st, fr, r[1])
            return seq(("r", v, r[2]))
        if k == "tls" or k == "other":
            raise AnalysisError("rvalue %r" % (r,))
        if k == "union":
            return self.op(st, fr, r[2][0])
        raise AnalysisError("rvalue " + k)

    def aggregate(self, st, r, ops):
        kind, variant, ty = r[1], r[2], r[4]
        t = self.types[ty]
        if kind == "array":
            return seq(*[one(st, v, t["elem"]) for v in ops])
        if kind == "closure":
            return N(("clo", ty), tuple(ops))
        if kind == "rawptr":
            a, m = ops
            if isinstance(m, N):
                return a
            if isinstance(a, P):
                return P(a.loc, a.path, a.idx if a.idx is not None else 0, m)
            raise AnalysisError("raw ptr aggregate")
        if kind == "tuple":
            return N("agg", tuple(ops))
        if t["k"] == "adt":
            if t["path"] in TRANSPARENT:
                return ops[0]
            if t["akind"] == "enum":
                return N(("enm", variant), tuple(ops))
            if t["path"] in RANGES:
                self.check_ranges(st, t, ops)
        return N("agg", tuple(ops))

    def check_ranges(self, st, t, ops):
        for i, (lo, hi) in RANGES[t["path"]].items():
            self.stats["checks"] += 1
            if not (st.holds(fge(T.sub(ops[i], lo))) and st.holds(fge(T.sub(hi, ops[i])))):
                self.report("range", "field %d of a %s is built with a value not known to lie in %d..=%d" % (
                    i, t["path"], lo, hi), st)

    def cast(self, st, r, v):
        kind, frm, to = r[1], r[3], r[4]
        tt = self.types[to]
        ft = self.types[frm]
        if kind == "int":
            if ft["k"] == "adt":
                return self.discr(st, v, frm)
            if isinstance(v, (bool, F)):
                b = boolint(v)
                if b is None:
                    return int(st.need(v))
                return b
            if isinstance(v, P) or isinstance(v, N):
                return v
            return self.wrapfork(st, v, to)
        if kind in ("reify", "closurefn", "ptr", "fnptr"):
            if kind == "closurefn":
                return v
            return self.ptrcast(st, v, ft, tt)
        if kind == "transmute":
            if ft["k"] == tt["k"] == "int":
                return self.wrapfork(st, v, to)
            if isinstance(v, (int, Lin)) and tt["k"] == "bool":
                return feq(T.sub(v, 1))
            if isinstance(v, (int, Lin)) and tt["k"] == "adt" and tt["path"] == "core::option::Option":
                return NONE if st.need(feq(v)) else some(v)     # the niche of a non-zero integer
            if tt["k"] == "int" and isinstance(v, S):
                out = 0
                for i in reversed(range(tt["bits"] // 8)):
                    out = T.add(T.scale(out, 256), self.seq_get(st, v, i))
                return out
            if tt["k"] == "array" and isinstance(v, (int, Lin)):
                out = []
                for i in range(tt["len"]):
                    v, x = self.divmod(st, v, 256)
                    out.append(("r", x, 1))
                return seq(*out)
            return v
        if kind == "unsize":
            return self.unsize(st, v, ft, tt, r[5] if len(r) > 5 else None)
        return self.ptrcast(st, v, ft, tt)

    def ptrcast(self, st, v, ft, tt):
        if isinstance(v, P) and tt["k"] in ("ptr", "ref"):
            to = self.types[tt["to"]]
            if to["k"] in ("slice", "str", "dyn"):
                return v
            fr = self.types[ft["to"]] if ft["k"] in ("ptr", "ref") else None
            if to["k"] == "array" and fr is not None and fr["k"] != "array" and v.idx is not None:
                return P(v.loc, v.path, v.idx, to["len"])       # an array inside a sequence
            if fr is not None and fr["k"] == "slice" and v.len is not None:
                return P(v.loc, v.path, v.idx, None)
            if fr is not None and fr["k"] == "array" and to["k"] != "array" and v.idx is None:
                return P(v.loc, v.path, 0, None)
            return v
        return v

    def unsize(self, st, v, ft, tt, vtab):
        def pointee(t):
            if t["k"] in ("ref", "ptr"):
                return self.types[t["to"]]
            if t["k"] == "adt" and t.get("args"):
                return self.types[t["args"][0]]
            return {"k": "?"}
        a, b = pointee(ft), pointee(tt)
        if a["k"] == "array":
            if isinstance(v, P):
                if v.len is not None:
                    return v
                if v.idx is not None:
                    return P(v.loc, v.path + (("x", v.idx),), 0, a["len"])
                return P(v.loc, v.path, 0, a["len"])
            return v        # Box<[T; N]> -> Box<[T]>
        if b["k"] == "dyn":
            vt = tuple(sorted((int(k), i) if str(k).isdigit() else (k, i) for k, i in vtab.items())) if isinstance(vtab, dict) else vtab
            if isinstance(v, P):
                return P(v.loc, v.path, v.idx, v.len, vt)
            if isinstance(v, N) and v.tag == "box":
                return N("box", (v.kids[0], N(("vt", vt))))
        return v

    # ------------------------------------------------------------ execution
    def run(self, fn, args, st):
        """Analyse fn called with args in state st: list of (state, return value)."""
        return self.exec_fn(fn, args, st)

    def exec_fn(self, fn, args, st):
        depth = len(self.stack)
        if depth > self.max_depth:
            raise AnalysisError("call depth exceeded at " + fn.path)
        for f, _ in self.stack:
            if f.fn is fn and self.recursion(fn):
                raise AnalysisError("unsummarised recursion in " + fn.path)
        fr = Frame(fn, depth)
        self.stats["functions"].add(fn.path)
        self.stats["calls"] += 1
        b = fn.body
        if len(args) != b["argc"]:
            raise AnalysisError("arity of %s: %d given, %d expected" % (fn.path, len(args), b["argc"]))
        for i, a in enumerate(args):
            st.mem[(depth, i + 1)] = a
        lineref = [fn.line or 0]
        self.stack.append((fr, lineref))
        try:
            rets = []
            exits = self.region(fr, fr.cfg.reach, None, {0: [st]}, rets)
            assert not exits
        except AnalysisError as e:
            if not hasattr(e, "chain"):
                e.chain = ["%s:%d" % (f.fn.path, l[0]) for f, l in self.stack]
            raise
        finally:
            self.stack.pop()
        out = []
        for s in rets:
            r = s.mem.get((depth, 0), UNINIT)
            r = self.close(s, r)
            for k in [k for k in s.mem if k[0] == depth]:
                del s.mem[k]
            out.append((s, r))
        if len(out) > 1:
            out = self.merge_rets(out)
        return out

    def recursion(self, fn):
        return fn.local

    def close(self, st, v):
        return st.c.norm(v) if isinstance(v, Lin) else v

    def merge_rets(self, out):
        RK = ("ret", 0)
        for s, r in out:
            s.mem[RK] = r
        m = self.merge_states([s for s, _ in out])
        res = []
        for s in m:
            r = s.mem.pop(RK)
            res.append((s, r))
        return res

    def region(self, fr, blocks, head, work, rets):
        """Execute within `blocks` until leaving it or reaching `head` again.
        work: {block: [states]}.  Returns {block: [states]} for exits (key head = back edges)."""
        g = fr.cfg
        out = {}
        order = g.order
        first = True
        while work:
            b = min(work, key=lambda x: order.get(x, 1 << 30))
            sts = work.pop(b)
            if len(sts) > 1:
                sts = self.merge_states(sts, self.livelocs(fr, b))
            if len(sts) > self.max_states:
                raise AnalysisError("too many states (%d) at %s" % (len(sts), fr.fn.path))
            if b in g.heads and b != head:
                nxt = self.loop(fr, b, sts, rets)
            else:
                nxt = {}
                for s in sts:
                    for (nb, ns) in self.block(fr, b, s, rets):
                        nxt.setdefault(nb, []).append(ns)
            for nb, ss in nxt.items():
                if nb == head or nb not in blocks:
                    out.setdefault(nb, []).extend(ss)
                else:
                    work.setdefault(nb, []).extend(ss)
        return out

    def livelocs(self, fr, b):
        return fr.cfg.live.get(b, set()) | fr.cfg.addr

    def prune(self, fr, b, st):
        keep = self.livelocs(fr, b)
        d = fr.depth
        dead = [k for k in st.mem if k[0] == d and k[1] not in keep]
        for k in dead:
            del st.mem[k]

    def collect_garbage(self, fr, b, st):
        """At a loop head: also drop locals whose address was taken but to which no pointer is left."""
        self.prune(fr, b, st)
        live = fr.cfg.live.get(b, set())
        d = fr.depth
        cand = {k for k in st.mem if k[0] == d and len(k) == 2 and k[1] in fr.cfg.addr and k[1] not in live}
        if not cand:
            return
        roots = [v for k, v in st.mem.items() if k not in cand] + list(st.g.values())
        while roots and cand:
            found = set()
            for v in roots:
                pointers(v, found)
            hit = cand & found
            if not hit:
                break
            cand -= hit
            roots = [st.mem[k] for k in hit]
        for k in cand:
            del st.mem[k]

    def block(self, fr, b, st0, rets):
        """Execute one basic block: list of (next block, state)."""
        self.stats["blocks"] += 1
        if self.deadline and time.time() > self.deadline:
            raise AnalysisError("time limit")
        bl = fr.body["blocks"][b]
        stm = bl["s"]
        n = len(stm)
        out = []
        todo = [(st0, 0)]
        lr = self.stack[-1][1]
        while todo:
            st, i = todo.pop()
            while True:
                try:
                    if i < n:
                        s = stm[i]
                        self.stmt(st, fr, s, lr)
                        i += 1
                        continue
                    lr[0] = bl.get("l") or lr[0]
                    for nb, ns in self.term(fr, bl["t"], st, rets):
                        if ns.c.bad:
                            continue
                        self.prune(fr, nb, ns)
                        out.append((nb, ns))
                    break
                except Fork as f:
                    for a in reversed(f.alts):
                        s2 = st.copy()
                        if s2.assume(a) and not s2.c.bad:
                            todo.append((s2, i))
                    break
                except Infeasible:
                    break
                except Panic as p:
                    self.panicked(st, p.what, p.detail)
                    break
        return out

    def stmt(self, st, fr, s, lr):
        k = s[0]
        if k == "=":
            lr[0] = s[3] if len(s) > 3 and s[3] else lr[0]
            v = self.rvalue(st, fr, s[2])
            self.wr(st, fr, s[1], v)
            if self.on_field is not None and len(s[1]) > 1 and s[1][-1][0] == "f":
                loc, path, sl, ty, rv = self.place(st, fr, s[1][:-1])
                self.on_field(self, st, ty, lambda: self.read(st, loc, path))
        elif k == "setd":
            loc, path, sl, ty, rv = self.place(st, fr, s[1])
            v = self.read(st, loc, path)
            kids = v.kids if isinstance(v, N) and v.tag[0] in ("enm",) else (v.kids if isinstance(v, N) and v.tag == "agg" else ())
            self.write(st, loc, path, N(("enm", s[2]), kids))
        elif k == "assume":
            f = boolval(self.op(st, fr, s[1]))
            if not st.assume(f):
                raise Infeasible()
        elif k == "dead":
            if s[1] not in fr.cfg.addr:
                st.mem.pop((fr.depth, s[1]), None)
        elif k == "copynon":
            src = self.op(st, fr, s[1])
            dst = self.op(st, fr, s[2])
            n = self.op(st, fr, s[3])
            self.copy_elems(st, src, dst, n)
        else:
            raise AnalysisError("statement %r" % (s,))

    def copy_elems(self, st, src, dst, n):
        n = st.c.norm(n)
        if iszero(n):
            return
        if src.idx is None and n == 1 and dst.idx is None:
            self.write(st, dst.loc, dst.path, self.read(st, src.loc, src.path))
            return
        a = self.read(st, src.loc, src.path)
        part = seq_slice(st, a, src.idx or 0, n)
        d = self.read(st, dst.loc, dst.path)
        x, y = seq_split(st, d, dst.idx or 0)
        _, z = seq_split(st, y, n)
        self.write(st, dst.loc, dst.path, seq_cat(x, part, z))

    def panicked(self, st, what, detail=""):
        if self.on_panic is not None:
            self.on_panic(self, st, what, detail)

    def term(self, fr, t, st, rets):
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "switch":
            v = self.op(st, fr, t[1])
            return self.switch(st, v, t[2], t[3])
        if k == "call":
            return self.call(fr, t, st)
        if k == "drop":
            self.drop(st, fr, t)
            return [(t[3], st)]
        if k == "assert":
            c = boolval(self.op(st, fr, t[1]))
            if not t[2]:
                c = fnot(c)
            d = st.decide(c)
            if d is True:
                return [(t[4], st)]
            kind = t[3]
            desc = "index out of bounds" if kind[0] == "bounds" else \
                "arithmetic overflow (%s)" % kind[1] if kind[0] == "overflow" else \
                "division by zero" if kind[0] in ("divzero", "remzero") else "assertion"
            if d is False:
                self.panicked(st, desc)
                return []
            raise Fork([c, fnot(c)])
        if k == "return":
            rets.append(st)
            return []
        if k in ("unreachable", "resume"):
            return []
        raise AnalysisError("terminator " + k)

    def drop(self, st, fr, t):
        pass

    def switch(self, st, v, targets, other):
        if isinstance(v, (bool, F)):
            d = st.decide(v)
            res = []
            if d is None:
                raise Fork([v, fnot(v)])
            want = 1 if d else 0
            for val, b in targets:
                if val == want:
                    return [(b, st)]
            return [(other, st)] if other is not None else []
        if isinstance(v, int):
            for val, b in targets:
                if self.sval(val) == v:
                    return [(b, st)]
            return [(other, st)] if other is not None else []
        if isinstance(v, Lin):
            out = []
            alts = []
            lo, hi = st.c.interval(v)
            rest = []
            for val, b in targets:
                val = self.sval(val)
                if lo <= val <= hi:
                    s2 = st.copy()
                    if s2.assume(feq(T.sub(v, val))) and not s2.c.bad:
                        out.append((b, s2))
                    rest.append(val)
            if other is not None:
                s2 = st.copy()
                okk = True
                for val in rest:
                    if not s2.assume(fne(T.sub(v, val))) or s2.c.bad:
                        okk = False
                        break
                if okk:
                    out.append((other, s2))
            return out
        raise AnalysisError("switch on %r" % (v,))

    def sval(self, v):
        return int(v)

    # ------------------------------------------------------------ calls
    def call(self, fr, t, st):
        callee, ops, dest, target, rty = t[1], t[2], t[3], t[4], t[5]
        args = [self.op(st, fr, o) for o in ops]
        snap = None
        if "op" in callee:
            fv = self.op(st, fr, callee["op"])
            res = self.apply(st, fv, args, rty)
        else:
            res = self.call_inst(st, callee, args, rty)
        out = []
        for s, r in res:
            if s.c.bad:
                continue
            if target is None:
                continue
            if isinstance(r, Lin):
                r = s.c.norm(r)
            self.wr(s, fr, dest, r)
            out.append((target, s))
        return out

    def guarded(self, st, f):
        """Run model f(st) -> results, retrying on Fork from a clean copy."""
        out = []
        todo = [st]
        while todo:
            if self.deadline and time.time() > self.deadline:
                raise AnalysisError("time limit")
            s = todo.pop()
            snap = s.copy()
            try:
                out.extend(f(s))
            except Fork as fk:
                for a in reversed(fk.alts):
                    s2 = snap.copy()
                    if s2.assume(a) and not s2.c.bad:
                        todo.append(s2)
            except Infeasible:
                pass
            except Panic as p:
                self.panicked(s, p.what, p.detail)
        return out

    def call_inst(self, st, callee, args, rty):
        path = callee.get("path")
        inst = callee.get("inst")
        h = self.hooks.get(path)
        if h is not None:
            r = self.guarded(st, lambda s: self._wrapres(s, h(self, s, callee, args, rty)))
            if r is not None and not (len(r) == 1 and r[0][1] is NotImplemented):
                return r
            if r:
                st = r[0][0]
        if inst is None:
            h = self.env_hooks.get(path)
            if h is None:
                raise AnalysisError("unmodelled environment call " + str(path))
            return self.guarded(st, lambda s: self._wrapres(s, h(self, s, callee, args, rty)))
        return self.call_fn(st, self.cr.fns[inst], callee, args, rty)

    def _wrapres(self, s, r):
        if r is NotImplemented:
            return [(s, NotImplemented)]
        if isinstance(r, list):
            return r
        return [(s, r)]

    def call_fn(self, st, fn, callee, args, rty):
        k = fn.kind
        if fn.local:
            self.reached.add(fn.path)
        h = self.hooks.get(("fn", fn.path)) or self.fn_models.get(fn.path)
        if h is None and fn.impl_trait and fn.impl_self:
            tk = (fn.impl_trait.split("<")[0] + "::" + fn.name, fn.impl_self)
            h = self.hooks.get(tk) or self.fn_models.get(tk) or self.fn_models.get(tk[0])
        if h is not None:
            r = self.guarded(st, lambda s: self._wrapres(s, h(self, s, callee, args, rty, fn)))
            if not (len(r) == 1 and r[0][1] is NotImplemented):
                return r
            st = r[0][0]
        if k == "intrinsic":
            m = self.intrinsics.get(fn.path.split("::")[-1])
            if m is None:
                raise AnalysisError("intrinsic " + fn.path)
            return self.guarded(st, lambda s: self._wrapres(s, m(self, s, callee, args, rty, fn)))
        if k == "virtual":
            recv = args[0]
            vt = self.vtable_of(st, recv)
            inst = dict(vt)[fn.vidx] if vt and fn.vidx in dict(vt) else None
            if inst is None and vt:
                inst = dict(vt).get(fn.path.split("::")[-1]) or dict(vt).get(fn.path)
            if inst is None:
                h = self.env_hooks.get(callee["path"])
                if h is not None:
                    return self.guarded(st, lambda s: self._wrapres(s, h(self, s, callee, args, rty)))
                raise AnalysisError("virtual call " + fn.path)
            if isinstance(recv, P):
                recv = P(recv.loc, recv.path, recv.idx, recv.len)
            return self.call_fn(st, self.cr.fns[inst], callee, [recv] + args[1:], rty)
        if fn.body is None:
            return self.guarded(st, lambda s: self._wrapres(s, self.opaque(s, fn, callee, args, rty)))
        b = fn.body
        if fn.closure and len(args) == 2 and b["argc"] != 2 or (
                fn.closure and len(args) == 2 and path_is_fncall(callee)):
            tup = args[1]
            args = [args[0]] + list(tup.kids)
        elif len(args) == 2 and b["argc"] > 2 and isinstance(args[1], N) and args[1].tag == "agg":
            args = [args[0]] + list(args[1].kids)
        elif b["argc"] != len(args) and isinstance(args[-1], N) and args[-1].tag == "agg":
            args = args[:-1] + list(args[-1].kids)
        return self.exec_fn(fn, args, st)

    def vtable_of(self, st, recv):
        if isinstance(recv, P):
            return recv.vt
        return None

    def head_of(self, ty):
        if isinstance(ty, int):
            t = self.types[ty]
            return t.get("path") or t["k"]
        return ty

    def apply(self, st, fv, args, rty):
        """Call a function value."""
        if isinstance(fv, N) and fv.tag[0] == "fn":
            fn = self.cr.fns[fv.tag[1]]
            return self.call_inst(st, {"inst": fv.tag[1], "path": fn.path}, args, rty)
        if isinstance(fv, N) and fv.tag[0] == "clo":
            t = self.types[fv.tag[1]]
            fn = self.cr.fns[t["inst"]]
            return self.exec_fn(fn, [fv] + args, st)
        raise AnalysisError("call of %r" % (fv,))

    def call_closure(self, st, fv, args, rty, by_ref=False):
        """Call a closure value held by value; args untupled.  by_ref: pass a pointer to it."""
        if isinstance(fv, P):
            inner = self.read(st, fv.loc, fv.path)
            if isinstance(inner, N) and inner.tag[0] == "fn":
                return self.apply(st, inner, args, rty)
            t = self.types[inner.tag[1]]
            fn = self.cr.fns[t["inst"]]
            a0 = fv if self.types[fn.body["locals"][1]]["k"] in ("ref",) else inner
            return self.exec_fn(fn, [a0] + args, st)
        if isinstance(fv, N) and fv.tag[0] == "clo":
            t = self.types[fv.tag[1]]
            fn = self.cr.fns[t["inst"]]
            if self.types[fn.body["locals"][1]]["k"] in ("ref", "ptr"):
                loc = ("tmp", len(self.stack), self.fresh_key("clo"))
                st.mem[loc] = fv
                return self.exec_fn(fn, [P(loc)] + args, st)
            return self.exec_fn(fn, [fv] + args, st)
        return self.apply(st, fv, args, rty)

    def opaque(self, st, fn, callee, args, rty):
        t = self.types[rty]
        if t["k"] == "never":
            raise Panic("explicit panic", fn.path)
        p = fn.path
        if p.startswith(self.opaque_ok):
            return self.mat(rty, self.fresh_key("opq"))
        raise AnalysisError("opaque call " + p)

    opaque_ok = ("anyhow::", "core::fmt::", "std::fmt::", "alloc::fmt::", "core::panicking", "std::io::stdio::_print")

    # ------------------------------------------------------------ joins
    def merge_states(self, sts, keep=None):
        """Merge states with identical memory, and states that differ only in one 0/1 symbol."""
        if self.no_merge:
            return sts
        groups = {}
        order = []
        for s in sts:
            if s.c.bad:
                continue
            if len(sts) > 1:
                norm_mem(s)
            k = self.shape_state(s)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        out = []
        for k in order:
            g = groups[k]
            out.extend(self.merge_group(g))
        return out

    def shape_state(self, s):
        return (frozenset((l, shape(v)) for l, v in s.mem.items()),
                tuple(sorted((k, shape(v)) for k, v in s.g.items())))

    def merge_group(self, g):
        if len(g) == 1:
            return g
        same = {}
        for s in g:
            k = (frozenset(s.mem.items()), tuple((k, s.g[k]) for k in sorted(s.g)))
            if k in same:
                same[k] = self.joinsame(same[k], s)
                self.stats["joins"] += 1
            else:
                same[k] = s
        g = list(same.values())
        for exact in (True, False):
            i = 0
            while i < len(g):
                j = i + 1
                while j < len(g):
                    m = self.join2(g[i], g[j], exact)
                    if m is not None:
                        self.stats["joins"] += 1
                        g[i] = m
                        g.pop(j)
                        j = 1 if exact else i + 1
                        i = 0 if exact else i
                    else:
                        j += 1
                i += 1
        return g

    def joinsame(self, a, b):
        # identical memory: keep the constraints both have
        r = a.copy()
        r.c = join_store(a.c, b.c)
        return r

    def join2(self, a, b, exact=False):
        if a.mem == b.mem and a.g == b.g:
            return self.joinsame(a, b)
        # a 0/1 symbol decided differently
        va = bit_bindings(a.c)
        vb = bit_bindings(b.c)
        cand = [s for s, v in va.items() if s in vb and vb[s] != v]
        if exact and len(cand) != 1:
            return None         # first those that differ in one bit only: nothing is lost
        for s in cand:
            m = self.bitjoin(a, b, s, va[s], vb[s])
            if m is not None:
                return m
        return None

    def bitjoin(self, a, b, s, x, y):
        """Join of a (where symbol s = x) and b (where s = y), exact when leaves differ by constants."""
        if x == 1:
            a, b, x, y = b, a, y, x
        # now a: s=0, b: s=1
        ca = a.c
        cb = b.c
        base = join_store(ca, cb)
        if s in base.sub:
            return None
        sv = Lin(0, ((s, 1),))

        def j(u, v):
            if u == v:
                return u
            if isinstance(u, (int, Lin)) and isinstance(v, (int, Lin)) and not isinstance(u, bool) and not isinstance(v, bool):
                nu, nv = ca.norm(u), cb.norm(v)
                if nu == nv:
                    return nu
                d = T.sub(nv, nu)
                if isinstance(d, int):
                    return T.add(nu, T.scale(sv, d))
                # maybe equal to a common term under s
                return None
            if isinstance(u, (bool, F)) and isinstance(v, (bool, F)):
                bu, bv = boolint(u), boolint(v)
                if bu is None or bv is None:
                    return None
                r = j(bu, bv)
                return None if r is None else (bool(r) if isinstance(r, int) else F("bit", r))
            if isinstance(u, N) and isinstance(v, N) and u.tag == v.tag and len(u.kids) == len(v.kids):
                kids = []
                for p, q in zip(u.kids, v.kids):
                    r = j(p, q)
                    if r is None:
                        return None
                    kids.append(r)
                return N(u.tag, tuple(kids))
            if isinstance(u, S) and isinstance(v, S) and len(u.segs) == len(v.segs):
                segs = []
                for p, q in zip(u.segs, v.segs):
                    if p[0] != q[0]:
                        # element vs value: try as values
                        return None
                    if p[0] == "r":
                        w = j(p[1], q[1])
                        n = j(p[2], q[2])
                        if w is None or n is None:
                            return None
                        segs.append(("r", w, n))
                    else:
                        if p[1] != q[1] or p[4] != q[4]:
                            return None
                        o = j(p[2], q[2])
                        n = j(p[3], q[3])
                        if o is None or n is None:
                            return None
                        segs.append(("o", p[1], o, n, p[4]))
                return S(tuple(segs))
            if isinstance(u, P) and isinstance(v, P) and u.loc == v.loc and u.path == v.path:
                i = u.idx if u.idx == v.idx else (None if u.idx is None or v.idx is None else j(u.idx, v.idx))
                n = u.len if u.len == v.len else (None if u.len is None or v.len is None else j(u.len, v.len))
                if (i is None) != (u.idx is None) or (n is None) != (u.len is None):
                    return None
                return P(u.loc, u.path, i, n, u.vt)
            return None
        r = a.copy()
        mem = {}
        for k, u in a.mem.items():
            v = b.mem.get(k)
            if v is None:
                return None
            w = j(u, v)
            if w is None:
                return None
            mem[k] = w
        gg = {}
        for k, u in a.g.items():
            v = b.g.get(k)
            if u is v or u == v:
                gg[k] = u
                continue
            w = j(u, v)
            if w is None:
                return None
            gg[k] = w
        r.mem = mem
        r.g = gg
        r.c = base
        return r

    # ------------------------------------------------------------ loops
    def loop(self, fr, h, sts, rets):
        from . import widen
        return widen.run_loop(self, fr, h, sts, rets)


def path_is_fncall(callee):
    p = callee.get("path") or ""
    return p.endswith(("FnOnce::call_once", "FnMut::call_mut", "Fn::call"))


def shape(v):
    if isinstance(v, N):
        return (v.tag, tuple(shape(k) for k in v.kids)) if v.kids else v.tag
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, Lin)):
        return "i"
    if isinstance(v, F):
        return "b"
    if isinstance(v, U):
        return ("U", v.ty)
    if isinstance(v, P):
        return ("P", v.loc, shape_path(v.path), v.idx is None, v.len is None, v.vt)
    if isinstance(v, S):
        return "S"
    return v


def shape_path(p):
    return tuple((e[0], "i") if e[0] == "x" else e for e in p)


def nv(st, v):
    c = st.c
    if isinstance(v, bool):
        return v
    if isinstance(v, Lin):
        return c.norm(v)
    if isinstance(v, N):
        if not v.kids:
            return v
        kids = tuple(nv(st, k) for k in v.kids)
        return v if all(x is y for x, y in zip(kids, v.kids)) else N(v.tag, kids)
    if isinstance(v, F):
        if v.op == "bit":
            x = c.norm(v.a[0])
            return bool(x) if isinstance(x, int) else F("bit", x)
        d = None
        if v.op in ("ge", "eq", "ne"):
            x = c.norm(v.a[0])
            return {"ge": fge, "eq": feq, "ne": fne}[v.op](x)
        return v
    if isinstance(v, S):
        segs = []
        for x in v.segs:
            if x[0] == "r":
                segs.append(one(st, nv(st, x[1]), None) if False else ("r", nv(st, x[1]), c.norm(x[2])))
            else:
                segs.append(("o", x[1], c.norm(x[2]), c.norm(x[3]), x[4]))
        return seq(*segs)
    if isinstance(v, P):
        i = c.norm(v.idx) if isinstance(v.idx, Lin) else v.idx
        n = c.norm(v.len) if isinstance(v.len, Lin) else v.len
        path = v.path
        if any(e[0] == "x" and isinstance(e[1], Lin) for e in path):
            path = tuple(("x", c.norm(e[1])) if e[0] == "x" else e for e in path)
        return P(v.loc, path, i, n, v.vt)
    return v


def pointers(v, out):
    if isinstance(v, P):
        out.add(v.loc)
        if isinstance(v.vt, (N, P, S)):
            pointers(v.vt, out)
    elif isinstance(v, N):
        for k in v.kids:
            pointers(k, out)
        if isinstance(v.tag, tuple):
            for k in v.tag:
                if isinstance(k, (N, P, S)):
                    pointers(k, out)
    elif isinstance(v, S):
        for x in v.segs:
            if x[0] == "r":
                pointers(x[1], out)


def norm_mem(st):
    m = {}
    for k, v in st.mem.items():
        w = nv(st, v)
        m[k] = w
    st.mem = m
    st.g = {k: nv(st, v) for k, v in st.g.items()}
    return (m, st.g)


def bit_bindings(c):
    out = {}
    for s, v in c.sub.items():
        y = Sym.table[s]
        if y.lo == 0 and y.hi == 1 and isinstance(v, int):
            out[s] = v
    return out


def join_store(a, b):
    """Constraints implied by both stores."""
    r = Store()
    # substitutions common to both; others re-derived when entailed by the other side
    lost_a = []
    for s, v in a.sub.items():
        if b.sub.get(s) == v:
            r.sub[s] = v
        else:
            lost_a.append((s, v))
    keepsub = dict(r.sub)
    syms = set(a.lo) | set(a.hi) | set(b.lo) | set(b.hi)
    for s, v in lost_a:
        syms.add(s)
    for s in b.sub:
        if s not in r.sub:
            syms.add(s)
    for s in syms:
        if s in r.sub:
            continue
        x = Lin(0, ((s, 1),))
        l1, h1 = a.interval(x)
        l2, h2 = b.interval(x)
        y = Sym.table[s]
        lo, hi = min(l1, l2), max(h1, h2)
        if lo > y.lo:
            r.lo[s] = lo
        if hi < y.hi:
            r.hi[s] = hi
    # equalities lost on one side but entailed by the other
    for s, v in lost_a:
        e = T.sub(Lin(0, ((s, 1),)), v)
        if b.entails_eq0(e):
            r.eq0(e)
    for s, v in b.sub.items():
        if s not in a.sub:
            e = T.sub(Lin(0, ((s, 1),)), v)
            if a.entails_eq0(e):
                r.eq0(e)
    # inequalities that differ by a constant, where a bit tells the two states apart
    split = [s for s, v in a.sub.items() if v in (0, 1) and isinstance(v, int) and isinstance(b.sub.get(s), int) and b.sub[s] == 1 - v]
    done = set()
    if split and a.ineq and b.ineq:
        other = {}
        for q in b.ineq:
            other.setdefault(q.t, []).append(q)
        for q in a.ineq:
            for p in other.get(q.t, ()):
                if p.c == q.c:
                    continue
                done.add(q)
                done.add(p)
                for s in split[:3]:
                    c0, c1 = (q.c, p.c) if a.sub[s] == 0 else (p.c, q.c)
                    r.ge0(T.add(Lin(c0, q.t), Lin(0, ((s, c1 - c0),))))
    for x, y in ((a, b), (b, a)):
        for q in x.ineq:
            if q in r.ineq or q in done:
                continue
            if q in y.ineq or y.entails_ge0(q):
                r.ge0(q)
            else:
                k = y.norm(q)
                if isinstance(k, int):      # a number on the other side: the bound weakened to it
                    r.ge0(T.sub(q, k))
        for q in x.ne:
            if q in y.ne or y.decide_eq0(q) is False:
                r.ne0(q)
    return r
