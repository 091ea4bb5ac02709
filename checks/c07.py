"""C07: encoding and decoding walk the tree the same way."""
from .env import *
from .c04 import at, okval
from sa import graph as G

RULE = ("Structural induction by abstract interpretation of CodeTree::decode_symbol and CodeTree::invert over a tree of unknown shape. A leaf is "
        "chosen by the bits that lead to it: node number k of its path is internal for k < D and its child for bit k of the path is node k+1, "
        "any other subtree is arbitrary; at D it is a leaf with symbol SYM. Decoding from node k reads exactly bits k..D-1 and returns SYM; "
        "inverting a subtree stores exactly the path's D bits for SYM when the subtree is on the path, and leaves the entry of SYM alone "
        "when it is not, never panicking. Recursive calls are replaced by this contract, whose precondition (node k with the bits read or "
        "collected so far being bits 0..k-1 of the path) is an obligation at every call. D, k, SYM and the bits are symbolic.")
ASSUMPTIONS = ["no two leaves of a tree have the same symbol, and symbols are below 288 (both follow from how CodeTree::new numbers leaves)",
               "bits arrive in order (C04)"]
TECHNIQUE = "structural induction with assume/guarantee contracts at recursive calls, discharged by abstract interpretation of MIR"
FLOOR = 10


class Symbol:
    """Symbols belong to one analysis: they are made anew when asked for."""

    def __init__(self, key, lo, hi):
        self.a = key, lo, hi

    def __call__(self):
        return T.var(T.sym(*self.a))


D = Symbol("depth of the leaf", 1, 1 << 40)
SYM = Symbol("its symbol", 0, 287)
SIZE = Symbol("entries of the table", 288, 1 << 20)
K = Symbol("depth of the subtree", 0, 1 << 40)
NODE, OTHER = "NODE", "OTHER"
SRC = "librezip::bit::BitSource::read_bit"


class Shape:
    """What a tree is made of."""

    def __init__(self, I):
        t = adt(I, CT[:-2])
        self.tree = t
        self.fields = [ft for n, ft in I.types[t]["variants"][0]["fields"]]
        nodes = [self.node_of(I, ft) for ft in self.fields]
        if not nodes or len(set(nodes)) != 1 or nodes[0] is None or len(nodes) > 2:
            raise AnalysisError("unknown representation of code trees")
        self.node = nodes[0]
        vs = I.types[self.node]["variants"]
        self.leaf = [i for i, v in enumerate(vs) if len(v["fields"]) == 1 and I.types[v["fields"][0][1]]["k"] == "int"]
        self.inner = [i for i, v in enumerate(vs) if len(v["fields"]) == 2 and all(self.node_of(I, f[1]) == self.node for f in v["fields"])]
        if len(vs) != 2 or len(self.leaf) != 1 or len(self.inner) != 1:
            raise AnalysisError("unknown representation of code tree nodes")
        self.leaf, self.inner = self.leaf[0], self.inner[0]

    def node_of(self, I, ty):
        t = I.types[ty]
        if t["k"] == "adt" and t.get("box"):
            return self.node_of(I, t["args"][0])
        return ty if t["k"] == "adt" and t["akind"] == "enum" and t["path"].startswith("librezip::") else None

    def val(self, I, ty, key):
        t = I.types[ty]
        if t["k"] == "adt" and t.get("box"):
            return N("box", (self.val(I, t["args"][0], key),))
        return U(ty, key)


def where(u):
    """(NODE or OTHER, depth) of a node; None for nodes deeper inside other subtrees."""
    if isinstance(u, U) and u.key[0] == "el" and u.key[1] in (NODE, OTHER):
        return u.key[1], u.key[2]
    return None


def world(ctx, flip):
    I = ctx.interp()
    bitvecs(I)
    sh = Shape(I)
    vs = I.types[sh.node]["variants"]
    variant, sub = I.variant, I.sub

    def variant_(st, v):
        w = where(v)
        if w is None or w[0] != NODE:
            return variant(st, v)
        k = st.c.norm(w[1])
        return sh.leaf if st.need(feq(T.sub(D(), k))) else sh.inner

    def sub_(st, v, e):
        w = where(v) if e[0] == "f" else None
        if w is None:
            r = sub(st, v, e)
            if e[0] == "f" and isinstance(v, U) and v.ty == sh.node and e[2] == sh.leaf and isinstance(r, (int, Lin)):
                other(st, r)
            return r
        k = st.c.norm(w[1])
        if e[2] == sh.leaf:
            if w[0] == NODE:
                if not st.need(feq(T.sub(D(), k))):
                    raise Infeasible()
                return SYM()
            r = sub(st, v, e)
            other(st, r)
            return r
        if w[0] != NODE:
            return sh.val(I, e[3], ("child", e[1], v.key))
        bit = st.need(feq(T.sub(in_bit(I, k), 1)))
        on = (bit != flip[1]) == (e[1] == 1)
        return sh.val(I, e[3], ("el", NODE, st.c.norm(T.add(k, 1))) if on else ("el", OTHER, k))

    def other(st, r):
        st.assume(fge(T.sub(287, r)))
        if st.assume(fne(T.sub(r, SYM()))) is False or st.c.bad:
            raise Infeasible()
    I.variant, I.sub = variant_, sub_

    def read(I, st, ca, a, rty, *_):
        e = st.copy()
        e.g["err"] = True
        p = st.c.norm(st.g["pos"])
        if not st.need(fge(T.sub(T.sub(D(), p), 1))):
            raise Panic("a bit is read beyond the leaf")
        st.g["pos"] = st.c.norm(T.add(p, 1))
        return [(e, err()), (st, ok(I.mat(prim(I, "bool"), ("el", "IN", p))))]
    I.env_hooks[SRC] = read
    return I, sh


def path_bits(I, k):
    return S((("o", "IN", 0, k, prim(I, "bool")),)) if not (isinstance(k, int) and k == 0) else S(())


def root(I, sh, st, flip, on=True):
    """The tree itself; forks on the first bit."""
    if len(sh.fields) == 1:
        return agg(sh.val(I, sh.fields[0], ("el", NODE if on else OTHER, 0)))
    if not on:
        return agg(*[sh.val(I, t, ("el", OTHER, -1 - i)) for i, t in enumerate(sh.fields)])
    bit = st.need(feq(T.sub(in_bit(I, 0), 1)))
    return agg(*[sh.val(I, t, ("el", NODE, 1) if ((bit != flip[0]) == (i == 1)) else ("el", OTHER, 0)) for i, t in enumerate(sh.fields)])


# ------------------------------------------------------------------ recursion
def recursive(cr, f):
    """Functions of the crate reached from f that may call themselves."""
    out = []
    for i in sorted(G.reach(cr, [f])):
        g = cr.fns[i]
        if g.body is not None and g.path.startswith("librezip::code_tree") and any(i in G.reach(cr, [cr.fns[j]]) for j in G.succ(cr, g)):
            if "fmt" not in g.name and g.path not in [x.path for x in out]:
                out.append(g)
    return out


class Contract:
    """The roles of a recursive function's parameters."""

    def __init__(self, I, sh, f):
        self.f, self.nodes, self.prefix, self.into, self.reader = f, [], None, None, None
        bv = adt(I, BITVEC)
        for i in range(f.body["argc"]):
            ty = f.body["locals"][1 + i]
            t = I.types[ty]
            ref = t["k"] == "ref"
            to = t["to"] if ref else ty
            tt = I.types[to]
            if sh.node_of(I, to) == sh.node:
                self.nodes.append((i, ref, to))
            elif to == bv:
                self.prefix = (i, ref, bool(t.get("mut")))
            elif ref and t.get("mut") and tt["k"] == "adt" and tt["path"] == "alloc::vec::Vec" and tt["args"][0] == option_of(I, bv):
                self.into = (i, "vec")
            elif ref and t.get("mut") and tt["k"] == "slice" and tt["elem"] == option_of(I, bv):
                self.into = (i, "slice")
            elif ref and tt["k"] == "param":
                self.reader = i
            elif tt["k"] == "param" and not ref:
                self.reader = i
            else:
                raise AnalysisError("a recursive function with other parameters: " + f.path)
        if len(self.nodes) not in (1, 2) or not sh.fields:
            raise AnalysisError("a recursive function without a node: " + f.path)

    def node(self, I, st, a):
        """(NODE or OTHER, depth) of the subtree handed over."""
        vals = []
        for i, ref, to in self.nodes:
            v = deref(I, st, a[i]) if ref else a[i]
            while isinstance(v, N) and v.tag == "box":
                v = v.kids[0]
            vals.append(v)
        if len(vals) == 1:
            w = where(vals[0])
            return w if w is not None else (OTHER, 0)
        ws = [where(v) for v in vals]
        on = [w for w in ws if w is not None and w[0] == NODE]
        if not on:
            return OTHER, 0
        k = st.c.norm(T.sub(on[0][1], 1))
        off = [w for w in ws if w is not None and w[0] == OTHER and (st.c.norm(T.sub(w[1], k)) == 0 or st.holds(feq(T.sub(w[1], k))))]
        if len(on) != 1 or len(off) != 1:
            raise Panic("the two subtrees handed over are not the children of one node")
        bit = st.need(feq(T.sub(in_bit(I, k), 1)))
        order = bit == (ws[1] is on[0])
        if order == self.flip:
            raise Panic("the two children are handed over in the wrong order")
        return NODE, k
    flip = False

    def start(self, I, sh, st, on, k, flip):
        """Arguments for an analysis of the function itself."""
        a = [None] * self.f.body["argc"]
        if len(self.nodes) == 1:
            i, ref, to = self.nodes[0]
            v = sh.val(I, to, ("el", NODE if on else OTHER, k))
            a[i] = self.hand(st, ref, v, "node")
        else:
            bit = st.need(feq(T.sub(in_bit(I, k), 1))) if on else False
            for j, (i, ref, to) in enumerate(self.nodes):
                here = on and (bit != flip[1]) == (j == 1)
                v = sh.val(I, to, ("el", NODE, st.c.norm(T.add(k, 1))) if here else ("el", OTHER, k if on else -1 - j))
                a[i] = self.hand(st, ref, v, "node%d" % j)
        if self.prefix is not None:
            i, ref, mut = self.prefix
            v = N("bv", (path_bits(I, k),)) if on else N("bv", (S((("o", "SOME", 0, T.var(T.sym("some length", 0, 1 << 40)), prim(I, "bool")),)),))
            a[i] = self.hand(st, ref, v, "prefix")
        if self.into is not None:
            i, how = self.into
            s = table(I, 0, NONE if on else ENTRY(I))
            if how == "vec":
                st.mem[("env", "into")] = N("vec", (s,))
                a[i] = P(("env", "into"))
            else:
                st.mem[("env", "into")] = s
                a[i] = P(("env", "into"), (), 0, SIZE())
        if self.reader is not None:
            st.mem[("env", "reader")] = tok("reader")
            a[self.reader] = P(("env", "reader")) if I.types[self.f.body["locals"][1 + self.reader]]["k"] == "ref" else tok("reader")
        return a

    def hand(self, st, ref, v, name):
        if not ref:
            return v
        st.mem[("env", name)] = v
        return P(("env", name))


def ENTRY(I):
    return I.mat(option_of(I, adt(I, BITVEC)), "earlier entry")


def table(I, n, v, size=None):
    """Something everywhere, but v for SYM."""
    ot = option_of(I, adt(I, BITVEC))
    size = SIZE() if size is None else size
    return S((("o", ("INTO", n), 0, SYM(), ot), ("r", v, 1), ("o", ("INTO", n), T.add(SYM(), 1), T.sub(T.sub(size, 1), SYM()), ot)))


def is_path(I, st, v, k):
    """Is this bit string exactly the first k bits of the path?"""
    q = I.seq_eq(st, norm_seq(st, bits_of(v)), path_bits(I, st.c.norm(k)))
    return False if q is None else q if isinstance(q, bool) else st.need(q)


def install(ctx, I, sh, fs, flip):
    """Recursive calls follow the contract."""
    out = []
    for f in fs:
        c = Contract(I, sh, f)
        c.flip = flip[1]

        def call(I, st, ca, a, rty, fn, c=c):
            w, k = c.node(I, st, a)
            if c.into is None:
                if w != NODE:
                    raise Panic("decoding goes on in the subtree the bit did not select")
                if not st.need(feq(T.sub(st.g["pos"], k))):
                    raise Panic("decoding goes on with a bit too many or too few read")
                e = st.copy()
                e.g["err"] = True
                st.g["pos"] = D()
                return [(e, err()), (st, ok(SYM()))]
            i, how = c.into
            if how == "vec":
                s = vec_of(I, st, a[i])
            else:
                s = deref(I, st, a[i])
            size = seq_len(st, s)
            if not st.need(fge(T.sub(size, 288))):
                raise Panic("the table has no room for every symbol")
            v = I.seq_get(st, s, SYM())
            if w == NODE:
                if c.prefix is None or not is_path(I, st, deref(I, st, a[c.prefix[0]]) if c.prefix[1] else a[c.prefix[0]], k):
                    raise Panic("a subtree is entered with other bits than those leading to it")
                if v != NONE:
                    raise Panic("the entry is already taken")
                v = some(N("bv", (path_bits(I, D()),)))
            n = st.g["n"] = st.g["n"] + 1
            new = table(I, n, v, size)
            if how == "vec":
                set_vec(I, st, a[i], new)
            else:
                store(I, st, a[i], new)
            return UNIT
        I.hooks[("fn", f.path)] = call
        out.append(c)
    return out


def entry(I, st, c=None, s=None):
    if s is None:
        v = st.mem[("env", "into")]
        s = v.kids[0] if isinstance(v, N) and v.tag == "vec" else v
    return I.seq_get(st, s, SYM())


def stored(I, st, v):
    return isinstance(v, N) and v.tag == ("enm", 1) and is_path(I, st, v.kids[0], D())


# ------------------------------------------------------------------ the obligations
def obligations(ctx, flip, side):
    """[(name, status, detail, where)]"""
    out = []
    dec, inv = ctx.fn(CT + "decode_symbol"), ctx.fn(CT + "invert")
    cr = ctx.crate()

    def report(name, I, f, res, post, panics=True):
        for s, r in res:
            for s2, (good, why) in cases(I, s, lambda x: post(x, r)):
                out.append((name, good, why, at(f)))
        if panics:
            for p in I.panics:
                out.append((name, False, str(p), at(f)))
        if not res and not I.panics:
            out.append((name, False, "never returns", at(f)))

    def decoded(s, r):
        if okval(r) is None:
            return bool(s.g["err"]), "" if s.g["err"] else "refused"
        if s.g["err"]:
            return False, "a failed read is ignored"
        good = s.need(feq(T.sub(okval(r), SYM())))
        if not good:
            return False, "returns %r" % (okval(r),)
        good = s.need(feq(T.sub(s.g["pos"], D())))
        return good, "" if good else "returns after %r bits" % (s.g["pos"],)

    def state():
        st = State()
        st.g.update(pos=0, err="", n=0)
        return st
    if side == "invert":
        return inverting(I_report=report, ctx=ctx, cr=cr, inv=inv, flip=flip, state=state, out=out)
    fs = recursive(cr, dec)
    I, sh = world(ctx, flip)
    install(ctx, I, sh, fs, flip)
    st = state()
    for s, t in cases(I, st, lambda x: root(I, sh, x, flip)):
        s.mem[("env", "tree")] = t
        s.mem[("env", "reader")] = tok("reader")
        report("decoding from the root", I, dec, I.run(dec, [P(("env", "tree")), P(("env", "reader"))], s), decoded)
    for f in fs:
        I, sh = world(ctx, flip)
        c = [x for x in install(ctx, I, sh, fs, flip) if x.f is f][0]
        st = state()
        st.assume(fge(T.sub(D(), T.add(K(), len(c.nodes) - 1))))
        st.g["pos"] = K()
        for s, a in cases(I, st, lambda x: c.start(I, sh, x, True, K(), flip)):
            report("decoding from any node of the path", I, f, I.run(f, a, s), decoded)
    return out


def inverting(ctx, cr, inv, flip, state, out, I_report):
    report = I_report
    fs = recursive(cr, inv)
    for on in (True, False):
        I, sh = world(ctx, flip)
        install(ctx, I, sh, fs, flip)
        st = state()
        for s, t in cases(I, st, lambda x: root(I, sh, x, flip, on)):
            s.mem[("env", "tree")] = t

            def post(x, r, on=on, I=I):
                if not (isinstance(r, N) and r.tag == "vec"):
                    raise AnalysisError("invert returns %r" % (r,))
                n = seq_len(x, r.kids[0])
                if not x.need(fge(T.sub(n, 288))):
                    return False, "a table of %r entries" % (n,)
                v = entry(I, x, s=r.kids[0])
                good = stored(I, x, v) if on else v == NONE
                return good, "" if good else "the entry is %r" % (v,)
            report("the inverted tree holds the path of every leaf" if on else "the inverted tree holds nothing for other symbols",
                   I, inv, I.run(inv, [P(("env", "tree"))], s), post, on)
    for f in fs:
        for on in (True, False):
            I, sh = world(ctx, flip)
            c = [x for x in install(ctx, I, sh, fs, flip) if x.f is f][0]
            if c.into is None:
                raise AnalysisError("a recursive function without the table: " + f.path)
            st = state()
            if on:
                st.assume(fge(T.sub(D(), T.add(K(), len(c.nodes) - 1))))
            for s, a in cases(I, st, lambda x: c.start(I, sh, x, on, K() if on else 0, flip)):
                def post(x, r, on=on, I=I, c=c, a=a):
                    v = entry(I, x)
                    good = stored(I, x, v) if on else v == ENTRY(I)
                    if good and c.prefix and c.prefix[2] and on:
                        good = is_path(I, x, deref(I, x, a[c.prefix[0]]), K())
                    return good, "" if good else "the entry is %r" % (v,)
                report("a subtree on the path stores the path" if on else "other subtrees leave the entry alone", I, f, I.run(f, a, s), post, on)
    return out


def run(ctx):
    ctx.fn(CT + "decode_symbol")
    ctx.fn(CT + "invert")
    ctx.attempt("structural induction", induct, ctx)


def induct(ctx):
    """Which child a set bit selects is for both directions to agree on."""
    first, why = {}, {}
    for flip in ((False, False), (True, True), (False, True), (True, False)):
        res = {}
        for side in ("decode", "invert"):
            try:
                res[side] = obligations(ctx, flip, side)
            except (AnalysisError, Fork) as e:
                why[side] = AnalysisError(str(e))
        for side in res:
            first.setdefault(side, res[side])
        if all(x[1] for r in res.values() for x in r):
            first.update(res)
            break
    ctx.notes["child selected by a set bit"] = "second" if not flip[1] else "first"
    for side in first:
        for name, good, detail, w in first[side]:
            ctx.ob(name, good, detail, w, key=name)
    for side, e in why.items():
        if side not in first:
            raise e
