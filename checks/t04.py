"""T04: guessed references stay inside the available data."""
from .env import *
from .c04 import at, okval

RULE = ("Layers, each interpreted abstractly for any history, data, position and configuration. (0) BackMap::from_window, over any history and data, stores only positions inside "
        "the data in its tables, each within bounds. (1) AllRefs::at, with unknown tables of such positions: every item its boxed iterator can yield satisfies distance <= position, distance <= 32768 and "
        "position + length <= length of the known data. (2) Scanner::best_candidate_better_than for each picker, over any "
        "finite sequence of such items: the reference returned satisfies the same bounds at the position asked about. "
        "(3) Scanner::codes for each lookahead, over any such looker: each returned code is checked at the position to which "
        "the codes before it lead.")
ASSUMPTIONS = ["history and data are each shorter than 2^40 bytes",
               "a candidate for which Ref::new would panic is not offered (T03 covers the range of lengths)",
               "the table of latest positions, indexed by hash, may yield any position inserted so far, or none"]
TECHNIQUE = "abstract interpretation of MIR with inferred loop invariants"
FLOOR = 13


def variants(I, path):
    for t in I.types:
        if t["k"] == "adt" and t["path"] == path:
            return [v["name"] for v in t["variants"]]
    raise Anchor(path)


def run(ctx):
    I = ctx.interp()
    ctx.attempt("lookup", lookup, ctx)
    ctx.attempt("tables", tables, ctx)
    f = ctx.crate().find(LENGTH)
    if f:
        for case in (1, 2, 3):
            ctx.attempt("distance %d" % case, lengths, ctx, f, case)
    ctx.attempt("candidates", candidates, ctx, bool(f))
    for p in variants(I, PI):
        ctx.attempt(p, best, ctx, p)
    for p in variants(I, LA):
        ctx.attempt(p, codes, ctx, p)

LA, PI = "librezip::lookahead::Lookahead", "librezip::picker::Picker"
AR = "librezip::all_refs::AllRefs::<'p, 'd>::"
BM = "librezip::back_map::BackMap"
LENGTH = AR + "possible_run_length_at"
SC = "librezip::technique::Scanner"


def world(ctx, I, st, byte=True, e=None):
    """A scanner over any data, any table of earlier positions, at any position; (scanner pointer, position, length of the data).
    With e, an entry of the chain is 0 or at most its index plus e."""
    U8 = prim(I, "int", 8)
    p, d = T.var(T.sym(("history",), 0, 1 << 40)), T.var(T.sym(("data",), 0, 1 << 40))
    n = st.c.norm(T.add(p, d))
    st.mem[("env", "preroll")] = S((("o", "DATA", 0, p, U8),))
    st.mem[("env", "data")] = S((("o", "DATA", p, d, U8),))
    fw = BM + "::from_window"
    lengths = built_lengths(ctx, I, n)

    def from_window(I, st, ca, a, rty, f):
        USZ = prim(I, "int", 64)
        t = I.types[rty]
        kids = []
        for name, ft in t["variants"][0]["fields"]:
            k = I.types[ft]
            if k["k"] == "array":
                kids.append(S((("o", ("opaque", "table", name), 0, k["len"], k["elem"]),)))
            elif k.get("path", "").endswith("vec::Vec"):
                kids.append(N("vec", (S((("o", ("opaque", "table", name), 0, lengths[len(kids)], USZ),)),)))
            else:
                kids.append(N("box", (S((("o", ("opaque", "table", name), 0, n, USZ),)),)))
        return N("agg", tuple(kids))
    I.hooks[("fn", fw)] = from_window
    I.anchors.add(fw)

    def get(I, st, ca, a, rty, f):
        if not st.need(fge(T.sub(T.sub(n, a[1]), 1))):
            raise Panic("byte beyond the data")
        return I.mat(U8, ("el", "DATA", st.c.norm(a[1])))
    if byte:
        I.hooks[("fn", AR + "get")] = get

    seq_get = I.seq_get

    def table_entry(st, s, i):
        v = seq_get(st, s, i)
        if isinstance(v, T.Lin) and behind(v):
            st.assume(fge(v))
            st.assume(fge(T.sub(T.sub(n, v), 1)))
            if e is not None and st.decide(feq(T.sub(seq_len(st, s), n))) is True and not st.need(feq(v)):
                st.assume(fge(T.sub(T.add(i, e), v)))
        return v
    I.seq_get = table_entry
    lim = T.var(T.sym(("limit",), 0, 65535))
    r = I.run(ctx.fn(AR + "with_sixteen"), [P(("env", "preroll"), (), 0, p), P(("env", "data"), (), 0, d), lim], st)
    if len(r) != 1:
        raise AnalysisError("AllRefs::with_sixteen has %d outcomes" % len(r))
    st, v = r[0]
    st.mem[("env", "refs")] = v
    return st, n


BUILT = {}


def built_lengths(ctx, I, n):
    """The lengths of the tables that are vectors, as they are built."""
    t = adt(I, BM)
    if not any(I.types[ft].get("path", "").endswith("vec::Vec") for _, ft in I.types[t]["variants"][0]["fields"]):
        return {}
    if not BUILT:
        build(ctx)
    return BUILT


def build(ctx, e=None):
    """BackMap::from_window over any history and data: (where, panics, entries of the chain neither 0 nor at most their index plus e).

    Each table is one summary: an entry read is 0 or anything stored before; `top` is the last position stored in the table indexed
    by hash, where positions are stored in ascending order."""
    I = ctx.interp()
    f = ctx.crate().find(BM + "::from_window")
    if f is None:
        raise AnalysisError("no BackMap::from_window")
    U8 = prim(I, "int", 8)
    p, d = T.var(T.sym(("history",), 0, 1 << 40)), T.var(T.sym(("data",), 0, 1 << 40))
    st = State()
    n = st.c.norm(T.add(p, d))
    st.mem[("env", "preroll")] = S((("o", "DATA", 0, p, U8),))
    st.mem[("env", "data")] = S((("o", "DATA", p, d, U8),))
    stored, loose = set(), []
    upd, seq_get = I.upd, I.seq_get

    def table(st, v):
        """Which table, if any: 'heads' has a fixed size, 'chain' one entry per position."""
        if not isinstance(v, S) or "'DATA'" in repr(v):
            return None
        ln = st.c.norm(seq_len(st, v))
        if isinstance(ln, int) and ln > 256:
            return "heads"
        return "chain" if st.decide(feq(T.sub(ln, n))) is True else None

    def set_(st, v, path, val):
        if not (len(path) == 1 and path[0][0] == "x" and isinstance(v, S) and isinstance(val, (int, T.Lin))):
            return upd(st, v, path, val)
        which = table(st, v)
        if which is None:
            return upd(st, v, path, val)
        if any(g[:2] != ("r", 0) for g in v.segs):
            raise AnalysisError("a table not filled with zeros: %r" % (v,))
        i = path[0][1]
        if e is None and st.decide(fand(fge(val), fge(T.sub(T.sub(n, val), 1)))) is not True:
            raise Panic("position %r stored for %r bytes" % (val, n))
        if which == "chain":
            if e is not None and st.decide(feq(val)) is not True and st.decide(fge(T.sub(T.add(i, e), val))) is not True:
                loose.append("the entry after %r is %r" % (i, val))
        else:
            if st.decide(fge(T.sub(val, st.g["top"]))) is not True:
                raise AnalysisError("positions stored out of order")
            st.g["top"] = st.c.norm(val)
        stored.add(which)
        return v

    def get(st, s, i):
        if table(st, s) is None or not isinstance(i, (int, T.Lin)):
            return seq_get(st, s, i)
        if not st.need(fge(st.g["top"])):
            return 0
        v = T.var(T.sym(("opaque", "entry", table(st, s), st.c.norm(i)), 0, 1 << 41))
        st.assume(fge(T.sub(st.g["top"], v)))
        return v
    I.upd, I.seq_get = set_, get
    st.g["top"] = -1
    res = I.run(f, [P(("env", "preroll"), (), 0, p), P(("env", "data"), (), 0, d)], st)
    if not I.panics and not (res and stored in (set(), {"heads", "chain"})):
        raise AnalysisError("tables not recognised: %r" % (stored,))
    for s, v in res:
        for i, k in enumerate(v.kids):
            while isinstance(k, N) and k.tag in ("vec", "box") and k.kids:
                k = k.kids[0]
            if isinstance(k, S):
                ln = s.c.norm(seq_len(s, k))
                BUILT[i] = ln if isinstance(ln, int) and ln > 256 else n
    return "%s:%s" % (f.file, f.line), I.panics, loose


def tables(ctx):
    """The tables of earlier positions hold positions inside the data."""
    where, bad, _ = build(ctx)
    own = [str(p) for p in bad if "stored for" in str(p)]
    ctx.ob("what the tables hold is a position inside the data", not own, "; ".join(own[:3]), where, key="tables hold")
    bad = [str(p) for p in bad if str(p) not in own]
    ctx.ob("building the tables does not panic", not bad, "; ".join(bad[:3]), where, key="tables")


def lookup(ctx):
    """AllRefs::get finds every byte of the history and of the data."""
    f = ctx.fn(AR + "get")
    where = "%s:%s" % (f.file, f.line)
    I = ctx.interp()
    st, n = world(ctx, I, State(), False)
    pos = T.var(T.sym(("position",), 0, 1 << 41))
    st.assume(fge(T.sub(n, T.add(pos, 1))))
    for s, r in I.run(f, [P(("env", "refs")), pos], st):
        ctx.ob("the byte looked up at a position is the one there",
               s.decide(feq(T.sub(r, I.mat(prim(I, "int", 8), ("el", "DATA", s.c.norm(pos)))))) is True,
               "%r at position %r" % (r, pos), where, key="lookup")
    ctx.ob("looking up a byte does not panic", not I.panics, "; ".join(map(str, I.panics[:3])), where)


def behind(q):
    """Is this position, or entry, taken from a table of earlier positions?"""
    return isinstance(q, T.Lin) and "'table'" in repr(q)


def in_data(ctx, I, st, r, pos, n):
    ds, ln = ref_parts(ctx, I, st, r)
    return (st.decide(fge(T.sub(pos, ds))) is True and st.decide(fge(T.sub(32768, ds))) is True
            and st.decide(fge(T.sub(ds, 1))) is True and st.decide(fge(T.sub(n, T.add(pos, ln)))) is True,
            "distance %r, length %r at position %r of %r" % (ds, ln, pos, n))


def candidates(ctx, modular):
    I = ctx.interp()
    I.max_unroll = 8
    f = ctx.fn(AR + "at")
    where = "%s:%s" % (f.file, f.line)
    st, n = world(ctx, I, State())
    pos = T.var(T.sym(("position",), 0, 1 << 41))
    OB = obscure_type(I)
    m = T.var(T.sym(("skipped runs",), 0, 1 << 40))
    st.mem[("env", "obscured")] = S((("o", "OBSCURED", 0, m, OB),))

    def length(I, st, ca, a, rty, f):
        """possible_run_length_at, as lengths() finds it to behave."""
        q, d = st.c.norm(a[1]), st.c.norm(a[2])
        U8 = prim(I, "int", 8)
        here = [I.mat(U8, ("el", "DATA", st.c.norm(T.add(q, i)))) for i in range(3)]
        there = [I.mat(U8, ("el", "DATA", st.c.norm(T.add(T.sub(q, d), i)))) for i in range(3)]
        if not (st.decide(fge(T.sub(n, T.add(q, 3)))) is True and st.decide(fge(T.sub(d, 1))) is True
                and st.decide(fge(T.sub(q, d))) is True and all(st.decide(feq(T.sub(x, y))) is True for x, y in zip(here, there))):
            return NotImplemented
        r = T.var(T.sym(("run", q, d), 3, 258))
        st.assume(fge(T.sub(n, T.add(q, r))))
        return r
    if modular:
        I.hooks[("fn", LENGTH)] = length
    res = I.run(f, [P(("env", "refs")), pos, P(("env", "obscured"), (), 0, m)], st)
    nx = [g for g in ctx.crate().fns if g.name == "next" and g.body and g.impl_trait and "Box" in g.path and "Iterator" in g.path]
    if not nx:
        raise AnalysisError("no boxed iterator")
    found = 0
    for s, r in res:
        if r.tag != ("enm", 1):
            continue
        s.mem[("env", "it")] = r.kids[0]
        for s2, v in I.run(nx[0], [P(("env", "it"))], s):
            if v.tag == ("enm", 1):
                found += 1
                good, why = in_data(ctx, I, s2, v.kids[0], pos, n)
                ctx.ob("a candidate offered at a position lies inside the known data", good, why, where, key="candidate")
    bad = [str(p) for p in I.panics if modular or "Ref::new" not in str(p)]
    ctx.ob("no candidate makes the search panic", not bad, "; ".join(bad[:3]), where)
    if not modular and len(bad) < len(I.panics):
        raise AnalysisError("lengths of candidates: " + str(I.panics[-1]))
    ctx.ob("candidates are found", found > 0, "no way through AllRefs::at yields a candidate", where)


def lengths(ctx, f, case):
    """The length found for a distance at a position where the first three bytes match: 3 to 258, within the data, no panic."""
    I = ctx.interp()
    I.max_unroll, I.peel = 8, 2
    where = "%s:%s" % (f.file, f.line)
    st, n = world(ctx, I, State())
    pos = T.var(T.sym(("position",), 0, 1 << 41))
    d = case if case < 3 else T.var(T.sym(("distance",), 3, 32768))
    st.assume(fge(T.sub(n, T.add(pos, 3))))
    st.assume(fge(T.sub(pos, d)))
    U8 = prim(I, "int", 8)
    for i in range(3):
        st.assume(feq(T.sub(I.mat(U8, ("el", "DATA", st.c.norm(T.add(pos, i)))),
                            I.mat(U8, ("el", "DATA", st.c.norm(T.add(T.sub(pos, d), i)))))))
    what = "distance %s" % (case if case < 3 else "3 and more")
    res = []
    for left in (0, 1):     # near the end of the data, and not
        s = st.copy()
        s.assume(fge(T.sub(T.sub(n, pos), 258)) if left else fge(T.sub(257, T.sub(n, pos))))
        res += I.run(f, [P(("env", "refs")), pos, d], s)
    for s, r in res:
        ctx.ob("%s: the run found is 3 to 258 bytes of the data" % what,
               s.decide(fge(T.sub(r, 3))) is True and s.decide(fge(T.sub(258, r))) is True
               and s.decide(fge(T.sub(n, T.add(pos, r)))) is True, "length %r at position %r of %r" % (r, pos, n), where, key=what)
    ctx.ob("%s: no read outside the data" % what, not I.panics and bool(res), "; ".join(map(str, I.panics[:3])), where)


def obscure_type(I):
    OB = [t for t in range(len(I.types)) if I.types[t]["k"] == "tuple" and len(I.types[t]["fields"]) == 2 and
          I.types[t]["fields"] == [prim(I, "int", 64), prim(I, "int", 16)]]
    if not OB:
        raise AnalysisError("no obscured entries")
    return OB[0]


def scanner(ctx, I, st, picker, lookahead):
    """A scanner of any configuration with these two parts, at any position with data left."""
    st, n = world(ctx, I, st)
    ct, tt, sc = adt(I, "librezip::technique::Config"), adt(I, "librezip::technique::Technique"), adt(I, SC)
    def fields(ty, key, **kw):
        return N("agg", tuple(kw[n] if n in kw else I.mat(ft, (key, n)) for n, ft in I.types[ty]["variants"][0]["fields"]))
    cfg = fields(ct, "config", picker=enm(enum_variant(I, "librezip::picker::Picker", picker)),
                 lookahead=enm(enum_variant(I, "librezip::lookahead::Lookahead", lookahead)))
    st.mem[("env", "technique")] = fields(tt, "technique", config=cfg, all_refs=P(("env", "refs")))
    m = T.var(T.sym(("skipped runs",), 0, 1 << 40))
    pos = T.var(T.sym(("position",), 0, 1 << 41))
    st.assume(fge(T.sub(T.sub(n, pos), 1)))
    st.mem[("env", "scanner")] = fields(sc, "scanner", technique=P(("env", "technique")), pos=pos,
                                        obscured=N("vec", (S((("o", "OBSCURED", 0, m, obscure_type(I)),)),)))
    return st, n, pos


def offered(ctx, I, st, n, q, k):
    """Perhaps a reference, as T04 allows it at position q."""
    if not (st.need(fge(T.sub(q, 1))) and st.need(fge(T.sub(n, T.add(q, 3))))):
        return NONE
    d, r = T.var(T.sym(("d", k), 1, 32768)), T.var(T.sym(("r", k), 3, 258))
    st.assume(fge(T.sub(q, d)))
    st.assume(fge(T.sub(n, T.add(q, r))))
    return some(mkref(ctx, I, st, d, r))


def looker(ctx, name):
    fs = [f for f in ctx.crate().fns if f.name == name and f.impl_self and "Scanner" in f.impl_self and f.body]
    if not fs:
        raise Anchor("%s of Scanner" % name)
    return fs[0]


def best(ctx, picker):
    """The best candidate is one of the candidates offered at that position."""
    I = ctx.interp()
    I.max_unroll = 8
    st, n, start = scanner(ctx, I, State(), picker, "Greedy")
    f = looker(ctx, "best_candidate_better_than")
    where = "%s:%s" % (f.file, f.line)

    def at_(I, st, ca, a, rty, f):
        if not st.need(fge(T.sub(n, T.add(a[1], 3)))):
            return NONE
        st.g.update(base=st.c.norm(a[1]), room=st.c.norm(T.sub(n, a[1])))       # limits for the invariants of loops
        return some(N("box", (tok("candidates"), tok(()))))
    ctx.fn(AR + "at")
    I.hooks[("fn", AR + "at")] = at_

    def nxt(I, st, ca, a, rty):
        i = st.g["offered"]
        if not st.need(fge(T.sub(T.var(T.sym(("another candidate", i), 0, 1)), 1))):
            return NONE
        st.g["offered"] = T.add(i, 1)
        return offered(ctx, I, st, n, st.g["base"], i)
    I.env_hooks["core::iter::traits::iterator::Iterator::next"] = nxt
    pos = T.var(T.sym(("position asked",), 0, 1 << 41))
    st.assume(fge(T.sub(n, T.add(pos, 1))))
    opt = I.mat(f.body["locals"][3], ("other",))
    refs = 0
    for s, r in I.run(f, [P(("env", "scanner")), pos, opt], st_with(st, offered=0)):
        v = r.kids[1]
        if I.variant(s, v) == 1:
            refs += 1
            good, why = in_data(ctx, I, s, v.kids[0], pos, n)
            ctx.ob("%s: the reference chosen at a position lies inside the known data" % picker, good, why, where, key="best " + picker)
    ctx.ob("%s: choosing does not panic" % picker, not I.panics, "; ".join(map(str, I.panics[:3])), where)
    ctx.ob("%s: references are chosen" % picker, refs > 0, "", where)


def st_with(st, **kw):
    st.g.update(kw)
    return st


def codes(ctx, lookahead):
    """The codes guessed at a position, each at the position where the codes before it lead."""
    I = ctx.interp()
    I.max_unroll = 8
    st, n, start = scanner(ctx, I, State(), "Longest", lookahead)
    f = looker(ctx, "codes")
    where = "%s:%s" % (f.file, f.line)
    ctx.fn(looker(ctx, "best_candidate_better_than").path)

    def best(I, st, ca, a, rty, f):
        q, k = st.c.norm(a[1]), st.g["asked"]
        if not st.need(fge(T.sub(n, T.add(q, 1)))):
            raise Panic("byte beyond the data")
        lit = I.mat(prim(I, "int", 8), ("el", "DATA", q))
        if not st.need(fge(T.sub(T.var(T.sym(("candidate", k), 0, 1)), 1))):
            st.g["asked"] = T.add(k, 1)
            return agg(lit, NONE)
        r = offered(ctx, I, st, n, q, k)
        st.g.update(asked=T.add(k, 1), base=q, room=st.c.norm(T.sub(n, q)), room3=st.c.norm(T.sub(n, T.add(q, 3))))
        return agg(lit, r)
    I.hooks[("fn", looker(ctx, "best_candidate_better_than").path)] = best
    ct = adt(I, "librezip::Code")
    ref = enum_variant(I, "librezip::Code", "Reference")

    def step(I, st, x):
        at, size = st.g["at"], 1
        if I.variant(st, x) == ref:
            good, why = in_data(ctx, I, st, x.kids[0], at, n)
            if not good:
                raise Panic("guess outside the data: " + why)
            size = ref_parts(ctx, I, st, x.kids[0])[1]
        elif st.decide(fge(T.sub(n, T.add(at, 1)))) is not True:
            raise Panic("literal guessed at the end of the data")
        st.g["at"] = st.c.norm(T.add(at, size))

    def on_push(I, st, v, ty):
        if ty == ct:
            st.g["pushed"] = T.add(st.g["pushed"], 1)
            step(I, st, v)
        return v
    I.on_push = on_push
    some_, bad = 0, []
    for s, r in I.run(f, [P(("env", "scanner"))], st_with(st, asked=0, at=start, pushed=0)):
        q = r.kids[0]
        c = seq_len(s, q)
        if s.c.norm(s.g["pushed"]) == 0 and isinstance(c, int):
            try:
                for i in range(c):
                    step(I, s, I.seq_get(s, q, i))
            except Panic as e:
                bad.append(str(e))
        elif s.decide(feq(T.sub(c, s.g["pushed"]))) is not True:
            raise AnalysisError("codes not pushed one by one")
        some_ += 1
    bad += [str(p) for p in I.panics]
    ctx.ob("%s: every guessed reference lies inside the known data, and guessing does not panic" % lookahead, not bad, "; ".join(bad), where, key="codes " + lookahead)
    ctx.ob("%s: codes are guessed" % lookahead, some_ > 0, "", where)
