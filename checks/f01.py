from .env import *

RULE = ("Abstract interpretation of every method of the Read and Write implementations of the hashing filters over an unknown "
        "wrapped stream: a ghost sequence holds the bytes the wrapped stream transferred, another the bytes given to the "
        "digest. On every path the operation forwards to the same operation of the wrapped stream exactly once and with the "
        "caller's buffer, returns exactly what it returned (value or error), and the digested bytes grow by exactly the "
        "transferred ones; hash() returns the finalised digest of that sequence and new() starts from an empty one.")
ASSUMPTIONS = ["sha2's Digest::update appends to the digested message and finalize digests it",
               "the wrapped stream honours the Read/Write contracts (a count not above the buffer length)"]
TECHNIQUE = "abstract interpretation of MIR (ghost-state relational analysis)"
FLOOR = 9

DIG = "digest::digest::Digest::"
READ, WRITE = "alloc::io::read::Read", "core::io::write::Write"


def sha_of(v):
    """The digest objects inside a value."""
    if isinstance(v, N):
        if v.tag == "sha":
            return [v]
        return [x for k in v.kids for x in sha_of(k)]
    return []


def replace(v, f):
    if isinstance(v, N):
        if v.tag == "sha":
            return f(v)
        return N(v.tag, tuple(replace(k, f) for k in v.kids))
    return v


def bytes_of(I, st, v):
    if isinstance(v, P):
        v = deref(I, st, v)
    if isinstance(v, N) and v.tag in ("vec", "box"):
        v = v.kids[0]
    if not isinstance(v, S):
        raise AnalysisError("bytes of %r" % (v,))
    return v


def digests(I):
    def new(I, st, ca, a, rty, *f):
        return N("sha", (S(()),))

    def update(I, st, ca, a, rty):
        d = deref(I, st, a[0])
        store(I, st, a[0], N("sha", (seq_cat(d.kids[0], bytes_of(I, st, a[1])),)))
        return UNIT

    def finalize(I, st, ca, a, rty):
        return S((("o", ("digest", norm_seq(st, a[0].kids[0])), 0, 64, prim(I, "int", 8)),))
    I.hooks[("core::default::Default::default", "sha2::Sha512")] = new
    I.hooks[DIG + "new"] = new
    I.hooks[DIG + "update"] = update
    I.hooks[DIG + "finalize"] = finalize
    for p in ("chain_update", "finalize_into", "finalize_reset", "reset", "digest"):
        def bad(I, st, ca, a, rty, p=p):
            raise AnalysisError("Digest::" + p)
        I.hooks[DIG + p] = bad

    # hybrid_array::Array -> iterator: the bytes themselves
    def into(I, st, ca, a, rty):
        if isinstance(a[0], S):
            return N("vec", (a[0],))
        return NotImplemented
    I.hooks["core::iter::traits::collect::IntoIterator::into_iter"] = into

    def asref(I, st, ca, a, rty):
        v = deref(I, st, a[0])
        if isinstance(v, S):
            return P(a[0].loc, a[0].path, 0, seq_len(st, v))
        return NotImplemented
    for p in ("core::convert::AsRef::as_ref", "core::ops::deref::Deref::deref", "hybrid_array::Array::<T, U>::as_slice"):
        I.hooks[p] = asref

    def tovec(I, st, ca, a, rty):
        v = deref(I, st, a[0]) if isinstance(a[0], P) else a[0]
        return N("vec", (v,)) if isinstance(v, S) else NotImplemented
    I.hooks["alloc::slice::<impl [T]>::to_vec"] = tovec
    return new


def streams(I):
    """The wrapped stream: transfers n <= len bytes or fails; calls are logged in g['calls']."""
    B = prim(I, "int", 8)

    def log(st, op, *x):
        st.g["calls"] = st.g["calls"] + ((op,) + x,)

    def read(I, st, ca, a, rty):
        e = st.copy()
        log(e, "read", a[1], None)
        n = T.var(T.sym("transferred", 0, LENMAX))
        st.assume(fge(T.sub(a[1].len, n)))
        new = S((("o", "NEW", 0, n, B),))
        store(I, st, P(a[1].loc, a[1].path, a[1].idx, n), new)
        st.g["moved"] = seq_cat(st.g["moved"], new)
        log(st, "read", a[1], n)
        return [(e, err(tok("inner error"))), (st, ok(n))]

    def write(I, st, ca, a, rty):
        e = st.copy()
        log(e, "write", a[1], None)
        n = T.var(T.sym("transferred", 0, LENMAX))
        st.assume(fge(T.sub(a[1].len, n)))
        st.g["moved"] = seq_cat(st.g["moved"], seq_slice(st, slice_at(I, st, a[1]), 0, n))
        log(st, "write", a[1], n)
        return [(e, err(tok("inner error"))), (st, ok(n))]

    def flush(I, st, ca, a, rty):
        e = st.copy()
        log(e, "flush", None, None)
        log(st, "flush", None, UNIT)
        return [(e, err(tok("inner error"))), (st, ok(UNIT))]
    I.env_hooks[READ + "::read"] = read
    I.env_hooks[WRITE + "::write"] = write
    I.env_hooks[WRITE + "::flush"] = flush

    def write_all(I, st, ca, a, rty):
        e = st.copy()
        k = T.var(T.sym(("partial", len(st.g["calls"])), 0, LENMAX))
        e.assume(fge(T.sub(a[1].len, k)))
        e.g["moved"] = seq_cat(e.g["moved"], seq_slice(e, deref(I, e, a[1]), 0, k))
        log(e, "write_all", a[1], None)
        st.g["moved"] = seq_cat(st.g["moved"], slice_at(I, st, a[1]))
        log(st, "write_all", a[1], UNIT)
        return [(e, err(tok("inner error"))), (st, ok(UNIT))]

    def read_exact(I, st, ca, a, rty):
        e = st.copy()
        k = T.var(T.sym(("partial", len(st.g["calls"])), 0, LENMAX))
        e.assume(fge(T.sub(a[1].len, k)))
        for s, n in ((e, k), (st, a[1].len)):
            new = S((("o", "NEW", 0, n, B),))
            store(I, s, P(a[1].loc, a[1].path, a[1].idx, n), new)
            s.g["moved"] = seq_cat(s.g["moved"], new)
        log(e, "read_exact", a[1], None)
        log(st, "read_exact", a[1], UNIT)
        return [(e, err(tok("inner error"))), (st, ok(UNIT))]
    I.env_hooks[WRITE + "::write_all"] = write_all
    I.env_hooks[READ + "::read_exact"] = read_exact


def start(ctx, ty):
    I = ctx.interp()
    digests(I)
    streams(I)
    st = State()
    st.g["calls"] = ()
    st.g["moved"] = S(())
    r = I.run(ctx.fn("librezip::filter::%s::new" % ty), [tok("inner")], st)
    if len(r) != 1:
        raise AnalysisError("%s::new has %d outcomes" % (ty, len(r)))
    return I, r[0][0], r[0][1]


def run(ctx):
    for ty, trait, ops in (("FilterRead::<R>", READ, ("read",)), ("FilterWrite::<W>", WRITE, ("write", "flush"))):
        ctx.attempt(ty, filt, ctx, ty, trait, ops)


def filt(ctx, ty, trait, ops):
    I, st, v = start(ctx, ty)
    d = sha_of(v)
    f = ctx.fn("librezip::filter::%s::new" % ty)
    ctx.ob("%s: a new filter has an empty digest" % ty, len(d) == 1 and d[0].kids[0] == S(()), repr(v), "%s:%s" % (f.file, f.line))
    # the methods implemented
    self_path = "librezip::filter::" + ty.split("::")[0]
    impls = [g for g in ctx.crate().fns if g.local and g.impl_self == self_path and g.impl_trait and
             g.impl_trait.split("<")[0] == trait and g.body and g.kind != "closure"]
    names = set(g.name for g in impls)
    for n in ops:
        if n not in names:
            raise Anchor("%s of %s" % (n, ty))
    seen = set()
    for g in impls:
        if g.path in seen:
            continue
        seen.add(g.path)
        if g.name in ops:
            ctx.attempt("%s::%s" % (ty, g.name), method, ctx, ty, g)
        elif g.name not in ("is_read_vectored", "is_write_vectored"):
            ctx.ob("%s::%s" % (ty, g.name), None, "overridden method without a model")
    ctx.attempt("%s::hash" % ty, hashes, ctx, ty)


def method(ctx, ty, g):
    I, st, v = start(ctx, ty)
    B = prim(I, "int", 8)
    pre = S((("o", "PRE", 0, I.lensym("PRE"), B),))
    st.mem[("env", "self")] = replace(v, lambda d: N("sha", (pre,)))
    n = I.lensym("BUF")
    st.mem[("env", "buf")] = S((("o", "BUF", 0, n, B),))
    buf = P(("env", "buf"), (), 0, n)
    where = "%s:%s" % (g.file, g.line)
    args = [P(("env", "self"))] + ([] if g.name == "flush" else [buf])
    res = I.run(g, args, st)
    nm = "%s::%s" % (ty.split("::")[0], g.name)
    for p in I.panics:
        ctx.ob("%s does not panic" % nm, False, repr(p), "%s:%s" % (p.file, p.line))
    outs = set()
    for s0, r in res:
        for s, (fwd, ret, dig, kind, msg) in cases(I, s0, lambda s: judge(I, s, r, g.name, buf, pre)):
            outs.add(kind)
            ctx.ob("%s forwards once, with the caller's buffer (%s)" % (nm, kind), fwd, msg, where)
            ctx.ob("%s reports what the stream reported (%s)" % (nm, kind), ret, "returns %r after %r" % (r, s.g["calls"]), where)
            ctx.ob("%s digests exactly the transferred bytes (%s)" % (nm, kind), dig, msg, where)
    ctx.ob("%s can succeed and fail" % nm, outs >= {"ok", "error"}, repr(outs), where)


def judge(I, s, r, op, buf, pre):
    calls = s.g["calls"]
    one = len(calls) == 1 and calls[0][0] == op
    if one and op != "flush":
        p = calls[0][1]
        one = (p.loc, p.path) == (buf.loc, buf.path) and s.need(feq(T.sub(p.idx, buf.idx))) and s.need(feq(T.sub(p.len, buf.len)))
    kind = "?"
    ret = False
    if calls:
        n = calls[-1][2]
        kind = "error" if n is None else "ok"
        if n is None:
            ret = r == err(tok("inner error"))
        elif isinstance(r, N) and r.tag == ("enm", 0):
            ret = r.kids[0] == n if not isinstance(n, (int, T.Lin)) else s.need(feq(T.sub(r.kids[0], n)))
    d = sha_of(s.mem[("env", "self")])
    want = seq_cat(pre, s.g["moved"])
    dig = False
    if len(d) == 1:
        q = I.seq_eq(s, d[0].kids[0], want)
        dig = q is not None and s.decide(q) is True
        if not dig and not s.need(feq(T.sub(d[0].kids[0].length(), want.length()))):
            dig = False
    return one, ret, dig, kind, "calls %r, digested %r, expected %r" % (calls, d, want)


def hashes(ctx, ty):
    I, st, v = start(ctx, ty)
    B = prim(I, "int", 8)
    pre = S((("o", "PRE", 0, I.lensym("PRE"), B),))
    v = replace(v, lambda d: N("sha", (pre,)))
    f = ctx.fn("librezip::filter::%s::hash" % ty)
    for s, r in I.run(f, [v], st):
        want = S((("o", ("digest", pre), 0, 64, B),))
        q = isinstance(r, N) and r.tag == "vec" and I.seq_eq(s, r.kids[0], want)
        ctx.ob("%s::hash returns the digest of the digested bytes" % ty.split("::")[0], q is True, "returns %r" % (r,),
               "%s:%s" % (f.file, f.line))
