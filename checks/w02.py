"""W02: output and history window in lockstep."""
from .env import *
from .c04 import at, okval, panics
from .w01 import CB
from .cmd import run_cat, BLOCK

RULE = ("Abstract interpretation of decompressed_block in product with two copies of a specification: the bytes given to the window and "
        "the bytes given to the output are each compared, at every write, with what the block decodes to (stored: its data; compressed: "
        "per code its literal or the copy of its distance and length, in order; lists of codes of unknown length, loop invariants "
        "inferred); on success both have consumed the whole block, and a failing write or copy is not reported as success. A copy is one "
        "operation on both (W01). Command cat: for a stream of any number of blocks, every block goes once, in order, to the same window "
        "and to standard output, the window holding exactly the blocks before it.")
ASSUMPTIONS = ["CircularBuffer::copy writes and appends the same bytes (W01)", "write_all delivers all the bytes or fails"]
TECHNIQUE = "abstract interpretation of MIR in product with a specification automaton"
FLOOR = 8

CODES = "librezip::serialise::decompressed_codes"


def run(ctx):
    ctx.fn(BLOCK)
    ctx.fn(CODES)
    items = [("block", k) for k in ("stored", "fixed", "dynamic", "codes")] + [("cat", "")]
    ctx.pmap(one, items)


def one(ctx, item):
    if item[0] == "block":
        ctx.attempt(item[1], block, ctx, item[1])
    else:
        ctx.attempt("cat", cat, ctx)


def block(ctx, kind):
    I = ctx.interp()
    bitvecs(I)
    U8 = prim(I, "int", 8)
    cty = adt(I, "librezip::Code")
    stored = kind == "stored"
    n = T.var(T.sym("block length", 0, LENMAX))
    f = ctx.fn(CODES if kind == "codes" else BLOCK)
    name = kind + " block"

    def bad(st, what):
        st.g["bad"] = st.g["bad"] or what

    def feed(I, st, side, s):
        """The bytes s are given to one side."""
        s = norm_seq(st, s)
        who = "window" if side == "win" else "output"
        while s.segs:
            k = st.g[side]
            x = s.segs[0]
            m = st.c.norm(seglen(x))
            if not stored:
                if not (isinstance(m, int) and m <= 64):
                    raise AnalysisError("%r bytes given to the %s at once" % (m, who))
                m = 1
            if st.need(feq(m)):
                _, s = seq_split(st, s, m)
                continue
            if not st.need(fge(T.sub(T.sub(n, k), m))):
                return bad(st, "bytes that are not in the block are given to the " + who)
            if stored:
                if side == "win" and x[0] == "o" and x[1] == "DATA" and st.need(fge(T.sub(T.sub(n, x[2]), cap))) and st.need(fge(T.sub(x[2], k))):
                    k = x[2]    # what the window would drop anyway may be left out
                h, s = seq_split(st, s, m)
                q = I.seq_eq(st, h, S((("o", "DATA", st.c.norm(k), m, U8),)))
            else:
                v = I.seq_get(st, s, 0)
                _, s = seq_split(st, s, 1)
                u = I.mat(cty, ("el", "CODES", st.c.norm(k)))
                if not st.need(feq(I.variant(st, u))):
                    return bad(st, "a byte is given to the %s instead of a copy" % who)
                q = I.veq(st, v, I.sub(st, u, ("f", 0, 0, I.field_ty(I.types[cty], 0, 0))))
            if q is None or q is False or not (q is True or st.need(q)):
                return bad(st, "the wrong byte is given to the " + who)
            st.g[side] = st.c.norm(T.add(k, m))

    def push(I, st, ca, a, rty, f):
        feed(I, st, "win", seq_append(st, S(()), a[1], U8))
        return UNIT

    def extend(I, st, ca, a, rty, f):
        feed(I, st, "win", slice_at(I, st, a[1]))
        return UNIT

    cap = T.var(T.sym("capacity of the window", 1, 65535))

    def capacity(I, st, ca, a, rty, f):
        return cap

    def failing(st, what, v):
        e = st.copy()
        e.g["err"] = what
        return [(e, err(IOERR)), (st, v)]

    def write_all(I, st, ca, a, rty):
        if not generic_self(I, ca):
            return NotImplemented
        feed(I, st, "out", slice_at(I, st, a[1]))
        return failing(st, "a write failed", ok(UNIT))

    def write_u8(I, st, ca, a, rty, *_):
        if not generic_self(I, ca):
            return NotImplemented
        feed(I, st, "out", seq_append(st, S(()), a[1], U8))
        return failing(st, "a write failed", ok(UNIT))

    def copy(I, st, ca, a, rty, f):
        k = st.g["win"]
        if not st.need(feq(T.sub(k, st.g["out"]))):
            bad(st, "a copy while window and output are at different places")
        elif stored or not st.need(fge(T.sub(T.sub(n, k), 1))):
            bad(st, "a copy that is not in the block")
        else:
            u = I.mat(cty, ("el", "CODES", st.c.norm(k)))
            if not st.need(feq(T.sub(I.variant(st, u), 1))):
                bad(st, "a copy instead of a byte")
            else:
                ds, ln = ref_parts(ctx, I, st, I.sub(st, u, ("f", 0, 1, I.field_ty(I.types[cty], 1, 0))))
                q = fand(feq(T.sub(a[1], ds)), feq(T.sub(a[2], ln)))
                if not (q is True or (q is not False and st.need(q))):
                    bad(st, "a copy of the wrong distance or length")
        k2 = st.c.norm(T.add(k, 1))
        st.g["win"] = st.g["out"] = k2
        return failing(st, "a copy failed", ok(UNIT))
    for nm, h in (("push", push), ("extend", extend), ("copy", copy), ("capacity", capacity)):
        I.hooks[("fn", CB + nm)] = h
        I.anchors.add(CB + nm)
    I.env_hooks[WRITE + "::write_all"] = write_all
    I.env_hooks[WBE + "::write_u8"] = I.hooks[WBE + "::write_u8"] = write_u8
    st = State()
    st.g.update(win=0, out=0, bad="", err="")
    codes = vec_u((("o", "CODES", 0, n, cty),))
    blk = {"stored": enm(0, vec_u((("o", "DATA", 0, n, U8),))), "fixed": enm(1, codes),
           "dynamic": enm(2, N("bv", (S(()),)), codes)}.get(kind)
    st.mem[("env", "cb")] = tok("window")
    if kind == "codes":
        st.mem[("env", "codes")] = codes.kids[0]
        arg = P(("env", "codes"), (), 0, n)
    else:
        st.mem[("env", "blk")] = blk
        arg = P(("env", "blk"))
    done = 0
    for s, r in I.run(f, [tok("sink"), P(("env", "cb")), arg], st):
        if s.g["bad"]:
            ctx.ob(name, False, s.g["bad"], at(f), key=s.g["bad"])
        elif s.g["err"]:
            good = r.tag == ("enm", 1)
            ctx.ob(name + ": failure", good, "" if good else "success although " + s.g["err"], at(f), key="success although " + s.g["err"])
        elif r.tag == ("enm", 1):
            ctx.ob(name, False, "refused without a reason", at(f), key="refused")
        else:
            done += 1
            for side, who in (("win", "window"), ("out", "output")):
                good = s.decide(feq(T.sub(s.g[side], n))) is True
                ctx.ob("%s: complete %s" % (name, who), good, "" if good else "%r of %r" % (s.g[side], n), at(f), key="incomplete " + who)
    ctx.ob(name + ": succeeds", bool(done), "" if done else "never", at(f), key="never succeeds")
    panics(ctx, I, name + ": panic")


# ------------------------------------------------------------------ the cat command
def cat(ctx):
    I, f, res = run_cat(ctx)
    done = 0
    for s, r in res:
        if s.g["bad"]:
            ctx.ob("cat", False, s.g["bad"], at(f), key="cat: " + s.g["bad"])
            continue
        if s.g["err"] or r.tag != ("enm", 0):
            continue
        done += 1
        q = s.g["end"] == "yes" and s.decide(feq(T.sub(s.g["k"], s.g["done"]))) is True
        ctx.ob("cat: every block is decompressed", q, "" if q else "%r of %r blocks, end %r" % (s.g["done"], s.g["k"], s.g["end"]), at(f), key="cat: blocks")
    ctx.ob("cat: succeeds", bool(done), "" if done else "never", at(f), key="cat: never succeeds")
    panics(ctx, I, "cat: panic")
