"""C05: stored blocks."""
from .env import *
from .c04 import at, only, steps, okval, start_writer, sbit, v01, panics, same

RULE = ("Abstract interpretation of BlockIter::next and compressed_block with the real bit reader and writer, over symbolic bytes, "
        "for each of the eight bit offsets at which a stored block can start and an arbitrary block length. Parsing: accepted exactly "
        "when every padding bit is zero and length + complement = 65535 (both little endian); the data are the bytes that follow, "
        "all of them taken and nothing more; the next bit comes from the next byte; no panic. Emission: zero padding, length, "
        "complement, the same bytes, byte aligned afterwards; data longer than 65535 bytes is refused.")
ASSUMPTIONS = ["read_exact delivers the next bytes or fails; write_all delivers all the bytes or fails"]
TECHNIQUE = "abstract interpretation of MIR (bit-exact symbolic domain)"
FLOOR = 60


def run(ctx):
    ctx.fn(NEXT)
    ctx.fn("librezip::serialise::compressed_block")
    for k in range(8):
        ctx.attempt("parsing at bit offset %d" % k, parse, ctx, k)
        ctx.attempt("emission at bit offset %d" % k, emit, ctx, k)


NEXT = "<librezip::parse::BlockIter<R> as core::iter::traits::iterator::Iterator>::next"


def reader_at(ctx, I, st, k, it="it"):
    """Advance the BitReader inside the block iterator by k bits."""
    v = st.mem[("env", it)]
    path = find_adt(I, adt_ty(I, "librezip::parse::BlockIter"), "librezip::bit::BitReader")
    out = steps(I, st, ctx.fn(BR + "read_bit"), lambda s, i: [P(("env", it), path)], k, lambda s, r: r)
    return out, path


def adt_ty(I, path):
    return adt(I, path)


def find_adt(I, ty, path):
    """Access path from a struct to its (first) field of the given struct type."""
    for i, (n, t) in enumerate(I.types[ty]["variants"][0]["fields"]):
        x = I.types[t]
        if x["k"] == "adt" and x["path"] == path:
            return (("f", i, None, None),)
    raise AnalysisError("no field of type %s" % path)


def parse(ctx, k):
    f = ctx.fn(NEXT)
    I = ctx.interp()
    byte_input(I, fail=False)
    st = State()
    st.g.update(pos=0, err="")
    it = start_parse(ctx, I, st)
    st.mem[("env", "it")] = it
    out, path = reader_at(ctx, I, st, k)
    head = (k + 3 + 7) // 8                 # bytes holding the header bits
    for s, _ in out:
        def bit(i, s=s):
            return I.bits(s, in_byte(I, i // 8), 8)[i % 8]
        s.assume(feq(bit(k + 1)))
        s.assume(feq(bit(k + 2)))
        pad = [bit(i) for i in range(k + 3, head * 8)]
        b = [in_byte(I, head + i) for i in range(4)]
        ln, cl = T.add(b[0], T.scale(b[1], 256)), T.add(b[2], T.scale(b[3], 256))
        acc = 0
        fine = [feq(T.sub(T.add(b[i], b[i + 2]), 255)) for i in range(2)]
        splits = [("valid", fine + [feq(x) for x in pad])]
        splits += [("invalid", [fnot(q)] + [feq(x) for x in pad]) for q in fine]
        splits += [("invalid", [feq(T.sub(x, 1))]) for x in pad]
        for kind, facts in splits:
            s1 = s.copy()
            for q in facts:
                s1.assume(q)
            v = kind == "valid"
            for s3, r in I.run(f, [P(("env", "it"))], s1):
                if not (isinstance(r, N) and r.tag == ("enm", 1)):
                    ctx.ob("a stored block is delivered", False, "no item: %r" % (r,), at(f))
                    continue
                r = r.kids[0]
                good = r.tag == ("enm", 0)
                ctx.ob("offset %d: %s stored header %s" % (k, "valid" if v else "invalid", "accepted" if v else "refused"), v == good,
                       "" if v == good else ("refused" if v else "accepted"), at(f), key="stored header %s" % ("refused" if v else "accepted"))
                if not (v and good):
                    continue
                acc += 1
                blk = r.kids[0]
                data = blk.kids[0].kids[0] if blk.tag == ("enm", 0) else None
                if data is None:
                    ctx.ob("offset %d: a stored block is delivered" % k, False, "delivered as %r" % (blk,), at(f))
                    continue
                same(ctx, I, s3, "offset %d: contents" % k, f,
                     lambda x: (I.seq_eq(x, data, in_bytes(I, head + 4, ln)), data), "data")
                same(ctx, I, s3, "offset %d: bytes taken" % k, f,
                     lambda x: (feq(T.sub(x.g["pos"], T.add(ln, head + 4))), x.g["pos"]), "position")
                for s4, r4 in I.run(ctx.fn(BR + "read_bit"), [P(("env", "it"), path)], s3.copy()):
                    same(ctx, I, s4, "offset %d: the bit after the block" % k, f,
                         lambda x: (feq(T.sub(v01(x, okval(r4)), I.bits(x, in_byte(I, x.c.norm(T.add(ln, head + 4))), 8)[0])), r4), "bit")
        ctx.ob("offset %d: stored blocks can be parsed" % k, bool(acc), "" if acc else "never accepted", at(f))
    panics(ctx, I, "parsing a stored block panics")


def emit(ctx, k):
    f = ctx.fn("librezip::serialise::compressed_block")
    I = ctx.interp()
    byte_output(I)
    st = start_writer(ctx, I)
    wb = ctx.fn(BW + "write_bit")
    n = T.var(T.sym("block length", 0, LENMAX))
    for s, _ in steps(I, st, wb, lambda s, i: [P(("env", "w")), sbit(I, i)], k, lambda s, r: r):
        s.mem[("env", "blk")] = enm(0, vec_u([("o", "DATA", 0, n, prim(I, "int", 8))]))
        seen = set()
        for s2, r in I.run(f, [P(("env", "w")), P(("env", "blk"))], s):
            good = okval(r) is not None
            for s3, fits in cases(I, s2, lambda x: x.need(fge(T.sub(65535, n)))):
                seen.add(fits)
                ctx.ob("offset %d: %s data %s" % (k, "storable" if fits else "oversized", "emitted" if fits else "refused"), good == fits,
                       "" if good == fits else ("refused" if fits else "emitted"), at(f), key="stored emission of %s data" % ("storable" if fits else "oversized"))
                if not (fits and good):
                    continue
                head = (k + 2 + 7) // 8

                def q(x):
                    o = norm_seq(x, x.g["bytes"])
                    fs = [feq(T.sub(seq_len(x, o), T.add(n, head + 4)))]
                    if not x.need(fs[0]):
                        return None, "%r bytes" % (seq_len(x, o),)
                    v = [I.seq_get(x, o, i) for i in range(head + 4)]
                    for i in range(head):
                        want = 0
                        for j in range(8):
                            if 8 * i + j < k:
                                want = T.add(want, T.scale(boolint(boolval(sbit(I, 8 * i + j))), 1 << j))
                        fs.append(feq(T.sub(v[i], want)))
                    v = v[head:]
                    fs.append(feq(T.sub(T.add(v[0], T.scale(v[1], 256)), n)))
                    fs.append(feq(T.sub(T.add(T.add(v[2], T.scale(v[3], 256)), n), 65535)))
                    e = I.seq_eq(x, seq_slice(x, o, head + 4, n), S((("o", "DATA", 0, n, prim(I, "int", 8)),)))
                    return (None if e is None else fand(e, *fs)), o
                same(ctx, I, s3, "offset %d: emitted bytes" % k, f, q, "written")
                # aligned afterwards: eight more bits make exactly one more byte
                for s4, rs in steps(I, s3.copy(), wb, lambda s, i: [P(("env", "w")), sbit(I, 20 + i)], 8, lambda s, r: r):
                    want = 0
                    for j in range(8):
                        want = T.add(want, T.scale(boolint(boolval(sbit(I, 20 + j))), 1 << j))
                    same(ctx, I, s4, "offset %d: aligned afterwards" % k, f,
                         lambda x: (fand(feq(T.sub(seq_len(x, x.g["bytes"]), T.add(n, head + 5))),
                                         feq(T.sub(I.seq_get(x, x.g["bytes"], x.c.norm(T.add(n, head + 4))), want))), x.g["bytes"]), "written")
        ctx.ob("offset %d: stored blocks are emitted" % k, True in seen, "" if True in seen else "never", at(f))
    panics(ctx, I, "emitting a stored block panics")
