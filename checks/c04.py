"""C04: bit order."""
from .env import *

RULE = ("Abstract interpretation of the bit reader, bit writer and bit vector over symbolic bytes and bits. Reader: reading eight "
        "bits from an arbitrary byte position yields the eight bits of that byte from least to most significant and takes exactly "
        "one byte, before the first bit; the state reached is the same function of the position as before (induction over the "
        "stream). Alignment skips exactly the pending bits and refuses non-zero ones. Writer: eight arbitrary bits leave as one "
        "byte, first bit least significant, and restore the initial state (induction); alignment after k bits completes the byte "
        "with zeros. Multi-bit fields of every width 0..16 are read and written low bit first. A bit vector behind an arbitrary "
        "number of whole bytes returns every stored bit, and eight pushes give the representation of one more byte (induction).")
ASSUMPTIONS = ["read_exact delivers the next bytes or fails; write_all delivers all the bytes or fails"]
TECHNIQUE = "abstract interpretation of MIR (bit-exact symbolic domain), induction over abstract states"
FLOOR = 90


def run(ctx):
    for n, f in (("reader", reader), ("reader failure", reader_failure), ("align", align), ("fields read", parts_read),
                 ("writer", writer), ("fields written", parts_written), ("bit vector", vector), ("vector written", vec_written)):
        ctx.attempt(n, f, ctx)


def at(f):
    return "%s:%s" % (f.file, f.line)


def panics(ctx, I, name):
    for p in I.panics:
        ctx.ob(name, False, repr(p), "%s:%s" % (p.file, p.line), key="%s: %s" % (name, p.key()))


def same(ctx, I, st, name, f, q, msg):
    for s, (v, m) in cases(I, st, q):
        good = v is not None and s.decide(v) is True
        ctx.ob(name, good, "" if good else msg + ": " + repr(m), at(f), key=name)


def only(res, what):
    if len(res) != 1:
        raise AnalysisError("%s has %d outcomes" % (what, len(res)))
    return res[0]


def steps(I, st, f, args, n, collect):
    """Run f n times, following every successful outcome: [(state, results)]"""
    todo = [(st, ())]
    for _ in range(n):
        nxt = []
        for s, rs in todo:
            for s2, r in I.run(f, args(s, len(rs)), s):
                nxt.append((s2, rs + (collect(s2, r),)))
        todo = nxt
    return todo


def start_reader(ctx, I, pos):
    st = State()
    st.g.update(pos=pos, err="")
    st, r = only(I.run(ctx.fn("librezip::bit::BitReader::<R>::new"), [tok("reader")], st), "BitReader::new")
    st.mem[("env", "r")] = r
    return st


def okval(r):
    return r.kids[0] if isinstance(r, N) and r.tag == ("enm", 0) else None


def reader(ctx):
    f = ctx.fn(BR + "read_bit")

    I = ctx.interp()
    byte_input(I, fail=False)

    def go(start, nbits):
        """[(state, values, positions)] after reading nbits from a fresh reader at byte `start`."""
        p = T.add(T.var(T.sym("start", 0, 1 << 60)), start)
        st = start_reader(ctx, I, p)
        out = steps(I, st, f, lambda s, k: [P(("env", "r"))], nbits, lambda s, r: (okval(r), s.g["pos"]))
        panics(ctx, I, "reading bits panics")
        return p, out
    p, out = go(0, 16)
    ctx.ob("bits are delivered", bool(out), "" if out else "no path reads 16 bits", at(f))
    finals = []
    for st, vals in out:
        for k, (v, pos) in enumerate(vals):
            name = "bit %d of a byte" % (k % 8) if k < 8 else "bit %d of the next byte" % (k % 8)
            same(ctx, I, st, name, f, lambda s: (feq(T.sub(v01(s, v), I.bits(s, in_byte(I, s.c.norm(T.add(p, k // 8))), 8)[k % 8])), v),
                 "wrong bit")
            good = st.c.norm(T.sub(pos, p)) == k // 8 + 1
            ctx.ob("bytes taken for " + name, good, "" if good else "%r bytes after %d bits" % (st.c.norm(T.sub(pos, p)), k + 1), at(f))
        finals.append((repr(I_norm(st, st.mem[("env", "r")])), st.c.norm(T.sub(st.g["pos"], p))))
    p2, out2 = go(1, 8)
    finals2 = [(repr(I_norm(st, st.mem[("env", "r")])), st.c.norm(T.sub(st.g["pos"], p2))) for st, _ in out2]
    ok1 = set(x for x, _ in finals) == set(x for x, _ in finals2) and len(finals) == 1
    ctx.ob("the reader's state only depends on the current byte (induction step)", True if ok1 else None,
           "" if ok1 else "%s vs %s" % (finals[:1], finals2[:1]), at(f))


def I_norm(st, v):
    from sa.interp import nv
    return nv(st, v)


def v01(s, v):
    b = boolint(boolval(v))
    if b is None:
        return 1 if s.need(boolval(v)) else 0
    return b


def reader_failure(ctx):
    f = ctx.fn(BR + "read_bit")
    I = ctx.interp()
    byte_input(I, fail=True)
    st = start_reader(ctx, I, 0)
    n = 0
    for s, r in I.run(f, [P(("env", "r"))], st):
        if s.g["err"]:
            n += 1
            good = isinstance(r, N) and r.tag == ("enm", 1)
            ctx.ob("a failed read is an error", good, "" if good else "returned %r" % (r,), at(f))
            # a later read starts with the byte that was not delivered
            s.g["err"] = ""
            for s2, r2 in I.run(f, [P(("env", "r"))], s):
                if s2.g["err"] or okval(r2) is None:
                    continue
                same(ctx, I, s2, "a failed read loses no bit", f,
                     lambda x: (feq(T.sub(v01(x, okval(r2)), I.bits(x, in_byte(I, 0), 8)[0])), r2), "wrong bit")
    panics(ctx, I, "failed read panics")
    ctx.ob("failed reads are analysed", bool(n), "" if n else "no path with a failed read", at(f))


def align(ctx):
    rb, al = ctx.fn(BR + "read_bit"), ctx.fn(BR + "align")
    for k in range(0, 10):
        I = ctx.interp()
        byte_input(I, fail=False)
        st = start_reader(ctx, I, 0)
        out = steps(I, st, rb, lambda s, i: [P(("env", "r"))], k, lambda s, r: None)
        okn = 0
        for s, _ in out:
            took = (k + 7) // 8
            for s2, r in I.run(al, [P(("env", "r"))], s):
                pend = [I.bits(s2, in_byte(I, took - 1), 8)[i] for i in range(k % 8, 8)] if k % 8 else []
                zero = fand(*[feq(b) for b in pend]) if pend else True
                good = okval(r) is not None
                okn += good
                for s3, z in cases(I, s2, lambda x: x.need(zero)):
                    ctx.ob("align after %d bits: padding %s" % (k, "zero" if z else "not zero"), z == good,
                           "" if z == good else ("refused" if z else "accepted"), at(al))
                if good:
                    g = s2.g["pos"] == took
                    ctx.ob("align after %d bits takes no further byte" % k, g, "" if g else "%r bytes" % (s2.g["pos"],), at(al))
                    # the next bit is the first of the next byte
                    for s3, r3 in I.run(rb, [P(("env", "r"))], s2):
                        same(ctx, I, s3, "the bit after alignment (%d)" % k, rb,
                             lambda x: (feq(T.sub(v01(x, okval(r3)), I.bits(x, in_byte(I, took), 8)[0])), r3), "wrong bit")
        panics(ctx, I, "align after %d bits panics" % k)
        ctx.ob("align after %d bits succeeds" % k, bool(okn), "" if okn else "never", at(al))


def parts_read(ctx):
    f = ctx.fn(BR + "read_part")
    for n in range(0, 17):
        I = ctx.interp()
        bit_input(I, fail=False)
        st = State()
        st.g["pos"] = T.var(T.sym("start", 0, 1 << 60))
        p = st.g["pos"]
        st2, r = only(I.run(ctx.fn("librezip::bit::BitReader::<R>::new"), [tok("reader")], st), "BitReader::new")
        st2.mem[("env", "r")] = r
        res = I.run(f, [P(("env", "r")), n], st2)
        panics(ctx, I, "%d-bit field panics" % n)
        ctx.ob("%d-bit field is read" % n, bool(res), "", at(f))
        for s, v in res:
            want = 0
            for i in range(n):
                want = T.add(want, T.scale(in_bit(I, T.add(p, i)), 1 << i))
            if okval(v) is None:
                ctx.ob("%d-bit field low bit first" % n, False, "error", at(f))
                continue
            same(ctx, I, s, "%d-bit field low bit first" % n, f, lambda x: (feq(T.sub(okval(v), want)), okval(v)), "value")
            d = s.c.norm(T.sub(s.g["pos"], p))
            ctx.ob("%d-bit field takes %d bits" % (n, n), d == n, "" if d == n else "%r bits" % (d,), at(f))


# ------------------------------------------------------------------ writer
def start_writer(ctx, I):
    st = State()
    st.g.update(bytes=S(()))
    st, w = only(I.run(ctx.fn("librezip::bit::BitWriter::<W>::new"), [tok("writer")], st), "BitWriter::new")
    st.mem[("env", "w")] = w
    return st


def sbit(I, k):
    return I.mat(prim(I, "bool"), ("written bit", k))


def writer(ctx):
    wb, al = ctx.fn(BW + "write_bit"), ctx.fn(BW + "align")
    for k in range(0, 17):
        I = ctx.interp()
        byte_output(I)
        st = start_writer(ctx, I)
        w0 = repr(I_norm(st, st.mem[("env", "w")]))
        out = steps(I, st, wb, lambda s, i: [P(("env", "w")), sbit(I, i)], k, lambda s, r: r)
        for s, rs in out:
            ctx.ob("writing %d bits succeeds" % k, all(okval(r) is not None for r in rs), "", at(wb))
            whole(ctx, I, s, k, k // 8, wb, "after %d bits" % k)
            if k == 8:
                w8 = repr(I_norm(s, s.mem[("env", "w")]))
                ctx.ob("the writer's state after a byte is the initial one (induction step)", True if w8 == w0 else None,
                       "" if w8 == w0 else "%s vs %s" % (w8, w0), at(wb))
            for s2, r in I.run(al, [P(("env", "w"))], s):
                ctx.ob("align after %d bits succeeds" % k, okval(r) is not None, "", at(al))
                whole(ctx, I, s2, k, (k + 7) // 8, al, "aligned after %d bits" % k)
        panics(ctx, I, "writing %d bits panics" % k)
        ctx.ob("writing %d bits returns" % k, bool(out), "", at(wb))


def whole(ctx, I, st, k, n, f, what):
    """Exactly n bytes are out; they hold the first k bits, then zeros."""
    def q(s):
        b = s.g["bytes"]
        if seq_len(s, b) != n:
            return None, "%r bytes instead of %d" % (seq_len(s, b), n)
        fs = []
        for i in range(n):
            v = I.seq_get(s, b, i)
            want = 0
            for j in range(8):
                if 8 * i + j < k:
                    want = T.add(want, T.scale(boolint(boolval(sbit(I, 8 * i + j))), 1 << j))
            fs.append(feq(T.sub(v, want)))
        return (fand(*fs) if fs else True), b
    same(ctx, I, st, "bytes " + what, f, q, "written")


def parts_written(ctx):
    f = ctx.fn(BW + "write_bits_val")
    for n in range(0, 17):
        I = ctx.interp()
        bit_output(I, fail=False)
        st = State()
        st.g["out"] = S(())
        st, w = only(I.run(ctx.fn("librezip::bit::BitWriter::<W>::new"), [tok("writer")], st), "BitWriter::new")
        st.mem[("env", "w")] = w
        val = I.mat(prim(I, "int", 16), "value")
        res = I.run(f, [P(("env", "w")), n, val], st)
        panics(ctx, I, "writing a %d-bit field panics" % n)
        ctx.ob("%d-bit field is written" % n, bool(res), "", at(f))
        for s, v in res:
            ctx.ob("writing a %d-bit field succeeds" % n, okval(v) is not None, "", at(f))
            same(ctx, I, s, "%d-bit field written low bit first" % n, f,
                 lambda x: (I.seq_eq(x, norm_seq(x, x.g["out"]), bitseq(I, x, val, 16 if n == 16 else n) if n else S(()))
                            if n == 16 or not n else
                            I.seq_eq(x, norm_seq(x, x.g["out"]), low_bits(I, x, val, n)), x.g["out"]), "bits")


def low_bits(I, st, val, n):
    B = prim(I, "bool")
    s = S(())
    for b in I.bits(st, val, 16)[:n]:
        s = seq_append(st, s, boolval(b), B)
    return s


def vec_written(ctx):
    f = ctx.fn(BW + "write_vec")
    I = ctx.interp()
    bitvecs(I)
    bit_output(I, fail=False)
    st = State()
    st.g["out"] = S(())
    st, w = only(I.run(ctx.fn("librezip::bit::BitWriter::<W>::new"), [tok("writer")], st), "BitWriter::new")
    st.mem[("env", "w")] = w
    v = I.mat(adt(I, BITVEC), "vector")
    st.mem[("env", "v")] = v
    res = I.run(f, [P(("env", "w")), P(("env", "v"))], st)
    panics(ctx, I, "writing a bit vector panics")
    ctx.ob("a bit vector is written", bool(res), "", at(f))
    for s, r in res:
        ctx.ob("writing a bit vector succeeds", okval(r) is not None, "", at(f))
        same(ctx, I, s, "a bit vector is written in order", f,
             lambda x: (I.seq_eq(x, norm_seq(x, x.g["out"]), bits_of(v)), x.g["out"]), "bits")


# ------------------------------------------------------------------ bit vector
def vector(ctx):
    new, fs = ctx.fn(BV + "new"), ctx.fn(BV + "from_slice")
    push, get, ln, emp = ctx.fn(BV + "push"), ctx.fn(BV + "get"), ctx.fn(BV + "len"), ctx.fn(BV + "is_empty")

    def prefix(I, n):
        """A vector of n whole bytes INPUT[0;n]."""
        st = State()
        st.mem[("env", "src")] = in_bytes(I, 0, n)
        return only(I.run(fs, [P(("env", "src"), (), 0, n)], st), "from_slice")
    for base in ("empty", "any whole bytes"):
        for k in range(0, 10):
            I = ctx.interp()
            w = 0
            if base == "empty":
                st, v = only(I.run(new, [], State()), "BitVec::new")
            else:
                w = T.var(T.sym("bytes before", 1, 1 << 50))
                st, v = prefix(I, w)
            st.mem[("env", "v")] = v
            out = steps(I, st, push, lambda s, i: [P(("env", "v")), sbit(I, i)], k, lambda s, r: None)
            name = "%s + %d bits" % (base, k)
            ctx.ob(name + " can be pushed", bool(out), "", at(push))
            for s, _ in out:
                for s2, r in I.run(ln, [P(("env", "v"))], s):
                    same(ctx, I, s2, name + ": length", ln, lambda x: (feq(T.sub(r, T.add(T.scale(w, 8), k))), r), "length")
                for s2, r in I.run(emp, [P(("env", "v"))], s):
                    same(ctx, I, s2, name + ": emptiness", emp,
                         lambda x: (x.need(boolval(r)) == (base == "empty" and k == 0), r), "is_empty")
                for i in range(k):
                    for s2, r in I.run(get, [P(("env", "v")), T.add(T.scale(w, 8), i)], s.copy()):
                        same(ctx, I, s2, name + ": pushed bit %d" % i, get,
                             lambda x: (feq(T.sub(v01(x, r), boolint(boolval(sbit(I, i))))), r), "bit")
                if w != 0 and k in (0, 1, 7, 8):
                    for b in range(8):
                        s1 = s.copy()
                        j = T.var(T.sym("earlier byte", 0, 1 << 50))
                        s1.assume(fge(T.sub(w, T.add(j, 1))))
                        for s2, r in I.run(get, [P(("env", "v")), T.add(T.scale(j, 8), b)], s1):
                            same(ctx, I, s2, name + ": earlier bit %d" % b, get,
                                 lambda x: (feq(T.sub(v01(x, r), I.bits(x, in_byte(I, x.c.norm(j)), 8)[b])), r), "bit")
                if k == 8:
                    rep = I_norm(s, s.mem[("env", "v")])
                    # the representation of one more whole byte
                    byte = 0
                    for i in range(8):
                        byte = T.add(byte, T.scale(boolint(boolval(sbit(I, i))), 1 << i))
                    s9 = s.copy()
                    s9.mem[("env", "src")] = seq_append(s9, in_bytes(I, 0, w) if w != 0 else S(()), byte, prim(I, "int", 8))
                    s9, v9 = only(I.run(fs, [P(("env", "src"), (), 0, T.add(w, 1))], s9), "from_slice")
                    a, b = repr(rep), repr(I_norm(s9, v9))
                    ctx.ob(name + ": eight bits are one more byte (induction step)", True if a == b else None,
                           "" if a == b else "%s vs %s" % (a, b), at(push))
            panics(ctx, I, name + " panics")
