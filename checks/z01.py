"""Z01: the zero command writes a valid gzip file with the same contents."""
from .env import *
from .c04 import at, panics
from .cmd import stdout, start_stdout, HEADER

RULE = ("Abstract interpretation of the zero command over decompressed data of any length, in product with a specification automaton "
        "of its output (original header; stored blocks: flag byte, length, complement, that many bytes of the data; final block "
        "exactly when the data is exhausted; CRC-32 of all the data; its length modulo 2^32): every byte written, however the writes "
        "are split, is compared with what the automaton expects at that place; the loops over bytes and over blocks are summarised by "
        "inferred invariants. Success only with the automaton at its end; no failure is reported without a reason.")
ASSUMPTIONS = ["flate2 delivers the decompressed data", "crc's Digest computes the CRC-32 of what it is updated with",
               "write_all delivers all the bytes or fails"]
TECHNIQUE = "abstract interpretation of MIR in product with a specification automaton"
FLOOR = 4

RUN = "rezippers::zero::run"
M32 = 1 << 32
DEFL = ("flate2::deflate::bufread::DeflateDecoder", "flate2::deflate::read::DeflateDecoder")


def run(ctx):
    ctx.fn(RUN, "rezippers")
    ctx.attempt("zero", zero, ctx)


def source(ctx, I):
    """The decompressed data: DATA[0..n), handed out from g['pos'] on; reading may fail (g['err'])."""
    U8 = prim(I, "int", 8)
    n = T.var(T.sym("data length", 0, LENMAX))

    def failing(st, what, v):
        e = st.copy()
        e.g["err"] = what
        return [(e, err(IOERR)), (st, v)]

    def header(I, st, ca, a, rty, f):
        return failing(st, "the header is not understood", ok(vec_u((("o", "HEADER", 0, T.var(T.sym("header length", 10, LENMAX)), U8),))))

    def decoder(I, st, ca, a, rty, f):
        if st.g["decoders"]:
            raise AnalysisError("two decoders")
        st.g["decoders"] = "one"
        return tok("data")

    def is_data(I, st, v):
        k = 0
        while isinstance(v, P) and k < 8:
            v, k = deref(I, st, v), k + 1
        while isinstance(v, N) and len(v.kids) == 1:
            v = v.kids[0]
        return v == tok("data")

    def bnext(I, st, ca, a, rty, f):
        if not is_data(I, st, a[0]):
            return NotImplemented
        p = st.g["pos"]
        if not st.need(fge(T.sub(T.sub(n, p), 1))):
            return NONE
        e = st.copy()
        e.g["err"] = "the data cannot be read"
        st.g["pos"] = st.c.norm(T.add(p, 1))
        b = I.seq_get(st, S((("o", "DATA", p, 1, U8),)), 0)
        return [(e, some(err(IOERR))), (st, some(ok(b)))]

    def read(I, st, ca, a, rty, f):
        if not is_data(I, st, a[0]):
            return NotImplemented
        p = st.g["pos"]
        if st.need(feq(a[1].len)) or not st.need(fge(T.sub(T.sub(n, p), 1))):
            return ok(0)
        m = T.var(T.sym(("read", st.c.norm(p)), 1, LENMAX))
        if not (st.assume(fge(T.sub(a[1].len, m))) and st.assume(fge(T.sub(T.sub(n, p), m)))):
            raise Infeasible()
        e = st.copy()
        e.g["err"] = "the data cannot be read"
        st.g["pos"] = st.c.norm(T.add(p, m))
        store(I, st, P(a[1].loc, a[1].path, a[1].idx, m), S((("o", "DATA", p, m, U8),)))
        return [(e, err(IOERR)), (st, ok(m))]

    I.hooks[("fn", HEADER)] = header
    for d in DEFL:
        I.hooks[("fn", d + "::<R>::new")] = decoder
        I.hooks[(READ + "::read", d)] = read
    I.hooks[("core::iter::traits::iterator::Iterator::next", "alloc::io::util::Bytes")] = bnext
    for p in ("alloc::io::buffered::bufreader::BufReader::<R>::", "std::io::buffered::bufreader::BufReader::<R>::"):
        I.hooks[p + "new"] = I.hooks[p + "with_capacity"] = lambda I, st, ca, a, rty: a[-1]
    return n


def crc(I, n):
    """A digest is the length of the prefix of the data it was updated with (-1: anything else)."""
    U8 = prim(I, "int", 8)

    def more(I, st, at, p):
        s = norm_seq(st, slice_at(I, st, p))
        m = st.c.norm(seq_len(st, s))
        if at == -1 or st.need(feq(m)):
            return at
        if not st.need(fge(T.sub(n, T.add(at, m)))):
            return -1
        q = I.seq_eq(st, s, S((("o", "DATA", st.c.norm(at), m, U8),)))
        return st.c.norm(T.add(at, m)) if q is True or (q and st.need(q)) else -1

    def value(st, at):
        return T.var(T.sym(("crc", st.c.norm(at)), 0, M32 - 1))

    def new(I, st, ca, a, rty, *_):
        return N("crc", (0,))

    def update(I, st, ca, a, rty, *_):
        d = deref(I, st, a[0])
        store(I, st, a[0], N("crc", (more(I, st, d.kids[0], a[1]),)))
        return UNIT

    def finalize(I, st, ca, a, rty, *_):
        return value(st, a[0].kids[0])
    D = "crc::crc32::<impl crc::Digest<'a, u32, crc::Table<L>>>::"
    C = "crc::crc32::<impl crc::Crc<u32, crc::Table<L>>>::"
    I.hooks[C + "digest"] = new
    I.hooks[D + "update"] = update
    I.hooks[D + "finalize"] = finalize
    I.hooks[C + "checksum"] = lambda I, st, ca, a, rty, *_: value(st, more(I, st, 0, a[1]))


def automaton(I, n):
    """note(I, st, seq): bytes written, against phase / hd (header bytes) / lo,len (length field) / dpos (data bytes)."""
    U8 = prim(I, "int", 8)
    H = T.var(T.sym("header length", 10, LENMAX))

    def bad(st, what):
        st.g["bad"] = st.g["bad"] or what

    def match(I, st, s, key, at, limit, what):
        """Take bytes of s off that must be key[at..], up to limit."""
        m = st.c.norm(seglen(s.segs[0]))
        room = T.sub(limit, at)
        if not st.need(fge(T.sub(room, m))):
            m = st.c.norm(room)
        h, rest = seq_split(st, s, m)
        q = I.seq_eq(st, h, S((("o", key, st.c.norm(at), m, U8),)))
        if not (q is True or (q and st.need(q))):
            bad(st, what)
        return rest, st.c.norm(T.add(at, m))

    def note(I, st, s):
        s = norm_seq(st, s)
        while s.segs and not st.g["bad"]:
            if st.need(feq(st.c.norm(seglen(s.segs[0])))):
                s = norm_seq(st, S(s.segs[1:]))
                continue
            ph = st.g["phase"]
            if ph == "header":
                s, st.g["hd"] = match(I, st, s, "HEADER", st.g["hd"], H, "the header is not the original one")
                settle(I, st)
                continue
            if ph == "data":
                s, st.g["dpos"] = match(I, st, s, "DATA", st.g["dpos"], st.g["end"], "a stored block does not hold the data that comes next")
                settle(I, st)
                continue
            v = I.seq_get(st, s, 0)
            _, s = seq_split(st, s, 1)
            byte(I, st, ph, v)
        settle(I, st)

    def settle(I, st):
        if st.g["bad"]:
            return
        if st.g["phase"] == "header" and st.need(feq(T.sub(st.g["hd"], H))):
            st.g["phase"], st.g["hd"] = "flag", 0
        elif st.g["phase"] == "data" and st.need(feq(T.sub(st.g["dpos"], st.g["end"]))):
            after_data(I, st)
            st.g["end"] = 0

    def byte(I, st, ph, v):
        if ph == "flag":
            if st.c.interval(v)[1] > 7 if isinstance(v, Lin) else False:
                return bad(st, "a block starts with a byte that does not announce a stored block")
            if st.need(feq(v)):
                st.g["final"] = ""
            elif st.need(feq(T.sub(v, 1))):
                st.g["final"] = "final"
            else:
                return bad(st, "the first byte of a block does not announce a stored block")
            st.g["phase"] = "len0"
        elif ph == "len0":
            st.g["f0"], st.g["phase"] = st.c.norm(v), "len1"
        elif ph == "len1":
            st.g["f1"], st.g["phase"] = st.c.norm(v), "nlen0"
        elif ph in ("nlen0", "nlen1"):
            if not st.need(feq(T.sub(T.add(v, st.g["f" + ph[-1]]), 255))):
                return bad(st, "the second length field is not the complement of the first")
            if ph == "nlen0":
                st.g["phase"] = "nlen1"
            else:
                st.g["phase"] = "data"
                st.g["end"] = st.c.norm(T.add(st.g["dpos"], T.add(st.g["f0"], T.scale(st.g["f1"], 256))))
                st.g["f0"] = st.g["f1"] = 0
        elif ph.startswith("crc"):
            i = int(ph[3])
            st.g["num"] = st.c.norm(T.add(st.g["num"], T.scale(v, 1 << (8 * i))))
            st.g["phase"] = "crc%d" % (i + 1) if i < 3 else "size0"
            if i == 3:
                want = T.var(T.sym(("crc", st.c.norm(n)), 0, M32 - 1))
                if st.c.norm(T.sub(st.g["num"], want)) != 0:
                    bad(st, "the checksum is not that of the data")
                st.g["num"] = 0
        elif ph.startswith("size"):
            i = int(ph[4])
            st.g["num"] = st.c.norm(T.add(st.g["num"], T.scale(v, 1 << (8 * i))))
            st.g["phase"] = "size%d" % (i + 1) if i < 3 else "done"
            if i == 3:
                ok_ = st.decide(feq(T.sub(T.add(st.g["num"], T.scale(st.g["wraps"], M32)), n)))
                if ok_ is not True:
                    q = I.divmod(st, n, M32)[1]
                    ok_ = st.decide(feq(T.sub(st.g["num"], q)))
                if ok_ is not True:
                    bad(st, "the size is not that of the data modulo 2^32")
        else:
            bad(st, "bytes after the end of the file")

    def after_data(I, st):
        if st.g["final"]:
            st.g["phase"] = "crc0"
            if not st.need(feq(T.sub(st.g["dpos"], n))):
                bad(st, "a block is marked final although data follows")
        else:
            st.g["phase"] = "flag"
    return note


def start(I):
    st = State()
    start_stdout(st)
    st.g.update(pos=0, decoders="", phase="header", hd=0, final="", f0=0, f1=0, dpos=0, end=0, num=0, wraps=0, bad="")
    return st


def world(ctx, I):
    n = source(ctx, I)
    crc(I, n)

    def wadd(I, st, ca, a, rty, *_):
        s = T.add(a[0], a[1])
        if st.need(fge(T.sub(s, M32))):
            st.g["wraps"] = st.c.norm(T.add(st.g["wraps"], 1))
            return T.sub(s, M32)
        return s
    I.hooks["core::num::<impl u32>::wrapping_add"] = wadd
    stdout(I, record=False, note=automaton(I, n))


def zero(ctx):
    I = ctx.interp("rezippers")
    f = ctx.fn(RUN, "rezippers")
    world(ctx, I)
    done = 0
    for s, r in I.run(f, [tok("input")], start(I)):
        if s.g["bad"]:
            ctx.ob("output", False, s.g["bad"], at(f), key=s.g["bad"])
            continue
        if r.tag != ("enm", 0):
            ctx.ob("failure has a reason", bool(s.g["err"]), "" if s.g["err"] else "failure without a reason", at(f), key="failure without a reason")
            continue
        if s.g["err"]:
            continue
        good = s.g["phase"] == "done"
        done += good
        ctx.ob("output is complete", good, "" if good else "success after the " + s.g["phase"], at(f), key="output ends early")
    ctx.ob("zero: succeeds", bool(done), "" if done else "never", at(f), key="never succeeds")
