"""What a command sees of the world: standard output, and the library as a stream of blocks."""
from .env import *
from .c05 import NEXT
from .w01 import CB

BLOCK = "librezip::serialise::decompressed_block"
HEADER = "librezip::gzip::discard_header"
BUFW = "BufWriter::<W>::"


def sink(I, st, v):
    """Is the value (a pointer to) standard output, possibly behind a buffer?  'plain', 'buffered' or None."""
    n = 0
    while isinstance(v, P) and n < 8:
        v = deref(I, st, v)
        n += 1
    if isinstance(v, N) and v.tag == ("tok", "stdout") or v == tok("stdout"):
        return "plain"
    if isinstance(v, N) and v.tag in ("bufw", "box"):
        return sink(I, st, v.kids[0]) and ("buffered" if v.tag == "bufw" else sink(I, st, v.kids[0]))
    return None


def stdout(I, record=True, note=None):
    """Standard output: bytes written are appended to g['out'] (record), every operation may fail (g['err']), writing clears
    g['flushed'], flushing sets it.  note(I, st, seq): called with every sequence of bytes written."""
    B = prim(I, "int", 8)

    def failing(st, what, v):
        e = st.copy()
        e.g["err"] = what
        return [(e, err(IOERR)), (st, v)]

    def put(I, st, s, v=None):
        out = failing(st, "a write failed", v or ok(UNIT))
        st.g["flushed"] = ""
        if note:
            note(I, st, s)
        if record:
            st.g["out"] = seq_cat(st.g["out"], s)
        return out

    def h(name):
        def deco(f):
            def g(I, st, ca, a, rty, *_):
                k = sink(I, st, a[0])
                if k is None:
                    return NotImplemented
                if k == "buffered":
                    st.g["buffered"] = "yes"
                elif st.g.get("buffered") and not st.g["flushed"]:
                    raise AnalysisError("standard output used behind the back of a buffer")
                return f(I, st, ca, a, rty)
            I.hooks[name] = g
            return g
        return deco

    @h(WRITE + "::write_all")
    def write_all(I, st, ca, a, rty):
        return put(I, st, slice_at(I, st, a[1]))

    @h(WRITE + "::write")
    def write(I, st, ca, a, rty):
        s = slice_at(I, st, a[1])
        n = T.var(T.sym(("short write", seq_len(st, s)), 0, LENMAX))
        st.assume(fge(T.sub(seq_len(st, s), n)))
        return put(I, st, seq_slice(st, s, 0, n), ok(n))

    @h(WRITE + "::flush")
    def flush(I, st, ca, a, rty):
        out = failing(st, "flushing failed", ok(UNIT))
        st.g["flushed"] = "yes"
        return out

    def ext(width):
        def f(I, st, ca, a, rty):
            v = a[1]
            bs = []
            for i in range(width - 1):
                v, x = I.divmod(st, v, 256)
                bs.append(x)
            bs.append(v)
            ends = [I.types[t]["name"] for t in ca.get("targs", ()) if I.types[t].get("name", "").endswith("Endian")]
            if width > 1:
                if not ends:
                    raise AnalysisError("byte order of " + ca["path"])
                if ends[0].endswith("BigEndian"):
                    bs.reverse()
            s = S(())
            for x in bs:
                s = seq_append(st, s, x, B)
            return put(I, st, s)
        return f
    for n, w in (("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8)):
        h(WBE + "::write_" + n)(ext(w))

    I.hooks["std::io::stdio::stdout"] = lambda I, st, ca, a, rty: tok("stdout")
    I.hooks["std::io::stdio::Stdout::lock"] = lambda I, st, ca, a, rty: tok("stdout")
    for m in ("std", "alloc", "core"):
        for nm in ("new", "with_capacity"):
            for mod in ("::io::buffered::bufwriter::", "::io::buffered::BufWriter::"):
                I.hooks[m + mod + BUFW + nm] = lambda I, st, ca, a, rty: N("bufw", (a[-1],)) if sink(I, st, a[-1]) else NotImplemented
    return put


def start_stdout(st):
    st.g.update(out=S(()), flushed="yes", err="", buffered="")


def stream(ctx, I):
    """The library as cat sees it: a header, any number of blocks, decompression of a block.
    Ghosts: k blocks delivered, done blocks decompressed, end, bad (a specification violated), err (something failed)."""
    def failing(st, what, v):
        x = st.copy()
        x.g["err"] = what
        return [(x, err(IOERR)), (st, v)]

    def header(I, st, ca, a, rty, f):
        return failing(st, "the header is not understood",
                       ok(vec_u((("o", "HEADER", 0, T.var(T.sym("header length", 0, LENMAX)), prim(I, "int", 8)),))))

    def window(I, st, ca, a, rty, f):
        return N("win", (0,))

    def nxt(I, st, ca, a, rty, f):
        if st.g["end"]:
            st.g["bad"] = st.g["bad"] or "blocks are asked for after the end"
        e = st.copy()
        e.g["end"] = "yes"
        x = st.copy()
        x.g["err"] = "a block is not understood"
        k = st.c.norm(st.g["k"])
        st.g["k"] = st.c.norm(T.add(k, 1))
        return [(e, NONE), (x, some(err(IOERR))), (st, some(ok(N("blk", (k,)))))]

    def decompress(I, st, ca, a, rty, f):
        w = deref(I, st, a[1])
        b = deref(I, st, a[2])
        k = st.g["done"]
        if not (isinstance(b, N) and b.tag == "blk") or not (isinstance(w, N) and w.tag == "win"):
            raise AnalysisError("decompressing %r with %r" % (b, w))
        kind = sink(I, st, a[0])
        if kind is None:
            raise AnalysisError("decompressing to something other than standard output")
        if kind == "buffered":
            st.g["buffered"] = "yes"
        if not st.need(feq(T.sub(b.kids[0], k))):
            st.g["bad"] = st.g["bad"] or "a block is decompressed out of order, or twice"
        elif not st.need(feq(T.sub(w.kids[0], k))):
            st.g["bad"] = st.g["bad"] or "a block is decompressed with a window that does not hold the blocks before it"
        k2 = st.c.norm(T.add(k, 1))
        x = st.copy()
        x.g["err"] = "a block could not be written"
        st.g["done"] = k2
        store(I, st, a[1], N("win", (k2,)))
        st.g["flushed"] = ""
        return [(x, err(IOERR)), (st, ok(UNIT))]
    for p, h in ((HEADER, header), (CB + "new", window), (NEXT, nxt), (BLOCK, decompress)):
        I.hooks[("fn", p)] = h
        I.anchors.add(p)


def run_cat(ctx):
    """All paths of the cat command over any stream of blocks: [(final state, result)]."""
    I = ctx.interp("rezippers")
    f = ctx.fn("rezippers::cat::run", "rezippers")
    stdout(I, record=False)
    stream(ctx, I)
    st = State()
    start_stdout(st)
    st.g.update(k=0, done=0, bad="", end="")
    return I, f, I.run(f, [tok("input")], st)
