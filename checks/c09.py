"""C09: dynamic block headers are kept and written back verbatim."""
from .env import *
from .c04 import at, panics, low_bits
from .c05 import NEXT
from sa import graph as G

RULE = ("Abstract interpretation over an unknown bit stream. Parsing: from the block type to the first symbol of the block, every "
        "bit is taken through the collector (count fields, code length lengths, symbols of unknown length, repeat counts; loop "
        "invariants inferred), and the tree description in the delivered block equals the bits of the stream from just after the "
        "block type up to the position of the first symbol - none added, lost or reordered, whatever the header. Writing: for a "
        "description of any length and contents the output starts with the block type and then exactly its bits, once, before "
        "anything else.")
ASSUMPTIONS = ["bits arrive and leave in order (C04)", "a symbol is decoded by reading bits one at a time from the given source (C07)"]
TECHNIQUE = "abstract interpretation of MIR with inferred loop invariants (ghost bit positions)"
FLOOR = 4

CLT, DLT, DDT = ("tree", "code lengths"), ("tree", "dynamic length"), ("tree", "dynamic distance")
READ_BIT = "librezip::bit::BitSource::read_bit"


def run(ctx):
    ctx.fn(NEXT)
    ctx.pmap(one, [("parse", 0), ("parse", 1), ("parse", 2), ("parse", (1,)), ("emit", "empty"), ("emit", "literal")])


def one(ctx, item):
    (parse if item[0] == "parse" else emit)(ctx, item[1])


def new_tree(I, st, ca, a, rty, f):
    n = st.g["calls"]
    st.g["calls"] = n + 1
    return ok(tree_val((CLT, DLT, DDT)[min(n, 2)]))


def code_length_symbols(I, st):
    """Any code length symbol."""
    out = []
    for v in (T.var(T.sym(("literal length", len(out)), 0, 15)), 16, 17, 18):
        out.append((st.copy(), ok(v)))
    return out


def parse(ctx, width):
    """Width of the code length symbols; 0: the smallest header; (w,): after another block."""
    after = isinstance(width, tuple)
    width = width[0] if after else width
    I = ctx.interp()
    bitvecs(I)
    bit_input(I, fail=False)
    I.hooks[("fn", CT + "new")] = new_tree
    I.anchors.add(CT + "new")
    f = ctx.fn(NEXT)
    name = "parse, symbols of %d bit%s" % (width, "s" if width > 1 else "")
    fixed = width == 0
    if fixed:
        width, name = 1, "parse, smallest header"

    def dec(I, st, ca, a, rty, fn):
        t = treekey(I, st, a[0])
        if t != CLT:
            if st.g["hdr"] == "":
                st.g["hdr"] = st.g["pos"]
            return ok(256)
        rb = G.find_call(I.cr, fn, READ_BIT)
        if rb is None:
            raise AnalysisError("symbols are not decoded bit by bit")
        todo = [st]
        for _ in range(width):
            nxt = []
            for s in todo:
                for s2, r in I.call_inst(s, rb, [a[1]], rty):
                    if isinstance(r, N) and r.tag == ("enm", 0):
                        nxt.append(s2)
                    else:
                        raise AnalysisError("reading a bit fails")
            todo = nxt
        out = []
        for s in todo:
            out.extend(code_length_symbols(I, s))
        return out
    I.hooks[("fn", CT + "decode_symbol")] = dec
    I.anchors.add(CT + "decode_symbol")
    st = State()
    b = start_parse(ctx, I, st)
    if after:
        name += ", after another block"
        b = after_block(ctx, I, st, b)
    st.g.update(pos=0, calls=0, hdr="")
    st.assume(feq(in_bit(I, 1)))
    st.assume(feq(T.sub(in_bit(I, 2), 1)))
    if fixed:
        # 257 and 1 lengths, 5 code length lengths with bits 010
        for i, v in enumerate([0] * 10 + [1, 0, 0, 0] + [0, 1, 0] * 5):
            st.assume(feq(T.sub(in_bit(I, 3 + i), v)))
    st.mem[("env", "it")] = b
    done = 0
    for s, r in I.run(f, [P(("env", "it"))], st):
        blk = r.kids[0] if isinstance(r, N) and r.tag == ("enm", 1) else None
        if blk is None:
            ctx.ob(name, False, "no block is delivered", at(f), key="parse: no block")
            continue
        if blk.tag == ("enm", 1):
            continue
        blk = blk.kids[0]
        if blk.tag != ("enm", 2):
            ctx.ob(name, False, "delivered as the wrong kind of block", at(f), key="parse: kind of block")
            continue
        done += 1
        if s.g["hdr"] == "":
            ctx.ob(name, False, "accepted without decoding a symbol", at(f), key="parse: no symbol")
            continue
        n = T.sub(s.g["hdr"], 3)
        s.mem[("env", "bits")] = blk.kids[0]
        got = bits_of(blk.kids[0])
        want = S((("o", "IN", 3, s.c.norm(n), prim(I, "bool")),))
        q = I.seq_eq(s, got, want)
        good = q is not None and q is not False and s.decide(q) is True
        ctx.ob(name, good, "" if good else "kept %r of the header's bits 3..%r" % (got, s.g["hdr"]), at(f), key="parse: bits kept")
    if not fixed:
        panics(ctx, I, name + ": panic")
    ctx.ob(name + ": accepted", bool(done), "" if done else "no header is accepted", at(f), key="parse: accepted")


def emit(ctx, kind):
    I = ctx.interp()
    bitvecs(I)
    inversion(I)
    B = prim(I, "bool")
    name = "emit, %s block" % kind
    f = ctx.fn("librezip::serialise::compressed_block")
    I.hooks[("fn", CT + "new")] = new_tree
    n = T.var(T.sym("bits of the header", 0, LENMAX))

    def dec(I, st, ca, a, rty, fn):
        # the header has been written: how it is read again is C08's subject
        return code_length_symbols(I, st)
    I.hooks[("fn", CT + "decode_symbol")] = dec

    def source(I, st, ca, a, rty, fn):
        return ok(F("bit", T.var(T.sym(("header bit", len(st.tr) if isinstance(st.tr, tuple) else 0), 0, 1))))

    def step(st, s):
        """The bits s are written next."""
        s = norm_seq(st, s)
        while s.segs and not st.g["bad"]:
            k = st.g["k"]
            if isinstance(k, int) and k < 2:
                b = boolint(boolval(I.seq_get(st, s, 0)))
                want = (0, 1)[k]
                if b is None or not st.need(feq(T.sub(b, want))):
                    st.g["bad"] = "the block type is not written first"
                    return
                _, s = seq_split(st, s, 1)
                st.g["k"] = k + 1
                continue
            left = T.sub(T.add(n, 2), k)
            if st.need(feq(left)):
                st.g["rest"] = "yes"
                return
            x = s.segs[0]
            m = st.c.norm(seglen(x))
            if not st.need(fge(T.sub(left, m))):
                st.g["bad"] = "other bits are written before the description is complete"
                return
            head, s = seq_split(st, s, m)
            q = I.seq_eq(st, head, S((("o", "HEADER", st.c.norm(T.sub(k, 2)), m, B),)))
            if q is None or q is False or not (q is True or st.need(q)):
                st.g["bad"] = "a bit of the description is changed, lost or moved"
                return
            st.g["k"] = st.c.norm(T.add(k, m))

    def write_bit(I, st, ca, a, rty, f):
        step(st, seq_append(st, S(()), boolval(a[1]), B))
        return ok(UNIT)
    I.hooks[("fn", BW + "write_bit")] = write_bit
    I.anchors.add(BW + "write_bit")

    # re-reading the description: any outcome
    I.hooks[("fn", "librezip::huffman::read_codes")] = lambda I, st, ca, a, rty, f: ok(agg(tree_val(DLT), some(tree_val(DDT))))
    st = State()
    st.g.update(k=0, bad="", rest="", calls=0)
    cty = adt(I, "librezip::Code")
    st.mem[("env", "w")] = tok("writer")
    codes = vec_u(()) if kind == "empty" else vec_u((("r", enm(0, T.var(T.sym("byte", 0, 255))), 1),))
    blk = enm(2, N("bv", (S((("o", "HEADER", 0, n, B),)),)), codes)
    st.mem[("env", "blk")] = blk
    for s in (256,):
        has_code(I, st, DLT, s)
    done = 0
    for s, r in I.run(f, [P(("env", "w")), P(("env", "blk"))], st):
        if s.g["bad"]:
            ctx.ob(name, False, s.g["bad"], at(f), key="emit: " + s.g["bad"])
            continue
        if okval(r) is None:
            continue
        done += 1
        good = s.decide(feq(T.sub(s.g["k"], T.add(n, 2)))) is True
        ctx.ob(name, good, "" if good else "%r of %r bits are written" % (s.g["k"], T.add(n, 2)), at(f), key="emit: complete")
    panics(ctx, I, name + ": panic")
    ctx.ob(name + ": succeeds", bool(done), "" if done else "no path succeeds", at(f), key="emit: succeeds")


from .c04 import okval      # noqa: E402
