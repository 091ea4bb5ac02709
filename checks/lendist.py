"""C01 / C02: the DEFLATE length and distance codes, in both directions."""
from .env import *



# ------------------------------------------------------------------ emission
def encode_case(ctx, what, lc, dc):
    """Emit one reference whose length is in class lc and whose distance is in class dc."""
    I = ctx.interp()
    bitvecs(I)
    bit_output(I, fail=False)
    fixed_trees(I)
    inversion(I)
    f = ctx.fn("librezip::serialise::compressed_block")
    st = State()
    st.g["out"] = S(())
    st.mem[("env", "w")] = tok("writer")
    run = T.add(lc[2], T.var(T.sym("len extra", 0, lc[3] - lc[2])) if lc[3] > lc[2] else 0)
    dist = T.add(dc[2], T.var(T.sym("dist extra", 0, dc[3] - dc[2])) if dc[3] > dc[2] else 0)
    r = mkref(ctx, I, st, dist, run)
    for t, s in ((LT, lc[0]), (DT, dc[0]), (LT, 256)):
        has_code(I, st, t, s)
    st.mem[("env", "blk")] = enm(1, vec_u([("r", enm(1, r), 1)]))
    res = I.run(f, [P(("env", "w")), P(("env", "blk"))], st)
    c = lc if what == "length" else dc
    name = "%s %d..%d emitted as symbol %d with %d extra bits" % (what, c[2], c[3], c[0], c[1])
    where = "%s:%s" % (f.file, f.line)
    if not res and not I.panics:
        ctx.ob(name, False, "no path emits it", where)
        return

    for p in I.panics:
        ctx.ob(name, False, "panics: %r" % p, "%s:%s" % (p.file, p.line), key="%s %d..%d panics" % (what, c[2], c[3]))

    def spec(s):
        lx, dx = bitseq(I, s, T.sub(run, lc[2]), lc[1]), bitseq(I, s, T.sub(dist, dc[2]), dc[1])
        lb, db = seq_cat(code_bits(I, s, LT, lc[0]), lx), seq_cat(code_bits(I, s, DT, dc[0]), dx)
        out = norm_seq(s, s.g["out"])
        exp = seq_cat(bitseq(I, s, 1, 2), lb, db, code_bits(I, s, LT, 256))
        return I.seq_eq(s, out, exp), out, exp
    for st2, v in res:
        if v.tag != ("enm", 0):
            ctx.ob(name, False, "an error is returned although every code exists", where,
                   key="%s %d..%d refused" % (what, c[2], c[3]))
            continue
        for s, (q, out, exp) in cases(I, st2, spec):
            good = q is not None and s.decide(q) is True
            ctx.ob(name, good, "" if good else "emitted %r, RFC 1951 says %r" % (out, exp), where,
                   key="%s %d..%d emission" % (what, c[2], c[3]))


# ------------------------------------------------------------------ decoding
def decode_case(ctx, what, L, D):
    """Parse a fixed block made of one pair of symbols (L, D) with arbitrary extra bits."""
    I = ctx.interp()
    bitvecs(I)
    bit_input(I, fail=False)
    fixed_trees(I)
    script = [(LT, L), (DT, D), (LT, 256)]
    symbol_script(I, script)
    it = ctx.fn("<librezip::parse::BlockIter<R> as core::iter::traits::iterator::Iterator>::next")
    st = State()
    blocks = start_parse(ctx, I, st)
    st.g["pos"] = 0
    st.g["sym"] = ()
    # non-final fixed block
    st.assume(feq(in_bit(I, 0)))
    st.assume(feq(T.sub(in_bit(I, 1), 1)))
    st.assume(feq(in_bit(I, 2)))
    st.mem[("env", "it")] = blocks
    res = I.run(it, [P(("env", "it"))], st)
    n = 257 <= L <= 285
    lc = [c for c in length_classes() if c[0] == L]
    dc = [c for c in dist_classes() if c[0] == D]
    good_l, good_d = bool(lc), bool(dc)
    sy = L if what == "length" else D
    name = "%s symbol %d decoded" % (what, sy)
    where = "%s:%s" % (it.file, it.line)
    for p in I.panics:
        ctx.ob(name, False, "panics: %r" % p, "%s:%s" % (p.file, p.line), key="%s panics" % name)
    if not res and not I.panics:
        ctx.ob(name, False, "no outcome", where)
    for s, v in res:
        if v.tag != ("enm", 1):
            ctx.ob(name, False, "the block is not delivered", where)
            continue
        v = v.kids[0]
        if not (good_l and good_d):
            # only the reserved symbol of this property's kind
            ctx.ob("%s symbol %d refused" % (what, sy), v.tag == ("enm", 1),
                   "" if v.tag == ("enm", 1) else "reserved symbol accepted", where)
            continue
        if v.tag == ("enm", 1):
            # 31 as extra value of symbol 284 may be refused
            for s2, fine in cases(I, s, lambda x: L == 284 and all(x.need(feq(T.sub(in_bit(I, 3 + i), 1))) for i in range(5))):
                ctx.ob(name, fine, "" if fine else "a valid pair is refused", where, key="%s refused" % name)
            continue
        decoded(ctx, I, s, v.kids[0], what, lc[0], dc[0], L, name, where)
    return


def decoded(ctx, I, s0, blk, what, lc, dc, L, name, where):
    def spec(s):
        codes = blk.kids[0].kids[0] if isinstance(blk, N) and blk.tag == ("enm", 1) else None
        if codes is None or len(s.g["sym"]) != 3 or not s.need(feq(T.sub(seq_len(s, codes), 1))):
            return None, "not exactly one reference from symbols read %r" % (s.g["sym"],)
        c = I.seq_get(s, codes, 0)
        if not (isinstance(c, N) and c.tag == ("enm", 1)):
            return None, "not a reference: %r" % (c,)
        dist, rl = ref_parts(ctx, I, s, c.kids[0])
        p = [x[2] for x in s.g["sym"]]
        l, d = lc[2], dc[2]
        for i in range(lc[1]):
            l = T.add(l, T.scale(in_bit(I, 3 + i), 1 << i))
        for i in range(dc[1]):
            d = T.add(d, T.scale(in_bit(I, 3 + lc[1] + i), 1 << i))
        if what == "length":
            if p[1] != 3 + lc[1]:
                return None, "%d extra bits read instead of %d" % (p[1] - 3, lc[1])
            if lc[0] == 284 and s.need(fge(T.sub(l, 258))):
                # 31 as extra value of symbol 284: RFC 1951 assigns 227..257 to this symbol
                return "258", "length 258 produced"
            return feq(T.sub(rl, l)), "length %r instead of %r" % (rl, l)
        if p[2] - p[1] != dc[1]:
            return None, "%d extra bits read instead of %d" % (p[2] - p[1], dc[1])
        return feq(T.sub(dist, d)), "distance %r instead of %r" % (dist, d)
    for s, (q, msg) in cases(I, s0, spec):
        if isinstance(q, str):
            ctx.ob("%s symbol 284 with extra bits 31 refused" % what, False, msg, where,
                   key="run length 258 as symbol 284 extra 31")
            continue
        good = q is not None and s.decide(q) is True
        ctx.ob(name, good, "" if good else msg, where, key=name)


def case(ctx, item):
    kind, what, a, b = item
    if kind == "enc":
        encode_case(ctx, what, a, b)
    else:
        decode_case(ctx, what, a, b)


def run(ctx, what):
    # fail early (and not once per case) when an anchor is missing
    ctx.fn("librezip::serialise::compressed_block")
    ctx.fn("librezip::parse::parse_deflate")
    lcs, dcs = length_classes(), dist_classes()
    items = []
    if what == "length":
        others = dcs
        for lc in lcs:
            items += [("enc", what, lc, dc) for dc in others]
        for L in list(range(257, 286)):
            items += [("dec", what, L, d[0]) for d in others]
        items += [("dec", what, L, 0) for L in (286, 287)]
    else:
        others = lcs
        for dc in dcs:
            items += [("enc", what, lc, dc) for lc in others]
        for D in range(30):
            items += [("dec", what, l[0], D) for l in others]
        items += [("dec", what, 257, D) for D in (30, 31)]
    ctx.notes["cases"] = len(items)
    ctx.pmap(case, items, chunk=8)
