from .env import *

RULE = ("Constant propagation through abstract interpretation: every CodeTree that the parser consults for a block of the "
        "fixed type, and every CodeTree whose inversion the re-encoder uses for one, must have been built by CodeTree::new "
        "from constant code lengths equal to RFC 1951 section 3.2.6 (the 288 literal/length and the 32 distance lengths).")
ASSUMPTIONS = ["CodeTree::new builds the canonical code of the lengths it is given"]
TECHNIQUE = "constant propagation / abstract interpretation of MIR"
FLOOR = 5


def tree_ob(ctx, I, role, key, where):
    want = FIXED_LENS if role == "length" else FIXED_DIST
    got = I.trees.get(key)
    good = got == want
    d = ""
    if not good:
        if isinstance(got, list):
            bad = [i for i in range(max(len(got), len(want))) if got[i:i + 1] != want[i:i + 1]]
            d = "%d lengths, first difference at symbol %d" % (len(got), bad[0])
        else:
            d = "built from %r" % (got,)
    return good, d


def run(ctx):
    ctx.attempt("parsing", parsing, ctx)
    ctx.attempt("emission", emission, ctx)


def parsing(ctx):
    I = ctx.interp()
    bitvecs(I)
    trees(I)
    bit_input(I, fail=False)
    used = []

    def dec(I, st, ca, a, rty, f):
        k = st.g["n"]
        used.append((k, treekey(I, st, a[0])))
        st.g["n"] = k + 1
        return ok([257, 0, 256][k])
    I.hooks[("fn", CT + "decode_symbol")] = dec
    it = ctx.fn("<librezip::parse::BlockIter<R> as core::iter::traits::iterator::Iterator>::next")
    st = State()
    b = start_parse(ctx, I, st)
    st.g["pos"] = 0
    st.g["n"] = 0
    st.assume(feq(T.sub(in_bit(I, 1), 1)))
    st.assume(feq(in_bit(I, 2)))
    st.mem[("env", "it")] = b
    I.run(it, [P(("env", "it"))], st)
    where = "%s:%s" % (it.file, it.line)
    for n, role in ((0, "length"), (1, "distance"), (2, "length")):
        ks = set(k for i, k in used if i == n)
        if not ks:
            ctx.ob("%s symbol of a fixed block is decoded" % role, False, "no path decodes it", where)
        for k in ks:
            g, d = tree_ob(ctx, I, role, k, where)
            ctx.ob("%s tree used to parse a fixed block" % role, g, d, where)


def emission(ctx):
    I = ctx.interp()
    bitvecs(I)
    trees(I)
    bit_output(I, fail=False)
    inversion(I)
    f = ctx.fn("librezip::serialise::compressed_block")
    where = "%s:%s" % (f.file, f.line)
    # a literal, then a reference: which tables do the bits come from?
    st = State()
    st.g["out"] = S(())
    st.mem[("env", "w")] = tok("writer")
    r = mkref(ctx, I, st, 1, 3)
    st.mem[("env", "blk")] = enm(1, vec_u([("r", enm(0, 65), 1), ("r", enm(1, r), 1)]))
    res = I.run(f, [P(("env", "w")), P(("env", "blk"))], st)
    seen = 0
    for s, v in res:
        if v.tag != ("enm", 0):
            continue
        tabs = []
        for x in norm_seq(s, s.g["out"]).segs:
            k = x[1]
            while isinstance(k, tuple) and k and k[0] != "inv":
                k = k[1] if len(k) > 1 else None
            if isinstance(k, tuple):
                tabs.append(k[1])
        if len(tabs) != 4:
            continue
        seen += 1
        for role, k in zip(("length", "length", "distance", "length"), tabs):
            g, d = tree_ob(ctx, I, role, k, where)
            ctx.ob("%s tree used to emit a fixed block" % role, g, d, where)
    if not seen:
        ctx.ob("codes of a fixed block are emitted from code tables", False, "no successful path with four codes", where)
