"""C06: every code of a compressed block, in order, and the terminator."""
from .env import *
from .c04 import at, only, okval, panics
from .c05 import NEXT

RULE = ("Abstract interpretation in product with a specification automaton. Parsing (BlockIter::next over an unknown stream of decoded "
        "symbols, loop invariants inferred): every value pushed onto the list of codes must equal the code just decoded - a literal "
        "symbol below 256, or the pair of length and distance with their extra bits, length first - in order and exactly once; "
        "symbols come from the length tree, distances from the distance tree; the block ends exactly at symbol 256. "
        "Emission (compressed_block over a list of codes of unknown length): the bits written are block type, tree description, per code "
        "its symbol bits and extra bits, length before distance, then the bits of symbol 256, nothing else. References are covered "
        "class by class (29 length classes, 30 distance classes), mixed with arbitrary literals in lists of arbitrary length.")
ASSUMPTIONS = ["CodeTree::decode_symbol/invert are inverse (C07)", "a dynamic header yields two trees (C08) and its bits (C09)"]
TECHNIQUE = "abstract interpretation of MIR in product with a specification automaton"
FLOOR = 120

DLT, DDT = ("tree", "dynamic length"), ("tree", "dynamic distance")


def run(ctx):
    ctx.fn("librezip::serialise::compressed_block")
    ctx.fn(NEXT)
    lcs, dcs = length_classes(), dist_classes()
    pairs = [(l, dcs[i % 30]) for i, l in enumerate(lcs)] + [(lcs[i % 29], d) for i, d in enumerate(dcs)]
    items = [(op, kind, l, d) for op in ("parse", "emit") for i, (l, d) in enumerate(pairs) for kind in ("fixed", "dynamic")
             if kind == "fixed" or i % 4 == 0]
    items += [(op, "no distances", lcs[0], dcs[0]) for op in ("parse", "emit")]
    items += [("parse after another block", kind, lcs[12], dcs[7]) for kind in ("fixed", "dynamic", "no distances")]
    ctx.pmap(case, items, chunk=2)


def case(ctx, item):
    op, kind, l, d = item
    ctx.attempt("%s %s %d/%d" % (op, kind, l[0], d[0]), parse if op != "emit" else emit, ctx, kind, l, d, *([True] if " " in op else []))


def code_ty(I):
    return adt(I, "librezip::Code")


def setup_trees(I, kind):
    """Which trees apply, and read_codes for dynamic blocks."""
    fixed_trees(I)
    if kind == "fixed":
        return LT, DT
    p = "librezip::huffman::read_codes"

    def read_codes(I, st, ca, a, rty, f):
        return ok(agg(tree_val(DLT), NONE if kind == "no distances" else some(tree_val(DDT))))
    I.hooks[("fn", p)] = read_codes
    I.anchors.add(p)
    return DLT, DDT


# ------------------------------------------------------------------ parsing
def parse(ctx, kind, lc, dc, after=False):
    I = ctx.interp()
    bitvecs(I)
    bit_input(I, fail=False)
    lt, dt = setup_trees(I, kind)
    cty = code_ty(I)
    U16 = prim(I, "int", 16)
    name = "parse %s, lengths of symbol %d, distances of symbol %d" % (kind, lc[0], dc[0])

    def dec(I, st, ca, a, rty, f):
        tk = treekey(I, st, a[0])
        if st.g["bad"]:
            return err()
        if st.g["phase"] == "end":
            st.g["bad"] = "a symbol is decoded after the end-of-block symbol"
            return err()
        if st.g["exp"] != "":
            st.g["bad"] = "a code is dropped"
            return err()
        if st.g["phase"] == "dist":
            if tk != dt:
                st.g["bad"] = "the distance is decoded with the wrong tree"
                return err()
            used = st.c.norm(T.sub(st.g["pos"], st.g["p0"]))
            if used != lc[1]:
                st.g["bad"] = "the distance is decoded after %r extra bits" % (used,)
                return err()
            st.g["phase"], st.g["p0"], st.g["exp"] = "code", st.g["pos"], "ref"
            return ok(dc[0])
        if tk != lt:
            st.g["bad"] = "a literal or length is decoded with the wrong tree"
            return err()
        want = st.g["bits"]
        used = st.c.norm(T.sub(st.g["pos"], st.g["p0"]))
        if used != want:
            st.g["bad"] = "a symbol is decoded after %r extra bits" % (used,)
            return err()
        sym = I.mat(U16, ("el", "SYMBOL", st.c.norm(st.g["n"])))
        st.g["bits"] = 0
        if st.need(fge(T.sub(255, sym))):
            st.g["exp"] = "lit"
            return ok(sym)
        if st.need(feq(T.sub(sym, 256))):
            st.g["phase"] = "end"
            return ok(256)
        st.g["phase"], st.g["p0"], st.g["bits"] = "dist", st.g["pos"], lc[1]
        return ok(lc[0])
    p = CT + "decode_symbol"
    I.hooks[("fn", p)] = dec
    I.anchors.add(p)

    def on_push(I, st, v, ty):
        if ty != cty:
            return v
        if st.g["bad"]:
            return v
        if st.g["exp"] == "":
            st.g["bad"] = "a code is stored that was not decoded"
            return v
        if st.g["exp"] == "lit":
            w = enm(0, I.mat(U16, ("el", "SYMBOL", st.c.norm(st.g["n"]))))
        else:
            q = st.c.norm(T.sub(st.g["pos"], st.g["p0"]))
            if q != dc[1]:
                st.g["bad"] = "%r extra bits used for a distance" % (q,)
                return v
            ln, ds = lc[2], dc[2]
            for i in range(lc[1]):
                ln = T.add(ln, T.scale(in_bit(I, st.c.norm(T.sub(T.add(st.g["p0"], i), lc[1]))), 1 << i))
            for i in range(dc[1]):
                ds = T.add(ds, T.scale(in_bit(I, st.c.norm(T.add(st.g["p0"], i))), 1 << i))
            if lc[0] == 284 and st.need(fge(T.sub(ln, 258))):
                # known finding of C01: not about order
                st.g["skip"] = "284"
            w = enm(1, mkref(ctx, I, st, ds, ln))
            st.g["p0"] = st.g["pos"]
        e = I.veq(st, v, w)
        if e is None or not st.need(e):
            st.g["bad"] = "the stored code is not the decoded one"
            return v
        k = st.c.norm(st.g["n"])
        st.g["exp"] = ""
        st.g["n"] = st.c.norm(T.add(k, 1))
        st.g["p0"], st.g["bits"] = st.g["pos"], 0
        return I.mat(cty, ("el", "CODES", k))
    I.on_push = on_push
    f = ctx.fn(NEXT)
    st = State()
    b = start_parse(ctx, I, st)
    if after:
        name += ", after another block"
        b = after_block(ctx, I, st, b)
    st.g.update(pos=0, p0=0, n=0, phase="code", exp="", bad="", bits=0, skip="")
    st.assume(feq(T.sub(in_bit(I, 1), 1 if kind == "fixed" else 0)))
    st.assume(feq(T.sub(in_bit(I, 2), 0 if kind == "fixed" else 1)))
    st.g["p0"] = 3
    st.mem[("env", "it")] = b
    res = I.run(f, [P(("env", "it"))], st)
    panics(ctx, I, name + ": panic")
    done = 0
    for s, r in res:
        what = "refused"
        if s.g["bad"]:
            ctx.ob(name, False, s.g["bad"], at(f), key="parse: " + s.g["bad"])
            continue
        if r.tag != ("enm", 1):
            ctx.ob(name, False, "no block is delivered", at(f), key="parse: no block")
            continue
        r = r.kids[0]
        if r.tag == ("enm", 1):
            def refusable(x):
                """No distances, or symbol 284 with 31 as its extra bits."""
                if x.g["phase"] != "dist":
                    return False
                at_ = x.c.norm(T.sub(x.g["pos"], x.g["p0"]))
                return kind == "no distances" or lc[0] == 284 and at_ == 5 and \
                    all(x.need(feq(T.sub(in_bit(I, x.c.norm(T.add(x.g["p0"], i))), 1))) for i in range(5))
            for s2, good in cases(I, s, refusable):
                ctx.ob(name + ": refusal", good, "" if good else "valid block refused in phase " + s2.g["phase"], at(f), key="parse: refused")
            continue
        if s.g["phase"] != "end":
            ctx.ob(name, False, "the block ends in phase %s" % s.g["phase"], at(f), key="parse: ends in phase " + s.g["phase"])
            continue
        blk = r.kids[0]
        var = 1 if kind == "fixed" else 2
        if blk.tag != ("enm", var):
            ctx.ob(name, False, "delivered as the wrong kind of block", at(f), key="parse: kind of block")
            continue
        codes = blk.kids[-1]
        done += 1
        q = isinstance(codes, N) and codes.tag == "vec" and I.seq_eq(s, codes.kids[0], S((("o", "CODES", 0, s.g["n"], cty),)))
        good = q is not None and q is not False and s.decide(q) is True
        ctx.ob(name, good, "" if good else "delivered codes %r instead of the %r decoded" % (codes, s.g["n"]), at(f), key="parse: codes delivered")
    ctx.ob(name + ": accepted", bool(done), "" if done else "no path delivers such a block", at(f), key="parse: accepted")


# ------------------------------------------------------------------ emission
def emit(ctx, kind, lc, dc):
    I = ctx.interp()
    bitvecs(I)
    inversion(I)
    lt, dt = setup_trees(I, kind)
    cty = code_ty(I)
    name = "emit %s, lengths of symbol %d, distances of symbol %d" % (kind, lc[0], dc[0])
    B = prim(I, "bool")
    n = T.var(T.sym("number of codes", 0, LENMAX))
    f = ctx.fn("librezip::serialise::compressed_block")

    def load(I, st):
        """Append what comes next to the expected output."""
        k = st.g["k"]
        if st.g["phase"] == "end":
            st.g["bad"] = "bits are written after the end-of-block symbol"
            return
        if not st.need(fge(T.sub(T.sub(n, k), 1))):
            st.g["phase"] = "end"
            st.g["pend"] = code_bits(I, st, lt, 256)
            return
        c = element(I, st, k)
        if c[0] == "lit":
            st.g["pend"] = code_bits(I, st, lt, c[1])
        else:
            ln, ds = c[1], c[2]
            st.g["pend"] = seq_cat(code_bits(I, st, lt, lc[0]), bitseq(I, st, T.sub(ln, lc[2]), lc[1]),
                                code_bits(I, st, dt, dc[0]), bitseq(I, st, T.sub(ds, dc[2]), dc[1]))
        st.g["k"] = st.c.norm(T.add(k, 1))

    def element(I, st, k):
        """Code number k: a literal, or a reference of the classes at hand."""
        u = I.mat(cty, ("el", "CODES", st.c.norm(k)))
        v = I.variant(st, u)
        if st.need(feq(v)):
            return "lit", I.sub(st, u, ("f", 0, 0, I.field_ty(I.types[cty], 0, 0)))
        r = I.sub(st, u, ("f", 0, 1, I.field_ty(I.types[cty], 1, 0)))
        ds, ln = ref_parts(ctx, I, st, r)
        return "ref", ln, ds

    def some_ref(I, ty, key):
        """Every reference in the list is of the classes at hand."""
        ln = T.add(lc[2], T.var(T.sym(("length", key), 0, lc[3] - lc[2])) if lc[3] > lc[2] else 0)
        ds = T.add(dc[2], T.var(T.sym(("distance", key), 0, dc[3] - dc[2])) if dc[3] > dc[2] else 0)
        return mkref(ctx, I, State(), ds, ln)
    I.mat_over["librezip::Ref"] = some_ref

    def consume(I, st, s):
        s = norm_seq(st, s)
        while s.segs:
            if st.g["bad"]:
                return
            st.g["pend"] = norm_seq(st, st.g["pend"])
            if not st.g["pend"].segs:
                load(I, st)
                continue
            x, y = s.segs[0], st.g["pend"].segs[0]
            if x[0] == "o" and x == y:
                s, st.g["pend"] = S(s.segs[1:]), S(st.g["pend"].segs[1:])
                continue
            if seglen(x) == 1 or seglen(y) == 1 or x[0] == y[0] == "r":
                a, b = I.seq_get(st, s, 0), I.seq_get(st, st.g["pend"], 0)
                e = I.veq(st, a, b)
                if e is None:
                    raise AnalysisError("comparing %r with %r" % (a, b))
                if not st.need(e):
                    st.g["bad"] = "a wrong bit is written"
                    return
                _, s = seq_split(st, s, 1)
                _, st.g["pend"] = seq_split(st, st.g["pend"], 1)
                continue
            if x[0] == "o" and y[0] == "o" and x[1] != y[1]:
                st.g["bad"] = "the bits of the wrong symbol are written"
                return
            raise AnalysisError("comparing %r with %r" % (x, y))

    def write_bit(I, st, ca, a, rty, f):
        consume(I, st, seq_append(st, S(()), boolval(a[1]), B))
        return ok(UNIT)

    def write_vec(I, st, ca, a, rty, f):
        consume(I, st, bits_of(deref(I, st, a[1])))
        return ok(UNIT)

    def write_bits_val(I, st, ca, a, rty, f):
        if not isinstance(a[1], int):
            return NotImplemented
        from .c04 import low_bits
        consume(I, st, low_bits(I, st, a[2], a[1]) if a[1] else S(()))
        return ok(UNIT)
    I.hooks[("fn", BW + "write_bit")] = write_bit
    I.hooks[("fn", BW + "write_vec")] = write_vec
    I.hooks[("fn", BW + "write_bits_val")] = write_bits_val

    st = State()
    st.mem[("env", "w")] = tok("writer")
    head = bitseq(I, st, 1 if kind == "fixed" else 2, 2)
    codes = vec_u([("o", "CODES", 0, n, cty)])
    if kind == "fixed":
        blk = enm(1, codes)
    else:
        tb = I.mat(adt(I, BITVEC), "description")
        head = seq_cat(head, bits_of(tb))
        blk = enm(2, tb, codes)
    st.g.update(k=0, phase="codes", bad="", pend=head)
    for t, s in ((lt, lc[0]), (dt, dc[0]), (lt, 256)):
        if t != dt or kind != "no distances":
            has_code(I, st, t, s)
    st.mem[("env", "blk")] = blk
    res = I.run(f, [P(("env", "w")), P(("env", "blk"))], st)
    done = 0
    for s, r in res:
        if s.g["bad"]:
            ctx.ob(name, False, s.g["bad"], at(f), key="emit: " + s.g["bad"])
            continue
        if r.tag == ("enm", 1):
            continue                    # a code without bits: refused
        done += 1
        good = s.g["phase"] == "end" and not norm_seq(s, s.g["pend"]).segs
        ctx.ob(name, good, "" if good else "the output stops early (%s, %r to come)" % (s.g["phase"], s.g["pend"]), at(f),
               key="emit: complete")
    ctx.ob(name + ": succeeds", bool(done), "" if done else "no path succeeds", at(f), key="emit: succeeds")
