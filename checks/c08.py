"""C08: dynamic block headers."""
from .env import *
from .c04 import at, only, panics
from .c05 import NEXT

RULE = ("Abstract interpretation of BlockIter::next and compressed_block over an unknown bit stream, in product with a specification "
        "automaton of RFC 1951 section 3.2.7. Count fields: for each of the 16 values of HCLEN, with HLIT and HDIST symbolic, the first "
        "tree is built from 19 lengths holding the 3-bit fields in the prescribed order and zero elsewhere. Code lengths (loop invariant "
        "inferred, any number of symbols): every symbol is decoded with that tree at the right bit position, and every value written to "
        "the list of lengths is compared with the announced length at its position; literal lengths, repeats of the previous length "
        "(2 bits), runs of zeros (3 and 7 bits); a repeat of nothing or beyond HLIT+HDIST must fail; exactly HLIT+HDIST lengths are "
        "taken. Trees: the literal tree is built from the first HLIT+257 lengths, the distance tree from the rest, or from a completion "
        "by an unused second code when there is exactly one one-bit code (RFC: a single distance code uses one bit), and there is no "
        "distance tree when the only distance length is zero.")
ASSUMPTIONS = ["bits arrive in stream order (C04)", "CodeTree::new builds the canonical code of its lengths (C11)"]
TECHNIQUE = "abstract interpretation of MIR in product with a specification automaton"
FLOOR = 60

ORDER = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]
CLT, DLT, DDT = ("tree", "code lengths"), ("tree", "dynamic length"), ("tree", "dynamic distance")
BLOCK = "librezip::serialise::compressed_block"


def run(ctx):
    ctx.fn(NEXT)
    ctx.fn(BLOCK)
    items = [("parse", h, None) for h in range(16)] + [("parse after another block", h, None) for h in (0, 14)] + [("emit", h, None) for h in (0, 1, 14, 15)]
    for d in (1, 2, 3, 30, 32):
        some = sorted({0, 1, d // 2, d - 1} & set(range(d)))
        items.append(("parse", 0, (d, (), True)))
        for j in some:
            items.append(("parse", 0, (d, ((j, 1),), True)))
            if d <= 3:
                items.append(("parse", 0, (d, ((j, ">"),), False)))
        for j, k in [(a, b) for a in some for b in some if a != b][:4]:
            items.append(("parse", 0, (d, ((j, 1), (k, ">")), True)))
            if j < k:
                items.append(("parse", 0, (d, ((j, 1), (k, 1)), True)))
    ctx.pmap(case, items, chunk=1)


def case(ctx, item):
    op, h, pat = item
    name = "%s, %d code length codes" % (op, h + 4)
    if pat:
        name += ", %d distance lengths: %s" % (pat[0], ", ".join("%s at %d" % (v, j) for j, v in pat[1]) or "all zero")
    ctx.attempt(name, header, ctx, name, op, h, pat)


def header(ctx, name, op, h, pat):
    after = op != "parse" and op != "emit"
    op = "parse" if after else op
    I = ctx.interp()
    bitvecs(I)
    U8, B = prim(I, "int", 8), prim(I, "bool")
    base = 3 if op == "parse" else 0
    if op == "parse":
        bit_input(I, fail=False)
        f = ctx.fn(NEXT)
    else:
        f = ctx.fn(BLOCK)
        I.hooks[("fn", BW + "write_bit")] = lambda I, st, ca, a, rty, f: ok(UNIT)
        I.hooks[("fn", BW + "write_vec")] = lambda I, st, ca, a, rty, f: ok(UNIT)
        I.hooks[("fn", BW + "write_bits_val")] = lambda I, st, ca, a, rty, f: ok(UNIT)
    I.trees = {}

    def field(at, n):
        v = 0
        for i in range(n):
            v = T.add(v, T.scale(in_bit(I, at + i), 1 << i))
        return v
    L = T.add(field(base, 5), 257)
    D = T.add(field(base + 5, 5), 1)
    total = T.add(L, D)
    first = base + 14 + 3 * (h + 4)

    def E(i):
        return I.mat(U8, ("el", "LENGTHS", i))

    def bad(st, what):
        if not st.g["bad"]:
            st.g["bad"] = what
        return err()

    def position(st):
        if op == "parse":
            return st.g["pos"]
        return NotImplemented

    # ------------------------------------------------ building the trees
    def new(I, st, ca, a, rty, f):
        if st.g["bad"]:
            return err()
        s = norm_seq(st, deref(I, st, a[0]))
        n = st.g["calls"]
        st.g["calls"] = n + 1
        if n == 0:
            want = [0] * 19
            for k in range(h + 4):
                want[ORDER[k]] = field(base + 14 + 3 * k, 3)
            if seq_len(st, s) != 19:
                return bad(st, "the code for code lengths is built from %r lengths" % (seq_len(st, s),))
            for i in range(19):
                if st.decide(feq(T.sub(I.seq_get(st, s, i), want[i]))) is not True:
                    return bad(st, "the length of code length symbol %d is taken from the wrong place" % i)
            return ok(tree_val(CLT))
        if n == 1:
            if st.g["must"]:
                if not plausible(st):
                    raise Infeasible()
                return bad(st, "accepted: " + st.g["must"])
            if not st.need(feq(T.sub(st.g["e"], total))):
                return bad(st, "the trees are built before all code lengths were read")
            if st.g["flush"] and not at_end(st):
                return bad(st, "bits are missing or left over after the code lengths")
            q = I.seq_eq(st, s, S((("o", "LENGTHS", 0, L, U8),)))
            if q is None or not (q is True or st.need(q)):
                return bad(st, "the literal and length tree is not built from the first HLIT+257 code lengths")
            if pat:
                vals = dict(pat[1])
                for i in range(pat[0]):
                    x = E(st.c.norm(T.add(L, i)))
                    v = vals.get(i, 0 if pat[2] else None)
                    if v == ">":
                        st.assume(fge(T.sub(x, 2)))
                        st.assume(fge(T.sub(15, x)))
                    elif v is not None:
                        st.assume(feq(T.sub(x, v)))
            return ok(tree_val(DLT))
        if n == 2:
            q = I.seq_eq(st, s, S((("o", "LENGTHS", L, D, U8),)))
            if q is not None and (q is True or st.need(q)):
                st.g["dist"] = "exact"
                return ok(tree_val(DDT))
            st.g["dist"] = "other"
            if pat:
                m = seq_len(st, s)
                if isinstance(m, int):
                    vs = [st.c.norm(I.seq_get(st, s, i)) for i in range(m)]
                    st.g["dist"] = ("built from", tuple(vs))
            return ok(tree_val(DDT))
        return bad(st, "a fourth tree is built")
    I.hooks[("fn", CT + "new")] = new
    I.anchors.add(CT + "new")

    def at_end(st):
        return op != "parse" or st.need(feq(T.sub(st.g["pos"], st.g["p"])))

    # ------------------------------------------------ reading the code lengths
    def dec(I, st, ca, a, rty, f):
        tk = treekey(I, st, a[0])
        if st.g["bad"]:
            return err()
        if tk != CLT:
            if tk == DLT and st.g["calls"] >= 2:
                st.g["end"] += "L"
                return ok(257)
            st.g["end"] += "D" if tk == DDT else "?"
            return err()
        if st.g["calls"] != 1:
            return bad(st, "a code length is read after the trees were built")
        if st.g["must"]:
            return err()
        pos = st.g["pos"] if op == "parse" else source_pos(I, st, a[1])
        if pos is not None and not st.need(feq(T.sub(pos, st.g["p"]))):
            return bad(st, "a code length is read from the wrong bit position")
        e = st.g["e"]
        if not st.need(fge(T.sub(T.sub(total, e), 1))):
            return bad(st, "more code lengths are read than announced")
        out = []
        s = st.copy()
        v = E(s.c.norm(e))
        s.assume(fge(T.sub(15, v)))
        s.g.update(s=e, es=e, e=s.c.norm(T.add(e, 1)), v=v)
        out.append((s, ok(v)))
        for sym, extra, least in ((16, 2, 3), (17, 3, 3), (18, 7, 11)):
            s = st.copy()
            p = s.g["p"]
            n = least
            for i in range(extra):
                n = T.add(n, T.scale(in_bit(I, s.c.norm(T.add(p, i))), 1 << i))
            alts = [s]
            if sym == 16:
                z = s.copy()
                if z.assume(feq(e)) is not False and not z.c.bad:
                    z.g["must"] = "a repeat with nothing before it"
                    out.append((z, ok(sym)))
                s.assume(fge(T.sub(e, 1)))
                if s.c.bad:
                    continue
            else:
                s.g.update(es=e, v=0)
            z = s.copy()
            z.assume(fge(T.sub(T.sub(T.add(e, n), total), 1)))
            if not z.c.bad:
                z.g["must"] = "a repeat beyond the announced number of lengths"
                z.g.update(s=e, e=z.c.norm(T.add(e, n)), p=z.c.norm(T.add(p, extra)))
                out.append((z, ok(sym)))
            s.assume(fge(T.sub(total, T.add(e, n))))
            if s.c.bad:
                continue
            s.g.update(s=e, e=s.c.norm(T.add(e, n)), p=s.c.norm(T.add(p, extra)))
            out.append((s, ok(sym)))
        return out
    p = CT + "decode_symbol"
    I.hooks[("fn", p)] = dec
    I.anchors.add(p)

    def source_pos(I, st, p):
        v = deref(I, st, p)
        for k in getattr(v, "kids", ()):
            if isinstance(k, (int, Lin)):
                return k
        return None

    def on_set(I, st, pos, v, n):
        if st.g["calls"] != 1 or st.g["bad"] or not isinstance(v, (int, Lin)):
            return None
        if st.c.norm(st.g["e"]) == 0 or len(I.stack) == 0:
            return None
        if v == 0 and st.g["calls"] == 1 and st.need(fge(T.sub(pos, st.g["e"]))):
            return None                         # preparing room
        if not st.need(fge(T.sub(st.g["e"], T.add(pos, n)))):
            if st.g["must"]:
                return None
            bad(st, "a code length is stored at the wrong position")
            return None
        k = vkey(st, v)
        if k is not None and k[0] == "el" and k[1] == "LENGTHS" and n == 1:
            if st.holds(feq(T.sub(k[2], pos))):
                return (("o", "LENGTHS", st.c.norm(pos), n, U8),)
            same = st.holds(fge(T.sub(k[2], st.g["es"]))) and st.holds(fge(T.sub(T.sub(st.g["e"], k[2]), 1)))
        else:
            same = False
        if not st.need(fge(T.sub(pos, st.g["s"]))):
            bad(st, "a code length is overwritten")
            return None
        if not same and not st.need(feq(T.sub(v, st.g["v"]))):
            bad(st, "the wrong value is stored as a code length")
            return None
        return (("o", "LENGTHS", st.c.norm(pos), n, U8),)
    I.on_set = on_set

    st = State()
    st.g.update(pos=0, bad="", calls=0, must="", e=0, s=0, es=0, v=0, p=first, dist="", end="", flush="yes" if op == "parse" else "")
    if op == "parse":
        b = start_parse(ctx, I, st)
        if after:
            b = after_block(ctx, I, st, b)
        st.assume(feq(in_bit(I, 1)))
        st.assume(feq(T.sub(in_bit(I, 2), 1)))
        st.mem[("env", "it")] = b
        args = [P(("env", "it"))]
    else:
        inversion(I)
        n = T.var(T.sym("bits of the header", 0, LENMAX))
        st.assume(fge(T.sub(n, 100000)))
        st.mem[("env", "w")] = tok("writer")
        st.mem[("env", "blk")] = enm(2, N("bv", (S((("o", "IN", 0, n, B),)),)), vec_u(()))
        args = [P(("env", "w")), P(("env", "blk"))]
    for i in range(4):
        st.assume(feq(T.sub(in_bit(I, base + 10 + i), (h >> i) & 1)))
    if pat:
        for i in range(5):
            st.assume(feq(T.sub(in_bit(I, base + 5 + i), ((pat[0] - 1) >> i) & 1)))
    res = I.run(f, args, st)
    panics_outside(ctx, I, name, op)
    built = 0
    for s, r in res:
        g = s.g
        if g["bad"]:
            ctx.ob(name, False, g["bad"], at(f), key="%s: %s" % (op, g["bad"]))
            continue
        if g["calls"] < 2:
            # refused: allowed only for the two faults (trees always build here)
            if not g["must"]:
                ctx.ob(name, False, "a valid header is refused", at(f), key=op + ": valid header refused")
            continue
        built += 1
        if op != "parse":
            ctx.ob(name, g["dist"] != "other", "" if g["dist"] != "other" else "the distance tree is built from other lengths", at(f)) if not g["dist"] else None
            continue
        check_distance(ctx, name, f, I, s, L, D, pat, E)
    ctx.ob(name + ": headers are accepted", bool(built), "" if built else "never accepted", at(f), key=op + ": accepted")


def check_distance(ctx, name, f, I, s, L, D, pat, E):
    g = s.g
    if not g["end"].startswith("L") or "?" in g["end"]:
        ctx.ob(name, False, "the codes of the block are decoded with the wrong tree", at(f), key="wrong tree for codes")
        return
    has = g["end"] == "LD"
    if g["calls"] == 2:
        q = fand(feq(T.sub(D, 1)), feq(E(s.c.norm(T.add(L, 0)))))
        good = not has and s.decide(q) is True
        ctx.ob(name + ": no distance tree", good, "" if good else "no distance tree although there are distance codes", at(f), key="distance tree missing")
        return
    if not has:
        ctx.ob(name + ": distance tree", False, "the distance tree is not used", at(f), key="distance tree unused")
        return
    if g["dist"] == "exact":
        good, why = True, ""
        if pat and pat[2] and len(pat[1]) == 1 and pat[1][0] == (pat[1][0][0], 1) and pat[0] > 1 and pat[1][0][0] < 30:
            good, why = False, "a single distance code of one bit is refused as incomplete"
        ctx.ob(name + ": distance lengths", good, why, at(f), key="distance tree from its lengths")
        return
    if g["dist"] == "other":
        # with unknown lengths: some completion; checked pattern by pattern
        ctx.ob(name + ": distance lengths", True, "completed", at(f), key="distance tree completed")
        return
    vs = g["dist"][1]
    ones = [i for i, v in enumerate(vs) if v != 0]
    if len(pat[1]) == 1 and pat[1][0][1] == 1 and pat[2]:
        j = pat[1][0][0]
        good = j >= 30 or (len(ones) == 2 and ones[0] == j and all(vs[i] == 1 for i in ones))
        ctx.ob(name + ": single code", good, "" if good else "built from %r" % (vs,), at(f), key="single distance code completed wrongly")
    else:
        ctx.ob(name + ": distance lengths", False, "built from %r" % (vs,), at(f), key="distance tree from other lengths")


def panics_outside(ctx, I, name, op):
    for p in I.panics:
        if op == "emit":
            continue            # hand-made tree descriptions may be truncated
        ctx.ob(name + ": panic", False, repr(p), "%s:%s" % (p.file, p.line), key="%s: panic %s" % (op, p.key()))
