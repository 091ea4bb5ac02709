"""R01: malformed compressed input gives an error, never a panic."""
from .env import *
from .c04 import at, steps, start_reader
from .c05 import NEXT, reader_at
from . import g01, c07, c11, w01
from .c09 import CLT, DLT, DDT
from .cmd import BLOCK

RULE = ("Abstract interpretation with overflow checks on: no path of the following reaches a panic, an index out of bounds or an overflow, "
        "every read failing or succeeding at will. gzip header, any bytes. Bit reader: bits, fields of 0..16 bits, alignment and "
        "length-prefixed data from each of the 8 bit offsets, also after a failure. Blocks: stored blocks with any length and complement at "
        "any bit offset, and whatever follows, also after an error; compressed blocks of any number of symbols: any literal, every length "
        "symbol 257..287 and distance symbol 0..31 with any extra bits, no distance tree, too; dynamic headers: each value of HCLEN with "
        "any other bits, any code length symbols, trees that can be built and trees that cannot (loop invariants inferred). "
        "Building a tree from any list of up to 65535 lengths of 0..15, along the specification of C11. Walking a tree: structural induction (C07). Decompression: blocks with any codes of "
        "distance 1..32768 and length 3..258, and the window's operations (W01: small capacities concretely, then by induction).")
ASSUMPTIONS = ["a tree yields symbols below the number of lengths it was built from (C11)", "the blocks decompressed are the parser's: "
               "distances 1..32768, lengths 3..258 (T03)", "memory does not run out"]
TECHNIQUE = "abstract interpretation of MIR (reachability of panics, bounds and overflow checks)"
FLOOR = 200

HEADER = "librezip::gzip::discard_header"


def run(ctx):
    for p in (NEXT, HEADER, BLOCK, CT + "new", CT + "decode_symbol"):
        ctx.fn(p)
    thorough = ctx.tier == "thorough"
    lens = [(s, e) for s, e in [(c[0], c[1]) for c in length_classes()]] + [(286, 0), (287, 0)]
    dists = [(c[0], c[1]) for c in dist_classes()] + [(30, 0), (31, 0)]
    items = [("tree", "any"), ("tree", "none"), ("tree", "single")]
    items += [("header", h) for h in range(15, -1, -1)]
    items += [("walk", 0), ("gzip", 0)]
    items += [("stored", k) for k in range(8)] + [("fields", k) for k in range(8)]
    items += [("reserved", 0)]
    items += [("decompress", k) for k in ("stored", "fixed", "dynamic")]
    pairs = [(l, d) for l in lens for d in dists] if thorough else \
        [(l, dists[i % len(dists)]) for i, l in enumerate(lens)] + [(lens[(7 * i) % len(lens)], d) for i, d in enumerate(dists)] + \
        [(lens[28], dists[29]), (lens[27], dists[29]), (lens[28], dists[28]), (lens[0], dists[29]), (lens[28], dists[0])]
    items += [("symbols", ("fixed", l, d)) for l, d in dict.fromkeys(pairs)]
    items += [("symbols", (k, l, d)) for k in ("dynamic", "no distances") for l, d in ((lens[0], dists[29]), (lens[28], dists[0]), (lens[30], dists[31]))]
    items += [("window", ("bounded", c, n)) for c in (1, 2, 3) for n in range(2 * c + 2)]
    try:
        roles = w01.find_roles(ctx)
        items += [("window", (k, roles, x)) for k in ("start", "push", "copy", "extend") for x in (False, True)]
        items += [("window", ("large", roles, x)) for x in w01.large(ctx)]
    except AnalysisError as e:
        ctx.ob("representation of the window", None, str(e))
    ctx.pmap(one, items, chunk=1)


def one(ctx, item):
    what, x = item
    ctx.attempt("%s %s" % (what, x), globals()["do_" + what], ctx, x)


def none(ctx, I, name, f, n=1):
    """No path of an analysis panics."""
    ps = {}
    for p in I.panics:
        ps.setdefault(p.key(), p)
    for k, p in sorted(ps.items()):
        ctx.ob(name, False, repr(p), "%s:%s" % (p.file, p.line), key="panic: " + k)
    if not ps:
        ctx.ob(name, bool(n), "" if n else "no path is analysed", at(f), key=name)


class Only:
    """Another property's analysis: only what it says about panics."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __getattr__(self, k):
        return getattr(self.ctx, k)

    def ob(self, name, status, detail="", where="", key=None):
        if status is False and "panic" not in (key or name) and "panic" not in detail:
            status = True       # wrong, perhaps, but that is for another check
        self.ctx.ob(name, status, detail, where, key=key)

    def attempt(self, what, f, ctx, *a):
        self.ctx.attempt(what, f, self, *a)

    def pmap(self, f, items, **k):
        for i in items:
            f(self, i)


# ------------------------------------------------------------------ the bit reader
def do_fields(ctx, k):
    rp, al, rl = (ctx.fn(BR + n) for n in ("read_part", "align", "read_length_prefixed"))
    rb = ctx.fn(BR + "read_bit")
    n = 0
    for f, args in [(rp, (i,)) for i in range(17)] + [(al, ()), (rl, ())]:
        I = ctx.interp()
        byte_input(I, fail=True)
        st = start_reader(ctx, I, 0)
        st.g["err"] = ""
        todo = [(st, None)]
        for _ in range(k):
            todo = [x for s, r in todo for x in I.run(rb, [P(("env", "r"))], s) if x[0].g["err"] == ""]
        for s, _ in todo:
            if f is rl and k:
                s = I.run(al, [P(("env", "r"))], s)[-1][0]
            for s2, r in I.run(f, [P(("env", "r"))] + list(args), s):
                # and on, whatever came of it
                s2.g["err"] = ""
                for s3, r in I.run(rb, [P(("env", "r"))], s2):
                    n += 1
                    if not s3.g["err"]:
                        n += len(I.run(al, [P(("env", "r"))], s3))
        none(ctx, I, "%s%s at bit offset %d" % (f.name, list(args) or "", k), f, n)


# ------------------------------------------------------------------ gzip header
def do_gzip(ctx, _):
    f = ctx.fn(HEADER)
    I = ctx.interp()
    byte_input(I, fail=True, eof=True, before=g01.before, after=g01.after)
    st = State()
    st.g.update(pos=0, phase="fixed", rem=10, over="", bad="", err="", all=S(()))
    n = len(I.run(f, [tok("reader")], st))
    none(ctx, I, "the gzip header", f, n)


# ------------------------------------------------------------------ blocks
def end_at_once(I):
    def dec(I, st, ca, a, rty, f):
        return [(st.copy(), err()), (st, ok(256))]
    I.hooks[("fn", CT + "decode_symbol")] = dec
    I.anchors.add(CT + "decode_symbol")


def do_stored(ctx, k):
    f = ctx.fn(NEXT)
    I = ctx.interp()
    fixed_trees(I)
    end_at_once(I)
    byte_input(I, fail=True)
    st = State()
    st.g.update(pos=0, err="")
    st.mem[("env", "it")] = start_parse(ctx, I, st)
    out, path = reader_at(ctx, I, st, k)
    n = 0
    for s, _ in out:
        if s.g["err"]:
            continue

        def bit(i, s=s):
            return I.bits(s, in_byte(I, i // 8), 8)[i % 8]
        s.assume(feq(bit(k + 1)))
        s.assume(feq(bit(k + 2)))
        if s.c.bad:
            continue
        for s2, r in I.run(f, [P(("env", "it"))], s):
            s2.g["err"] = ""
            n += 1
            if r.tag == ("enm", 1) and r.kids[0].tag == ("enm", 0):
                # another stored block, or the end
                b = I.bits(s2, in_byte(I, s2.c.norm(s2.g["pos"])), 8)
                s2.assume(feq(b[1]))
                s2.assume(feq(b[2]))
                if not s2.c.bad:
                    n += len(I.run(f, [P(("env", "it"))], s2))
                continue
            # reading on after an error
            for g, args in ((ctx.fn(BR + "read_bit"), []), (ctx.fn(BR + "align"), []), (ctx.fn(BR + "read_part"), [9])):
                n += len(I.run(g, [P(("env", "it"), path)] + args, s2.copy()))
    none(ctx, I, "stored blocks at bit offset %d" % k, f, n)


def do_reserved(ctx, _):
    """The reserved block type, and going on after it."""
    I = ctx.interp()
    bitvecs(I)
    bit_input(I, fail=True)
    fixed_trees(I)
    end_at_once(I)
    f = ctx.fn(NEXT)
    st = State()
    st.g.update(pos=0, err="")
    st.mem[("env", "it")] = start_parse(ctx, I, st)
    for i in (1, 2, 4, 5):
        st.assume(feq(T.sub(in_bit(I, i), 1)))
    n = 0
    for s, r in I.run(f, [P(("env", "it"))], st):
        n += 1
        if not s.g["err"]:
            n += len(I.run(f, [P(("env", "it"))], s))
    none(ctx, I, "the reserved block type", f, n)


def do_symbols(ctx, item):
    from .c06 import setup_trees
    kind, lc, dc = item
    I = ctx.interp()
    bitvecs(I)
    bit_input(I, fail=True)
    lt, dt = setup_trees(I, kind)
    U16 = prim(I, "int", 16)

    def dec(I, st, ca, a, rty, f):
        e = st.copy()
        e.g["err"] = True
        if treekey(I, st, a[0]) == dt and st.g["long"]:
            st.g["long"] = ""
            return [(e, err()), (st, ok(dc[0]))]
        st.g["n"] = st.c.norm(T.add(st.g["n"], 1))
        l = st.copy()
        l.g["long"] = "yes"
        sym = I.mat(U16, ("el", "SYMBOL", st.c.norm(st.g["n"])))
        st.assume(fge(T.sub(256, sym)))
        return [(e, err()), (st, ok(sym)), (l, ok(lc[0]))]
    I.hooks[("fn", CT + "decode_symbol")] = dec
    I.anchors.add(CT + "decode_symbol")
    f = ctx.fn(NEXT)
    st = State()
    st.g.update(pos=0, n=0, err="", long="")
    st.mem[("env", "it")] = start_parse(ctx, I, st)
    st.assume(feq(T.sub(in_bit(I, 1), 1 if kind == "fixed" else 0)))
    st.assume(feq(T.sub(in_bit(I, 2), 0 if kind == "fixed" else 1)))
    n = len(I.run(f, [P(("env", "it"))], st))
    none(ctx, I, "%s block, length symbol %d, distance symbol %d" % (kind, lc[0], dc[0]), f, n)


def do_header(ctx, h):
    """A dynamic header with h + 4 lengths for code lengths."""
    I = ctx.interp()
    bitvecs(I)
    bit_input(I, fail=True)
    f = ctx.fn(NEXT)

    def new(I, st, ca, a, rty, f):
        n = st.g["calls"]
        e = st.copy()
        e.g["err"] = True
        st.g["calls"] = n + 1
        return [(e, err()), (st, ok(tree_val((CLT, DLT, DDT)[min(n, 2)])))]
    I.hooks[("fn", CT + "new")] = new

    def dec(I, st, ca, a, rty, f):
        e = st.copy()
        e.g["err"] = True
        out = [(e, err())]
        if treekey(I, st, a[0]) != CLT:
            return out + [(st, ok(256))]
        st.g["n"] = st.c.norm(T.add(st.g["n"], 1))
        s = st.copy()
        v = I.mat(prim(I, "int", 16), ("el", "LENGTH", s.c.norm(s.g["n"])))
        s.assume(fge(T.sub(15, v)))
        return out + [(s, ok(v))] + [(st.copy(), ok(v)) for v in (16, 17, 18)]
    I.hooks[("fn", CT + "decode_symbol")] = dec
    I.anchors.update((CT + "decode_symbol", CT + "new"))
    st = State()
    st.g.update(pos=0, n=0, err="", calls=0)
    st.mem[("env", "it")] = start_parse(ctx, I, st)
    st.assume(feq(in_bit(I, 1)))
    st.assume(feq(T.sub(in_bit(I, 2), 1)))
    for i in range(4):
        st.assume(feq(T.sub(in_bit(I, 13 + i), (h >> i) & 1)))
    n = len(I.run(f, [P(("env", "it"))], st))
    none(ctx, I, "dynamic header with %d code length codes" % (h + 4), f, n)


# ------------------------------------------------------------------ trees
def do_tree(ctx, kind):
    """The construction of a tree, followed along its specification (C11)."""
    out = None
    for passes in range(3):
        try:
            out = tree_panics(ctx, kind, passes)
            if all(x[1] is not None for x in out):
                break
        except (AnalysisError, Fork):
            if passes == 2 and out is None:
                raise
    for name, good, detail, w, key in out:
        ctx.ob(name, good, detail, w, key=key)


def tree_panics(ctx, kind, passes):
    f = ctx.fn(CT + "new")
    I, st, n = c11.start(ctx, kind, passes, c11.orientation(ctx))[:3]
    I.longest = 15          # as the parser has it
    res = I.run(f, [P(("env", "lengths"), (), 0, n)], st)
    name = "building a tree of %s lengths" % kind
    ps = {}
    for p in I.panics:
        ps.setdefault(p.key(), p)
    out = []
    for k, p in sorted(ps.items()):
        # off the specification the lists are not followed, and sums over the lengths are not bounded
        unsure = c11.WRONG in str(p) or "overflow" in str(p)
        out.append((name, None if unsure else False, repr(p), "%s:%s" % (p.file, p.line), "panic: " + k))
    return out or [(name, bool(res), "" if res else "no path is analysed", at(f), name)]


def do_walk(ctx, _):
    o = Only(ctx)
    out = []
    for flip in ((False, False), (True, True), (False, True), (True, False)):
        out = c07.obligations(o, flip, "decode")
        if all(x[1] for x in out):
            break
    for name, good, detail, w in out:
        o.ob(name, good, detail, w, key="panic: " + name if not good and "panic" in detail else name)


# ------------------------------------------------------------------ decompression
def do_decompress(ctx, kind):
    I = ctx.interp()
    bitvecs(I)
    f = ctx.fn(BLOCK)
    U8 = prim(I, "int", 8)
    cty = adt(I, "librezip::Code")
    n = T.var(T.sym("block length", 0, LENMAX))

    def either(I, st, ca, a, rty, f=None):
        return [(st.copy(), err(IOERR)), (st, ok(UNIT))]

    def write(I, st, ca, a, rty, f=None):
        return either(I, st, ca, a, rty) if generic_self(I, ca) else NotImplemented
    for nm in ("push", "extend"):
        I.hooks[("fn", w01.CB + nm)] = lambda I, st, ca, a, rty, f: UNIT
    I.hooks[("fn", w01.CB + "capacity")] = lambda I, st, ca, a, rty, f: T.var(T.sym("capacity", 1, 1 << 40))

    def copy(I, st, ca, a, rty, f):
        if not st.need(fand(fge(T.sub(a[1], 1)), fge(T.sub(32768, a[1])), fge(T.sub(a[2], 3)), fge(T.sub(258, a[2])))):
            raise Panic("a copy of a distance or length that is out of range")
        return either(I, st, ca, a, rty)
    I.hooks[("fn", w01.CB + "copy")] = copy
    I.anchors.update(w01.CB + x for x in ("push", "extend", "copy", "capacity"))
    I.env_hooks[WRITE + "::write_all"] = write
    I.env_hooks[WBE + "::write_u8"] = I.hooks[WBE + "::write_u8"] = write
    st = State()
    codes = vec_u((("o", "CODES", 0, n, cty),))
    st.mem[("env", "blk")] = {"stored": enm(0, vec_u((("o", "DATA", 0, n, U8),))), "fixed": enm(1, codes),
                              "dynamic": enm(2, N("bv", (S(()),)), codes)}[kind]
    st.mem[("env", "cb")] = tok("window")
    m = len(I.run(f, [tok("sink"), P(("env", "cb")), P(("env", "blk"))], st))
    none(ctx, I, "decompressing a %s block" % kind, f, m)


def do_window(ctx, item):
    """The window's operations: from small capacities, and by induction."""
    o = Only(ctx)
    if item[0] == "bounded":
        return w01.bounded(o, *item[1:])
    kind, roles, x = item
    if kind != "copy":
        return getattr(w01, "do_" + kind)(o, roles, x)
    # whether the invariant of the copying loop is found depends on how it is written: the enumerated copies decide
    class Weak(Only):
        def ob(self, name, status, detail="", where="", key=None):
            Only.ob(self, name, status if status or "panic" not in (key or name) else None, detail, where, key)
    w01.do_copy(Weak(ctx), roles, x)
