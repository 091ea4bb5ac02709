"""Environment models shared by the checks: bit streams, code trees, readers and writers as ghost
sequences.  The concrete implementations behind these models are the subject of C04, C05, C07, C09."""
from .core import *
from sa.models import deref, store, vec_of, set_vec

BITVEC = "librezip::bit::BitVec"
BR = "librezip::bit::BitReader::<R>::"
BW = "librezip::bit::BitWriter::<W>::"
BV = "librezip::bit::BitVec::"


def prim(I, kind, bits=None):
    for i, t in enumerate(I.types):
        if t["k"] == kind and (bits is None or (t["bits"] == bits and not t["signed"])):
            return i
    raise Anchor("type %s%s" % (kind, bits or ""))


def adt(I, path):
    for i, t in enumerate(I.types):
        if t["k"] == "adt" and t["path"] == path:
            return i
    raise Anchor("type " + path)


def option_of(I, ty):
    for i, t in enumerate(I.types):
        if t["k"] == "adt" and t["path"] == "core::option::Option" and t["args"] == [ty]:
            return i
    raise Anchor("Option of type %d" % ty)


def vec_u(segs):
    return N("vec", (S(tuple(segs)),))


# ------------------------------------------------------------------ bit vectors as bit sequences
def bits_of(v):
    return v.kids[0]


def bitvecs(I):
    """Replace BitVec by the sequence of its bits."""
    B = prim(I, "bool")
    I.mat_over[BITVEC] = lambda I, ty, key: N("bv", (S((("o", key, 0, I.lensym(key), B),)),))

    def get(I, st, p):
        return bits_of(deref(I, st, p))

    def new(I, st, ca, a, rty, f):
        return N("bv", (S(()),))

    def push(I, st, ca, a, rty, f):
        s = get(I, st, a[0])
        st.assume(fge(T.sub(LENMAX, s.length())))
        store(I, st, a[0], N("bv", (seq_append(st, s, boolval(a[1]), B),)))
        return UNIT

    def length(I, st, ca, a, rty, f):
        return seq_len(st, get(I, st, a[0]))

    def empty(I, st, ca, a, rty, f):
        return feq(seq_len(st, get(I, st, a[0])))

    def at(I, st, ca, a, rty, f):
        s = get(I, st, a[0])
        if not st.need(fge(T.sub(T.sub(seq_len(st, s), a[1]), 1))):
            raise Panic("out of range", "BitVec::get")
        return boolval(I.seq_get(st, s, a[1]))

    def pop(I, st, ca, a, rty, f):
        s = get(I, st, a[0])
        n = seq_len(st, s)
        if st.need(feq(n)):
            return NONE
        v = boolval(I.seq_get(st, s, T.sub(n, 1)))
        x, _ = seq_split(st, s, T.sub(n, 1))
        store(I, st, a[0], N("bv", (x,)))
        return some(v)

    def clone(I, st, ca, a, rty, f):
        return deref(I, st, a[0])

    def eq(I, st, ca, a, rty, f):
        from sa.models import slice_eq
        return slice_eq(I, st, get(I, st, a[0]), get(I, st, a[1]))
    for n, h in (("new", new), ("push", push), ("len", length), ("is_empty", empty), ("get", at), ("pop", pop)):
        I.hooks[("fn", BV + n)] = h
    I.hooks[("core::default::Default::default", BITVEC)] = new
    I.hooks[("core::clone::Clone::clone", BITVEC)] = clone
    I.hooks[("core::cmp::PartialEq::eq", BITVEC)] = eq


# ------------------------------------------------------------------ bit input / bit output
def bit_input(I, fail=True):
    """BitReader::read_bit delivers element g['pos'] of the ghost bit stream IN."""
    B = prim(I, "bool")

    def read_bit(I, st, ca, a, rty, f):
        out = []
        p = st.g["pos"]
        if fail:
            e = st.copy()
            e.g["err"] = True
            out.append((e, err()))
        st.g["pos"] = st.c.norm(T.add(p, 1))
        out.append((st, ok(I.mat(B, ("el", "IN", st.c.norm(p))))))
        return out
    I.hooks[("fn", BR + "read_bit")] = read_bit
    I.anchors.add(BR + "read_bit")


def in_bit(I, i):
    return boolint(I.mat(prim(I, "bool"), ("el", "IN", i)))


def bit_output(I, fail=True):
    """BitWriter::write_bit appends to the ghost sequence g['out']."""
    B = prim(I, "bool")

    def write_bit(I, st, ca, a, rty, f):
        out = []
        if fail:
            e = st.copy()
            e.g["err"] = True
            out.append((e, err()))
        st.g["out"] = seq_append(st, st.g["out"], boolval(a[1]), B)
        out.append((st, ok(UNIT)))
        return out
    I.hooks[("fn", BW + "write_bit")] = write_bit
    I.anchors.add(BW + "write_bit")


# ------------------------------------------------------------------ code trees
LT, DT = ("tree", "fixed length"), ("tree", "fixed distance")
NCODES = 288
FIXED_LENS = [8] * 144 + [9] * 112 + [7] * 24 + [8] * 8
FIXED_DIST = [5] * 32
CT = "librezip::code_tree::CodeTree::"


def treekey(I, st, p):
    v = deref(I, st, p)
    if isinstance(v, N) and isinstance(v.tag, tuple) and v.tag[0] == "tok" and isinstance(v.tag[1], tuple):
        return v.tag[1]
    raise AnalysisError("unknown tree %r" % (v,))


def tree_val(key):
    return N(("tok", key))


def kraft(lens):
    return sum(1 << (15 - l) for l in lens if l) == 1 << 15


def trees(I, fixed_ok=False):
    """CodeTree::new yields a tree named by the code lengths it was made from (I.trees: name -> lengths).
    With fixed_ok, a tree made from constant lengths is named by its size only."""
    I.trees = {}

    def new(I, st, ca, a, rty, f):
        s = norm_seq(st, deref(I, st, a[0]))
        n = seq_len(st, s)
        if isinstance(n, int) and n <= 512:
            vals = [I.seq_get(st, s, i) for i in range(n)]
            if all(isinstance(v, int) for v in vals):
                key = (LT if n > 256 else DT) if fixed_ok else ("tree", tuple(vals))
                I.trees[key] = vals
                return ok(tree_val(key)) if max(vals or [16]) <= 15 and kraft(vals) else err()
        key = ("tree", ("of", s))
        I.trees[key] = s
        e = st.copy()
        return [(e, err()), (st, ok(tree_val(key)))]
    I.hooks[("fn", CT + "new")] = new
    I.anchors.add(CT + "new")


def fixed_trees(I):
    trees(I, fixed_ok=True)


def inversion(I):
    """CodeTree::invert: a table of 288 optional bit strings, one table per tree."""
    ot = option_of(I, adt(I, BITVEC))

    def invert(I, st, ca, a, rty, f):
        return vec_u([("o", ("inv", treekey(I, st, a[0])), 0, NCODES, ot)])
    I.hooks[("fn", CT + "invert")] = invert
    I.anchors.add(CT + "invert")


def code_bits(I, st, tree, sym):
    """The bit string the inversion of `tree` gives for symbol `sym` (when present)."""
    bt = adt(I, BITVEC)
    v = I.mat(bt, ("f", ("el", ("inv", tree), st.c.norm(sym)), 1, 0))
    return bits_of(v)


# ------------------------------------------------------------------ RFC 1951 section 3.2.5
def length_classes():
    """(symbol, extra bits, base length, last length)"""
    out = []
    base = 3
    for s in range(257, 285):
        e = 0 if s < 265 else (s - 261) // 4
        out.append((s, e, base, base + (1 << e) - 1))
        base += 1 << e
    assert base == 259
    s, e, b, l = out[-1]
    out[-1] = (s, e, b, 257)        # 258 has its own symbol
    out.append((285, 0, 258, 258))
    return out


def dist_classes():
    out = []
    base = 1
    for s in range(30):
        e = 0 if s < 4 else s // 2 - 1
        out.append((s, e, base, base + (1 << e) - 1))
        base += 1 << e
    assert base == 32769
    return out


def in_class(v, c):
    return fand(fge(T.sub(v, c[2])), fge(T.sub(c[3], v)))


def bitseq(I, st, val, n):
    """n bits of val, least significant first, as a sequence of booleans."""
    B = prim(I, "bool")
    s = S(())
    for b in I.bits(st, val, n) if n else ():
        s = seq_append(st, s, boolval(b), B)
    return s


def cases(I, st, f):
    """Run f(state) with case distinctions: list of (state, result)."""
    return I.guarded(st, lambda s: [(s, f(s))])


def has_code(I, st, tree, sym):
    """Assume that `tree` has a code for `sym`."""
    u = I.mat(option_of(I, adt(I, BITVEC)), ("el", ("inv", tree), sym))
    st.assume(feq(T.sub(I.variant(st, u), 1)))


def symbol_script(I, script):
    """CodeTree::decode_symbol returns the scripted symbols; g['sym'] records (tree, symbol, bit position)."""
    def dec(I, st, ca, a, rty, f):
        k = len(st.g["sym"])
        if k >= len(script):
            e = err()
            st.g["sym"] = st.g["sym"] + (("extra", None, st.g["pos"]),)
            return e
        t, s = script[k]
        tk = treekey(I, st, a[0])
        st.g["sym"] = st.g["sym"] + ((tk, s, st.g["pos"]),)
        if tk != t:
            st.g["wrongtree"] = True
            return err()
        return ok(s)
    p = "librezip::code_tree::CodeTree::decode_symbol"
    I.hooks[("fn", p)] = dec
    I.anchors.add(p)


def start_parse(ctx, I, st):
    """The iterator parse_deflate returns for an unknown reader."""
    f = ctx.fn("librezip::parse::parse_deflate")
    r = I.run(f, [tok("reader")], st)
    if len(r) != 1:
        raise AnalysisError("parse_deflate has %d outcomes" % len(r))
    return r[0][1]


def after_block(ctx, I, st, it, kind="dynamic"):
    """The iterator after it has delivered a block: bits -n..-1 of the stream, so that the next block starts at bit 0.
    What it keeps from one block to the next is then part of its state."""
    old = ("tree", "earlier code lengths"), ("tree", "earlier length"), ("tree", "earlier distance")
    if kind == "dynamic":
        # 257 + 1 lengths, 5 lengths of code length codes; 138 + 119 zeros and a one
        bits = [0, 0, 1] + [0] * 10 + [1, 0, 0, 0] + [0, 1, 0] * 5 + [1] * 7 + [0, 0, 1, 1, 0, 1, 1]
        script = [18, 18, 1, 65, 256]
    else:
        bits, script = [0, 1, 0], [65, 256]
    ghosts = dict(st.g)
    st.g = {"pos": -len(bits), "before": ""}
    for i, b in enumerate(bits):
        st.assume(feq(T.sub(in_bit(I, i - len(bits)), b)))
    names = ("on_push", "on_extend", "on_set", "on_agg", "on_field")
    saved = {n: getattr(I, n) for n in names}
    hooks, over, peel, unroll = dict(I.hooks), dict(I.mat_over), I.peel, I.max_unroll

    def dec(I, st, ca, a, rty, f):
        k = len(st.g["before"])
        if k >= len(script):
            raise AnalysisError("more symbols are decoded than the block before has")
        st.g["before"] += "."
        return ok(script[k])

    def new(I, st, ca, a, rty, f):
        n = st.g.get("trees before", 0)
        st.g["trees before"] = n + 1
        return ok(tree_val(old[min(n, 2)]))
    for n in names:
        setattr(I, n, None)
    I.mat_over.clear()
    I.hooks[("fn", CT + "decode_symbol")] = dec
    if kind == "dynamic":
        I.hooks[("fn", CT + "new")] = new
    I.hooks.pop(("fn", "librezip::huffman::read_codes"), None)
    I.max_unroll = max(I.max_unroll, 400)
    panics = list(I.panics)
    st.mem[("env", "it")] = it
    f = ctx.fn("<librezip::parse::BlockIter<R> as core::iter::traits::iterator::Iterator>::next")
    res = I.run(f, [P(("env", "it"))], st)
    I.panics[:] = panics
    I.hooks.clear()
    I.hooks.update(hooks)
    I.mat_over.update(over)
    I.peel, I.max_unroll = peel, unroll
    for n in names:
        setattr(I, n, saved[n])
    good = [s for s, r in res if isinstance(r, N) and r.tag == ("enm", 1) and isinstance(r.kids[0], N) and r.kids[0].tag == ("enm", 0)]
    good = [s for s in good if s.c.norm(s.g["pos"]) == 0]
    if not good:
        raise AnalysisError("the block before ends elsewhere")
    s = good[0]
    st.c, st.mem, st.tr = s.c, s.mem, s.tr
    st.g = ghosts
    return s.mem[("env", "it")]


def mkref(ctx, I, st, dist, run):
    """A Ref with the given distance and length, as Ref::new builds it."""
    r = I.run(ctx.fn("librezip::Ref::new"), [dist, run], st)
    if len(r) != 1:
        raise AnalysisError("Ref::new has %d outcomes" % len(r))
    st.c = r[0][0].c
    return r[0][1]


def ref_parts(ctx, I, st, r):
    """(distance, length) of a Ref, the latter as Ref::run reports it."""
    fs = [n for n, _ in I.types[adt(I, "librezip::Ref")]["variants"][0]["fields"]]
    if "dist" not in fs:
        raise Anchor("field dist of librezip::Ref")
    dist = r.kids[fs.index("dist")] if isinstance(r, N) else I.sub(st, r, ("f", fs.index("dist"), None, None))
    st.mem[("env", "ref")] = r
    x = I.run(ctx.fn("librezip::Ref::run"), [P(("env", "ref"))], st.copy())
    if len(x) != 1:
        raise AnalysisError("Ref::run has %d outcomes" % len(x))
    return st.c.norm(dist), st.c.norm(x[0][1])


# ------------------------------------------------------------------ byte input: io::Read of unknown contents
READ, WRITE = "alloc::io::read::Read", "core::io::write::Write"
RBE, WBE = "byteorder::io::ReadBytesExt", "byteorder::io::WriteBytesExt"
IOERR = N("ioerr", (N(("tok", "unknown kind")),))


def eof_kind(I):
    return N("ioerr", (N(("enm", enum_variant(I, "core::io::error::ErrorKind", "UnexpectedEof"))),))


def enum_variant(I, path, name):
    for t in I.types:
        if t["k"] == "adt" and t["path"] == path:
            for i, v in enumerate(t["variants"]):
                if v.get("name") == name:
                    return i
    raise Anchor("variant %s of %s" % (name, path))


def in_byte(I, i):
    """Byte i of the ghost input."""
    return I.mat(prim(I, "int", 8), ("el", "INPUT", i))


def in_bytes(I, a, n):
    return S((("o", "INPUT", a, n, prim(I, "int", 8)),))


def delivered(I, st, p, n):
    """The n bytes of the ghost input from p on (a single byte in its normal form)."""
    if isinstance(n, int) and n == 1:
        return seq_append(st, S(()), st.c.norm(in_byte(I, p)), prim(I, "int", 8))
    return in_bytes(I, p, n)


def generic_self(I, ca):
    """Is the receiver of a trait method call the unknown stream (possibly by reference)?"""
    t = I.types[ca["targs"][0]] if ca.get("targs") else {"k": "param"}
    while t["k"] in ("ref", "ptr"):
        t = I.types[t["to"]]
    return t["k"] not in ("slice", "array", "str") and t.get("path") not in (
        "alloc::vec::Vec", "std::io::Cursor", "core::io::cursor::Cursor", "core::io::util::Take", "core::io::util::Chain")


def byte_input(I, fail=True, eof=False, before=None, after=None, reader=None):
    """Reads through io::Read deliver the ghost bytes INPUT from position g['pos'].
    before(I, st, n): called when n bytes are about to be delivered (st.g['pos'] is where from);
    after(I, st, n): once they are.  fail: a read may fail, which sets g['err'];
    eof: the input may end (ghost length symbol INPUT_LEN), which sets g['eof']."""
    B = prim(I, "int", 8)

    def deliver(st, n):
        if before:
            before(I, st, n)
        p = st.g["pos"]
        st.g["pos"] = st.c.norm(T.add(p, n))
        if after:
            after(I, st, n)
        return delivered(I, st, p, n)

    def failed(st):
        out = []
        if fail:
            e = st.copy()
            e.g["err"] = "read failed"
            out.append((e, err(IOERR)))
        if eof:
            e = st.copy()
            e.g["eof"] = "end of input"
            out.append((e, err(eof_kind(I))))
        return out

    def fits(st, n):
        """With eof: enough input left?"""
        if not eof:
            return True
        return st.need(fge(T.sub(T.var(T.sym("INPUT_LEN", 0, LENMAX)), T.add(st.g["pos"], n))))

    def exact(I, st, ca, a, rty):
        n = st.c.norm(a[1].len)
        if eof:
            if not fits(st, n):
                st.g["eof"] = "end of input"
                return err(eof_kind(I))
            out = failed_only_io(st)
        else:
            out = failed(st)
        if not iszero(n):
            store(I, st, a[1], deliver(st, n))
        return out + [(st, ok(UNIT))]

    def failed_only_io(st):
        if not fail:
            return []
        e = st.copy()
        e.g["err"] = "read failed"
        return [(e, err(IOERR))]

    def some_bytes(I, st, ca, a, rty):
        """Read::read: between 0 and len bytes"""
        out = failed_only_io(st)
        n = T.var(T.sym(("short read", st.c.norm(st.g["pos"])), 0, LENMAX))
        st.assume(fge(T.sub(a[1].len, n)))
        if not eof and st.need(fge(T.sub(a[1].len, 1))):
            if fail:        # nothing read: the end of the input
                e = st.copy()
                e.g["err"] = "the input ended early"
                out.append((e, ok(0)))
            st.assume(fge(T.sub(n, 1)))
        store(I, st, P(a[1].loc, a[1].path, a[1].idx, n), deliver(st, n))
        return out + [(st, ok(n))]

    def ext(width):
        def f(I, st, ca, a, rty):
            if not generic_self(I, ca):
                return NotImplemented
            if eof:
                if not fits(st, width):
                    st.g["eof"] = "end of input"
                    return err(eof_kind(I))
                out = failed_only_io(st)
            else:
                out = failed(st)
            s = deliver(st, width)
            v = 0
            big = any(I.types[t]["name"].endswith("BigEndian") for t in ca.get("targs", ()))
            if width > 1 and not any(I.types[t]["name"].endswith("Endian") for t in ca.get("targs", ())):
                raise AnalysisError("byte order of " + ca["path"])
            for i in range(width):
                b = I.seq_get(st, s, i)
                v = T.add(T.scale(v, 256), b) if big else T.add(v, T.scale(b, 1 << (8 * i)))
            return out + [(st, ok(v))]
        return f
    def to_end(I, st, ca, a, rty, *_):
        """Read::read_to_end of the input, or of take(limit) of it: a shorter input is no error of the read, but noted as one."""
        t = ca["targs"][0] if ca.get("targs") else None
        while t is not None and I.types[t]["k"] in ("ref", "ptr"):
            t = I.types[t]["to"]
        t = I.types[t] if t is not None else {"k": "param"}
        if t.get("path") == "core::io::util::Take":
            tk = deref(I, st, a[0])
            f = [x[0] for x in t["variants"][0]["fields"]]
            inner = t["variants"][0]["fields"][f.index("inner")][1]
            if not generic_self(I, {"targs": [inner]}):
                return NotImplemented
            lim = st.c.norm(I.sub(st, tk, ("f", f.index("limit"), None, t["variants"][0]["fields"][f.index("limit")][1])))
        elif generic_self(I, ca):
            raise AnalysisError("read_to_end without a limit")
        else:
            return NotImplemented
        key = st.c.norm(st.g["pos"])
        v = vec_of(I, st, a[1])
        out = []
        if fail:
            e = st.copy()
            e.g["err"] = "read failed"
            out.append((e, err(IOERR)))
        if eof or fail:
            e = st.copy()
            n = T.var(T.sym(("cut short", key), 0, LENMAX))
            e.assume(fge(T.sub(T.sub(lim, n), 1)))
            if eof:
                e.g["eof"] = "end of input"
                e.assume(feq(T.sub(T.sub(T.var(T.sym("INPUT_LEN", 0, LENMAX)), e.g["pos"]), n)))
            else:
                e.g["err"] = "the input ended early"
            set_vec(I, e, a[1], seq_cat(v, deliver(e, n)))
            out.append((e, ok(n)))
            if eof:
                st.assume(fge(T.sub(T.var(T.sym("INPUT_LEN", 0, LENMAX)), T.add(st.g["pos"], lim))))
        if not iszero(lim):
            set_vec(I, st, a[1], seq_cat(v, deliver(st, lim)))
        return out + [(st, ok(lim))]

    def by_ref(I, st, ca, a, rty):
        return a[0]
    I.env_hooks[READ + "::read_exact"] = exact
    I.env_hooks[READ + "::read"] = some_bytes
    I.env_hooks[READ + "::by_ref"] = by_ref
    I.env_hooks[READ + "::read_to_end"] = to_end
    I.hooks[READ + "::read_to_end"] = to_end
    for n, w in (("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8)):
        I.env_hooks[RBE + "::read_" + n] = ext(w)
        I.hooks[RBE + "::read_" + n] = ext(w)

    # io::Error::kind of our errors
    def kind(I, st, ca, a, rty, f):
        v = deref(I, st, a[0])
        if isinstance(v, N) and v.tag == "ioerr":
            k = v.kids[0]
            if k.tag[0] == "enm":
                return k
            u = I.mat(rty, ("kind of failure",))
            if eof:     # that kind is the end of the input
                st.assume(fnot(feq(T.sub(I.variant(st, u), enum_variant(I, "core::io::error::ErrorKind", "UnexpectedEof")))))
            return u
        return NotImplemented
    for p in ("core::io::error::Error::kind", "std::io::error::Error::kind"):
        I.hooks[("fn", p)] = kind


def slice_at(I, st, p):
    """The bytes of a slice (also of a slice made from one byte)."""
    s = deref(I, st, p)
    return s if isinstance(s, S) else seq_append(st, S(()), s, prim(I, "int", 8))


# ------------------------------------------------------------------ byte output: io::Write collecting what is written
def byte_output(I, fail=False, name="bytes"):
    """Writes through io::Write append to the ghost sequence g[name]; fail: a write may fail, which sets g['err']."""
    B = prim(I, "int", 8)

    def put(st, s):
        out = []
        if fail:
            e = st.copy()
            e.g["err"] = "write failed"
            out.append((e, err(IOERR)))
        st.g[name] = seq_cat(st.g[name], s)
        return out + [(st, ok(UNIT))]

    def write_all(I, st, ca, a, rty):
        if not generic_self(I, ca):
            return NotImplemented
        return put(st, slice_at(I, st, a[1]))

    def ext(width):
        def f(I, st, ca, a, rty, *_):
            if not generic_self(I, ca):
                return NotImplemented
            v = a[1]
            bs = []
            for i in range(width - 1):
                v, x = I.divmod(st, v, 256)
                bs.append(x)
            bs.append(v)
            if width > 1:
                ends = [I.types[t]["name"] for t in ca.get("targs", ()) if I.types[t].get("name", "").endswith("Endian")]
                if not ends:
                    raise AnalysisError("byte order of " + ca["path"])
                if ends[0].endswith("BigEndian"):
                    bs.reverse()
            s = S(())
            for x in bs:
                s = seq_append(st, s, x, B)
            return put(st, s)
        return f

    def flush(I, st, ca, a, rty):
        out = []
        if fail:
            e = st.copy()
            e.g["err"] = "flush failed"
            out.append((e, err(IOERR)))
        return out + [(st, ok(UNIT))]
    I.env_hooks[WRITE + "::write_all"] = write_all
    I.env_hooks[WRITE + "::flush"] = flush
    for n, w in (("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8)):
        I.env_hooks[WBE + "::write_" + n] = ext(w)
        I.hooks[WBE + "::write_" + n] = ext(w)
