"""R03: no I/O or format error is swallowed."""
from .env import *
from .c04 import at, start_reader, start_writer
from .c05 import NEXT
from .cmd import run_cat, stream, stdout, start_stdout
from .z02 import zero_paths
from .w01 import CB, fill
from .f01 import streams

RULE = ("Abstract interpretation with a failure ghost: every primitive operation of the layer below (read, read_exact, write, write_all, "
        "flush, a bit, a symbol, a tree, a header, a block, a copy) may fail at every call, which sets the ghost; on every path of every "
        "public operation, and of the bit-level and header functions in between, a set ghost must end in an error (or a panic). The "
        "layers are: bytes -> bits (BitReader, BitWriter), bits -> symbols and trees (decode_symbol, read_codes), symbols -> blocks "
        "(BlockIter::next, compressed_block), blocks -> output (decompressed_block, decompressed_codes, CircularBuffer::copy), bytes -> "
        "header, serialised traces (where the end of the input before a record is no failure) and filters, and the commands over all of "
        "these. Loops by inferred invariants, so for inputs of any length.")
ASSUMPTIONS = ["std's read_exact and write_all report failures and short transfers"]
TECHNIQUE = "abstract interpretation of MIR with a failure ghost (typestate of pending errors)"
FLOOR = 70
CLT, DLT, DDT = ("tree", "code lengths"), ("tree", "dynamic length"), ("tree", "dynamic distance")


def run(ctx):
    items = [("reader", m) for m in ("read_bit", "read_part", "align", "read_length_prefixed")]
    items += [("writer", m) for m in ("write_bit", "write_bits_val", "align", "write_vec", "write_length_prefixed", "write_aligned_u16")]
    items += [("header", ""), ("trace", "")]
    items += [("next", k) for k in ("stored", "fixed", "dynamic", "reserved", "end")]
    items += [("emit", k) for k in ("stored", "fixed", "dynamic")]
    items += [("decompress", k) for k in ("stored", "fixed", "dynamic", "codes")]
    items += [("copy", ""), ("filter", "")]
    items += [("command", k) for k in ("cat", "zero", "dump")]
    ctx.pmap(one, items)


def one(ctx, item):
    ctx.attempt(" ".join(item).strip(), globals()["op_" + item[0]], ctx, item[1])


def judge(ctx, name, f, res, option=False, ghosts=("err",)):
    bad = good = fine = 0
    for s, r in res:
        why = [s.g[k] for k in ghosts if s.g.get(k)]
        if option:
            e = isinstance(r, N) and r.tag == ("enm", 1) and isinstance(r.kids[0], N) and r.kids[0].tag == ("enm", 1)
        else:
            e = isinstance(r, N) and r.tag == ("enm", 1)
        if why and e:
            good += 1
        elif why:
            w = why[0] if isinstance(why[0], str) else "a failure below"
            ctx.ob(name + ": failures are reported", False, "success after: " + w, at(f), key="%s: success after %s" % (name, w))
            bad += 1
        elif not e:
            fine += 1
    if not bad:
        ctx.ob(name + ": failures are reported", bool(good), "" if good else "no failing path", at(f), key=name + ": no failing path")
    ctx.ob(name + ": succeeds", bool(fine), "" if fine else "never", at(f), key=name + ": never succeeds")


def fail_or(st, what, *vals):
    """Outcomes: failure, or one of the values."""
    e = st.copy()
    e.g["err"] = what
    return [(e, err(IOERR))] + [(st.copy(), v) for v in vals[:-1]] + [(st, vals[-1])]


# ------------------------------------------------------------------ bytes <-> bits
def op_reader(ctx, m):
    rb, f = ctx.fn(BR + "read_bit"), ctx.fn(BR + m)
    for k in ((0,) if m == "read_length_prefixed" else range(8)):
        for n in ((1, 2, 7, 8, 9, 15, 16) if m == "read_part" else (None,)):
            I = ctx.interp()
            byte_input(I, fail=True)
            todo = [start_reader(ctx, I, 0)]
            for _ in range(k):
                todo = [s for x in todo for s, r in I.run(rb, [P(("env", "r"))], x) if not s.g["err"]]
            res = []
            for st in todo:
                if m == "align":
                    # the padding may be anything: what counts are the reads, if there are any
                    res += I.run(f, [P(("env", "r"))], st)
                else:
                    res += I.run(f, [P(("env", "r"))] + ([n] if n is not None else []), st)
            name = "BitReader::%s%s after %d bits" % (m, "(%d)" % n if n else "", k)
            some = [s for s, r in res if s.g["err"]]
            if some or m == "read_length_prefixed":
                judge(ctx, name, f, res)
            else:
                ctx.ob(name + ": nothing can fail", True, "", at(f))


def op_writer(ctx, m):
    wb, f = ctx.fn(BW + "write_bit"), ctx.fn(BW + m)
    by_bits = m in ("write_bits_val", "write_vec")
    for k in (0,) if by_bits or m == "write_aligned_u16" else range(8):
        I = ctx.interp()
        I.small_body = 10000
        B = prim(I, "bool")
        if by_bits:
            bit_output(I, fail=True)
        else:
            byte_output(I, fail=True)
        if m == "write_vec":
            bitvecs(I)
        st = start_writer(ctx, I)
        st.g.update(err="", out=S(()))
        todo = [st]
        for i in range(k):
            todo = [s for x in todo for s, r in I.run(wb, [P(("env", "w")), I.mat(B, ("given", i))], x) if not s.g["err"]]
        res = []
        for st in todo:
            w = [P(("env", "w"))]
            if m == "write_bit":
                w += [I.mat(B, "bit")]
            elif m == "write_bits_val":
                w += [9, I.mat(prim(I, "int", 16), "value")]
            elif m == "write_aligned_u16":
                w += [I.mat(prim(I, "int", 16), "value")]
            elif m == "write_vec":
                st.mem[("env", "v")] = I.mat(adt(I, BITVEC), "vector")
                w += [P(("env", "v"))]
            elif m == "write_length_prefixed":
                n = T.var(T.sym("data length", 0, LENMAX))
                st.mem[("env", "d")] = S((("o", "DATA", 0, n, prim(I, "int", 8)),))
                w += [P(("env", "d"), (), 0, n)]
            res += I.run(f, w, st)
        name = "BitWriter::%s after %d bits" % (m, k)
        if any(s.g["err"] for s, r in res) or m not in ("write_bit", "align"):
            judge(ctx, name, f, res)
        else:
            ctx.ob(name + ": nothing can fail", True, "", at(f))


# ------------------------------------------------------------------ bits -> blocks
def failing_layer(ctx, I, dynamic):
    """Bits, aligned fields, symbols and trees: each may fail."""
    bitvecs(I)
    bit_input(I, fail=True)
    fixed_trees(I)
    constant = I.hooks[("fn", CT + "new")]
    U16 = prim(I, "int", 16)
    B = prim(I, "int", 8)

    def tree(I, st, ca, a, rty, f):
        if not dynamic:
            return constant(I, st, ca, a, rty, f)
        n = st.g["calls"]
        st.g["calls"] = n + 1
        return fail_or(st, "the code lengths make no tree", ok(tree_val((CLT, DLT, DDT)[min(n, 2)])))

    def symbol(I, st, ca, a, rty, f):
        """Code lengths: any; literals; the end; a length and a distance with an extra bit each; reserved symbols."""
        t = treekey(I, st, a[0])
        k = st.g["syms"]
        st.g["syms"] = st.c.norm(T.add(k, 1))
        if t == CLT:
            x = I.mat(U16, ("el", "SYMBOL", st.c.norm(k)))
            st.assume(fge(T.sub(18, x)))
            return fail_or(st, "a code length could not be decoded", ok(x))
        bad = st.copy()
        bad.g["err"] = "a reserved symbol"
        if t in (LT, DLT):
            x = I.mat(U16, ("el", "SYMBOL", st.c.norm(k)))
            lit = st.copy()
            lit.assume(fge(T.sub(255, x)))
            return fail_or(st, "a symbol could not be decoded", ok(256), ok(265)) + [(lit, ok(x)), (bad, ok(286))]
        return fail_or(st, "a distance could not be decoded", ok(4)) + [(bad, ok(30))]

    def align(I, st, ca, a, rty, f):
        return fail_or(st, "the padding could not be read or is not zero", ok(UNIT))

    def stored(I, st, ca, a, rty, f):
        n = T.var(T.sym("stored length", 0, 65535))
        return fail_or(st, "stored data could not be read", ok(vec_u((("o", "DATA", 0, n, B),))))
    for p, h in ((CT + "new", tree), (CT + "decode_symbol", symbol), (BR + "align", align), (BR + "read_length_prefixed", stored)):
        I.hooks[("fn", p)] = h


def op_next(ctx, kind):
    I = ctx.interp()
    failing_layer(ctx, I, kind == "dynamic")
    f = ctx.fn(NEXT)
    st = State()
    b = start_parse(ctx, I, st)
    st.g.update(pos=0, syms=0, calls=0, err="")
    n = ("stored", "fixed", "dynamic", "reserved", "end").index(kind) % 4
    st.assume(feq(T.sub(in_bit(I, 1), n & 1)))
    st.assume(feq(T.sub(in_bit(I, 2), n >> 1)))
    st.mem[("env", "it")] = b
    res = I.run(f, [P(("env", "it"))], st)
    if kind == "reserved":
        for s, r in res:
            e = isinstance(r, N) and r.tag == ("enm", 1) and isinstance(r.kids[0], N) and r.kids[0].tag == ("enm", 1)
            ctx.ob("next block (reserved): refused", e, "" if e else "accepted", at(f), key="reserved block type accepted")
        return
    if kind == "end":
        # the block before was the last: padding is still to come
        todo = [s for s, r in res if not s.g["err"]]
        res = []
        for s in todo:
            s.assume(feq(T.sub(in_bit(I, 0), 1)))
            res += I.run(f, [P(("env", "it"))], s)
    judge(ctx, "next block (%s)" % kind, f, res, option=True)


# ------------------------------------------------------------------ blocks -> bits
def op_emit(ctx, kind):
    I = ctx.interp()
    bitvecs(I)
    inversion(I)
    trees(I, fixed_ok=True)
    cty = adt(I, "librezip::Code")
    U8 = prim(I, "int", 8)

    def may_fail(what):
        return lambda I, st, ca, a, rty, f: fail_or(st, what, ok(UNIT))
    for m in ("write_bit", "write_bits_val", "write_vec", "align", "write_length_prefixed", "write_aligned_u16"):
        I.hooks[("fn", BW + m)] = may_fail(m + " failed")
    I.hooks[("fn", "librezip::huffman::read_codes")] = lambda I, st, ca, a, rty, f: fail_or(
        st, "the tree description is not understood", ok(agg(tree_val(LT), NONE)), ok(agg(tree_val(LT), some(tree_val(DT)))))
    n = T.var(T.sym("number of codes", 0, LENMAX))
    codes = vec_u([("o", "CODES", 0, n, cty)])
    st = State()
    st.g.update(err="")
    st.mem[("env", "w")] = tok("writer")
    st.mem[("env", "blk")] = {"stored": enm(0, vec_u((("o", "DATA", 0, n, U8),))), "fixed": enm(1, codes),
                              "dynamic": enm(2, I.mat(adt(I, BITVEC), "description"), codes)}[kind]
    f = ctx.fn("librezip::serialise::compressed_block")
    judge(ctx, "compressed_block (%s)" % kind, f, I.run(f, [P(("env", "w")), P(("env", "blk"))], st))


# ------------------------------------------------------------------ blocks -> output
def op_decompress(ctx, kind):
    I = ctx.interp()
    bitvecs(I)
    cty = adt(I, "librezip::Code")
    U8 = prim(I, "int", 8)
    n = T.var(T.sym("block length", 0, LENMAX))

    def sinks(I, st, ca, a, rty, *_):
        return fail_or(st, "a write failed", ok(UNIT)) if generic_self(I, ca) else NotImplemented
    I.env_hooks[WRITE + "::write_all"] = sinks
    I.env_hooks[WRITE + "::flush"] = sinks
    I.env_hooks[WBE + "::write_u8"] = I.hooks[WBE + "::write_u8"] = sinks
    for m in ("push", "extend"):
        I.hooks[("fn", CB + m)] = lambda I, st, ca, a, rty, f: UNIT
    I.hooks[("fn", CB + "copy")] = lambda I, st, ca, a, rty, f: fail_or(st, "a copy failed or was refused", ok(UNIT))
    codes = vec_u([("o", "CODES", 0, n, cty)])
    st = State()
    st.g.update(err="")
    st.mem[("env", "cb")] = tok("window")
    if kind == "codes":
        f = ctx.fn("librezip::serialise::decompressed_codes")
        st.mem[("env", "codes")] = codes.kids[0]
        arg = P(("env", "codes"), (), 0, n)
    else:
        f = ctx.fn("librezip::serialise::decompressed_block")
        st.mem[("env", "blk")] = {"stored": enm(0, vec_u((("o", "DATA", 0, n, U8),))), "fixed": enm(1, codes),
                                  "dynamic": enm(2, I.mat(adt(I, BITVEC), "description"), codes)}[kind]
        arg = P(("env", "blk"))
    judge(ctx, "decompressed_%s" % ("codes" if kind == "codes" else "block (%s)" % kind), f,
          I.run(f, [tok("sink"), P(("env", "cb")), arg], st))


def op_copy(ctx, _):
    f = ctx.fn(CB + "copy")
    for cap, n in ((1, 0), (1, 2), (4, 2), (4, 7)):
        for d in range(cap + 2):
            for ln in (0, 1, 5):
                I = ctx.interp()
                I.small_body = 10000
                byte_output(I, fail=True)
                st = fill(ctx, I, cap, n)
                st.g.update(bytes=S(()), err="" if 0 < d <= min(n, cap) else "the distance is not in the window")
                res = I.run(f, [P(("env", "cb")), d, ln, tok("sink")], st)
                name = "copy %d from %d back, %d of %d bytes held" % (ln, d, min(n, cap), cap)
                if ln == 0 or st.g["err"]:
                    for s, r in res:
                        e = (r.tag == ("enm", 1)) == bool(s.g["err"])
                        ctx.ob(name, e, "" if e else "success although " + (s.g["err"] or "?"), at(f), key="copy: success although " + s.g["err"])
                else:
                    judge(ctx, name, f, res)


# ------------------------------------------------------------------ bytes
def op_header(ctx, _):
    f = ctx.fn("librezip::gzip::discard_header")
    I = ctx.interp()
    byte_input(I, fail=True)
    st = State()
    st.g.update(pos=0, err="")
    judge(ctx, "discard_header", f, I.run(f, [tok("reader")], st))


def op_trace(ctx, _):
    f = ctx.fn("librezip::serialise_trace::read")
    I = ctx.interp()
    byte_input(I, fail=True, eof=True)
    st = State()
    st.g.update(pos=0, err="", eof="")
    judge(ctx, "serialise_trace::read", f, I.run(f, [tok("reader")], st))


def op_filter(ctx, _):
    from . import f01
    for ty, trait, ops in (("FilterRead::<R>", READ, ("read",)), ("FilterWrite::<W>", WRITE, ("write", "flush"))):
        path = "librezip::filter::" + ty.split("::")[0]
        for op in ops:
            fs = [g for g in ctx.crate().fns if g.local and g.impl_self == path and (g.impl_trait or "").split("<")[0] == trait
                  and g.body and g.name == op and g.kind != "closure"]
            if not fs:
                raise Anchor("%s of %s" % (op, ty))
            I, st, v = f01.start(ctx, ty)
            n = I.lensym("BUF")
            st.mem[("env", "self")] = v
            st.mem[("env", "buf")] = S((("o", "BUF", 0, n, prim(I, "int", 8)),))
            res = I.run(fs[0], [P(("env", "self"))] + ([] if op == "flush" else [P(("env", "buf"), (), 0, n)]), st)
            for s, r in res:
                s.g["err"] = "the inner %s failed" % op if any(c[2] is None for c in s.g["calls"]) else ""
            judge(ctx, "%s::%s" % (ty.split("::")[0], op), fs[0], res)


# ------------------------------------------------------------------ commands
def op_command(ctx, name):
    if name == "cat":
        I, f, res = run_cat(ctx)
    elif name == "zero":
        I, f, res = zero_paths(ctx)
    else:
        I, f, res = run_dump(ctx)
    judge(ctx, name, f, res)


def run_dump(ctx):
    I = ctx.interp("rezippers")
    f = ctx.fn("rezippers::dump::run", "rezippers")
    bitvecs(I)
    stdout(I, record=False)
    stream(ctx, I)
    cty = adt(I, "librezip::Code")

    def nxt(I, st, ca, a, rty, f):
        k = st.c.norm(st.g["k"])
        st.g["k"] = st.c.norm(T.add(k, 1))
        e = st.copy()
        n = T.var(T.sym(("block length", k), 0, LENMAX))
        codes = vec_u((("o", ("CODES", k), 0, n, cty),))
        e.g["end"] = "yes"
        return [(e, NONE)] + fail_or(st, "a block is not understood", some(ok(enm(0, vec_u((("o", ("DATA", k), 0, n, prim(I, "int", 8)),))))),
                                     some(ok(enm(1, codes))), some(ok(enm(2, I.mat(adt(I, BITVEC), ("description", k)), codes))))

    def nxt2(I, st, ca, a, rty, f):
        return [(s, some(v) if v == err(IOERR) else v) for s, v in nxt(I, st, ca, a, rty, f)]
    I.hooks[("fn", NEXT)] = nxt2
    opaque = lambda I, st, ca, a, rty, *_: tok("text")
    for m in ("new_display", "new_debug", "new_lower_hex", "new_upper_hex", "new_binary", "new_octal", "from_usize"):
        I.hooks["core::fmt::rt::Argument::<'_>::" + m] = opaque
    for m in ("new", "from_str", "new_const", "new_v1", "new_v1_formatted"):
        I.hooks["core::fmt::Arguments::<'a>::" + m] = opaque
    I.hooks[("fn", "core::char::convert::<impl core::convert::From<u8> for char>::from")] = opaque
    for m in ("_print", "_eprint"):
        I.hooks["std::io::stdio::" + m] = lambda I, st, ca, a, rty, *_: UNIT
    st = State()
    start_stdout(st)
    st.g.update(k=0, done=0, bad="", end="")
    return I, f, I.run(f, [tok("input")], st)
