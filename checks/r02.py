"""R02: the parser takes exactly the DEFLATE stream from the reader."""
import re
from .env import *
from .c04 import at, steps, okval, start_reader
from .c05 import NEXT, reader_at
from . import g01, c08
from sa import graph as G

RULE = ("Abstract interpretation with a ghost position in the reader, which may fail at any read. Bit reader: after k bits exactly ceil(k/8) "
        "bytes are taken; a field of n bits (0..16, from each of the 8 bit offsets) takes ceil((k+n)/8); alignment takes none, refused or "
        "not; making a parser takes none. Stored blocks (8 bit offsets, any length): no read goes beyond the four length bytes before they "
        "are known and valid, nor beyond the announced data afterwards, also when the block is refused. Compressed blocks: bytes are taken "
        "by single bits only; 0 bits after a literal or the end of the block, the extra bits of the symbol (all 29 + 30, reserved "
        "ones included) after a length or distance, and the dynamic header is read bit by bit to its end, no further (product with the "
        "automata of C06 and C08). After a final block of each kind, ending at each bit offset, asking for more blocks takes nothing. gzip header: "
        "no read goes beyond the current field (product with the automaton of G01).")
ASSUMPTIONS = ["read and read_exact take at most the bytes asked for", "decoding a symbol reads bits one at a time, stopping at a leaf (C07)"]
TECHNIQUE = "abstract interpretation of MIR in product with a specification automaton over a ghost input position"
FLOOR = 150


def run(ctx):
    ctx.fn(NEXT)
    items = [("primitives", 0), ("header", 0)]
    items += [("fields", k) for k in range(8)] + [("stored", k) for k in range(8)] + [("after", m) for m in range(1, 9)]
    lcs, dcs = length_classes(), dist_classes()
    for i, d in enumerate(dcs):
        items.append(("compressed", ("fixed", lcs[i % 29], d)))
    items += [("compressed", ("dynamic", lcs[i], dcs[i])) for i in (0, 14, 28)]
    items += [("compressed", ("no distances", lcs[3], dcs[0]))]
    items += [("compressed", ("fixed", (l, 0, None, None), dcs[0])) for l in (286, 287)]
    items += [("compressed", ("fixed", lcs[0], (d, 0, None, None))) for d in (30, 31)]
    items += [("trees", h) for h in (0, 7, 15)]
    buffered(ctx)
    ctx.pmap(one, items, chunk=1)


def buffered(ctx):
    """No buffered reader around the caller's: it takes as much as it can hold."""
    cr = ctx.crate()
    roots = [g for p in (NEXT, "librezip::parse::parse_deflate", "librezip::gzip::discard_header") for g in cr.by_path[ctx.fn(p).path] if g.body]
    pred = G.reach(cr, roots)
    bad = set()
    for i in sorted(pred):
        f = cr.fns[i]
        if f.body is None or f.crate in ("core", "alloc", "std"):
            continue
        for b, c, t in G.calls(f):
            if re.search(r"BufReader::<R>::new$", c.get("path") or ""):
                bad.add("%s wraps the reader in a buffer, line %s" % (f.path, f.body["blocks"][b]["l"]))
    ctx.ob("no read goes through a buffer that reads ahead", not bad, "; ".join(sorted(bad)[:3]), "", key="buffered reader")
    ctx.notes["functions_searched_for_buffers"] = len(pred)


def one(ctx, item):
    what, x = item
    f = {"primitives": primitives, "header": header, "fields": fields, "stored": stored, "after": after, "compressed": compressed,
         "trees": trees}[what]
    ctx.attempt("%s %s" % (what, x if not isinstance(x, tuple) else "%s %d/%d" % (x[0], x[1][0], x[2][0])), f, ctx, x)


def took(ctx, I, s, name, n, f, key=None):
    d = s.c.norm(T.sub(s.g["pos"], n))
    good = d == 0 or s.decide(feq(d)) is True
    ctx.ob(name, good, "" if good else "%r bytes taken instead of %r" % (s.g["pos"], n), at(f), key=key or name)


def primitives(ctx, _):
    I = ctx.interp()
    byte_input(I, fail=True)
    st = State()
    st.g.update(pos=0, err="")
    start_parse(ctx, I, st)
    took(ctx, I, st, "making a parser takes nothing", 0, ctx.fn("librezip::parse::parse_deflate"))
    rb, al = ctx.fn(BR + "read_bit"), ctx.fn(BR + "align")
    for k in range(0, 18):
        I = ctx.interp()
        byte_input(I, fail=False)
        for s, _ in steps(I, start_reader(ctx, I, 0), rb, lambda s, i: [P(("env", "r"))], k, lambda s, r: r):
            took(ctx, I, s, "%d bits take %d bytes" % (k, (k + 7) // 8), (k + 7) // 8, rb, "bits take bytes")
            for s2, r in I.run(al, [P(("env", "r"))], s):
                took(ctx, I, s2, "alignment after %d bits takes nothing" % k, (k + 7) // 8, al, "alignment takes bytes")


def fields(ctx, k):
    rb, rp = ctx.fn(BR + "read_bit"), ctx.fn(BR + "read_part")
    for n in range(17):
        I = ctx.interp()
        byte_input(I, fail=False)
        # the values do not matter here
        for s, _ in steps(I, start_reader(ctx, I, 0), rb, lambda s, i: [P(("env", "r"))], k, lambda s, r: r):
            for s2, r in I.run(rp, [P(("env", "r")), n], s):
                want = (k + n + 7) // 8
                took(ctx, I, s2, "a field of %d bits at offset %d takes %d bytes" % (n, k, want - (k + 7) // 8), want, rp, "field takes bytes")


# ------------------------------------------------------------------ stored blocks
def stored(ctx, k):
    f = ctx.fn(NEXT)
    I = ctx.interp()
    head = (k + 3 + 7) // 8
    b = []

    def before(I, st, n):
        """Nothing may be read beyond what is known to belong to the block."""
        ended(st)
        if st.g["over"]:
            return
        p = T.add(st.g["pos"], n)
        if st.need(fge(T.sub(head, p))) if not isinstance(p, int) else p <= head:
            return
        lim = head + 4
        if st.need(fge(T.sub(st.g["pos"], lim))):
            fine = fand(*[feq(T.sub(T.add(b[i], b[i + 2]), 255)) for i in range(2)])
            if not st.need(fine):
                st.g["over"] = "data are read although the length is invalid"
                return
            lim = T.add(lim, T.add(b[0], T.scale(b[1], 256)))
        if not st.need(fge(T.sub(lim, p))):
            st.g["over"] = "more is read than the length and the announced data"
    byte_input(I, fail=True, before=before)
    st = State()
    st.g.update(pos=0, err="", over="")
    st.mem[("env", "it")] = start_parse(ctx, I, st)
    b[:] = [in_byte(I, head + i) for i in range(4)]
    seen = 0
    out, path = reader_at(ctx, I, st, k)
    for s, rs in out:
        if s.g["err"]:
            continue

        def bit(i, s=s):
            return I.bits(s, in_byte(I, i // 8), 8)[i % 8]
        s.assume(feq(bit(k + 1)))
        s.assume(feq(bit(k + 2)))
        if s.c.bad:
            continue
        for s2, r in I.run(f, [P(("env", "it"))], s):
            ctx.ob("offset %d: stored block read to its end at most" % k, not s2.g["over"], s2.g["over"], at(f), key="stored: " + (s2.g["over"] or "over"))
            if s2.g["over"]:
                continue
            r2 = r.kids[0] if isinstance(r, N) and r.tag == ("enm", 1) else None
            if r2 is not None and r2.tag == ("enm", 0):
                seen += 1
                took(ctx, I, s2, "offset %d: stored block read to its end" % k, T.add(head + 4, T.add(b[0], T.scale(b[1], 256))), f, "stored: end")
                final = s2.copy()
                if final.assume(feq(T.sub(bit(k, final), 1))) is not False and not final.c.bad:
                    more(ctx, I, final, f, "a stored block at offset %d" % k)
    ctx.ob("offset %d: stored blocks are delivered" % k, bool(seen), "" if seen else "never", at(f), key="stored: never")


LATE = "a byte is read after the final block"


def ended(st):
    if st.g.get("stop"):
        raise Panic(LATE)


def more(ctx, I, s, f, what):
    """Asking for more blocks after the final one."""
    p = s.g["pos"]
    s.g["stop"] = "yes"
    before = len(I.panics)
    for i in range(2):
        nxt = []
        for s2, r in I.run(f, [P(("env", "it"))], s):
            took(ctx, I, s2, "nothing is read after %s that is final%s" % (what, " (asked twice)" if i else ""), p, f, "read after the end")
            good = isinstance(r, N) and (r.tag == ("enm", 0) or r.kids[0].tag == ("enm", 1))
            ctx.ob("no block after %s that is final" % what, good, "" if good else "another block is delivered", at(f), key="block after the end")
            if isinstance(r, N) and r.tag == ("enm", 0):
                nxt.append(s2)
        if len(nxt) != 1:
            break
        s = nxt[0]
    late = [str(x) for x in I.panics[before:] if LATE in str(x)]
    ctx.ob("nothing is read after %s that is final" % what, not late, "; ".join(late[:1]), at(f), key="read after the end")


def after(ctx, m):
    """A final fixed block whose end-of-block symbol has m bits."""
    f = ctx.fn(NEXT)
    I = ctx.interp()
    byte_input(I, fail=False, before=lambda I, st, n: ended(st))
    fixed_trees(I)

    def dec(I, st, ca, a, rty, fn):
        rb = G.find_call(I.cr, fn, "librezip::bit::BitSource::read_bit")
        if rb is None:
            raise AnalysisError("symbols are not decoded bit by bit")
        todo = [st]
        for _ in range(m):
            todo = [s2 for s in todo for s2, r in I.call_inst(s, rb, [a[0] if len(a) == 1 else a[1]], rty)]
        return [(s, ok(256)) for s in todo]
    I.hooks[("fn", CT + "decode_symbol")] = dec
    I.anchors.add(CT + "decode_symbol")
    st = State()
    st.g.update(pos=0, err="")
    st.mem[("env", "it")] = start_parse(ctx, I, st)
    bits = I.bits(st, in_byte(I, 0), 8)
    for i, v in enumerate((1, 1, 0)):
        st.assume(feq(T.sub(bits[i], v)))
    seen = 0
    for s, r in I.run(f, [P(("env", "it"))], st):
        r = r.kids[0] if isinstance(r, N) and r.tag == ("enm", 1) else None
        if r is None or r.tag != ("enm", 0):
            continue
        seen += 1
        took(ctx, I, s, "a block of %d bits takes %d bytes" % (3 + m, (3 + m + 7) // 8), (3 + m + 7) // 8, f, "block takes bytes")
        more(ctx, I, s, f, "a compressed block of %d bits" % (3 + m))
    ctx.ob("a block of %d bits is delivered" % (3 + m), bool(seen), "" if seen else "never", at(f), key="block delivered")


# ------------------------------------------------------------------ compressed blocks
def by_bits(I):
    """Bytes are not read but by single bits."""
    def direct(I, st, ca, a, rty):
        if not generic_self(I, ca):
            return NotImplemented
        if any(f.path.startswith(BR) for f in I.stack[-2:] if hasattr(f, "path")):
            raise AnalysisError("bits are taken otherwise than by read_bit")
        raise Panic("bytes are read without the bit reader")
    for n in ("read", "read_exact", "read_to_end"):
        I.env_hooks[READ + "::" + n] = direct
    I.env_hooks[RBE + "::read_u8"] = direct


def compressed(ctx, item):
    from .c06 import setup_trees, code_ty
    kind, lc, dc = item
    I = ctx.interp()
    bitvecs(I)
    bit_input(I, fail=True)
    by_bits(I)
    lt, dt = setup_trees(I, kind)
    U16 = prim(I, "int", 16)
    name = "%s block, lengths of symbol %d, distances of symbol %d" % (kind, lc[0], dc[0])

    def quiet(st):
        """Have exactly the bits been taken that the last symbol asked for?"""
        d = st.c.norm(T.sub(T.sub(st.g["pos"], st.g["p0"]), st.g["bits"]))
        return d == 0 or st.need(feq(d))

    def dec(I, st, ca, a, rty, f):
        if st.g["bad"]:
            return err()
        if st.g["phase"] == "end":
            st.g["bad"] = "a symbol is decoded after the end of the block"
            return err()
        if not quiet(st):
            st.g["bad"] = "other bits are taken than a symbol's own (phase %s)" % st.g["phase"]
            return err()
        e = st.copy()
        e.g.update(err=True, bits=0, p0=e.g["pos"])
        st.g["n"] = st.c.norm(T.add(st.g["n"], 1))
        st.g["p0"] = st.g["pos"]
        tk = treekey(I, st, a[0])
        if tk == dt and st.g["phase"] == "length":
            st.g.update(bits=dc[1], phase="distance")
            return [(e, err()), (st, ok(dc[0]))]
        sym = I.mat(U16, ("el", "SYMBOL", st.c.norm(st.g["n"])))
        if st.need(fge(T.sub(255, sym))):
            st.g.update(bits=0, phase="literal")
            return [(e, err()), (st, ok(sym))]
        if st.need(feq(T.sub(sym, 256))):
            st.g.update(bits=0, phase="end")
            return [(e, err()), (st, ok(256))]
        st.g.update(bits=lc[1], phase="length")
        return [(e, err()), (st, ok(lc[0]))]
    I.hooks[("fn", CT + "decode_symbol")] = dec
    I.anchors.add(CT + "decode_symbol")
    cty = code_ty(I)

    def on_push(I, st, v, ty):
        if ty != cty:
            return v
        k = st.c.norm(st.g["m"])
        st.g["m"] = st.c.norm(T.add(k, 1))
        return I.mat(cty, ("el", "CODES", k))
    I.on_push = on_push
    f = ctx.fn(NEXT)
    st = State()
    st.g.update(pos=0, p0=0, n=0, m=0, phase="", bad="", bits=3, err="")
    st.mem[("env", "it")] = start_parse(ctx, I, st)
    st.assume(feq(T.sub(in_bit(I, 1), 1 if kind == "fixed" else 0)))
    st.assume(feq(T.sub(in_bit(I, 2), 0 if kind == "fixed" else 1)))
    done = 0
    for s, r in I.run(f, [P(("env", "it"))], st):
        for s2, (good, why) in cases(I, s, lambda x: judge(x, quiet)):
            done += s2.g["phase"] == "end"
            ctx.ob(name, good, why, at(f), key="compressed: " + (why or "bits"))
    for p in I.panics:
        if "without the bit reader" in str(p):
            ctx.ob(name, False, str(p), at(f), key="compressed: direct read")
    ctx.ob(name + ": delivered", bool(done), "" if done else "never", at(f), key="compressed: never")


def judge(s, quiet):
    if s.g["bad"]:
        return False, s.g["bad"]
    if s.g["err"]:
        return True, ""
    d = s.c.norm(T.sub(T.sub(s.g["pos"], s.g["p0"]), s.g["bits"]))
    good = s.need(fge(T.sub(0, d)))
    if good and s.g["phase"] == "end":
        good = quiet(s)
    return good, "" if good else "bits are taken after the last symbol (phase %s)" % (s.g["phase"] or "header")


class Positions:
    """The analysis of C08: only what it says about positions."""
    SAYS = ("wrong bit position", "missing or left over", "more code lengths are read")

    def __init__(self, ctx):
        self.ctx, self.count = ctx, 0

    def __getattr__(self, k):
        return getattr(self.ctx, k)

    def ob(self, name, status, detail="", where="", key=None):
        self.count += 1
        if status is False and not any(x in detail for x in self.SAYS):
            return
        self.ctx.ob("dynamic " + name, status, detail, where, key="header: " + (key or name))

    def interp(self, *a):
        I = self.ctx.interp(*a)
        by_bits(I)
        return I


def trees(ctx, h):
    w = Positions(ctx)
    name = "header with %d code length codes" % (h + 4)
    c08.header(w, name, "parse", h, None)


def header(ctx, _):
    f = ctx.fn("librezip::gzip::discard_header")
    I = ctx.interp()
    byte_input(I, fail=True, before=g01.before, after=g01.after)
    st = State()
    st.g.update(pos=0, phase="fixed", rem=10, over="", bad="", err="", all=S(()))
    n = 0
    for s, r in I.run(f, [tok("reader")], st):
        good = not s.g["over"]
        ctx.ob("no read goes beyond a field of the gzip header", good, "" if good else "reads beyond the %s field" % s.g["over"], at(f), key="gzip header: over")
        if okval(r) is not None and good and not s.g["bad"] and not s.g["err"]:
            n += 1
            good = s.g["phase"] == "done"
            ctx.ob("the gzip header is taken to its end", good, "" if good else "returns in field %s" % s.g["phase"], at(f), key="gzip header: end")
    ctx.ob("gzip headers are accepted", bool(n), "" if n else "never", at(f), key="gzip header: never")
