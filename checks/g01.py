from .env import *

RULE = ("Abstract interpretation of gzip::discard_header over an unknown byte stream, in product with a specification "
        "automaton of RFC 1952 section 2.3 (fixed part, extra length, extra field, name, comment, header checksum, done): "
        "every delivery of bytes by the reader must stay inside the automaton's current field (one byte at a time in the "
        "zero-terminated fields); every successful return must find the automaton done, the fixed part valid and the returned "
        "bytes equal to the bytes delivered (loop invariants are inferred by widening over affine relations between sequence "
        "lengths and positions); every error must stem from a failed read or an invalid fixed part; no panic is reachable.")
ASSUMPTIONS = ["read_exact delivers the next bytes of the stream or fails"]
TECHNIQUE = "abstract interpretation of MIR in product with a typestate automaton"
FLOOR = 20

FIELDS = (("xlen", 2), ("name", 3), ("comment", 4), ("crc", 1))     # field, flag bit


def flag(I, st, b):
    return st.need(feq(T.sub(I.bits(st, in_byte(I, 3), 8)[b], 1)))


def advance(I, st, after):
    """Enter the field that follows `after`."""
    names = [f for f, _ in FIELDS]
    i = 0 if after == "fixed" else names.index("xlen" if after == "extra" else after) + 1
    while i < len(FIELDS):
        f, b = FIELDS[i]
        if flag(I, st, b):
            st.g["phase"] = f
            st.g["rem"] = 2 if f in ("xlen", "crc") else 0
            return
        i += 1
    st.g["phase"] = "done"
    st.g["rem"] = 0


def before(I, st, n):
    ph = st.g["phase"]
    if ph in ("name", "comment"):
        good = st.need(feq(T.sub(n, 1)))
    elif ph == "done":
        good = st.need(feq(n))
    else:
        good = st.need(fge(T.sub(st.g["rem"], n)))
    if not good:
        st.g["over"] = ph if not st.g["over"] else st.g["over"]


def after(I, st, n):
    p = st.g["pos"]
    track(I, st, n)
    st.g["all"] = seq_cat(st.g["all"], delivered(I, st, st.c.norm(T.sub(p, n)), n))


def track(I, st, n):
    ph = st.g["phase"]
    if ph == "done" or st.g["over"] or st.g["bad"]:
        return
    last = st.g["pos"]
    if ph in ("name", "comment"):
        if st.need(feq(in_byte(I, st.c.norm(T.sub(last, 1))))):
            advance(I, st, ph)
        return
    rem = st.c.norm(T.sub(st.g["rem"], n))
    st.g["rem"] = rem
    if ph == "fixed":
        st.g["bad"] = valid(I, st, 10 - rem) or ""
        if st.g["bad"]:
            return
    if not st.need(feq(rem)):
        return
    if ph == "xlen":
        lo, hi = in_byte(I, st.c.norm(T.sub(last, 2))), in_byte(I, st.c.norm(T.sub(last, 1)))
        x = st.c.norm(T.add(lo, T.scale(hi, 256)))
        if st.need(feq(x)):
            advance(I, st, "extra")
        else:
            st.g["phase"], st.g["rem"] = "extra", x
        return
    advance(I, st, ph)


def valid(I, st, n):
    """What is wrong with the first n bytes of the fixed part (RFC 1952): decides, forking."""
    for i, v in ((0, 0x1f), (1, 0x8b), (2, 8)):
        if i < n and not st.need(feq(T.sub(in_byte(I, i), v))):
            return "byte %d" % i
    for b in (5, 6, 7):
        if n > 3 and flag(I, st, b):
            return "reserved flag %d" % b
    return None


def run(ctx):
    ctx.attempt("discard_header", header, ctx)


def header(ctx):
    f = ctx.fn("librezip::gzip::discard_header")
    where = "%s:%s" % (f.file, f.line)
    I = ctx.interp()
    byte_input(I, fail=True, before=before, after=after)
    st = State()
    st.g.update(pos=0, phase="fixed", rem=10, over="", bad="", err="", all=S(()))
    res = I.run(f, [tok("reader")], st)
    for p in I.panics:
        ctx.ob("no panic", False, repr(p), "%s:%s" % (p.file, p.line), key=p.key())
    seen = set()
    for s0, r in res:
        for s, (kind, good, msg) in cases(I, s0, lambda s: judge(I, s, r)):
            seen.add(kind)
            ctx.ob(kind, good, msg, where, key=kind + (": " + msg.split(":")[0] if msg else ""))
    combos = ["accepted, %s" % c for c in [fl for fl in all_flags()]]
    for k in combos:
        if k not in seen:
            ctx.ob(k, False, "no path accepts a header with these fields", where)
    for k in ("invalid fixed part refused", "failed read reported"):
        if k not in seen:
            ctx.ob(k, False, "no such path", where)


def all_flags():
    out = []
    for m in range(16):
        out.append("+".join(f for i, (f, _) in enumerate(FIELDS) if m >> i & 1) or "no optional field")
    return out


def judge(I, s, r):
    if not isinstance(r, N) or r.tag not in (("enm", 0), ("enm", 1)):
        raise AnalysisError("result %r" % (r,))
    if r.tag == ("enm", 1):
        if s.g["err"]:
            return "failed read reported", True, ""
        why = s.g["bad"]
        return "invalid fixed part refused", bool(why), "" if why else "valid header refused: phase %s" % s.g["phase"]
    if s.g["err"]:
        return "failed read reported", False, "success after a failed read"
    if s.g["bad"]:
        return "invalid fixed part refused", False, "accepted although %s is wrong" % s.g["bad"]
    if s.g["over"]:
        return "reads stay inside the header", False, "reads beyond the %s field" % s.g["over"]
    if s.g["phase"] != "done":
        return "the whole header is consumed", False, "returns in field %s" % s.g["phase"]
    fl = [f for f, b in FIELDS if flag(I, s, b)]
    v = r.kids[0]
    want = s.g["all"]
    q = isinstance(v, N) and v.tag == "vec" and I.seq_eq(s, v.kids[0], want)
    good = q is not None and q is not False and s.decide(q) is True
    return "accepted, %s" % ("+".join(fl) or "no optional field"), good, "" if good else "returned bytes differ: %r instead of %r" % (v, want)
