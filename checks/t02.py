"""T02: serialised traces."""
from .env import *
from .c04 import at, panics

RULE = ("Abstract interpretation in product with a specification of the trace format (little-endian words: 0 a literal, 1..32768 a reference "
        "of that distance followed by its length less 3, 32768+c a run of c correct guesses). Writing: over a trace of any length and "
        "contents, every byte appended to the output is compared with what the next entries of the trace call for; a run may be split, "
        "but covers only correct guesses that follow one another; at the end every entry has been written. Reading: over any input, "
        "every entry pushed is compared with the record at the current position; success only at the end of the input and of a record; "
        "an input that ends inside a record, or a failed read, is an error.")
ASSUMPTIONS = ["read_exact delivers the next bytes of the stream or fails"]
TECHNIQUE = "abstract interpretation of MIR in product with a specification automaton"
FLOOR = 6

WR, RD = "librezip::serialise_trace::write", "librezip::serialise_trace::read"


def run(ctx):
    ctx.fn(WR)
    ctx.pmap(case, ["write", "read"])


def case(ctx, what):
    ctx.attempt(what, write if what == "write" else read, ctx)


def variants(I):
    return [enum_variant(I, "librezip::Trace", v) for v in ("Correct", "Actually", "ActuallyLiteral")]


def trace_ty(I):
    return adt(I, "librezip::Trace")


def all_refs(ctx, I):
    def some_ref(I, ty, key):
        return mkref(ctx, I, State(), T.add(1, T.var(T.sym(("distance", key), 0, 32767))), T.add(3, T.var(T.sym(("length", key), 0, 255))))
    I.mat_over["librezip::Ref"] = some_ref


def write(ctx):
    I = ctx.interp()
    f = ctx.fn(WR)
    all_refs(ctx, I)
    ty = trace_ty(I)
    U8 = prim(I, "int", 8)
    COR, ACT, LIT = variants(I)
    n = T.var(T.sym("number of entries", 0, LENMAX))
    get = I.seq_get

    def seq_get(st, s, i):
        u = get(st, s, i)
        if isinstance(u, U) and u.key[:2] == ("el", "TRACE"):
            v = I.variant(st, u)
            k = u.key[2]
            if st.need(fge(T.sub(T.sub(st.g["corr"], k), 1))) and st.need(fge(T.sub(k, st.g["k"]))):
                st.assume(feq(T.sub(v, COR)))
            elif st.need(feq(T.sub(v, COR))):
                if st.need(feq(T.sub(k, st.g["corr"]))):
                    st.g["corr"] = st.c.norm(T.add(k, 1))
            elif st.need(feq(T.sub(v, ACT))):
                pass
        return u
    I.seq_get = seq_get

    def entry(st, k):
        u = I.seq_get(st, S((("o", "TRACE", 0, n, ty),)), k)
        return u

    def byte(I, st, b):
        if st.g["phase"] == "length":
            k = st.g["k"]
            st.g["phase"] = "word"
            u = entry(st, k)
            r = I.sub(st, u, ("f", 0, ACT, I.field_ty(I.types[ty], ACT, 0)))
            ds, ln = ref_parts(ctx, I, st, r)
            if not st.need(feq(T.sub(T.sub(ln, 3), b))):
                raise Panic("the length of a reference is not what was written")
            advance(st, 1)
            return
        if st.g["phase"] == "word":
            st.g["phase"], st.g["half"] = "half", b
            return
        w = st.c.norm(T.add(st.g["half"], T.scale(b, 256)))
        st.g["phase"], st.g["half"] = "word", ""
        k = st.g["k"]
        if not st.need(fge(T.sub(T.sub(n, k), 1))):
            raise Panic("a record is written after the last entry")
        if st.need(fge(T.sub(w, 32769))):
            c = T.sub(w, 32768)
            if not st.need(fge(T.sub(st.g["corr"], T.add(k, c)))):
                raise Panic("a run of correct guesses is longer than in the trace")
            advance(st, c)
            return
        u = entry(st, k)
        v = I.variant(st, u)
        if st.need(feq(w)):
            if not st.need(feq(T.sub(v, LIT))):
                raise Panic("a literal is written for another entry")
            advance(st, 1)
            return
        if not st.need(feq(T.sub(v, ACT))):
            raise Panic("a reference is written for another entry")
        r = I.sub(st, u, ("f", 0, ACT, I.field_ty(I.types[ty], ACT, 0)))
        ds, ln = ref_parts(ctx, I, st, r)
        if not st.need(feq(T.sub(ds, w))):
            raise Panic("the distance of a reference is not what was written")
        st.g["phase"] = "length"

    def advance(st, c):
        st.g["k"] = st.c.norm(T.add(st.g["k"], c))
        if st.need(fge(T.sub(st.g["k"], st.g["corr"]))):
            st.g["corr"] = st.g["k"]

    def on_push(I, st, v, t):
        if t != U8:
            return v
        byte(I, st, v)
        m = st.g["m"]
        st.g["m"] = st.c.norm(T.add(m, 1))
        return I.mat(U8, ("el", "OUT", m))

    def on_extend(I, st, s, t):
        if t != U8:
            return s
        q = seq_len(st, s)
        if not isinstance(q, int):
            raise AnalysisError("bytes of unknown number written")
        for i in range(q):
            byte(I, st, get(st, s, i))
        m = st.g["m"]
        st.g["m"] = st.c.norm(T.add(m, q))
        return S((("o", "OUT", m, q, U8),))
    I.on_push, I.on_extend = on_push, on_extend
    st = State()
    st.mem[("env", "t")] = S((("o", "TRACE", 0, n, ty),))
    st.g.update(k=0, corr=0, phase="word", half="", m=0)
    res = I.run(f, [P(("env", "t"), (), 0, n)], st)
    panics(ctx, I, "write")
    for s, r in res:
        good = s.g["phase"] == "word" and s.decide(feq(T.sub(s.g["k"], n))) is True
        ctx.ob("write: every entry", good, "" if good else "%r of %r entries written, %s" % (s.g["k"], n, s.g["phase"]), at(f), key="write: every entry")
        q = isinstance(r, N) and r.tag == "vec" and I.seq_eq(s, r.kids[0], S((("o", "OUT", 0, s.g["m"], U8),)))
        good = q is not None and q is not False and s.decide(q) is True
        ctx.ob("write: result", good, "" if good else "returns %r" % (r,), at(f), key="write: result")


def read(ctx):
    I = ctx.interp()
    f = ctx.fn(RD)
    ty = trace_ty(I)
    COR, ACT, LIT = variants(I)
    end = T.var(T.sym("INPUT_LEN", 0, LENMAX))

    def record(st):
        """The bytes of the record that starts at g['rec'] have been delivered as far as they are needed: what is it?"""
        r = st.g["rec"]
        w = T.add(in_byte(I, r), T.scale(in_byte(I, st.c.norm(T.add(r, 1))), 256))
        return st.c.norm(w)

    def before(I, st, k):
        """Nothing is read before the records read so far have been delivered."""
        if not st.need(feq(st.g["left"])):
            raise Panic("correct guesses are dropped")
        used = int(st.g["used"])
        have = st.c.norm(T.add(used, k))
        if not isinstance(have, int):
            raise AnalysisError("reading an unknown number of bytes")
        if have <= 2:
            return
        if used < 2:
            raise Panic("more than a record is read")
        w = record(st)
        if have > 3 or not (st.need(fge(T.sub(w, 1))) and st.need(fge(T.sub(32768, w)))):
            raise Panic("more than a record is read")

    def after(I, st, k):
        """A complete run of correct guesses is to be delivered next."""
        st.g["used"] = str(int(st.g["used"]) + k)
        if st.g["used"] == "2":
            w = record(st)
            if st.need(fge(T.sub(w, 32769))):
                st.g["left"] = st.c.norm(T.sub(w, 32768))
                st.g["rec"], st.g["used"] = st.g["pos"], "0"

    def on_push(I, st, v, t):
        if t != ty:
            return v
        n = st.g["n"]
        st.g["n"] = st.c.norm(T.add(n, 1))
        out = I.mat(ty, ("el", "TR", n))
        if not st.need(feq(st.g["left"])):
            if not st.need(feq(T.sub(I.variant(st, v), COR))):
                raise Panic("another entry is delivered for a correct guess")
            st.g["left"] = st.c.norm(T.sub(st.g["left"], 1))
            return out
        used = int(st.g["used"])
        if used not in (2, 3):
            raise Panic("an entry is delivered that is not in the input")
        w = record(st)
        if st.need(feq(w)):
            want = enm(LIT)
            if used != 2:
                raise Panic("an entry is delivered that is not in the input")
        else:
            if used != 3:
                raise Panic("a reference is delivered before its length was read")
            want = enm(ACT, mkref(ctx, I, st, w, T.add(3, in_byte(I, st.c.norm(T.add(st.g["rec"], 2))))))
        e = I.veq(st, v, want)
        if e is None:
            raise AnalysisError("comparing %r with %r" % (v, want))
        if not st.need(e):
            raise Panic("the entry delivered is not the one in the input")
        st.g["rec"], st.g["used"] = st.g["pos"], "0"
        return out

    def on_extend(I, st, s, t):
        if t != ty:
            return s
        s = norm_seq(st, s)
        out = S(())
        for x in s.segs:
            q = st.c.norm(seglen(x))
            if q == 1:
                out = seq_append(st, out, on_push(I, st, I.seq_get(st, S((x,)), 0), ty), ty)
                continue
            if x[0] != "r" or st.need(feq(st.g["left"])):
                raise AnalysisError("appending %r" % (x,))
            if not st.need(feq(T.sub(I.variant(st, x[1]), COR))):
                raise Panic("another entry is delivered for a correct guess")
            elif not st.need(fge(T.sub(st.g["left"], q))):
                raise Panic("more correct guesses are delivered than there are")
            n = st.g["n"]
            st.g["n"] = st.c.norm(T.add(n, q))
            st.g["left"] = st.c.norm(T.sub(st.g["left"], q))
            out = seq_cat(out, S((("o", "TR", n, q, ty),)))
        return out
    I.on_push, I.on_extend = on_push, on_extend
    byte_input(I, fail=True, eof=True, before=before, after=after)
    st = State()
    st.g.update(pos=0, rec=0, used="0", left=0, n=0, err="", eof="")
    res = I.run(f, [tok("reader")], st)
    panics(ctx, I, "read")
    oks = errs = 0
    for s, r in res:
        g = s.g
        inside = s.decide(feq(T.sub(g["pos"], g["rec"]))) is not True or s.decide(feq(T.sub(g["pos"], end))) is not True
        if r.tag == ("enm", 1):
            errs += 1
            good = bool(g["err"]) or (bool(g["eof"]) and inside)
            ctx.ob("read: refusal", good, "" if good else "a complete trace is refused", at(f), key="read: refused")
            continue
        oks += 1
        good = not g["err"] and bool(g["eof"]) and not inside and s.decide(feq(g["left"])) is True
        ctx.ob("read: end", good, "" if good else "success with %s, %s" % (
            "an error" if g["err"] else "input left or a record cut short" if inside else "no error", g["eof"] or "before the end of the input"), at(f), key="read: end")
        v = r.kids[0]
        q = isinstance(v, N) and v.tag == "vec" and I.seq_eq(s, v.kids[0], S((("o", "TR", 0, g["n"], ty),)))
        good = q is not None and q is not False and s.decide(q) is True
        ctx.ob("read: result", good, "" if good else "returns %r for %r entries" % (v, g["n"]), at(f), key="read: result")
    ctx.ob("read: succeeds", bool(oks), "" if oks else "no input is accepted", at(f), key="read: succeeds")
    ctx.ob("read: fails", bool(errs), "" if errs else "no input is refused", at(f), key="read: fails")
