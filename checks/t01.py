"""T01: a trace restores exactly the codes it was made from."""
from .env import *
from .c04 import panics
from sa.models import deref, store
from . import t04

RULE = ("Product of trace() and of restore() with a specification of the protocol, over sequences of codes, guesses and trace entries of any "
        "length and contents. The guesses of the round that begins after b codes are one unknown sequence per b; both functions must ask "
        "for guesses exactly when a round is used up or was left after a wrong guess, and nothing else may be fed back than the codes in "
        "order. trace(): the entry of a code is Correct only if the comparison with the guess at that place in the round came out equal; "
        "otherwise it is the code in full (the kind alone for a literal) and the round is left. restore(): an entry Correct gives the guess "
        "at that place, a reference is taken from the entry, a literal is the byte of the data at the scanner's position, and the round is "
        "left. The scanner is shown to start at the end of the history, and the byte looked up to be the one at that position.")
ASSUMPTIONS = ["the codes cover the data, and guessed codes never lead beyond its end (T04), so a round of correct guesses that reaches the last code is used up",
               "guesses depend only on the codes fed back so far (T05); there is at least one and there are less than 65536 in a round (T06)",
               "equality of codes is equality of their kind and contents (derived)"]
TECHNIQUE = "abstract interpretation of MIR in product with a specification automaton"
FLOOR = 8

TR, RE = "librezip::trace::trace", "librezip::trace::restore"


def run(ctx):
    for f in (TR, RE):
        ctx.fn(f)
    for what, f in (("trace", trace), ("restore", restore), ("literals", literals)):
        ctx.attempt(what, f, ctx)


class Proto:
    """What both functions share: the scanner, as far as they may know it."""

    def __init__(self, ctx, I, st):
        self.ctx, self.I = ctx, I
        self.CODE = adt(I, "librezip::Code")
        self.TRACE = adt(I, "librezip::Trace")
        self.n = T.var(T.sym(("codes",), 0, 1 << 30))
        sc = t04.SC
        # codes fed back and made; how far the guesses of this round go, and up to where they are known to be right
        st.g.update(fed=0, made=0, until=0, sure=0, state="over", last="no")
        I.hooks[("fn", "librezip::technique::Technique::<'a, 'p, 'd>::scanner")] = self.scanner
        I.hooks[("fn", "librezip::technique::Technique::<'a, 'p, 'd>::byte_at")] = self.byte_at
        I.hooks[("fn", sc + "::<'t, 'a, 'p, 'd>::more_data")] = self.more
        I.hooks[("librezip::Guesser::codes", sc)] = self.codes
        for f in ("librezip::technique::Technique::<'a, 'p, 'd>::scanner", sc + "::<'t, 'a, 'p, 'd>::feedback"):
            ctx.fn(f)
        st.mem[("env", "technique")] = I.mat(adt(I, "librezip::technique::Technique"), ("technique",))

    def scanner(self, I, st, ca, a, rty, f):
        fs = I.types[rty]["variants"][0]["fields"]
        self.pos = [i for i, (x, _) in enumerate(fs) if x == "pos"]
        if not self.pos:
            raise Anchor("field pos of Scanner")
        st.g["scanners"] = st.g.get("scanners", "") + "1"
        if st.g["scanners"] != "1":
            raise AnalysisError("more than one scanner")
        return N("agg", tuple(self.where(0) if x == "pos" else I.mat(t, ("scanner", x)) for x, t in fs))

    def where(self, k):
        return self.I.mat(prim(self.I, "int", 64), ("el", "POSITIONS", k))

    def byte_at(self, I, st, ca, a, rty, f):
        k = st.g["fed"]
        at = element(a[1])
        if at is None or at[0] != "POSITIONS" or st.decide(feq(T.sub(at[1], k))) is not True:
            raise Panic("literal looked up at %r, not at the scanner's position" % (a[1],))
        return I.mat(rty, ("el", "LITERALS", k))

    def more(self, I, st, ca, a, rty, f):
        return fge(T.sub(T.sub(self.n, st.g["fed"]), 1))

    def pending(self, st, v, k):
        """Is v the guess for code k in the round at hand?"""
        s, i = place(st, v)
        return s == "GUESSES" and st.decide(feq(T.sub(i, k))) is True

    def codes(self, I, st, ca, a, rty, f):
        fed = st.c.norm(st.g["fed"])
        if not st.need(fge(T.sub(T.sub(self.n, fed), 1))):
            raise Panic("guesses asked for after the last code")
        if st.decide(feq(T.sub(fed, st.g["made"]))) is not True:
            raise Panic("guesses asked for when %r codes were fed back and %r made" % (fed, st.g["made"]))
        if st.g["state"] != "over" and st.decide(feq(T.sub(fed, st.g["until"]))) is not True:
            raise Panic("guesses asked for in the middle of a round")
        ln = T.var(T.sym(("round", fed), 1, 65535))
        st.g.update(until=st.c.norm(T.add(fed, ln)), sure=fed, state="open", last="no")
        return N("vec", (S((("o", "GUESSES", fed, ln, self.CODE),)),))

    def over(self, st):
        st.g.update(until=0, sure=0, state="over", last="no")

    def last(self, st, k):
        """All codes up to k, the last one, were guessed: the round is used up."""
        if st.need(feq(T.sub(T.add(k, 1), self.n))):
            st.assume(feq(T.sub(st.g["until"], self.n)))
            st.g["last"] = "yes"

    def open(self, st, k):
        return st.g["state"] == "open" and st.decide(fge(T.sub(T.sub(st.g["until"], k), 1))) is True

    def advance(self, st, a):
        st.g["fed"] = st.c.norm(T.add(st.g["fed"], 1))
        s = deref(self.I, st, a)
        i = self.pos[0]
        store(self.I, st, a, N("agg", tuple(self.where(st.g["fed"]) if j == i else k for j, k in enumerate(s.kids))))


def element(x):
    """(sequence, position) of a number taken from a sequence."""
    if isinstance(x, T.Lin) and x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
        k = T.Sym.table[x.t[0][0]].key
        if k[0] == "el":
            return k[1:]
    return None


def place(st, v):
    """(sequence, position) of an element of one of the sequences."""
    return v.key[1:] if isinstance(v, U) and v.key[0] == "el" else (None, None)


def trace(ctx):
    I = ctx.interp()
    f = ctx.fn(TR)
    where = "%s:%s" % (f.file, f.line)
    st = State()
    p = Proto(ctx, I, st)
    COR, ACT, LIT = [enum_variant(I, "librezip::Trace", v) for v in ("Correct", "Actually", "ActuallyLiteral")]
    CL, CR = [enum_variant(I, "librezip::Code", v) for v in ("Literal", "Reference")]
    st.mem[("env", "codes")] = S((("o", "CODES", 0, p.n, p.CODE),))

    def eq(I, st, ca, a, rty, f):
        x, y = deref(I, st, a[0]), deref(I, st, a[1])
        if place(st, y)[0] == "CODES":
            x, y = y, x
        (s1, i), (s2, j) = place(st, x), place(st, y)
        if s1 != "CODES" or s2 != "GUESSES":
            return NotImplemented
        same = T.var(T.sym(("same", s2, i, j), 0, 1))
        if not st.need(fge(T.sub(same, 1))):
            return False
        if st.decide(feq(T.sub(i, st.g["sure"]))) is True and p.open(st, i) and p.pending(st, y, i):
            st.g["sure"] = st.c.norm(T.add(i, 1))
            p.last(st, i)
        return True
    I.hooks[("core::cmp::PartialEq::eq", "librezip::Code")] = eq

    def feedback(I, st, ca, a, rty, f):
        k = st.c.norm(st.g["fed"])
        s, i = place(st, a[1])
        good = s == "CODES" and st.decide(feq(T.sub(i, k))) is True
        if p.pending(st, a[1], k):
            good = st.decide(fge(T.sub(T.sub(st.g["sure"], k), 1))) is True
        if not good:
            raise Panic("code %r fed back as code %r" % (a[1], k))
        p.advance(st, a[0])
        return UNIT
    p.feedback = feedback
    I.hooks[("fn", t04.SC + "::<'t, 'a, 'p, 'd>::feedback")] = feedback

    def on_push(I, st, v, ty):
        if ty != p.TRACE:
            return v
        k = st.c.norm(st.g["made"])
        x = I.variant(st, v)
        if not p.open(st, k):
            raise Panic("entry %r made while no guess is pending" % (k,))
        if x == COR:
            if st.decide(fge(T.sub(T.sub(st.g["sure"], k), 1))) is not True:
                raise Panic("entry %r is Correct, but code and guess were not found equal" % (k,))
        else:
            if not st.need(fge(T.sub(T.sub(p.n, k), 1))):
                raise Panic("an entry beyond the last code")
            c = I.mat(p.CODE, ("el", "CODES", k))
            kind = I.variant(st, c)
            want = CR if x == ACT else CL
            if kind != want and not (isinstance(kind, T.Lin) and st.decide(feq(T.sub(kind, want))) is True):
                raise Panic("entry %r does not have the kind of the code" % (k,))
            if x == ACT and st.decide(I.veq(st, v.kids[0], I.sub(st, c, ("f", 0, CR, I.types[p.CODE]["variants"][CR]["fields"][0][1])))) is not True:
                raise Panic("entry %r has another reference than the code" % (k,))
            p.over(st)
        st.g["made"] = st.c.norm(T.add(k, 1))
        return I.mat(p.TRACE, ("el", "ENTRIES", k))
    I.on_push = on_push
    end(ctx, I, p, "trace", where, I.run(f, [P(("env", "codes"), (), 0, p.n), P(("env", "technique"))], st))


def end(ctx, I, p, what, where, res):
    for s, r in res:
        ln = seq_len(s, r.kids[0])
        good = all(s.decide(feq(T.sub(p.n, x))) is True for x in (ln, s.g["made"], s.g["fed"]))
        ctx.ob("%s: one entry per code, to the last code" % what, good, "%r entries, %r made, %r fed back of %r" % (ln, s.g["made"], s.g["fed"], p.n), where)
    ctx.ob("%s: comes to an end" % what, bool(res), "", where)
    panics(ctx, I, what)


def restore(ctx):
    I = ctx.interp()
    f = ctx.fn(RE)
    where = "%s:%s" % (f.file, f.line)
    st = State()
    p = Proto(ctx, I, st)
    COR, ACT, LIT = [enum_variant(I, "librezip::Trace", v) for v in ("Correct", "Actually", "ActuallyLiteral")]
    CL, CR = [enum_variant(I, "librezip::Code", v) for v in ("Literal", "Reference")]
    st.g.update({"read": "", "entry": UNIT, "entry at": 0, "kind": ""})
    get = I.seq_get

    def seq_get(st, s, i):
        u = get(st, s, i)
        q, k = place(st, u)
        if q == "ENTRIES":
            x = I.variant(st, u)
            for y in (COR, ACT, LIT):
                if st.need(feq(T.sub(x, y))):
                    st.g.update({"read": "yes", "entry": u, "entry at": k, "kind": str(y)})
                    break
        return u
    I.seq_get = seq_get

    def done(st):
        """Fed back as well as made: nothing is known of this entry any more."""
        if st.decide(feq(T.sub(st.g["fed"], st.g["made"]))) is True:
            st.g.update({"read": "", "entry": UNIT, "entry at": 0, "kind": ""})

    st.mem[("env", "entries")] = S((("o", "ENTRIES", 0, p.n, p.TRACE),))

    def expected(st, v, k):
        """Is v the code that entry k stands for?"""
        if st.g["read"] != "yes" or st.decide(feq(T.sub(st.g["entry at"], k))) is not True:
            raise Panic("code %r is made or fed back without entry %r" % (k, k))
        e, y = st.g["entry"], int(st.g["kind"])
        if y == COR:
            return COR, p.open(st, k) and p.pending(st, v, k)
        if not st.need(feq(T.sub(I.variant(st, v), CR if y == ACT else CL))):
            return y, False
        if y == ACT:
            return y, st.decide(I.veq(st, I.sub(st, v, ("f", 0, CR, I.field_ty(I.types[p.CODE], CR, 0))), I.sub(st, e, ("f", 0, ACT, I.types[p.TRACE]["variants"][ACT]["fields"][0][1])))) is True
        at = element(I.sub(st, v, ("f", 0, CL, I.field_ty(I.types[p.CODE], CL, 0))))
        return y, at is not None and at[0] == "LITERALS" and st.decide(feq(T.sub(at[1], k))) is True

    def feedback(I, st, ca, a, rty, f):
        k = st.g["fed"]
        if not p.open(st, k):
            raise Panic("code %r fed back while no guess is pending" % (k,))
        y, good = expected(st, a[1], k)
        if not good:
            raise Panic("%r fed back as code %r" % (a[1], k))
        if y == COR:
            p.last(st, k)
        else:
            p.over(st)
        p.advance(st, a[0])
        done(st)
        return UNIT
    I.hooks[("fn", t04.SC + "::<'t, 'a, 'p, 'd>::feedback")] = feedback

    def on_push(I, st, v, ty):
        if ty != p.CODE:
            return v
        k = st.g["made"]
        if not expected_any(st, v, k):
            raise Panic("%r made as code %r" % (v, k))
        st.g["made"] = st.c.norm(T.add(k, 1))
        done(st)
        return I.mat(p.CODE, ("el", "CODES", k))

    def expected_any(st, v, k):
        # the round may have been left by the feedback of this very code
        was = st.g["state"]
        if was == "over" and st.decide(feq(T.sub(T.add(k, 1), st.g["fed"]))) is True:
            st.g["state"] = "open"
        r = expected(st, v, k)[1]
        st.g["state"] = was
        return r
    I.on_push = on_push
    end(ctx, I, p, "restore", where, I.run(f, [P(("env", "entries"), (), 0, p.n), P(("env", "technique"))], st))


def literals(ctx):
    """The byte looked up at a position is the one there, and scanning starts after the history."""
    name = "librezip::technique::Technique::<'a, 'p, 'd>::"
    f = ctx.fn(name + "byte_at")
    where = "%s:%s" % (f.file, f.line)
    I = ctx.interp()
    st, n, _ = t04.scanner(ctx, I, State(), "Longest", "Greedy")
    del I.hooks[("fn", t04.AR + "get")]
    pos = T.var(T.sym(("position asked",), 0, 1 << 41))
    st.assume(fge(T.sub(n, T.add(pos, 1))))
    res = I.run(f, [P(("env", "technique")), pos], st)
    for s, r in res:
        good = s.decide(feq(T.sub(r, I.mat(prim(I, "int", 8), ("el", "DATA", s.c.norm(pos)))))) is True
        ctx.ob("the byte at a position is that of history and data", good, "%r at %r" % (r, pos), where, key="byte at")
    ctx.ob("a byte can be looked up at any position", bool(res) and not I.panics, "; ".join(map(str, I.panics[:3])), where, key="byte panics")
    f = ctx.fn(name + "scanner")
    where = "%s:%s" % (f.file, f.line)
    I = ctx.interp()
    st, n, _ = t04.scanner(ctx, I, State(), "Longest", "Greedy")
    fs = [x for x, _ in I.types[adt(I, t04.SC)]["variants"][0]["fields"]]
    for s, v in I.run(f, [P(("env", "technique"))], st):
        at = v.kids[fs.index("pos")]
        good = s.decide(feq(T.sub(at, T.var(T.sym(("history",), 0, 1 << 40))))) is True
        ctx.ob("scanning starts after the history", good, "at %r" % (at,), where, key="start")
