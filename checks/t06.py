"""T06: tracing and restoring always make progress."""
from .env import *
from .c04 import panics
from sa.models import deref
from . import t04

RULE = ("Scanner::feedback, for any scanner and any code, advances the position by exactly the length the code stands for (1, or what Ref::run "
        "reports, at least 3); more_data holds exactly while the position is before the end of history and data, where a new scanner starts after "
        "the history. Scanner::codes, for each lookahead and any outcome of the searches, returns at least one code, and each further search "
        "is at a later position, or asks for a longer match, than the one before it. trace() and restore(), over any codes or entries and any "
        "non-empty guesses: from one round of guesses to the next at least one code is fed back, and nothing else moves the scanner. "
        "BackMap::from_window, over any history and data, links each position only to an earlier one, so that successive candidates are at "
        "descending positions, and a search ends.")
ASSUMPTIONS = ["history and data are each shorter than 2^40 bytes", "iterations over finite sequences end"]
TECHNIQUE = "abstract interpretation of MIR with progress ghosts (ranking by position)"
FLOOR = 17

TR, RE = "librezip::trace::trace", "librezip::trace::restore"
SC = t04.SC + "::<'t, 'a, 'p, 'd>::"
TE = "librezip::technique::Technique::<'a, 'p, 'd>::"


def run(ctx):
    I = ctx.interp()
    for f in (TR, RE, SC + "feedback", SC + "more_data", TE + "scanner"):
        ctx.fn(f)
    ctx.attempt("start", start, ctx)
    ctx.attempt("more data", more, ctx)
    for kind in ("Literal", "Reference"):
        ctx.attempt("feedback " + kind, feedback, ctx, kind)
    for p in t04.variants(I, t04.LA):
        ctx.attempt("guesses " + p, guesses, ctx, p)
    ctx.attempt("descent", descent, ctx)
    for what in (TR, RE):
        ctx.attempt(what, rounds, ctx, what)


def position(I, st):
    """The position of the scanner in memory."""
    fs = [x for x, _ in I.types[adt(I, t04.SC)]["variants"][0]["fields"]]
    if "pos" not in fs:
        raise Anchor("field pos of Scanner")
    return st.c.norm(st.mem[("env", "scanner")].kids[fs.index("pos")])


def start(ctx):
    f = ctx.fn(TE + "scanner")
    where = "%s:%s" % (f.file, f.line)
    I = ctx.interp()
    st, n, pos = t04.scanner(ctx, I, State(), "Longest", "Greedy")
    for s, v in I.run(f, [P(("env", "technique"))], st):
        s.mem[("env", "scanner")] = v
        good = s.decide(feq(T.sub(position(I, s), T.var(T.sym(("history",), 0, 1 << 40))))) is True
        ctx.ob("a new scanner starts after the history", good, "at %r" % (position(I, s),), where, key="start")
    ctx.ob("making a scanner does not panic", not I.panics, "; ".join(map(str, I.panics[:3])), where)


def more(ctx):
    f = ctx.fn(SC + "more_data")
    where = "%s:%s" % (f.file, f.line)
    for left in (True, False):
        I = ctx.interp()
        st, n, pos = t04.scanner(ctx, I, State(), "Longest", "Greedy")
        fs = [x for x, _ in I.types[adt(I, t04.SC)]["variants"][0]["fields"]]
        k = T.var(T.sym(("position now",), 0, 1 << 42))
        v = st.mem[("env", "scanner")]
        st.mem[("env", "scanner")] = N("agg", tuple(k if x == "pos" else y for x, y in zip(fs, v.kids)))
        st.assume(fge(T.sub(T.sub(n, k), 1)) if left else fge(T.sub(k, n)))
        for s, r in I.run(f, [P(("env", "scanner"))], st):
            good = s.decide(r if left else fnot(r)) is True if not isinstance(r, bool) else r == left
            ctx.ob("there is %s data %s" % (("more", "before the end") if left else ("no more", "at the end")), good, "%r" % (r,), where, key="more data %s" % left)
        ctx.ob("asking for more data does not panic (%s)" % left, not I.panics, "; ".join(map(str, I.panics[:3])), where)


def feedback(ctx, kind):
    f = ctx.fn(SC + "feedback")
    where = "%s:%s" % (f.file, f.line)
    I = ctx.interp()
    st, n, pos = t04.scanner(ctx, I, State(), "Longest", "Greedy")
    x = enum_variant(I, "librezip::Code", kind)
    size = 1
    if kind == "Literal":
        code = enm(x, T.var(T.sym("byte", 0, 255)))
    else:
        size = T.var(T.sym("length", 3, 258))
        code = enm(x, mkref(ctx, I, st, T.var(T.sym("distance", 1, 32768)), size))
    for s, r in I.run(f, [P(("env", "scanner")), code], st):
        new = position(I, s)
        good = s.decide(feq(T.sub(new, T.add(pos, size)))) is True
        ctx.ob("%s: the position advances by the length of the code" % kind, good, "from %r to %r, length %r" % (pos, new, size), where, key="feedback " + kind)
    ctx.ob("%s: feeding back does not panic" % kind, not I.panics, "; ".join(map(str, I.panics[:3])), where)


def guesses(ctx, lookahead):
    I = ctx.interp()
    I.max_unroll = 8
    st, n, start = t04.scanner(ctx, I, State(), "Longest", lookahead)
    f = t04.looker(ctx, "codes")
    where = "%s:%s" % (f.file, f.line)

    def best(I, st, ca, a, rty, f):
        q, k = st.c.norm(a[1]), st.g["asked"]
        if not st.need(fge(T.sub(n, T.add(q, 1)))):
            raise AnalysisError("search at the end of the data")
        want = a[2] if len(a) > 2 else NONE
        w = 0
        if I.variant(st, want) == 1:
            w = st.c.norm(I.sub(st, want, ("f", 0, 1, prim(I, "int", 16))))
        if st.g["any"]:
            later = st.decide(fge(T.sub(T.sub(q, st.g["base"]), 1))) is True
            longer = st.decide(fand(feq(T.sub(q, st.g["base"])), fge(T.sub(T.sub(w, st.g["longer"]), 1)))) is True
            if not (later or longer):
                raise Panic("a search at %r after one at %r" % (q, st.g["base"]))
        lit = I.mat(prim(I, "int", 8), ("el", "DATA", q))
        found = st.need(fge(T.sub(T.var(T.sym(("candidate", k), 0, 1)), 1)))
        r = t04.offered(ctx, I, st, n, q, k) if found else NONE
        st.g.update(asked=T.add(k, 1), base=q, longer=w, any="yes", room=st.c.norm(T.sub(n, q)), room3=st.c.norm(T.sub(n, T.add(q, 3))))
        return agg(lit, r)
    path = t04.looker(ctx, "best_candidate_better_than").path
    ctx.fn(path)
    I.hooks[("fn", path)] = best
    st.g.update(asked=0, any="", base=start, longer=0)
    res = I.run(f, [P(("env", "scanner"))], st)
    for s, r in res:
        ln = seq_len(s, r.kids[0])
        ctx.ob("%s: at least one code is guessed" % lookahead, s.decide(fge(T.sub(ln, 1))) is True, "%r codes" % (ln,), where, key="codes " + lookahead)
    bad = [str(p) for p in I.panics if "a search at" in str(p)]
    ctx.ob("%s: searches move on" % lookahead, not bad, "; ".join(bad[:3]), where, key="searches " + lookahead)
    ctx.ob("%s: guessing comes to an end" % lookahead, bool(res), "", where)


def descent(ctx):
    """The chain of earlier positions with the same hash descends."""
    cr = ctx.crate()
    f = cr.find(t04.BM + "::get")
    nx = [x for x in cr.fns if x.name == "next" and x.impl_trait and "Iterator" in x.impl_trait and "back_map::" in x.path and x.body]
    if f is None or len(nx) != 1:
        raise AnalysisError("no chain of positions")
    for e in (-1, 0):
        where, bad, loose = t04.build(ctx, e)
        if not loose:
            break
    else:
        ctx.ob("entries of the chain lead to earlier positions", False, "; ".join(loose[:3]), where, key="descent")
        return
    where = "%s:%s" % (nx[0].file, nx[0].line)
    I = ctx.interp()
    st, n = t04.world(ctx, I, State(), e=e)
    maps = [i for i, (_, t) in enumerate(I.types[adt(I, "librezip::all_refs::AllRefs")]["variants"][0]["fields"])
            if I.types[t].get("path") == t04.BM]
    if len(maps) != 1:
        raise AnalysisError("no table of positions in AllRefs")
    st.mem[("env", "map")] = st.mem[("env", "refs")].kids[maps[0]]
    two = 0
    for s, v in I.run(f, [P(("env", "map")), I.mat(f.body["locals"][2], ("key",))], st):
        s.mem[("env", "chain")] = v
        for s1, a in I.run(nx[0], [P(("env", "chain"))], s):
            if I.variant(s1, a) != 1:
                continue
            for s2, b in I.run(nx[0], [P(("env", "chain"))], s1):
                if I.variant(s2, b) == 1:
                    two += 1
                    x, y = s2.c.norm(a.kids[0]), s2.c.norm(b.kids[0])
                    ctx.ob("a candidate is at an earlier position than the one before it", s2.decide(fge(T.sub(T.sub(x, y), 1))) is True,
                           "%r after %r" % (y, x), where, key="descent")
    ctx.ob("following the chain does not panic", not I.panics, "; ".join(map(str, I.panics[:3])), where)
    ctx.ob("the chain is followed", two > 0, "", where)


def rounds(ctx, what):
    """Between two rounds of guesses at least one code is fed back."""
    I = ctx.interp()
    f = ctx.fn(what)
    where = "%s:%s" % (f.file, f.line)
    name = what.rsplit("::", 1)[1]
    st = State()
    CODE, TRACE = adt(I, "librezip::Code"), adt(I, "librezip::Trace")
    seen = []

    def scanner(I, st, ca, a, rty, f):
        fs = I.types[rty]["variants"][0]["fields"]
        return N("agg", tuple(I.mat(t, ("scanner", x)) for x, t in fs))
    I.hooks[("fn", TE + "scanner")] = scanner
    I.hooks[("fn", TE + "byte_at")] = lambda I, st, ca, a, rty, f: I.mat(rty, ("opaque", "literal"))

    def more(I, st, ca, a, rty, f):
        return fge(T.sub(T.var(T.sym(("opaque", "more"), 0, 1)), 1))
    I.hooks[("fn", SC + "more_data")] = more

    def codes(I, st, ca, a, rty, f):
        if st.g["rounds"] == "yes" and st.decide(fge(T.sub(st.g["fed"], 1))) is not True:
            raise Panic("a round of guesses ended without a code fed back")
        seen.append(1)
        turn = {"0": "1"}.get(st.g["turn"], "0")
        ln = T.var(T.sym(("opaque", "guesses", turn), 1, 1 << 30))
        st.g.update(rounds="yes", fed=0, turn=turn)
        return N("vec", (S((("o", ("opaque", "guess", turn), 0, ln, CODE),)),))
    I.hooks[("librezip::Guesser::codes", t04.SC)] = codes

    def fed(I, st, ca, a, rty, f):
        st.g["fed"] = st.c.norm(T.add(st.g["fed"], 1))
        return UNIT
    I.hooks[("fn", SC + "feedback")] = fed

    def eq(I, st, ca, a, rty, f):
        x, y = deref(I, st, a[0]), deref(I, st, a[1])
        return fge(T.sub(T.var(T.sym(("equal", getattr(x, "key", x), getattr(y, "key", y)), 0, 1)), 1))
    I.hooks[("core::cmp::PartialEq::eq", "librezip::Code")] = eq

    def on_push(I, st, v, ty):
        if ty not in (TRACE, CODE):
            return v
        n = st.g["made"]
        st.g["made"] = st.c.norm(T.add(n, 1))
        return I.mat(ty, ("el", "MADE", n))
    I.on_push = on_push
    st.g.update(rounds="", fed=0, made=0, turn="")
    n = T.var(T.sym("entries", 0, 1 << 40))
    ty = CODE if what == TR else TRACE
    st.mem[("env", "in")] = S((("o", "IN", 0, n, ty),))
    st.mem[("env", "technique")] = I.mat(adt(I, "librezip::technique::Technique"), ("technique",))
    res = I.run(f, [P(("env", "in"), (), 0, n), P(("env", "technique"))], st)
    bad = [str(p) for p in I.panics if "round of guesses" in str(p)]
    ctx.ob("%s: every round feeds a code back" % name, not bad, "; ".join(bad[:2]), where, key="rounds " + name)
    ctx.ob("%s: asks for guesses and returns" % name, bool(res) and bool(seen), "", where)
