"""T03: every reference has a distance of 1-32768 and a length of 3-258."""
from .env import *
from .c06 import *
from . import lendist, t02, t04
from sa import graph

RULE = ("Encapsulation. Every place in the crate where a value of type Ref comes into being (an aggregate in the MIR of any function, closure "
        "or generic instance) or where a field of one is written or lent mutably is enumerated; constants and reinterpreting casts to Ref are "
        "refused. The function around each place is interpreted abstractly for arbitrary arguments: whatever Ref exists there afterwards has "
        "a distance of 1-32768 and reports (Ref::run) a length of 3-258. Where arbitrary arguments would not do (a place that relies on its caller), "
        "the public operations that lead there are interpreted instead: parsing of every pair of symbols with any extra bits, reading of any "
        "serialised trace, and the search for candidates. Ref::new with arguments it accepts reports exactly these.")
ASSUMPTIONS = ["safe Rust: a Ref is not forged from raw memory (reinterpreting casts in the crate are looked for)",
               "code outside the crate does not assign to the public field dist"]
TECHNIQUE = "construction-site enumeration over MIR with abstract interpretation of each site"
FLOOR = 4

REF, NEW = "librezip::Ref", "librezip::Ref::new"
ITER = "<librezip::parse::BlockIter<R> as core::iter::traits::iterator::Iterator>::next"


def base_types(cr, body, place):
    """Types of the prefixes of a place: [(type, projection that follows)]."""
    ty, out = body["locals"][place[0]], []
    for p in place[1:]:
        out.append((ty, p))
        t = cr.types[ty] if ty is not None else {}
        if p[0] == "*":
            ty = t.get("to", t.get("ty", t.get("elem")))
        elif p[0] == "f":
            ty = p[2]
        elif p[0] == "d" or p[0] == "down":
            pass
        else:
            ty = t.get("elem")
    return out


def sites(cr):
    """Places that make or change a Ref: (function, kind, line)."""
    rt = {i for i, t in enumerate(cr.types) if t["k"] == "adt" and t["path"] == REF}
    if not rt:
        raise Anchor(REF)

    def field(f, place):
        return any(t in rt and p[0] == "f" for t, p in base_types(cr, f.body, place)[-1:])

    def consts(x):
        if isinstance(x, dict):
            if x.get("k") not in (None, "zst") and x.get("ty") in rt:
                yield x
            for v in x.values():
                yield from consts(v)
        elif isinstance(x, list):
            for v in x:
                yield from consts(v)
    for f in cr.fns:
        if f.body is None:
            continue
        for b in f.body["blocks"]:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "agg" and rv[1] == "adt" and rv[-1] in rt:
                    yield f, "made", s[3]
                if rv[0] == "cast" and rv[3] in rt:
                    yield f, "cast", s[3]
                if field(f, s[1]):
                    yield f, "field assigned", s[3]
                if rv[0] == "ref" and rv[2] and field(f, rv[1]) or rv[0] == "raw" and field(f, rv[1]):
                    yield f, "field lent", s[3]
            if b["t"][0] == "call":
                d = b["t"][3]
                if field(f, d):
                    yield f, "field assigned", b["l"]
            for _ in consts([b["s"], b["t"]]):
                yield f, "constant", b["l"]


def parts(ctx, I, st, v):
    """[(state, distance, length as Ref::run reports it)]"""
    fs = [n for n, _ in I.types[adt(I, REF)]["variants"][0]["fields"]]
    if "dist" not in fs:
        raise Anchor("field dist of librezip::Ref")
    ds = I.sub(st, v, ("f", fs.index("dist"), None, None)) if not isinstance(v, N) else v.kids[fs.index("dist")]
    st.mem[("env", "ref")] = v
    return [(s, s.c.norm(ds), s.c.norm(r)) for s, r in I.run(ctx.fn("librezip::Ref::run"), [P(("env", "ref"))], st)]


def within(ctx, I, st, v):
    for s, ds, ln in parts(ctx, I, st, v):
        if not all(s.decide(x) is True for x in (fge(T.sub(ds, 1)), fge(T.sub(32768, ds)), fge(T.sub(ln, 3)), fge(T.sub(258, ln)))):
            return False, "distance %s, length %s" % (show(s, ds), show(s, ln))
    return True, ""


def show(st, x):
    if isinstance(x, int):
        return x
    lo, hi = st.c.interval(x)
    return "%s..%s" % (lo, hi)


def watch(ctx, I):
    rt = adt(I, REF)
    I.made = 0

    def on_agg(I, st, ty, v):
        if ty == rt:
            I.made += 1
            good, why = within(ctx, I, st.copy(), v)
            if not good:
                raise Panic("a reference of " + why)
    I.on_agg = on_agg

    def on_field(I, st, ty, read):
        if ty == rt:
            on_agg(I, st, ty, read())
    I.on_field = on_field
    return I


class Watching:
    """The analyses of other properties, with an eye on the references made."""

    def __init__(self, ctx):
        self.ctx, self.seen = ctx, []

    def __getattr__(self, k):
        return getattr(self.ctx, k)

    def interp(self, *a):
        self.seen.append(watch(self.ctx, self.ctx.interp(*a)))
        return self.seen[-1]

    def ob(self, *a, **k):
        pass


def new(ctx):
    f = ctx.fn(NEW)
    where = "%s:%s" % (f.file, f.line)
    I = ctx.interp()
    st = State()
    d, r = T.var(T.sym("distance", 0, 65535)), T.var(T.sym("length", 0, 65535))
    res = I.run(f, [d, r], st)
    del I.panics[:]
    for s, v in res:
        good, why = within(ctx, I, s, v)
        ctx.ob("a new reference has a distance of 1-32768 and a length of 3-258", good, why, where, key="new range")
        for s2, ds, ln in parts(ctx, I, s, v):
            good = s2.decide(fand(feq(T.sub(ds, d)), feq(T.sub(ln, r)))) is True
            ctx.ob("a new reference reports the distance and length it was made with", good, "%r, %r" % (ds, ln), where, key="new parts")
    ctx.ob("the length of a reference can always be asked for", not I.panics, "; ".join(map(str, I.panics[:3])), where, key="run panics")
    if not res:
        raise AnalysisError("no reference is ever made")


def read(ctx):
    """Read a trace, whatever the bytes."""
    I = ctx.interp()
    ty = adt(I, "librezip::Trace")

    def grow(st, k):
        n = st.g["n"]
        st.g["n"] = st.c.norm(T.add(n, k))
        return n
    I.on_push = lambda I, st, v, t: I.mat(ty, ("el", "TR", grow(st, 1))) if t == ty else v

    def on_extend(I, st, s, t):
        if t != ty:
            return s
        k = seq_len(st, s)
        return S((("o", "TR", grow(st, k), k, ty),))
    I.on_extend = on_extend
    byte_input(I, fail=True)
    st = State()
    st.g.update(pos=0, n=0, err="")
    I.run(ctx.fn(t02.RD), [tok("reader")], st)


def contexts(ctx):
    """Operations that make references, one by one."""
    I = ctx.interp()
    L = [("enc", "length", 257 + i, 0) for i in range(29)] + [("enc", "distance", 257, i) for i in range(30)]
    return [("parse", w, a, b) for _, w, a, b in L] + [("read",), ("search",)] + \
        [("choose", p) for p in t04.variants(I, t04.PI)] + [("guess", p) for p in t04.variants(I, t04.LA)]


def context(ctx, item):
    w = Watching(ctx)
    if item[0] == "parse":
        what, f = "parsing symbols %d and %d" % item[2:], ctx.fn(ITER)
        lendist.decode_case(w, *item[1:])
    elif item[0] == "read":
        what, f = "reading a trace", ctx.fn(t02.RD)
        read(w)
    elif item[0] == "choose":
        what, f = "choosing candidates (%s)" % item[1], t04.looker(ctx, "best_candidate_better_than")
        t04.best(w, item[1])
    elif item[0] == "guess":
        what, f = "guessing codes (%s)" % item[1], t04.looker(ctx, "codes")
        t04.codes(w, item[1])
    else:
        what, f = "searching candidates", ctx.fn(t04.AR + "at")
        t04.candidates(w, bool(ctx.crate().find(t04.LENGTH)))
    bad = [str(p) for I in w.seen for p in I.panics if "a reference of" in str(p)]
    ctx.ob("%s makes references in range" % what, not bad, "; ".join(bad[:3]), "%s:%s" % (f.file, f.line), key=what.split(" symbols")[0])


def in_context(ctx, item):
    ctx.attempt(" ".join(map(str, item)), context, ctx, item)


def local(ctx, f):
    """References made by one function, whatever its arguments."""
    I = watch(ctx, ctx.interp())
    st = State()
    args = []
    for i in range(f.body["argc"]):
        ty = f.body["locals"][1 + i]
        args.append(I.mat(ty, ("argument", i)))
    try:
        I.run(f, args, st)
    except (AnalysisError, Anchor) as e:
        return None, str(e)
    bad = [str(p) for p in I.panics if "a reference of" in str(p)]
    return not bad, "; ".join(bad[:3])


def run(ctx):
    cr = ctx.crate()
    ctx.attempt("Ref::new", new, ctx)
    found = {}
    for f, kind, line in sites(cr):
        found.setdefault((f.path, kind), []).append((f, line))
    ctx.notes["places"] = ["%s in %s" % (k, p) for p, k in sorted(found)]
    need = []
    for (path, kind), fs in sorted(found.items()):
        f, line = fs[0]
        where = "%s:%s" % (f.file, line)
        name = "%s in %s" % (kind, path)
        if kind in ("made", "field assigned"):
            good, why = local(ctx, f)
            if good or path == NEW and good is False:
                ctx.ob(name, good, why, where, key=name)
            else:
                need.append((name, f, where, why))
        else:
            ctx.attempt(name, undecided, ctx, name, where)
    if not need:
        return
    roots = [ctx.fn(x) for x in (ITER, t02.RD, t04.AR + "at")] + [t04.looker(ctx, x) for x in ("best_candidate_better_than", "codes")]
    reach = graph.reach(cr, roots)
    ctx.pmap(in_context, contexts(ctx))
    for name, f, where, why in need:
        if not any(g.path == f.path and g.id in reach for g in cr.fns):
            if why and "a reference of" in why:
                ctx.ob(name, False, why + "; made from unchecked parts", where, key=name)
            else:
                ctx.attempt(name, undecided, ctx, name, where)
        else:
            ctx.ob(name + ", judged by the operations that lead there", True, why, where)


def undecided(ctx, name, where):
    raise AnalysisError("%s at %s" % (name, where))
