"""W01: the history window."""
from .env import *
from .c04 import at, panics, same
from sa import graph as G

RULE = ("Abstract interpretation of CircularBuffer over symbolic bytes. (1) For every capacity 1..4 and every number of appended bytes up to "
        "two rounds and a bit: every distance, the listing, the length, and a copy of every length from every distance (also the refused "
        "ones). (2) The role of every field is read off these runs (next position, number of retained bytes, capacity, data) and proved "
        "by induction for an arbitrary capacity 1..65535 and an arbitrary number of appended bytes: construction establishes the "
        "representation, push preserves it, every distance and the listing are read correctly, a copy from any distance of any length "
        "writes and appends the right bytes (loop invariant inferred). (3) Copies across the edge of large windows.")
ASSUMPTIONS = ["write_all delivers all the bytes or fails"]
TECHNIQUE = "abstract interpretation of MIR, induction over a representation relation"
FLOOR = 60

CB = "librezip::circles::CircularBuffer::"
DEFAULT = "<librezip::circles::CircularBuffer as core::default::Default>::default"


def run(ctx):
    for n in ("with_capacity", "new", "push", "extend", "copy", "get_at_dist", "vec", "len", "capacity"):
        ctx.fn(CB + n)
    items = [("bounded", c, n) for c in (1, 2, 3, 4) for n in range(2 * c + 2)]
    ctx.pmap(one, items, chunk=2)
    roles = None
    try:
        roles = find_roles(ctx)
    except AnalysisError as e:
        ctx.ob("representation", None, str(e))
    if roles is None:
        return
    ctx.notes["representation"] = repr(roles)
    items = [(k, roles, x) for k in ("start", "push", "get", "listing", "copy", "extend") for x in (False, True)]
    items += [("large", roles, x) for x in large(ctx)]
    ctx.pmap(two, items)
    # the unbounded copy is proved when the loop invariant is found; otherwise the enumerated copies decide
    bad = [o for o in ctx.obs if o["status"] == "violated"]
    if bad and all(o["key"].startswith("copy, ") for o in bad):
        for o in bad:
            o["status"] = "undecided"


def one(ctx, item):
    ctx.attempt("capacity %d after %d bytes" % item[1:], bounded, ctx, *item[1:])


def two(ctx, item):
    k, roles, x = item
    ctx.attempt(k, globals()["do_" + k], ctx, roles, x)


def u8(I):
    return prim(I, "int", 8)


def byte(I, k):
    return I.mat(u8(I), ("el", "H", k))


def hist(I, a, n):
    return ("o", "H", a, n, u8(I))


def fill(ctx, I, cap, n):
    st = State()
    (st, r), = I.run(ctx.fn(CB + "with_capacity"), [cap], st)
    st.mem[("env", "cb")] = r
    for i in range(n):
        (st, _), = I.run(ctx.fn(CB + "push"), [P(("env", "cb")), byte(I, i)], st)
    return st


def expect(I, ctx, st, name, f, got, want, key):
    q = I.veq(st, got, want) if not isinstance(got, S) else I.seq_eq(st, got, want)
    good = q is True or (q is not None and q is not False and st.decide(q) is True)
    ctx.ob(name, good, "" if good else "%r instead of %r" % (got, want), at(f), key=key)
    return good


def listed(I, bs):
    s = S(())
    for b in bs:
        s = seq_append(State(), s, b, u8(I))
    return s


def bounded(ctx, cap, n):
    I = ctx.interp()
    name = "capacity %d after %d bytes" % (cap, n)
    byte_output(I)
    st0 = fill(ctx, I, cap, n)
    H = [byte(I, i) for i in range(n)]
    m = min(n, cap)
    self_ = P(("env", "cb"))

    def state_is(st, H, what):
        f = ctx.fn(CB + "vec")
        for s, r in I.run(f, [self_], st.copy()):
            expect(I, ctx, s, what + ": listing", f, r.kids[0], listed(I, H[max(0, len(H) - cap):]), "listing")
        f = ctx.fn(CB + "get_at_dist")
        for d in range(1, min(len(H), cap) + 1):
            for s, r in I.run(f, [self_, d], st.copy()):
                expect(I, ctx, s, what + ": distance %d" % d, f, r, H[-d], "distance")
        f = ctx.fn(CB + "len")
        for s, r in I.run(f, [self_], st.copy()):
            expect(I, ctx, s, what + ": length", f, r, min(len(H), cap), "length")
        f = ctx.fn(CB + "capacity")
        for s, r in I.run(f, [self_], st.copy()):
            expect(I, ctx, s, what + ": capacity", f, r, cap, "capacity")
    state_is(st0, H, name)
    f = ctx.fn(CB + "extend")
    for k in (0, 1, cap, 2 * cap + 1):
        s = st0.copy()
        more = [byte(I, 100 + i) for i in range(k)]
        s.mem[("env", "slice")] = listed(I, more)
        for s2, r in I.run(f, [self_, P(("env", "slice"), (), 0, k)], s):
            state_is(s2, H + more, name + " and %d more" % k)
    f = ctx.fn(CB + "copy")
    for d in list(range(0, cap + 3)) + [65535]:
        for k in range(0, 2 * cap + 3):
            s = st0.copy()
            s.g["bytes"] = S(())
            s.g["err"] = ""
            what = name + ", copy of %d from distance %d" % (k, d)
            want = list(H)
            ok_ = 0 < d <= m
            if ok_:
                for _ in range(k):
                    want.append(want[-d])
            for s2, r in I.run(f, [self_, d, k, tok("sink")], s):
                good = (r.tag == ("enm", 0)) == ok_
                ctx.ob(what + (": accepted" if ok_ else ": refused"), good, "" if good else ("refused" if ok_ else "accepted"), at(f),
                       key="copy " + ("refused" if ok_ else "accepted"))
                if good:
                    expect(I, ctx, s2, what + ": output", f, s2.g["bytes"], listed(I, want[n:]), "copy: output")
                    for s3, r3 in I.run(ctx.fn(CB + "vec"), [self_], s2.copy()):
                        expect(I, ctx, s3, what + ": listing", f, r3.kids[0], listed(I, want[max(0, len(want) - cap):]), "copy: window")
    panics(ctx, I, name + ": panic")


# ------------------------------------------------------------------ the representation
ROLES = {
    "next position": lambda n, i, c, full: i,
    "retained": lambda n, i, c, full: c if full else n,
    "capacity": lambda n, i, c, full: c,
    "appended": lambda n, i, c, full: n,
}


def find_roles(ctx):
    I = ctx.interp()
    ty = adt(I, "librezip::circles::CircularBuffer")
    fields = I.types[ty]["variants"][0]["fields"]
    cand = [set(ROLES) | {"data"} for _ in fields]
    for cap in (3, 4):
        for n in range(10):
            st = fill(ctx, I, cap, n)
            v = st.mem[("env", "cb")]
            for i, x in enumerate(v.kids):
                if isinstance(x, N) and x.tag == "vec":
                    cand[i] &= {"data"}
                    if seq_len(st, x.kids[0]) != cap:
                        cand[i] = set()
                elif isinstance(x, int):
                    cand[i] = {k for k in cand[i] if k != "data" and ROLES[k](n, n % cap, cap, n >= cap) == x}
                else:
                    cand[i] = set()
    roles = []
    for (nm, t), c in zip(fields, cand):
        if len(c) != 1:
            raise AnalysisError("the role of field %s is not recognised" % nm)
        roles.append(next(iter(c)))
    if roles.count("data") != 1 or "next position" not in roles:
        raise AnalysisError("the representation is not recognised")
    return tuple(roles)


def rep(I, st, roles, n, idx, cap, full):
    if full:
        segs = [hist(I, st.c.norm(T.sub(n, idx)), st.c.norm(idx)), hist(I, st.c.norm(T.sub(n, cap)), st.c.norm(T.sub(cap, idx)))]
    else:
        segs = [hist(I, 0, st.c.norm(n)), ("o", "BLANK", st.c.norm(n), st.c.norm(T.sub(cap, n)), u8(I))]
    segs = [s for s in segs if not (isinstance(s[3], int) and s[3] == 0)]
    return N("agg", tuple(vec_u(segs) if r == "data" else st.c.norm(ROLES[r](n, idx, cap, full)) for r in roles))


def some_state(I, roles, full):
    st = State()
    cap = T.var(T.sym("capacity", 1, 65535))
    n = T.var(T.sym("appended", 0, LENMAX))
    if full:
        idx = T.var(T.sym("next position", 0, 65534))
        st.assume(fge(T.sub(T.sub(cap, 1), idx)))
        st.assume(fge(T.sub(n, cap)))
    else:
        idx = n
        st.assume(fge(T.sub(T.sub(cap, 1), n)))
    st.mem[("env", "cb")] = rep(I, st, roles, n, idx, cap, full)
    return st, n, idx, cap


def is_rep(ctx, I, st, name, f, v, roles, n, idx, cap, full, key):
    want = rep(I, st, roles, n, idx, cap, full)
    for r, x, y in zip(roles, v.kids, want.kids):
        if r == "data":
            expect(I, ctx, st, name + ": data", f, x.kids[0], y.kids[0], key + ": data")
        else:
            expect(I, ctx, st, name + ": " + r, f, x, y, key + ": " + r)


def do_start(ctx, roles, which):
    if which:
        return
    I = ctx.interp()
    cap = T.var(T.sym("capacity", 1, 65535))
    for f, a, c in ((ctx.fn(CB + "with_capacity"), [cap], cap), (ctx.fn(CB + "new"), [], 32768), (ctx.fn(DEFAULT), [], 32768)):
        for st, r in I.run(f, a, State()):
            for ro, x in zip(roles, r.kids):
                if ro == "data":
                    expect(I, ctx, st, "%s: size" % f.path, f, seq_len(st, x.kids[0]), c, "start: size")
                else:
                    expect(I, ctx, st, "%s: %s" % (f.path, ro), f, x, ROLES[ro](0, 0, c, False), "start: " + ro)
    panics(ctx, I, "construction panics")


def do_push(ctx, roles, full):
    I = ctx.interp()
    st, n, idx, cap = some_state(I, roles, full)
    f = ctx.fn(CB + "push")
    for s, r in I.run(f, [P(("env", "cb")), byte(I, n)], st):
        for s2, wraps in cases(I, s, lambda x: x.need(feq(T.sub(T.add(idx, 1), cap)))):
            v = s2.mem[("env", "cb")]
            n2 = T.add(n, 1)
            is_rep(ctx, I, s2, "push, %s, %s" % ("full" if full else "not full", "at the end" if wraps else "inside"), f, v, roles,
                   n2, 0 if wraps else T.add(idx, 1), cap, full or wraps, "push")
    panics(ctx, I, "push panics")


def do_get(ctx, roles, full):
    I = ctx.interp()
    st, n, idx, cap = some_state(I, roles, full)
    d = T.var(T.sym("distance", 1, 65535))
    st.assume(fge(T.sub(cap if full else n, d)))
    f = ctx.fn(CB + "get_at_dist")
    for s, r in I.run(f, [P(("env", "cb")), d], st):
        expect(I, ctx, s, "get_at_dist, " + ("full" if full else "not full"), f, r, byte(I, s.c.norm(T.sub(n, d))), "get_at_dist")
    panics(ctx, I, "get_at_dist panics")


def do_listing(ctx, roles, full):
    I = ctx.interp()
    for fn in ("vec", "len", "capacity"):
        f = ctx.fn(CB + fn)
        st, n, idx, cap = some_state(I, roles, full)
        m = cap if full else n
        for s, r in I.run(f, [P(("env", "cb"))], st):
            what = fn + ", " + ("full" if full else "not full")
            if fn == "vec":
                expect(I, ctx, s, what, f, r.kids[0], S((hist(I, s.c.norm(T.sub(n, m)), s.c.norm(m)),)), fn)
            else:
                expect(I, ctx, s, what, f, r, m if fn == "len" else cap, fn)
    panics(ctx, I, "listing panics")


def pusher(ctx, I, roles, cap, dist, source):
    """CircularBuffer::push by its specification: the pushed byte is checked against the source and becomes byte n of the history."""
    def push(I, st, ca, a, rty, f):
        n, idx = st.g["n"], st.g["idx"]
        want = source(st, n)
        e = I.veq(st, a[1], want)
        if e is None or not (e is True or st.need(e)):
            st.g["bad"] = st.g["bad"] or "the wrong byte is appended"
        full = st.g["full"] == "yes"
        wraps = st.need(feq(T.sub(T.add(st.g["idx"], 1), cap)))
        n2 = st.c.norm(T.add(n, 1))
        i2 = 0 if wraps else st.c.norm(T.add(idx, 1))
        st.g["n"], st.g["idx"], st.g["full"] = n2, i2, "yes" if full or wraps else "no"
        st.g["edge"] = "yes" if wraps or st.need(feq(i2)) else "no"
        if dist is not None:
            st.g["side"] = "ahead" if st.need(fge(T.sub(i2, dist))) else "behind"
        store(I, st, a[0], rep(I, st, roles, n2, i2, cap, full or wraps))
        return UNIT
    I.hooks[("fn", CB + "push")] = push


def do_copy(ctx, roles, full):
    I = ctx.interp()
    f = ctx.fn(CB + "copy")
    push = ctx.fn(CB + "push")
    if push.id not in G.reach(I.cr, [f]):
        raise AnalysisError("copy does not append with push")
    st, n, idx, cap = some_state(I, roles, full)
    name = "copy, " + ("full" if full else "not full")
    m = cap if full else n
    d = T.var(T.sym("distance", 0, 65535))
    k = T.var(T.sym("length", 0, 65535))

    def source(st, n):
        return byte(I, st.c.norm(T.sub(n, d)))
    pusher(ctx, I, roles, cap, d, source)

    def put(I, st, ca, a, rty):
        if not generic_self(I, ca):
            return NotImplemented
        s = norm_seq(st, slice_at(I, st, a[1]))
        ln = seq_len(st, s)
        if not (isinstance(ln, int) and ln <= 8):
            raise AnalysisError("a copy is written %r bytes at a time" % (ln,))
        for i in range(ln):
            e = I.veq(st, I.seq_get(st, s, i), source(st, st.g["w"]))
            if e is None or not (e is True or st.need(e)):
                st.g["bad"] = st.g["bad"] or "the wrong byte is written"
            st.g["w"] = st.c.norm(T.add(st.g["w"], 1))
        return ok(UNIT)
    I.env_hooks[WRITE + "::write_all"] = put
    for kind in ("zero", "too far", "near", "far"):
        s = st.copy()
        s.g.update(n=n, idx=idx, full="yes" if full else "no", side="ahead" if kind == "near" else "behind", w=n, n0=n, bad="", edge="start")
        q = {"zero": [feq(d)], "too far": [fge(T.sub(T.sub(d, m), 1))],
             "near": [fge(T.sub(d, 1)), fge(T.sub(m, d)), fge(T.sub(idx, d))],
             "far": [fge(T.sub(d, 1)), fge(T.sub(m, d)), fge(T.sub(T.sub(d, idx), 1))]}[kind]
        if not all(s.assume(x) for x in q):
            continue
        valid = kind in ("near", "far")
        before = s.mem[("env", "cb")]
        acc = 0
        for s2, r in I.run(f, [P(("env", "cb")), d, k, tok("sink")], s):
            good = r.tag == ("enm", 0)
            ctx.ob("%s, distance %s: %s" % (name, kind, "accepted" if valid else "refused"), good == valid,
                   "" if good == valid else ("refused" if valid else "accepted"), at(f), key="copy " + ("refused" if valid else "accepted"))
            if good != valid:
                continue
            acc += 1
            what = "%s, distance %s" % (name, kind)
            total = T.add(n, k) if valid else n
            if s2.g["bad"]:
                ctx.ob(what, False, s2.g["bad"], at(f), key="copy, " + s2.g["bad"])
                continue
            expect(I, ctx, s2, what + ": bytes written", f, s2.g["w"], total, "copy, bytes written")
            expect(I, ctx, s2, what + ": bytes appended", f, s2.g["n"], total, "copy, bytes appended")
            is_rep(ctx, I, s2, what, f, s2.mem[("env", "cb")], roles, s2.g["n"], s2.g["idx"], cap, s2.g["full"] == "yes", "copy, ")
        ctx.ob("%s, distance %s: has an outcome" % (name, kind), bool(acc), "" if acc else "none", at(f), key="copy, outcome")
    panics(ctx, I, "copy, panics")


def do_extend(ctx, roles, full):
    I = ctx.interp()
    f = ctx.fn(CB + "extend")
    push = ctx.fn(CB + "push")
    if push.id not in G.reach(I.cr, [f]):
        raise AnalysisError("extend does not append with push")
    st, n, idx, cap = some_state(I, roles, full)
    k = T.var(T.sym("length", 0, LENMAX))
    pusher(ctx, I, roles, cap, None, lambda st, m: I.mat(u8(I), ("el", "MORE", st.c.norm(T.sub(m, n)))))
    st.g.update(n=n, idx=idx, full="yes" if full else "no", bad="", edge="start")
    st.mem[("env", "slice")] = S((("o", "MORE", 0, k, u8(I)),))
    name = "extend, " + ("full" if full else "not full")
    for s2, r in I.run(f, [P(("env", "cb")), P(("env", "slice"), (), 0, k)], st):
        if s2.g["bad"]:
            ctx.ob(name, False, s2.g["bad"], at(f), key="extend: " + s2.g["bad"])
            continue
        expect(I, ctx, s2, name + ": bytes appended", f, s2.g["n"], T.add(n, k), "extend: bytes appended")
        is_rep(ctx, I, s2, name, f, s2.mem[("env", "cb")], roles, s2.g["n"], s2.g["idx"], cap, s2.g["full"] == "yes", "extend")
    panics(ctx, I, name + " panics")


def large(ctx):
    out = []
    cs = set()
    for n in ("push", "copy", "get_at_dist", "extend", "vec"):
        cs |= G.ints(ctx.fn(CB + n))
    for c in sorted(c for c in cs if 4 < c < 65535):
        # around every constant of the code
        for cap in sorted({32768, 65535} | {min(c + i, 65535) for i in (0, 1, 7)}):
            for n, d in ((c, c), (c + 1, c), (cap + c - 1, c), (cap + c, 1), (c, min(c, 3)), (2 * cap + c - 20, min(cap, 200))):
                out.append((cap, n, min(d, n, cap), 60))
            if c <= 400:
                out += [(cap, cap + 3, min(d, cap), c + i) for d in (1, cap, 5) for i in (-1, 0, 1)]
    for cap in (32768, 65535):
        for n, d in ((cap - 1, cap - 1), (cap, cap), (cap + 100, 258), (cap + 100, 1), (2 * cap - 2, 3), (cap + 32000, cap)):
            out.append((cap, n, d, 258))
    out += [(32768, 300, 1, 300), (32768, 70000, 32768, 300), (150, 1000, 7, 400), (150, 1000, 150, 400)]
    return out


def do_large(ctx, roles, x):
    cap, n, d, k = x
    I = ctx.interp()
    byte_output(I)
    st = State()
    st.mem[("env", "cb")] = rep(I, st, roles, n, n % cap, cap, n >= cap)
    st.g.update(bytes=S(()), err="")
    f = ctx.fn(CB + "copy")
    name = "capacity %d after %d bytes, copy of %d from distance %d" % (cap, n, k, d)
    want = []
    for i in range(k):
        want.append(byte(I, n + i - d) if i < d else want[i - d])
    for s, r in I.run(f, [P(("env", "cb")), d, k, tok("sink")], st):
        good = r.tag == ("enm", 0)
        ctx.ob(name + ": accepted", good, "" if good else "refused", at(f), key="copy refused")
        if good:
            expect(I, ctx, s, name + ": output", f, s.g["bytes"], listed(I, want), "copy: output")
            v = s.mem[("env", "cb")]
            m = n + k
            for ro, y in zip(roles, v.kids):
                if ro == "data":
                    w = {}
                    for j in range(max(0, m - cap), m):
                        if j >= m - k - 300:
                            w[j % cap] = byte(I, j) if j < n else want[j - n]
                    got = y.kids[0]
                    bad = [p for p in w if not s.decide(feq(T.sub(I.seq_get(s, got, p), w[p])))]
                    ctx.ob(name + ": data", not bad, "" if not bad else "position %d" % bad[0], at(f), key="copy: data")
                else:
                    expect(I, ctx, s, name + ": " + ro, f, y, ROLES[ro](m, m % cap, cap, m >= cap), "copy: " + ro)
    panics(ctx, I, name + ": panic")
