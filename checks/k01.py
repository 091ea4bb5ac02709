from .env import *

RULE = ("Constant propagation through abstract interpretation of Config::gzip for each level 0..255 (1..9 individually, the "
        "rest as two intervals), compared field by field with gzip's configuration table; the picker stored for the level is "
        "then interpreted on one candidate reference of unknown distance and length, and must drop it exactly when the level "
        "is at least 4, the length is 3 and the distance is above 4096.")
ASSUMPTIONS = ["the table of gzip 1.x deflate.c (good, lazy, nice, chain), transcribed in checks/k01.py, is the reference",
               "the meaning of the parameter fields is given by their names and documentation"]
TECHNIQUE = "constant propagation / abstract interpretation of MIR"
FLOOR = 9 * 4 + 2 + 9 * 2

# level: good, lazy, nice, chain
GZIP = {1: (4, 4, 8, 4), 2: (4, 5, 16, 8), 3: (4, 6, 32, 32), 4: (4, 4, 16, 16), 5: (8, 16, 32, 32),
        6: (8, 16, 128, 128), 7: (8, 32, 128, 256), 8: (32, 128, 258, 1024), 9: (32, 258, 258, 4096)}


def field(ctx, I, ty, v, name):
    t = I.types[ty]
    fs = [n for n, _ in t["variants"][0]["fields"]]
    if name not in fs:
        raise Anchor("field %s of %s" % (name, t["name"]))
    i = fs.index(name)
    return v.kids[i], t["variants"][0]["fields"][i][1]


def run(ctx):
    f = ctx.fn("librezip::technique::Config::gzip")
    where = "%s:%s" % (f.file, f.line)
    for lo, hi, what in ((0, 0, "level 0"), (10, 255, "levels above 9")):
        def outside():
            I = ctx.interp()
            r = I.run(f, [lo if lo == hi else T.var(T.sym("level", lo, hi))], State())
            ctx.ob("%s refused" % what, not r and bool(I.panics), "a configuration is returned" if r else "", where)
        ctx.attempt(what, outside)
    for level in GZIP:
        ctx.attempt("level %d" % level, one_level, ctx, f, where, level)


def one_level(ctx, f, where, level):
    I = ctx.interp()
    r = I.run(f, [level], State())
    if len(r) != 1 or I.panics:
        ctx.ob("level %d accepted" % level, False, "panics: %r" % I.panics, where)
        return
    st, cfg = r[0]
    ct = adt(I, "librezip::technique::Config")
    good, lazy, nice, chain = GZIP[level]
    w, wt = field(ctx, I, ct, cfg, "wams")

    def same(name, got, want):
        ctx.ob("level %d: %s" % (level, name), st.c.norm(got) == want if isinstance(got, (int, T.Lin)) else got == want,
               "is %r, gzip has %r" % (got, want), where)
    same("nice length (quit_search_above_length)", field(ctx, I, wt, w, "quit_search_above_length")[0], nice)
    same("chain length (limit_count_of_distances)", field(ctx, I, wt, w, "limit_count_of_distances")[0], chain)
    ins, _ = field(ctx, I, wt, w, "insert_only_below_length")
    la, lat = field(ctx, I, wt, w, "lookahead")
    if level < 4:
        same("insertion limit (insert_only_below_length)", ins, some(lazy))
        same("no lazy matching", la, NONE)
    else:
        same("no insertion limit", ins, NONE)
        if not (isinstance(la, N) and la.tag == ("enm", 1)):
            ctx.ob("level %d: lazy matching" % level, False, "no lookahead configuration", where)
        else:
            lt = I.types[lat]["args"][0]
            same("good length (apathetic_above_length)", field(ctx, I, lt, la.kids[0], "apathetic_above_length")[0], good)
            same("lazy length (abort_above_length)", field(ctx, I, lt, la.kids[0], "abort_above_length")[0], lazy)
    picker, _ = field(ctx, I, ct, cfg, "picker")
    ctx.attempt("level %d: picker" % level, pick, ctx, level, picker)


def pick(ctx, level, picker):
    f = ctx.fn("librezip::picker::Picker::picker")
    where = "%s:%s" % (f.file, f.line)
    I = ctx.interp()
    rt = adt(I, "librezip::Ref")

    def nxt(I, st, ca, a, rty):
        n = st.g["n"]
        st.g["n"] = n + 1
        return some(st.g["ref"]) if n == 0 else NONE
    I.env_hooks["core::iter::traits::iterator::Iterator::next"] = nxt
    st = State()
    run_ = T.var(T.sym("run", 3, 258))
    dist = T.var(T.sym("dist", 1, 32768))
    st.g["ref"] = mkref(ctx, I, st, dist, run_)
    st.g["n"] = 0
    st.mem[("env", "p")] = picker
    res = I.run(f, [P(("env", "p")), tok("candidates"), I.mat(prim(I, "int", 16), ("nice",))], st)
    far = fand(feq(T.sub(run_, 3)), fge(T.sub(dist, 4097)))
    got = {}
    for s0, v in res:
        for s, isfar in cases(I, s0, lambda s: s.need(far)):
            got.setdefault(isfar, set()).add(v.tag == ("enm", 1))
    for isfar, what in ((True, "a match of length 3 beyond 4096"), (False, "any other match")):
        keep = not (isfar and level >= 4)
        ctx.ob("level %d: %s is %s" % (level, what, "kept" if keep else "dropped"),
               got.get(isfar) == {keep} and not I.panics, "outcomes %r %r" % (got, I.panics), where)
