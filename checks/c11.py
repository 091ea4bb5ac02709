"""C11: code lengths are turned into the canonical Huffman code."""
import re
from .env import *
from .c04 import at, okval
from . import c07

RULE = ("Abstract interpretation of CodeTree::new on a list of unknown lengths (0..65535 of them) in product with a specification of RFC "
        "1951's canonical code as a sequence of node lists: T(16) is empty; T(l) is one leaf per symbol of length l, in ascending order, "
        "followed by the pairs of consecutive nodes of T(l+1); the tree is the single pair made of T(1). Every node put into a list is "
        "compared with the node the specification has at that place (symbol of a leaf, both children of a pair, in the order in which the "
        "decoder takes them for a 0 and a 1 bit), over unknown lengths with inferred loop invariants; a length may not be skipped, nor "
        "used twice, nor may length 0 give a leaf. An accepted list must have given exactly the tree of two nodes in T(1), every level being "
        "complete; a refused one must have a level with an odd number of nodes, or other than two nodes in T(1).")
ASSUMPTIONS = ["this construction assigns the codes of RFC 1951 3.2.2: within a level leaves come first and in symbol order, and a code "
               "is complete exactly if every level pairs up and ends in one root (argued in DESIGN.md)"]
TECHNIQUE = "abstract interpretation of MIR in product with a specification automaton (inferred loop invariants)"
FLOOR = 4

LEVEL = "level"
WRONG = "specification: "


def run(ctx):
    ctx.fn(CT + "new")
    ctx.pmap(one, [("any", 0), ("none", 0), ("single", 0)], chunk=1)


def one(ctx, item):
    ctx.attempt("construction, %s" % item[0], build, ctx, item[0])


def orientation(ctx):
    """Which child the decoder takes for a set bit: (at the root, below)."""
    for flip in ((False, False), (True, True), (False, True), (True, False)):
        try:
            if all(x[1] for x in c07.obligations(ctx, flip, "decode")):
                return flip
        except (AnalysisError, Fork):
            pass
    return False, False


def world(ctx, flip):
    """The interpreter, with node lists of the specification; ghosts:
    l: the level being made, pre: passes over the lengths still to come before that, c: lengths looked at, due: the symbol c-1 is to become a leaf,
    a, b: leaves and pairs made, m: nodes of the level below."""
    I = ctx.interp()
    sh = c07.Shape(I)
    U8 = prim(I, "int", 8)
    variant, sub, get = I.variant, I.sub, I.seq_get

    def node(l, k):
        return U(sh.node, ("el", ("T", l), k))

    def listed(v):
        if isinstance(v, U) and v.ty == sh.node and v.key[0] == "el" and isinstance(v.key[1], tuple) and v.key[1][0] == "T":
            return v.key[1][1], v.key[2]
        return None

    def bad(st, what):
        raise Panic(WRONG + what + (" (at level %s)" % st.g[LEVEL] if "level %s" % st.g[LEVEL] not in what else ""))

    def complete(st):
        """All of the level's nodes are there."""
        g = st.g
        if g["due"]:
            return False
        if not (st.holds(feq(T.sub(g["c"], I.n))) or lvl(st) in (0, 16)):
            return False
        return st.holds(feq(T.sub(g["m"], T.scale(g["b"], 2))))

    def lvl(st):
        return int(st.g[LEVEL])

    def descend(I, st):
        """The next level begins."""
        l = lvl(st)
        if not complete(st):
            bad(st, "level %d is left before all its nodes are made" % l)
        if l == 0:
            bad(st, "nodes are made beyond the root")
        m = st.c.norm(T.add(st.g["a"], st.g["b"]))
        st.g.update({LEVEL: "%d" % (l - 1), "c": 0, "a": 0, "b": 0, "m": m})

    def close(I, st, ca, a, rty):
        """The number of nodes of a level is asked for: where it derives from no longer matters."""
        v = I.read(st, a[0].loc, a[0].path)
        l = lvl(st)
        if l in (0, 16) or not (isinstance(v, N) and v.tag == "vec" and len(v.kids[0].segs) <= 1) or not complete(st):
            return NotImplemented
        x = v.kids[0].segs[0] if v.kids[0].segs else ("o", ("T", l), 0, 0, sh.node)
        size = st.c.norm(T.add(st.g["a"], st.g["b"]))
        if x[0] != "o" or x[1] != ("T", l) or x[2] != 0 or st.c.norm(T.sub(x[3], size)) != 0:
            return NotImplemented
        m = T.var(T.sym(("nodes of level", l), 0, LENMAX))
        I.write(st, a[0].loc, a[0].path, N("vec", (S((("o", ("T", l), 0, m, sh.node),)),)))
        st.g.update({LEVEL: "%d" % (l - 1), "c": 0, "a": 0, "b": 0, "m": m})
        return NotImplemented
    I.hooks["alloc::vec::Vec::<T, A>::len"] = close

    # ------------------------------------------------ looking at a length
    def seq_get(st, s, i):
        if st.g.get("off") or not any(x[0] == "o" and x[1] == "LENGTHS" for x in s.segs):
            return get(st, s, i)
        v = get(st, s, i)
        k = vkey(st, v)
        if k is None or k[1] != "LENGTHS":
            return v
        if I.longest:
            st.assume(fge(T.sub(I.longest, v)))
        look(st, st.c.norm(k[2]), v)
        return v

    def look(st, p, v):
        g = st.g
        if lvl(st) == 16 and (g["pre"] or st.need(fne(T.sub(g["c"], I.n)))):
            # a pass that only looks
            if p == 0 and st.need(feq(T.sub(g["c"], I.n))):
                st.g["pre"] = g["pre"][1:]
                st.g["seen"] = "yes"
                st.g["c"] = 1
            else:
                st.g["c"] = st.c.norm(T.add(p, 1))
            return
        if lvl(st) == 16 and g["seen"] and p != 0:
            return
        if lvl(st) == 16 or (p == 0 and st.need(feq(T.sub(g["c"], I.n)))):
            descend(I, st)
        if st.need(fge(T.sub(T.sub(st.g["c"], 1), p))):
            return
        if st.g["due"]:
            bad(st, "a symbol of length %s gets no leaf" % st.g[LEVEL])
        if not st.need(feq(T.sub(p, st.g["c"]))):
            bad(st, "lengths are skipped")
        l = lvl(st)
        is_due = l > 0 and st.need(feq(T.sub(v, l)))
        st.g["c"] = st.c.norm(T.add(p, 1))
        st.g["due"] = "yes" if is_due else ""

    # ------------------------------------------------ making a node
    def on_push(I, st, v, ty):
        if ty != sh.node:
            raise AnalysisError("something else than nodes is collected")
        if listed(v):
            return v
        if not (isinstance(v, N) and isinstance(v.tag, tuple) and v.tag[0] == "enm"):
            raise AnalysisError("a node that is not known")
        g = st.g
        if v.tag[1] == sh.leaf:
            if lvl(st) == 16:
                bad(st, "a leaf before any length was looked at")
            elif not g["due"]:
                bad(st, "a leaf for a symbol whose length is not %s" % g[LEVEL])
            elif not st.need(feq(T.sub(v.kids[0], T.sub(g["c"], 1)))):
                bad(st, "a leaf with the wrong symbol")
            elif st.c.norm(g["b"]) != 0:
                bad(st, "a leaf after pairs")
            else:
                k = st.c.norm(g["a"])
                g.update(a=st.c.norm(T.add(k, 1)), due="")
                return node(lvl(st), k)
            return v
        kids = [x.kids[0] if isinstance(x, N) and x.tag == "box" else x for x in v.kids]
        ks = [listed(x) for x in kids]
        if flip[1]:
            ks.reverse()
        if None in ks or len(ks) != 2:
            raise AnalysisError("a pair of nodes that are not known")
        if ks[0][0] != ks[1][0]:
            bad(st, "a pair of nodes of different levels")
            return v
        if ks[0][0] == lvl(st):
            descend(I, st)
        if ks[0][0] != lvl(st) + 1:
            bad(st, "a pair of nodes of level %d in level %s" % (ks[0][0], st.g[LEVEL]))
            return v
        g = st.g
        if g["due"]:
            bad(st, "a symbol of length %s gets no leaf" % g[LEVEL])
            return v
        if lvl(st) > 0 and not st.need(feq(T.sub(g["c"], I.n))):
            bad(st, "pairs are made before all lengths were looked at")
            return v
        for i in range(2):
            if not st.need(feq(T.sub(ks[i][1], T.add(T.scale(g["b"], 2), i)))):
                bad(st, "a pair of the wrong nodes")
                return v
        k = st.c.norm(T.add(g["a"], g["b"]))
        g["b"] = st.c.norm(T.add(g["b"], 1))
        return node(lvl(st), k)

    def variant_(st, v):
        w = listed(v)
        if w is None:
            return variant(st, v)
        l = int(w[0])
        if l == 0:
            return sh.inner
        a = st.g["a"] if l == lvl(st) else None
        if a is None:
            return variant(st, v)
        return sh.leaf if st.need(fge(T.sub(T.sub(a, 1), w[1]))) else sh.inner

    def sub_(st, v, e):
        w = listed(v) if e[0] == "f" else None
        if w and w[0] == 0 and e[2] == sh.inner:
            return sh.val(I, e[3], ("el", ("T", 1), e[1] if not flip[1] else 1 - e[1]))
        return sub(st, v, e)

    def on_set(I, st, pos, v, n):
        if isinstance(v, (int, Lin)):
            raise AnalysisError("numbers are stored")
        return None
    I.seq_get, I.on_push, I.variant, I.sub, I.on_set = seq_get, on_push, variant_, sub_, on_set
    return I, sh, listed, complete, lvl


def build(ctx, kind):
    obs = analyse(ctx, kind, 0)
    if any("length 15 gets no leaf" in x[2] for x in obs):
        # passes over the lengths before the construction?
        for passes in (1, 2):
            other = analyse(ctx, kind, passes)
            if all(x[1] is not False for x in other):
                obs = other
                break
    wrong = [x for x in obs if x[1] is False]
    if wrong and all("level 15" in x[2] or "level 16" in x[2] for x in wrong):
        raise AnalysisError("the first pass over the lengths may be about something else: " + wrong[0][2])
    for x in obs:
        ctx.ob(x[0], x[1], x[2], x[3], key=x[4])


def analyse(ctx, kind, passes):
    """What holds of the construction, provided it begins after a number of passes over the lengths."""
    f = ctx.fn(CT + "new")
    flip = orientation(ctx)
    I, st, n, sh, listed, complete, lvl = start(ctx, kind, passes, flip)
    out = []
    res = I.run(f, [P(("env", "lengths"), (), 0, n)], st)
    good = 0
    for s, r in res:
        for s2, (ok_, why) in cases(I, s, lambda x: judge(I, x, r, sh, listed, complete, lvl, flip, kind)):
            good += bool(ok_) and okval(r) is not None
            out.append(("a list of lengths is %s" % ("accepted" if okval(r) is not None else "refused"), ok_, why, at(f), why or "ok"))
    for p in I.panics:
        m = re.search(WRONG + "(.*?)( in |$)", str(p))
        w = "%s:%s" % (p.file, p.line)
        if m:
            out.append(("construction", False, m.group(1), w, m.group(1)))
        else:
            out.append(("construction", None, "may panic: %r (R01)" % p, w, "panic " + p.key()))
    if kind == "any":
        out.append(("complete codes are accepted", bool(good), "" if good else "never", at(f), "never accepted"))
    return out


def start(ctx, kind, passes, flip):
    I, sh, listed, complete, lvl = world(ctx, flip)
    n = {"none": 0, "single": 1, "any": None}[kind]
    if n is None:
        n = T.var(T.sym("number of lengths", 2, 65535))
    I.n, I.longest = n, None
    st = State()
    st.g.update({LEVEL: "16", "pre": "+" * passes, "seen": "", "c": n, "due": "", "a": 0, "b": 0, "m": 0})
    st.mem[("env", "lengths")] = S((("o", "LENGTHS", 0, n, prim(I, "int", 8)),)) if n != 0 else S(())
    return I, st, n, sh, listed, complete, lvl


def judge(I, s, r, sh, listed, complete, lvl, flip, kind):
    g = s.g
    l = lvl(s)
    size = s.c.norm(T.add(g["a"], g["b"]))

    def odd(x):
        return s.need(fne(I.divmod(s, x, 2)[1]))
    t = okval(r)
    if t is None:
        if kind != "any":
            return True, ""
        if l + 1 < 16 and odd(g["m"]):
            return True, ""
        if l == 15 and g["c"] != 0 and s.c.norm(g["a"]) == 0 or l == 16 and s.need(fne(T.sub(g["c"], I.n))) or l == 16 and g["seen"]:
            return None, "refused for what the lengths are"
        if l == 0:
            fine = s.need(fne(T.sub(g["m"], 2)))
        elif complete(s) and l < 16:
            fine = odd(size) or (l == 1 and s.need(fne(T.sub(size, 2))))
        else:
            fine = False
        return fine, "" if fine else "a complete code may be refused (level %d)" % l
    if kind != "any":
        return False, "fewer than two lengths are accepted"
    if not complete(s):
        return False, "accepted before level %d is complete" % l
    if l > 1:
        return False, "accepted without the codes shorter than %d bits" % l
    two = g["m"] if l == 0 else size
    if not s.need(feq(T.sub(two, 2))):
        return False, "an incomplete code is accepted"
    kids = [x.kids[0] if isinstance(x, N) and x.tag == "box" else x for x in t.kids]
    if len(kids) == 1:
        w = listed(kids[0])
        fine = w is not None and w[0] == 0
    else:
        ks = [listed(x) for x in kids]
        if flip[0]:
            ks.reverse()
        fine = None not in ks and all(k[0] == 1 and s.need(feq(T.sub(k[1], i))) for i, k in enumerate(ks))
    return fine, "" if fine else "the tree returned is not the one that was made: %r" % (kids,)
