"""Loops: bounded unrolling while the trip count is decided, otherwise a fixpoint over template
states (anti-unification of entry and back-edge states, affine leaf groups, candidate inequalities
that are dropped until inductive)."""
from . import terms as T
from .terms import Lin, Sym, sym, var
from .cons import Store
from .vals import *
from .state import *

UNROLL_TRIAL = 24
ROUNDS = 40


def run_loop(I, fr, h, sts, rets):
    out = {}
    I.stats["loops"] += 1
    for st in sts:
        for nb, ss in one_entry(I, fr, h, st, rets).items():
            out.setdefault(nb, []).extend(ss)
    return out


class Mark:
    def __init__(self, I):
        self.I = I
        self.a = len(I.findings)
        self.b = len(I.panics)

    def undo(self):
        del self.I.findings[self.a:]
        del self.I.panics[self.b:]


def one_entry(I, fr, h, st, rets):
    """The loop entered once: its first I.peel rounds on their own, then the rest."""
    comp = fr.cfg.heads[h]
    exits, cur = {}, [st]
    ways_out = {y for b in comp for y in fr.cfg.succ[b] if y not in comp and fr.body["blocks"][y]["t"][0] != "unreachable"}
    for _ in range(I.peel if len(ways_out) > 1 else 0):     # a loop that looks for something
        out = I.region(fr, comp, h, {h: [s.copy() for s in cur]}, rets)
        cur = out.pop(h, [])
        for nb, ss in out.items():
            exits.setdefault(nb, []).extend(ss)
    for s in cur:
        for nb, ss in rounds(I, fr, h, s, rets).items():
            exits.setdefault(nb, []).extend(ss)
    return exits


def rounds(I, fr, h, st, rets):
    comp = fr.cfg.heads[h]
    mark = Mark(I)
    exits = {}
    myrets = []
    cur = [st]
    n = 0
    undecided = 0
    first_blocks = None
    I.collect_garbage(fr, h, st)
    while cur:
        certain = n <= 40 and len(cur) <= 4 and not exits and not myrets      # so far no way out of the loop was possible
        if n >= UNROLL_TRIAL and not certain and not any(bounded_iter(I, fr, s, I.max_unroll) for s in cur):
            break
        if n >= 1 and not certain and not all(bounded_iter(I, fr, s, I.max_unroll) for s in cur):
            if first_blocks > I.small_body or len(cur) > 3 or (fr.fn.path, h) in I.no_unroll:
                break
        if n > I.max_unroll:
            break
        b0 = I.stats["blocks"]
        out = I.region(fr, comp, h, {h: [s.copy() for s in cur]}, myrets)
        if first_blocks is None:
            first_blocks = I.stats["blocks"] - b0
        cur = out.pop(h, [])
        for nb, ss in out.items():
            exits.setdefault(nb, []).extend(ss)
        for s in cur:
            I.collect_garbage(fr, h, s)
        if len(cur) > 1:
            cur = I.merge_states(cur)
        n += 1
    if not cur:
        rets.extend(myrets)
        return exits
    I.no_unroll.add((fr.fn.path, h))
    mark.undo()
    return fixpoint(I, fr, h, st, rets)


def bounded_iter(I, fr, st, limit):
    """Does a live local of iterator type have a constant number of items left?"""
    d = fr.depth
    for (a, i), v in [(k, v) for k, v in st.mem.items() if k[0] == d and len(k) == 2]:
        t = fr.body["locals"][i] if isinstance(i, int) and i < len(fr.body["locals"]) else None
        t = I.types[t] if t is not None else None
        if t is None or t["k"] != "adt":
            continue
        p = t["path"]
        if not (p.startswith("core::ops::range") or "iter" in p):
            continue
        n = items_left(I, st, v)
        if n is not None and n <= limit:
            return True
    return False


def items_left(I, st, v, depth=0):
    if isinstance(v, N):
        if v.tag == "agg" and len(v.kids) >= 2:
            a, b = v.kids[0], v.kids[1]
            if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) and not isinstance(a, bool):
                x = st.c.norm(T.sub(b, a))
                return x if isinstance(x, int) else None
            if isinstance(a, P) and isinstance(b, P) and a.loc == b.loc and a.path == b.path:
                x = st.c.norm(T.sub(b.idx or 0, a.idx or 0))
                return x if isinstance(x, int) else None
        if v.tag == "vec":
            x = seq_len(st, v.kids[0])
            return x if isinstance(x, int) else None
        if depth < 4:
            for k in v.kids:
                r = items_left(I, st, k, depth + 1)
                if r is not None:
                    return r
    return None


# ------------------------------------------------------------------ templates
class Member:
    def __init__(self, st):
        self.mem = dict(st.mem)
        self.g = dict(st.g)
        self.base = st.c.copy()
        self.entry = st              # the state this member was created from
        self.tr = st.tr
        self.syms = set()            # fresh symbol ids
        self.sids = set()
        self.ukeys = set()
        self.sig = {}                # fresh symbol -> value in the entry state
        self.cands = []
        self.rounds = 0

    def state(self):
        s = State()
        s.mem = dict(self.mem)
        s.g = dict(self.g)
        s.c = self.base.copy()
        s.tr = self.tr
        for c in self.cands:
            s.c.ge0(c)
        return s


def canon(I, st):
    """Expose decided enum variants as constructors; normalise values."""
    def w(v, depth=0):
        if isinstance(v, U):
            t = I.types[v.ty]
            if t["k"] == "adt" and t["akind"] == "enum" and depth < 4 and t["variants"]:
                x = I.variant(st, v) if len(t["variants"]) > 1 else 0
                if isinstance(x, int):
                    fs = t["variants"][x]["fields"]
                    return N(("enm", x), tuple(w(I.sub(st, v, ("f", i, x, ft)), depth + 1)
                                               for i, (_, ft) in enumerate(fs)))
            return v
        if isinstance(v, N) and v.kids:
            return N(v.tag, tuple(w(k, depth) for k in v.kids))
        if isinstance(v, F):
            d = st.decide(v)
            if d is not None:
                return d
            return v
        return v
    from .interp import norm_mem
    norm_mem(st)
    st.mem = {k: w(v) for k, v in st.mem.items()}
    norm_mem(st)


def fixpoint(I, fr, h, st, rets):
    comp = fr.cfg.heads[h]
    I.collect_garbage(fr, h, st)
    canon(I, st)
    members = {I.shape_state(st): Member(st)}
    queue = list(members)
    mark = Mark(I)
    results = {}
    rounds = 0
    while True:
        rounds += 1
        if rounds > ROUNDS:
            raise AnalysisError("no fixpoint for the loop at block %d of %s" % (h, fr.fn.path))
        changed = False
        mark.undo()
        results = {}
        for key in list(members):
            m = members[key]
            s = m.state()
            if s.c.bad:
                raise AnalysisError("empty loop template in %s" % fr.fn.path)
            myrets = []
            out = I.region(fr, comp, h, {h: [s]}, myrets)
            backs = out.pop(h, [])
            results[key] = (myrets, out)
            for b in backs:
                I.collect_garbage(fr, h, b)
                canon(I, b)
                if b.c.bad:
                    continue
                k = I.shape_state(b)
                t = members.get(k)
                if t is None:
                    members[k] = Member(b)
                    changed = True
                    if len(members) > 40:
                        raise AnalysisError("too many loop templates in %s" % fr.fn.path)
                    if I.trace:
                        print("  loop", fr.fn.path, h, "new member")
                    continue
                if absorb(I, fr, t, b):
                    changed = True
            if changed:
                pass
        if not changed:
            break
    exits = {}
    for key, (myrets, out) in results.items():
        rets.extend(myrets)
        for nb, ss in out.items():
            exits.setdefault(nb, []).extend(ss)
    return exits


def elems(st, tv, bv):
    """Are both numbers elements of the same unknown sequence?  (its key, their positions, the symbol)"""
    if not isinstance(tv, Lin) or not isinstance(bv, Lin):
        return None
    x, y = vkey(st, tv), vkey(st, bv)
    if x is None or y is None or x[0] != "el" or y[0] != "el" or x[1] != y[1]:
        return None
    if not (isinstance(x[2], (int, Lin)) and isinstance(y[2], (int, Lin))):
        return None
    if isinstance(x[1], tuple) and x[1][0] == "opaque":     # what is known of the values matters, not where they came from
        return None
    return x[1], (x[2], y[2]), Sym.memo[x]


class Match:
    def __init__(self, I, m, b):
        self.I = I
        self.m = m
        self.b = b
        self.sig = {}
        self.usig = {}
        self.ssig = {}
        self.defer = []     # (leaf id, tv, bv)
        self.fail = {}      # leaf id -> (tv, bv, kind)
        self.n = 0

    def leaf(self):
        self.n += 1
        return self.n

    def int_(self, tv, bv):
        i = self.leaf()
        if isinstance(tv, Lin) and tv.c == 0 and len(tv.t) == 1 and tv.t[0][1] == 1 and tv.t[0][0] in self.m.syms \
                and tv.t[0][0] not in self.sig:
            self.sig[tv.t[0][0]] = bv
            return
        self.defer.append((i, tv, bv))

    def val(self, tv, bv):
        if isinstance(tv, bool) or isinstance(tv, F):
            i = self.leaf()
            if isinstance(tv, bool):
                if tv is not bv:
                    self.fail[i] = (tv, bv, "b")
                return
            x = boolint(tv)
            y = boolint(bv)
            if x is None or y is None:
                if x is not None and isinstance(x, Lin) and x.c == 0 and len(x.t) == 1 and x.t[0][0] in self.m.syms and x.t[0][0] not in self.sig:
                    self.sig[x.t[0][0]] = T.fresh("bool", 0, 1)
                    return
                if tv != bv:
                    self.fail[i] = (tv, bv, "b")
                return
            if isinstance(x, Lin) and x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1 and x.t[0][0] in self.m.syms \
                    and x.t[0][0] not in self.sig:
                self.sig[x.t[0][0]] = y
                return
            self.defer.append((i, x, y))
            return
        if isinstance(tv, (int, Lin)):
            e = elems(self.b, tv, bv)
            return self.int_(*e[1]) if e else self.int_(tv, bv)
        if isinstance(tv, N):
            for a, b in zip(tv.kids, bv.kids):
                self.val(a, b)
            return
        if isinstance(tv, U):
            i = self.leaf()
            if tv.key in self.m.ukeys and tv.key not in self.usig:
                self.usig[tv.key] = bv.key
                return
            k = self.usig.get(tv.key, tv.key)
            if k != bv.key and not self.I.keq(self.b, k, bv.key):
                self.fail[i] = (tv, bv, "u")
            return
        if isinstance(tv, P):
            for x, y in zip(tv.path, bv.path):
                if x[0] == "x":
                    self.int_(x[1], y[1])
            if tv.idx is not None:
                self.int_(tv.idx, bv.idx)
            if tv.len is not None:
                self.int_(tv.len, bv.len)
            return
        if isinstance(tv, S):
            return self.seq(tv, bv)
        if tv != bv:
            self.fail[self.leaf()] = (tv, bv, "?")

    def seq(self, tv, bv):
        i = self.leaf()
        ts, bs = tv.segs, bv.segs
        fi = [k for k, x in enumerate(ts) if x[0] == "o" and x[1] in self.m.sids]
        r = None
        if len(fi) == 1 and ts[fi[0]][1] not in self.ssig:
            k = fi[0]
            pre, suf = ts[:k], ts[k + 1:]
            r = self.align(pre, bs, suf)
            if r is not None:
                pb, mid, sb = r
                self.ssig[ts[k][1]] = mid
                n = 0
                for x in mid:
                    n = T.add(n, seglen(x))
                # the fresh segment starts at offset 0 of its own contents
                self.int_(ts[k][3], n)
                for x, y in zip(pre + suf, pb + sb):
                    self.segpair(x, y)
                return
        elif not fi:
            al = self.align_all(ts, bs)
            if al is not None:
                for x, y in al:
                    self.segpair(x, y)
                return
        elif len(fi) == 1 and len(ts) == 1 and self.ssig.get(ts[0][1]) == bs:
            return
        self.fail[i] = (tv, bv, "s")

    def compatible(self, x, y):
        if x[0] != y[0]:
            return False
        if x[0] == "o":
            return x[1] == y[1] and x[4] == y[4]
        from .interp import shape
        return shape(x[1]) == shape(y[1])

    def align(self, pre, bs, suf):
        if len(bs) < len(pre) + len(suf):
            # empty middle and absent suffix pieces
            if len(pre) == 0:
                # try suffix subset
                if len(suf) == 1 and len(bs) == 0:
                    x = suf[0]
                    y = x[:2] + (0,) if x[0] == "r" else (x[0], x[1], x[2], 0, x[4])
                    return (), (), (y,)
            return None
        pb = bs[:len(pre)]
        sb = bs[len(bs) - len(suf):] if suf else ()
        mid = bs[len(pre):len(bs) - len(suf)]
        for x, y in zip(pre, pb):
            if not self.compatible(x, y):
                return None
        ok = all(self.compatible(x, y) for x, y in zip(suf, sb))
        if not ok:
            if len(suf) == 1:
                x = suf[0]
                y = x[:2] + (0,) if x[0] == "r" else (x[0], x[1], x[2], 0, x[4])
                return pb, bs[len(pre):], (y,)
            return None
        return pb, mid, sb

    def align_all(self, ts, bs):
        """Pair template segments with the arrival's, allowing template segments of count 0."""
        out = []
        j = 0
        for k, x in enumerate(ts):
            if j < len(bs) and self.compatible(x, bs[j]):
                out.append((x, bs[j]))
                j += 1
            elif isinstance(seglen(x), Lin):
                y = x[:2] + (0,) if x[0] == "r" else (x[0], x[1], x[2], 0, x[4])
                out.append((x, y))
            else:
                return None
        return out if j == len(bs) else None

    def segpair(self, x, y):
        if x[0] == "r":
            self.val(x[1], y[1])
            self.int_(x[2], y[2])
        else:
            if iszero(y[3]):
                self.leaf()
            else:
                self.int_(x[2], y[2])
            self.int_(x[3], y[3])

    def finish(self):
        """Resolve deferred integer equalities."""
        b = self.b
        todo = self.defer
        for _ in range(4):
            rest = []
            for i, tv, bv in todo:
                un = [s for s in T.syms(tv) if s in self.m.syms and s not in self.sig]
                if un:
                    if len(un) == 1:
                        k = dict(tv.t)[un[0]]
                        others = T.subst(T.sub(tv, Lin(0, ((un[0], k),))), self.sig)
                        r = T.sub(bv, others)
                        if k in (1, -1):
                            self.sig[un[0]] = b.c.norm(T.scale(r, k))
                            continue
                    rest.append((i, tv, bv))
                    continue
                sv = T.subst(tv, self.sig) if self.sig else tv
                if sv == bv or b.c.entails_eq0(T.sub(sv, bv)):
                    continue
                self.fail[i] = (tv, bv, "i")
            todo = rest
            if not todo:
                break
        for i, tv, bv in todo:
            self.fail[i] = (tv, bv, "i")


def absorb(I, fr, m, b):
    """Make template m cover arrival b; True if m had to change."""
    mt = Match(I, m, b)
    for k in sorted(m.g):
        if isinstance(m.g[k], GH):
            mt.val(m.g[k], b.g[k])
    for k in sorted(m.mem, key=lockey):
        mt.val(m.mem[k], b.mem[k])
    mt.finish()
    changed = False
    if any(m.g[k] != b.g[k] for k in m.g if not isinstance(m.g[k], GH)):
        raise AnalysisError("ghost shape mismatch")
    if mt.fail:
        generalise(I, fr, m, b, mt)
        return True
    # base constraints
    if weaken_base(m, b, mt.sig):
        changed = True
    keep = []
    for c in m.cands:
        if b.c.entails_ge0(T.subst(c, mt.sig)):
            keep.append(c)
        else:
            changed = True
    m.cands = keep
    return changed


GH = (int, Lin, bool, F, N, U, P, S)


def lockey(l):
    return tuple(str(x) for x in l)


def weaken_base(m, b, sig):
    """Drop constraints of m.base that b does not satisfy."""
    base, c = m.base, b.c
    ch = False
    side = []           # what remains of a lost equality
    lost = []
    for s, v in list(base.sub.items()):
        if c.sub.get(s) == v:
            continue
        if not c.entails_eq0(T.sub(Lin(0, ((s, 1),)), v)):
            y = Sym.table[s]
            l, h = c.interval(Lin(0, ((s, 1),)))
            l2, h2 = (v, v) if isinstance(v, int) else base.interval(v)
            if l2 < l and base.entails_ge0(T.sub(v, l)):
                l2 = l
            if h2 > h and base.entails_ge0(T.sub(h, v)):
                h2 = h
            del base.sub[s]
            base.lo[s] = min(l, l2)
            base.hi[s] = max(h, h2)
            e = T.sub(Lin(0, ((s, 1),)), v)
            if not any(q in m.syms for q in T.syms(e)):
                lost.append(e)
            if not isinstance(v, int):
                side += [q for q in (e, T.neg(e)) if c.entails_ge0(q)]
                for q in base.ineq:
                    if len(q.t) <= 3 and any(x[0] in dict(e.t) for x in q.t):
                        side += [w for w in (T.sub(q, e), T.add(q, e)) if isinstance(w, Lin) and len(w.t) <= len(q.t) and c.entails_ge0(w)]
            elif s not in c.sub or isinstance(c.sub[s], int):
                # limits that moved along with it
                for z, k in list(base.lo.items())[:40]:
                    if z != s and z not in base.sub and k > -(1 << 70):
                        q = T.sub(T.sub(Lin(0, ((z, 1),)), k), e)
                        if c.entails_ge0(q):
                            side.append(q)
            ch = True
    for d, lower in ((base.lo, True), (base.hi, False)):
        for s, v in list(d.items()):
            if s in base.sub:
                continue
            x = Lin(0, ((s, 1),))
            e = T.add(x, -v) if lower else T.sub(v, x)
            if not c.entails_ge0(e):
                l, h = c.interval(x)
                y = Sym.table[s]
                if not lower:
                    # what the limit implied of symbols above it
                    zs = dict.fromkeys(list(base.lo)[:40] + [z for e in list(base.sub.values()) + list(base.ne) for z in T.syms(e)][:40])
                    for z in zs:
                        if z != s and z not in base.sub and base.bounds1(z)[0] >= v > -(1 << 70):
                            for q in (T.sub(T.sub(Lin(0, ((z, 1),)), x), 1), T.sub(Lin(0, ((z, 1),)), x)):
                                if base.entails_ge0(q) and c.entails_ge0(q):
                                    side.append(q)
                                    break
                d[s] = max(y.lo, -(1 << 200)) if lower else y.hi
                ch = True
    q2 = []
    for q in base.ineq:
        if q in c.ineq or c.entails_ge0(q):
            q2.append(q)
        else:
            ch = True
            for w in c.ineq:            # a weaker bound in the same direction
                if w.t == q.t and w.c > q.c:
                    q2.append(w)
    base.ineq = tuple(q2)
    n2 = []
    for q in base.ne:
        if q in c.ne or c.decide_eq0(q) is False:
            n2.append(q)
        else:
            ch = True
    base.ne = frozenset(n2)
    base.memo = {}
    for q in side:
        base.ge0(q)
    # equalities lost one by one may hold together
    lost = lost[:12]
    for i, x in enumerate(lost):
        for y in lost[:i]:
            for w in (T.add(x, y), T.sub(x, y)):
                if isinstance(w, Lin) and len(w.t) <= 4 and c.entails_eq0(w) and not base.entails_eq0(w):
                    base.eq0(w)
    return ch


def generalise(I, fr, m, b, mt):
    m.rounds += 1
    if I.trace:
        print("  loop", fr.fn.path, "generalise:", [(str(f[0])[:60], str(f[1])[:60]) for f in mt.fail.values()][:12])
    # affine groups of failing integer leaves
    plan = {}
    old_sig = dict(mt.sig)
    groups = []
    memo = {}
    def rank(f):
        # changes by an unknown amount first, then small constants
        if f[2] != "i":
            return (2, 0)
        d = b.c.norm(T.sub(f[1], T.subst(f[0], mt.sig)))
        return (0, 0) if isinstance(d, Lin) else (1, abs(d))
    # an equality of the template that no longer holds moves like a leaf
    for z, v in m.base.sub.items():
        if z in m.syms or any(q in m.syms and q not in mt.sig for q in T.syms(v)):
            continue
        x = Lin(0, ((z, 1),))
        d = b.c.norm(T.sub(x, T.subst(v, mt.sig)))
        if d != 0:
            groups.append({"d": d, "y": x, "tv": v})
    for i, (tv, bv, kind) in sorted(mt.fail.items(), key=lambda x: rank(x[1])):
        if kind != "i":
            continue
        pk = (tv, bv)
        if pk in memo:
            plan[i] = memo[pk]
            continue
        sv = T.subst(tv, mt.sig)
        unb = [s for s in T.syms(sv) if s in m.syms and s not in mt.sig]
        d = b.c.norm(T.sub(bv, sv)) if not unb else None
        placed = False
        if d is not None and m.rounds < 10:
            best = None
            for g in groups:
                r = ratio(d, g["d"])
                if r is not None:
                    val = T.add(tv, T.scale(T.sub(g["y"], g["tv"]), r))
                    k = (1, abs(val)) if isinstance(val, int) else (len(val.t), abs(val.c))
                    if best is None or k < best[0]:
                        best = k, val
            if best is not None:
                plan[i] = best[1]
                placed = True
            if not placed and len(groups) > 1:
                r = combination(d, [g["d"] for g in groups])
                if r is not None:
                    val = tv
                    for k, g in zip(r, groups):
                        if k:
                            val = T.add(val, T.scale(T.sub(g["y"], g["tv"]), k))
                    plan[i] = val
                    placed = True
        if not placed and m.rounds < 10:
            # along with a variable of the loop found earlier?
            tv0 = T.subst(tv, m.sig)
            d0 = b.c.norm(T.sub(bv, tv0))
            for s in sorted(m.syms):
                if s not in m.sig or s not in old_sig:
                    continue
                r = ratio(d0, b.c.norm(T.sub(old_sig[s], m.sig[s]))) if d0 != 0 else None
                if r in (1, -1, 2, -2):
                    plan[i] = T.add(tv0, T.scale(T.sub(Lin(0, ((s, 1),)), m.sig[s]), r))
                    placed = True
                    break
        if not placed:
            y = T.fresh("i", -(1 << 130), 1 << 130)
            sid = y.t[0][0]
            m.syms.add(sid)
            m.sig[sid] = T.subst(tv, m.sig)
            mt.sig[sid] = bv
            plan[i] = y
            if d is not None:
                groups.append({"d": d, "y": y, "tv": tv})
        memo[pk] = plan[i]
    newsyms = [g for g in m.syms if g in mt.sig and g not in set(Sym.table[s].id for s in ())]
    g = Gen(I, m, b, mt, plan)
    for k in sorted(m.g):
        if isinstance(m.g[k], GH):
            m.g[k] = g.val(m.g[k], b.g[k], I.ghost_types.get(k), m.g[k])
    for k in sorted(m.mem, key=lockey):
        m.mem[k] = g.val(m.mem[k], b.mem[k], locty(I, fr, k), m.mem[k])
    weaken_base(m, b, mt.sig)
    # candidates on fresh symbols
    add_cands(I, m, b, mt)


def ratio(d, e):
    """integer r with d == r*e"""
    if isinstance(d, int) and isinstance(e, int):
        if e and d % e == 0:
            return d // e
        return None
    if isinstance(d, Lin) and isinstance(e, Lin):
        if len(d.t) != len(e.t):
            return None
        r = None
        for (s, k), (s2, k2) in zip(d.t, e.t):
            if s != s2 or k % k2:
                return None
            q = k // k2
            if r is None:
                r = q
            elif r != q:
                return None
        return r if d.c == r * e.c else None
    return None


def combination(d, ds):
    """integers r_k with d == sum r_k * ds[k]"""
    from fractions import Fraction as Q

    def vec(x):
        v = {"c": Q(x.c if isinstance(x, Lin) else x)}
        if isinstance(x, Lin):
            for y, k in x.t:
                v[y] = Q(k)
        return {k: q for k, q in v.items() if q}
    rows = []                   # (pivot, vector, coefficients over ds)

    def reduce(v, co):
        for pv, rv, rc in rows:
            k = v.get(pv)
            if k:
                f = k / rv[pv]
                for a, q in rv.items():
                    n = v.get(a, 0) - f * q
                    if n:
                        v[a] = n
                    else:
                        v.pop(a, None)
                for a, q in rc.items():
                    co[a] = co.get(a, 0) - f * q
        return v, co
    for i, x in enumerate(ds):
        v, co = reduce(vec(x), {i: Q(1)})
        if v:
            rows.append((min(v, key=str), v, co))
    v, co = reduce(vec(d), {})
    if v:
        return None
    out = [-co.get(i, Q(0)) for i in range(len(ds))]
    if any(q.denominator != 1 or abs(q) > 1 for q in out):
        return None
    return [int(q) for q in out]


def locty(I, fr, k):
    if isinstance(k[0], int) and len(k) == 2 and isinstance(k[1], int):
        for f, _ in I.stack:
            if f.depth == k[0]:
                return f.body["locals"][k[1]]
    if k[0] == "u":
        return k[2]
    return I.loc_types.get(k)


class Gen:
    """Second walk, in the same leaf order as Match, that rewrites the failing leaves."""

    def __init__(self, I, m, b, mt, plan):
        self.I = I
        self.m = m
        self.b = b
        self.mt = mt
        self.plan = plan
        self.n = 0
        self.smemo = {}
        self.umemo = {}
        # recompute alignment decisions exactly as Match did
        self.ssig = {}

    def leaf(self):
        self.n += 1
        return self.n

    def int_(self, tv, bv):
        i = self.leaf()
        return self.plan.get(i, tv)

    def val(self, tv, bv, ty, _=None):
        I = self.I
        if isinstance(tv, bool) or isinstance(tv, F):
            i = self.leaf()
            if i in self.mt.fail:
                f = self.mt.fail[i]
                if f[2] == "i":
                    y = self.plan[i]
                    for s in T.syms(y):
                        if s in self.m.syms:
                            pass
                    return F("bit", y) if isinstance(y, Lin) else bool(y)
                y = T.fresh("b", 0, 1)
                self.m.syms.add(y.t[0][0])
                x = boolint(tv)
                self.m.sig[y.t[0][0]] = x if x is not None else T.fresh("b0", 0, 1)
                z = boolint(bv)
                self.mt.sig[y.t[0][0]] = z if z is not None else T.fresh("b1", 0, 1)
                return F("bit", y)
            return tv
        if isinstance(tv, (int, Lin)):
            e = elems(self.b, tv, bv)
            if e:
                y = e[2]
                return T.var(T.sym(("el", e[0], self.int_(*e[1])), y.lo, y.hi))
            return self.int_(tv, bv)
        if isinstance(tv, N):
            tys = kid_types(I, tv, ty)
            return N(tv.tag, tuple(self.val(a, c, t) for a, c, t in zip(tv.kids, bv.kids, tys)))
        if isinstance(tv, U):
            i = self.leaf()
            if i in self.mt.fail:
                pk = (tv.key, bv.key)
                if pk not in self.umemo:
                    key = I.fresh_key("w")
                    self.m.ukeys.add(key)
                    self.mt.usig[key] = bv.key
                    self.umemo[pk] = key
                return U(tv.ty, self.umemo[pk])
            return tv
        if isinstance(tv, P):
            path = tuple(("x", self.int_(x[1], y[1])) if x[0] == "x" else x for x, y in zip(tv.path, bv.path))
            idx = self.int_(tv.idx, bv.idx) if tv.idx is not None else None
            ln = self.int_(tv.len, bv.len) if tv.len is not None else None
            return P(tv.loc, path, idx, ln, tv.vt)
        if isinstance(tv, S):
            return self.seq(tv, bv, ty)
        i = self.leaf() if tv != bv else None
        if i is not None:
            raise AnalysisError("cannot generalise %r / %r" % (tv, bv))
        return tv

    def seq(self, tv, bv, ty):
        i = self.leaf()
        mt = self.mt
        ts, bs = tv.segs, bv.segs
        if i in mt.fail:
            return self.newseq(tv, bv, ty)
        fi = [k for k, x in enumerate(ts) if x[0] == "o" and x[1] in self.m.sids]
        et = elem_type(self.I, ty, tv, bv)
        if len(fi) == 1 and ts[fi[0]][1] in mt.ssig and ts[fi[0]][1] not in self.ssig:
            k = fi[0]
            pre, suf = ts[:k], ts[k + 1:]
            pb, mid, sb = mt.align(pre, bs, suf)
            self.ssig[ts[k][1]] = mid
            n = self.int_(ts[k][3], None)
            out = []
            for x, y in zip(pre, pb):
                out.append(self.segpair(x, y, et))
            tail = [self.segpair(x, y, et) for x, y in zip(suf, sb)]
            return S(tuple(out + [(ts[k][0], ts[k][1], ts[k][2], n, ts[k][4])] + tail))
        if not fi:
            al = mt.align_all(ts, bs)
            return S(tuple(self.segpair(x, y, et) for x, y in al))
        return tv

    def segpair(self, x, y, et):
        if x[0] == "r":
            v = self.val(x[1], y[1], et)
            return ("r", v, self.int_(x[2], y[2]))
        o = x[2]
        if iszero(y[3]):
            self.leaf()
        else:
            o = self.int_(x[2], y[2])
        return ("o", x[1], o, self.int_(x[3], y[3]), x[4])

    def newseq(self, tv, bv, ty):
        """The segment structures differ: keep matching ends, replace the middle."""
        pk = (tv, bv)
        if pk in self.smemo:
            return self.smemo[pk]
        I, m, mt = self.I, self.m, self.mt
        et = elem_type(I, ty, tv, bv)
        a, b = list(tv.segs), list(bv.segs)
        pre, suf = [], []
        while a and b and a[0] == b[0] and not (a[0][0] == "o" and a[0][1] in m.sids):
            pre.append(a.pop(0))
            b.pop(0)
        while a and b and a[-1] == b[-1] and not (a[-1][0] == "o" and a[-1][1] in m.sids):
            suf.insert(0, a.pop())
            b.pop()
        cnt = None
        if a and b:
            x, y = a[-1], b[-1]
            if x[0] == "r" and y[0] == "r" and x[1] == y[1] and not has_fresh(m, x[1]):
                suf.insert(0, ("r", x[1], self.pair(x[2], y[2])))
                a.pop()
                b.pop()
            elif x[0] == "o" and y[0] == "o" and x[1] == y[1] and x[1] not in m.sids and \
                    self.b.c.entails_eq0(T.sub(T.add(x[2], x[3]), T.add(y[2], y[3]))):
                n = self.pair(x[3], y[3])
                end = T.add(x[2], x[3])
                suf.insert(0, ("o", x[1], T.sub(end, n), n, x[4]))
                a.pop()
                b.pop()
        if a and b:
            x, y = a[0], b[0]
            if x[0] == "o" and y[0] == "o" and x[1] == y[1] and x[1] not in m.sids and x[2] == y[2] and len(b) == 1 and len(a) == 1:
                pre.append(("o", x[1], x[2], self.pair(x[3], y[3]), x[4]))
                a, b = [], []
            elif x[0] == "r" and y[0] == "r" and x[1] == y[1] and len(a) == len(b) == 1:
                pre.append(("r", x[1], self.pair(x[2], y[2])))
                a, b = [], []
        elif b and not a and len(b) == 1 and not getattr(m, "seq_hard", None):
            y = b[0]
            if y[0] == "o" and stable(self, y[2]) and y[1] not in m.sids:
                pre.append(("o", y[1], y[2], self.pair(0, y[3]), y[4]))
                b = []
            elif y[0] == "r" and stable_val(self, y[1]) and not has_elems(y[1]):
                pre.append(("r", y[1], self.pair(0, y[2])))
                b = []
        elif a and not b and len(a) == 1 and not getattr(m, "seq_hard", None):
            x = a[0]
            if x[0] == "o" and stable(self, x[2]) and x[1] not in m.sids:
                pre.append(("o", x[1], x[2], self.pair(x[3], 0), x[4]))
                a = []
            elif x[0] == "r" and stable_val(self, x[1]) and not has_elems(x[1]):
                pre.append(("r", x[1], self.pair(x[2], 0)))
                a = []
        if a or b:
            na = nb = 0
            for x in a:
                na = T.add(na, seglen(x))
            for x in b:
                nb = T.add(nb, seglen(x))
            sid = I.fresh_key("seq")
            m.sids.add(sid)
            mt.ssig[sid] = tuple(b)
            pre.append(("o", sid, 0, self.pair(na, nb), et))
        r = S(tuple(pre + suf))
        self.smemo[pk] = r
        return r

    def pair(self, tv, bv):
        if tv == bv:
            return tv
        mt, m, b = self.mt, self.m, self.b
        sv = T.subst(tv, mt.sig)
        d = b.c.norm(T.sub(bv, sv))
        # join existing groups whose changes add up to this one: only symbols introduced in this round
        # have entry value == template value
        gs = [(z, b.c.norm(T.sub(mt.sig[z], m.sig0[z]))) for z in sorted(self.fresh_now()) if z in mt.sig and z in m.sig0
              and not any(q in m.syms for q in T.syms(m.sig0[z]))]
        for z, e in gs:
            r = ratio(d, e)
            if r is not None:
                return T.add(tv, T.scale(T.sub(Lin(0, ((z, 1),)), m.sig0[z]), r))
        r = combination(d, [e for _, e in gs]) if len(gs) > 1 else None
        if r is not None:
            val = tv
            for (z, _), k in zip(gs, r):
                if k:
                    val = T.add(val, T.scale(T.sub(Lin(0, ((z, 1),)), m.sig0[z]), k))
            return val
        y = T.fresh("n", -(1 << 130), 1 << 130)
        sid = y.t[0][0]
        m.syms.add(sid)
        m.sig[sid] = T.subst(tv, m.sig)
        if not hasattr(m, "sig0"):
            m.sig0 = {}
        m.sig0[sid] = tv
        mt.sig[sid] = bv
        self.fresh_now().add(sid)
        return y

    now = None

    def fresh_now(self):
        if self.now is None:
            self.now = set()
            if not hasattr(self.m, "sig0"):
                self.m.sig0 = {}
            for i, v in self.plan.items():
                tv, bv, kind = self.mt.fail[i]
                if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][0] in self.mt.sig and self.mt.sig[v.t[0][0]] == bv:
                    self.now.add(v.t[0][0])
                    self.m.sig0[v.t[0][0]] = tv
        return self.now


def has_fresh(m, v):
    if isinstance(v, Lin):
        return any(s in m.syms for s in T.syms(v))
    if isinstance(v, N):
        return any(has_fresh(m, k) for k in v.kids)
    if isinstance(v, F):
        return any(has_fresh(m, k) for k in v.a)
    return isinstance(v, (U, P, S))


def has_elems(v):
    if isinstance(v, (U, P, S)):
        return True
    if isinstance(v, N):
        return any(has_elems(k) for k in v.kids)
    return False


def stable(g, v):
    """v only uses symbols that existed when the member was created."""
    return not isinstance(v, Lin) or all(s < g.m.mark for s in T.syms(v)) if hasattr(g.m, "mark") else not isinstance(v, Lin) or not any(s in g.m.syms for s in T.syms(v))


def stable_val(g, v):
    if isinstance(v, (int, bool)):
        return True
    if isinstance(v, N):
        return all(stable_val(g, k) for k in v.kids)
    return False


def elem_type(I, ty, *vs):
    for v in vs:
        for x in v.segs:
            if x[0] == "o" and x[4] is not None:
                return x[4]
    if ty is not None:
        t = I.types[ty]
        if t["k"] in ("array", "slice"):
            return t["elem"]
    return None


def kid_types(I, v, ty):
    n = len(v.kids)
    if v.tag == "bv":
        return [slice_ty(I, next(i for i, t in enumerate(I.types) if t["k"] == "bool"))]
    if v.tag == "seqel":
        return [ty] * n
    if ty is None:
        return [None] * n
    t = I.types[ty]
    k = t["k"]
    if v.tag == "vec":
        a = t.get("args") or [None]
        e = a[0]
        # a Vec<T> or IntoIter<T>: the contents are a slice of T
        return [slice_ty(I, e)]
    if v.tag == "box":
        return [t["args"][0] if t.get("args") else None] + [None] * (n - 1)
    if k == "adt":
        if I.is_transparent(ty):
            return kid_types(I, v, I.field_ty(t, 0, 0))
        if isinstance(v.tag, tuple) and v.tag[0] == "enm":
            return [f[1] for f in t["variants"][v.tag[1]]["fields"]] + [None] * 8
        if t["variants"]:
            return [f[1] for f in t["variants"][0]["fields"]] + [None] * 8
    if k in ("tuple", "closure"):
        return list(t["fields"]) + [None] * 8
    return [None] * n


def slice_ty(I, e):
    if e is None:
        return None
    k = ("slice", e)
    if k not in I.slice_types:
        for i, t in enumerate(I.types):
            if t["k"] in ("slice", "array") and t["elem"] == e:
                I.slice_types[k] = i
                break
        else:
            I.types.append({"k": "slice", "elem": e, "name": "[_]"})
            I.slice_types[k] = len(I.types) - 1
    return I.slice_types[k]


def int_leaves(v, out):
    if isinstance(v, bool):
        return
    if isinstance(v, (int, Lin)):
        out.append(v)
    elif isinstance(v, N):
        for k in v.kids:
            int_leaves(k, out)
    elif isinstance(v, P):
        if v.idx is not None:
            out.append(v.idx)
        if v.len is not None:
            out.append(v.len)
            if v.idx is not None:
                out.append(T.add(v.idx, v.len))
    elif isinstance(v, S):
        n = 0
        for x in v.segs:
            n = T.add(n, seglen(x))
            out.append(n)
            if x[0] == "o":
                out.append(T.add(x[2], x[3]))


BOUNDS = [0, 1, 2, 3, 7, 8, 15, 16, 127, 255, 256, 257, 258, 285, 287, 288, 320, 32767, 32768, 65535, (1 << 31) - 1,
          (1 << 32) - 1, LENMAX, (1 << 63) - 1, (1 << 64) - 1]


def guard_syms(a, b):
    out = set()
    for d, e in ((a.lo, b.lo), (a.hi, b.hi)):
        for s, v in e.items():
            if d.get(s) != v:
                out.add(s)
    for q in b.ineq:
        if q not in a.ineq:
            out.update(T.syms(q))
    for s in b.sub:
        if s not in a.sub:
            out.add(s)
            out.update(T.syms(b.sub[s]))
    return set(list(sorted(out))[:40])


def moving_elem(m, s):
    """An element at a position that the template varies (or a bit of one): substitution does not see inside."""
    k = Sym.table[s].key
    while k and k[0] == "bit":
        k = Sym.table[k[1]].key
    return bool(k) and k[0] == "el" and isinstance(k[-1], Lin) and any(q in m.syms for q in T.syms(k[-1]))


def code_consts(I):
    """Numbers that occur in the function at hand (and one more: limits of an inclusive comparison)."""
    fn = I.stack[-1][0].fn
    r = I.code_consts.get(fn.id)
    if r is None:
        from . import graph
        ks = sorted(k for k in graph.ints(fn) if 3 < k < 1 << 40)[:8]
        r = I.code_consts[fn.id] = ks + [k + 1 for k in ks if k + 1 not in ks]
    return r


def add_cands(I, m, b, mt):
    leaves = []
    for v in m.g.values():
        if isinstance(v, GH):
            int_leaves(v, leaves)
    for v in m.mem.values():
        int_leaves(v, leaves)
    terms = list(dict.fromkeys(x for x in leaves if isinstance(x, Lin)))[:80]
    e = m.entry
    # symbols that the loop's own guards constrain
    for z in sorted(guard_syms(e.c, b.c)):
        x = Lin(0, ((z, 1),))
        if z not in m.syms and x not in terms:
            terms.append(x)
    done = getattr(m, "cdone", None)
    if done is None:
        done = m.cdone = set()

    def try_(c):
        c = T.Lin(c.c, c.t) if isinstance(c, Lin) else c
        if not isinstance(c, Lin) or c in done:
            return False
        if not any(s in m.syms for s in T.syms(c)):
            return False
        if any(s in m.syms and (s not in m.sig or s not in mt.sig) for s in T.syms(c)):
            return False
        if any(moving_elem(m, s) for s in T.syms(c)):
            return False
        if not e.c.entails_ge0(T.subst(c, m.sig)):
            return False
        if not b.c.entails_ge0(T.subst(c, mt.sig)):
            return False
        done.add(c)
        m.cands.append(c)
        return True
    consts = sorted({x for x in leaves if isinstance(x, int) and not isinstance(x, bool) and x > 3} - set(BOUNDS))[:12]
    code = [k for k in code_consts(I) if k not in consts]

    def around(x, code):
        """Constants that occur in the state, or bound x at the back edge."""
        l, h = b.c.interval(T.subst(x, mt.sig)) if all(q not in m.syms or q in mt.sig for q in T.syms(x)) else (None, None)
        ks = consts + code
        if h is not None and abs(h) < LENMAX and h not in ks:
            ks.append(h)
        for k in ks:
            try_(T.sub(k, x))
            try_(T.sub(x, k))

    # re-validate the candidates kept so far
    m.cands = [c for c in m.cands if all(s not in m.syms or s in mt.sig for s in T.syms(c))
               and b.c.entails_ge0(T.subst(c, mt.sig))]
    for s in sorted(m.syms):
        if s in done or s not in mt.sig or s not in m.sig:
            continue
        done.add(s)
        x = Lin(0, ((s, 1),))
        around(x, code)
        for k in BOUNDS:
            if try_(T.sub(k, x)):
                if k < LENMAX:
                    try_(T.sub(LENMAX, x))      # holds for longer, should the other one go
                break
        for k in reversed(BOUNDS):
            if try_(T.sub(x, k)):
                break
        y = T.sub(x, m.sig[s])
        try_(y)
        try_(T.neg(y))
        if isinstance(m.sig[s], Lin):
            for k in code:
                if k > 512:
                    try_(T.sub(k, y))
        for z in terms:
            if z == x:
                continue
            try_(T.sub(x, z))
            try_(T.sub(z, x))
            if not any(q in m.syms for q in T.syms(z)):
                try_(T.sub(T.sub(z, x), 1))
                try_(T.sub(T.sub(x, z), 1))
    # sums that move against fixed limits
    limits = [z for z in terms if not any(q in m.syms for q in T.syms(z))]
    for x in terms:
        if (len(x.t) < 2 and not x.c) or ("lim", x) in done or not any(q in m.syms for q in T.syms(x)):
            continue
        done.add(("lim", x))
        around(x, [k for k in code if k > 512])
        for z in limits:
            try_(T.sub(z, x))
            try_(T.sub(T.sub(z, x), 1))
            try_(T.sub(x, z))
    if m.g.get("_cand"):
        for c in m.g["_cand"](m, b):
            try_(c)
