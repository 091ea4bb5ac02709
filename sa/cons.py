"""Constraint store of an abstract state: affine equalities (as a substitution), affine
inequalities, disequalities and per-symbol bounds.  Entailment is decided by bounds propagation and
Fourier-Motzkin elimination with integer tightening (the polyhedra domain's own decision
procedure)."""
from math import gcd
from . import terms as T
from .terms import Lin, Sym

BIG = 1 << 200


class Store:
    __slots__ = ("sub", "ineq", "ne", "lo", "hi", "bad", "memo", "seen")

    def __init__(self):
        self.sub = {}
        self.ineq = ()
        self.ne = frozenset()
        self.lo = {}
        self.hi = {}
        self.bad = False
        self.memo = {}
        self.seen = frozenset()     # exploded symbols whose range is recorded over their bits

    def copy(self):
        s = Store.__new__(Store)
        s.sub = dict(self.sub)
        s.ineq = self.ineq
        s.ne = self.ne
        s.lo = dict(self.lo)
        s.hi = dict(self.hi)
        s.bad = self.bad
        s.memo = {}
        s.seen = self.seen
        return s

    # ---- normal form
    def norm(self, a):
        if isinstance(a, int):
            return a
        sub = self.sub
        ex = T.EXPLODED
        for _ in range(400):
            b = T.subst(a, sub) if sub else a
            if isinstance(b, int):
                return b
            c = T.subst(b, ex) if ex else b
            if c is not b:
                self._exploded(b)
            if isinstance(c, int):
                return c
            if c is a:
                return a
            a = c
        return a

    def _exploded(self, a):
        """Symbols of `a` are being replaced by the sums of their bits: keep what is known of their range."""
        for s, _ in a.t:
            if s in self.seen or s not in T.EXPLODED:
                continue
            self.seen = self.seen | {s}
            l, h = self.bounds1(s)
            e = T.EXPLODED[s]
            new = ()
            if l > 0:
                new += (T.add(e, -l),)
            if h < (1 << len(e.t)) - 1:
                new += (T.sub(h, e),)
            for q in new:
                if self.sub:
                    q = T.subst(q, self.sub)
                if isinstance(q, int):
                    if q < 0:
                        self.bad = True
                elif q not in self.ineq:
                    self.ineq = self.ineq + (q,)
                    self.memo = {}

    def bounds1(self, s):
        lo = self.lo.get(s)
        hi = self.hi.get(s)
        y = Sym.table[s]
        return (y.lo if lo is None else lo, y.hi if hi is None else hi)

    def interval(self, a):
        a = self.norm(a)
        if isinstance(a, int):
            return a, a
        lo = hi = a.c
        for s, k in a.t:
            l, h = self.bounds1(s)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    # ---- assume
    def ge0(self, a):
        """assume a >= 0"""
        a = self.norm(a)
        if isinstance(a, int):
            if a < 0:
                self.bad = True
            return not self.bad
        a = tighten(a)
        lo, hi = self.interval(a)
        if hi < 0:
            self.bad = True
            return False
        if lo >= 0:
            return True
        if len(a.t) == 1:
            s, k = a.t[0]
            l, h = self.bounds1(s)
            if k > 0:
                self.lo[s] = max(l, -(a.c // k))
            else:
                self.hi[s] = min(h, a.c // -k)
            self.memo = {}
            self._ne_edges(s)
            return self._fix(s)
        if a in self.ineq:
            return True
        self.memo = {}
        # a >= 0 and -a >= 0 present -> equality
        na = T.neg(a)
        for q in self.ineq:
            if q.t == na.t:
                if q.c == na.c:
                    self.ineq = tuple(x for x in self.ineq if x is not q)
                    return self.eq0(a)
                if q.c < na.c:
                    self.bad = True
                    return False
        # drop weaker parallel ones
        self.ineq = tuple(x for x in self.ineq if not (x.t == a.t and x.c >= a.c)) + (a,)
        if any(n.t == a.t or n.t == na.t for n in self.ne):
            self._ne_ineq(a)
        if not self.bad and self._infeasible(a):
            self.bad = True
        return not self.bad

    def _ne_ineq(self, a):
        for n in list(self.ne):
            if n == a or T.neg(n) == a:
                self.ineq = tuple(x for x in self.ineq if x is not a)
                self.ge0(T.add(a, -1))
                return

    def _ne_edges(self, s):
        for n in self.ne:
            if len(n.t) == 1 and n.t[0][0] == s and abs(n.t[0][1]) == 1:
                v = -n.c * n.t[0][1]
                l, h = self.bounds1(s)
                ch = False
                if v == l:
                    self.lo[s] = l + 1
                    ch = True
                if v == h:
                    self.hi[s] = h - 1
                    ch = True
                if ch:
                    return self._ne_edges(s)

    def _fix(self, s):
        l, h = self.bounds1(s)
        if l > h:
            self.bad = True
            return False
        if l == h:
            return self._bind(s, l)
        # other inequalities may have become unsatisfiable
        for q in self.ineq:
            if any(x == s for x, _ in q.t):
                if self.interval(q)[1] < 0:
                    self.bad = True
                    return False
        if self.ineq and any(any(x == s for x, _ in q.t) for q in self.ineq):
            if self._infeasible(Lin(-l, ((s, 1),))):
                self.bad = True
                return False
        return True

    def _bind(self, s, val):
        """s := val"""
        self.memo = {}
        l, h = self.bounds1(s)
        m = {s: val}
        for k, v in list(self.sub.items()):
            self.sub[k] = T.subst(v, m)
        self.sub[s] = val
        y = Sym.table[s]
        old = self.ineq
        self.ineq = ()
        oldne = self.ne
        self.ne = frozenset()
        # bounds of s carry over to val
        if isinstance(val, int):
            if not (l <= val <= h):
                self.bad = True
                return False
        else:
            if not (self.ge0(T.add(val, -l)) and self.ge0(T.sub(h, val))):
                return False
        for q in old:
            if not self.ge0(q):
                return False
        for n in oldne:
            if not self.ne0(n):
                return False
        r = T.RANGED.get(s)
        if r is not None and not self.bad:
            return self.ge0(r)
        return not self.bad

    def eq0(self, a):
        a = self.norm(a)
        if isinstance(a, int):
            if a != 0:
                self.bad = True
            return not self.bad
        g = 0
        for _, k in a.t:
            g = gcd(g, k)
        if a.c % g:
            self.bad = True
            return False
        if g > 1:
            a = Lin(a.c // g, tuple((s, k // g) for s, k in a.t))
        lo, hi = self.interval(a)
        if lo > 0 or hi < 0:
            self.bad = True
            return False
        if len(a.t) == 1:
            s, k = a.t[0]
            return self._bind(s, -a.c // k)
        # binary decomposition: all symbols 0/1 (or pinned to one end)
        if lo == 0 or hi == 0:
            # every symbol at its extreme
            vals = []
            for s, k in a.t:
                l, h = self.bounds1(s)
                vals.append((s, (l if k > 0 else h) if lo == 0 else (h if k > 0 else l)))
            for s, v in vals:
                if not self._bind_if(s, v):
                    return False
            return True
        d = self._binary(a)
        if d is not None:
            for s, v in d:
                if not self._bind_if(s, v):
                    return False
            return True
        if self.ne:
            for n in self.ne:
                nn = self.norm(n)
                if nn == a or T.neg(nn) == a if not isinstance(nn, int) else False:
                    self.bad = True
                    return False
        # solve for a symbol with unit coefficient, preferring the newest fresh/bit symbol
        best = None
        for s, k in a.t:
            if k in (1, -1):
                if best is None or s > best[0]:
                    best = (s, k)
        if best is None:
            # keep as two inequalities
            self.memo = {}
            self.ineq = tuple(x for x in self.ineq if x != a and x != T.neg(a)) + (a, T.neg(a))
            if self._infeasible(a):
                self.bad = True
            return not self.bad
        s, k = best
        rest = T.sub(a, Lin(0, ((s, k),)))
        return self._bind(s, T.scale(rest, -k))

    def _bind_if(self, s, v):
        y = self.norm(Lin(0, ((s, 1),)))
        if isinstance(y, int):
            if y != v:
                self.bad = True
                return False
            return True
        if y == Lin(0, ((s, 1),)):
            return self._bind(s, v)
        return self.eq0(T.add(y, -v))

    def _binary(self, a):
        """a == 0 with a = c + sum k_i b_i, b_i in 0..1, |k_i| a super-increasing set: unique solution."""
        ts = sorted(a.t, key=lambda x: -abs(x[1]))
        tot = 0
        for s, k in ts:
            if self.bounds1(s) != (0, 1):
                return None
        ks = [abs(k) for _, k in ts]
        suf = 0
        for k in reversed(ks):
            if k <= suf:
                return None
            suf += k
        c = a.c
        # flip negatives: k*b = k + |k|*(1-b)
        res = []
        neg = {}
        for s, k in ts:
            if k < 0:
                c += k
                neg[s] = True
        need = -c
        for s, k in ts:
            k = abs(k)
            if need >= k:
                v = 1
                need -= k
            else:
                v = 0
            res.append((s, (1 - v) if s in neg else v))
        if need != 0:
            self.bad = True
            return []
        return res

    def ne0(self, a):
        a = self.norm(a)
        if isinstance(a, int):
            if a == 0:
                self.bad = True
            return not self.bad
        g = 0
        for _, k in a.t:
            g = gcd(g, k)
        if a.c % g:
            return True
        if g > 1:
            a = Lin(a.c // g, tuple((s, k // g) for s, k in a.t))
        if a.t[0][1] < 0:
            a = T.neg(a)
        lo, hi = self.interval(a)
        if lo > 0 or hi < 0:
            return True
        if lo == 0:
            return self.ge0(T.add(a, -1))
        if hi == 0:
            return self.ge0(T.sub(-1, a))
        if a in self.ne:
            return True
        self.memo = {}
        self.ne = self.ne | {a}
        if len(a.t) == 1:
            s = a.t[0][0]
            self._ne_edges(s)
            return self._fix(s)
        if self.ineq:
            if self.entails_ge0(a):
                return self.ge0(T.add(a, -1))
            if self.entails_ge0(T.neg(a)):
                return self.ge0(T.sub(-1, a))
        return True

    # ---- queries
    def entails_ge0(self, a):
        a = self.norm(a)
        if isinstance(a, int):
            return a >= 0
        lo, hi = self.interval(a)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        k = ("g", a)
        r = self.memo.get(k)
        if r is None:
            r = fm_unsat(self, T.sub(-1, a))
            self.memo[k] = r
        return r

    def entails_eq0(self, a):
        a = self.norm(a)
        if isinstance(a, int):
            return a == 0
        lo, hi = self.interval(a)
        if lo > 0 or hi < 0:
            return False
        return self.entails_ge0(a) and self.entails_ge0(T.neg(a))

    def decide_ge0(self, a):
        a = self.norm(a)
        if isinstance(a, int):
            return a >= 0
        lo, hi = self.interval(a)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if self.entails_ge0(a):
            return True
        if self.entails_ge0(T.sub(-1, a)):
            return False
        return None

    def decide_eq0(self, a):
        a = self.norm(a)
        if isinstance(a, int):
            return a == 0
        lo, hi = self.interval(a)
        if lo > 0 or hi < 0:
            return False
        g = 0
        for _, k in a.t:
            g = gcd(g, k)
        if a.c % g:
            return False
        if g > 1:
            a = Lin(a.c // g, tuple((s, k // g) for s, k in a.t))
        if a.t[0][1] < 0:
            a = T.neg(a)
        if a in self.ne:
            return False
        for n in self.ne:
            nn = self.norm(n)
            if isinstance(nn, Lin) and (nn == a or T.neg(nn) == a):
                return False
        p = self.entails_ge0(a)
        q = self.entails_ge0(T.neg(a))
        if p and q:
            return True
        if self.entails_ge0(T.add(a, -1)) or self.entails_ge0(T.sub(-1, a)):
            return False
        if self._binary_impossible(a):
            return False
        return None

    def _binary_impossible(self, a):
        s2 = self.copy()
        r = s2._binary(a)
        return r == [] and s2.bad

    def _infeasible(self, a):
        return fm_unsat(self, a)

    def facts(self):
        out = list(self.ineq)
        return out


def tighten(a):
    if isinstance(a, int):
        return a
    g = 0
    for _, k in a.t:
        g = gcd(g, k)
    if g > 1:
        return Lin(a.c // g, tuple((s, k // g) for s, k in a.t))  # floor
    return a


LIMIT = 400


def fm_unsat(st, a):
    """Is  store /\\ a >= 0  unsatisfiable over the integers?  (sound: True only if so)"""
    a = tighten(st.norm(a))
    if isinstance(a, int):
        return a < 0
    # relevant constraints: connected to a
    rel = {s for s, _ in a.t}
    cons = [a]
    pool = [st.norm(q) for q in st.ineq]
    pool = [q for q in pool if isinstance(q, Lin)]
    seen_ax = set()
    changed = True
    used = [False] * len(pool)
    while changed:
        changed = False
        for s in list(rel):
            if s in T.AXIOMS and s not in seen_ax:
                seen_ax.add(s)
                for q in T.AXIOMS[s]:
                    q = st.norm(q)
                    if isinstance(q, Lin):
                        pool.append(q)
                        used.append(False)
                        changed = True
            if s in T.RANGED and ("r", T.RANGED[s]) not in seen_ax:
                seen_ax.add(("r", T.RANGED[s]))
                q = st.norm(T.RANGED[s])
                if isinstance(q, int):
                    if q < 0:
                        return True
                else:
                    pool.append(q)
                    used.append(False)
                    changed = True
        for i, q in enumerate(pool):
            if used[i]:
                continue
            if any(s in rel for s, _ in q.t):
                used[i] = True
                cons.append(q)
                for s, _ in q.t:
                    if s not in rel:
                        rel.add(s)
                        changed = True
    if len(cons) == 1:
        return st.interval(a)[1] < 0
    # add bounds
    for s in rel:
        l, h = st.bounds1(s)
        if l > -BIG:
            cons.append(Lin(-l, ((s, 1),)))
        if h < BIG:
            cons.append(Lin(h, ((s, -1),)))
    cons = dedupe(cons)
    if cons is None:
        return True
    if len(cons) > 6 and has_point(st, cons, rel):
        return False
    left = set(rel)
    while left:
        # choose variable with least product
        best = None
        for s in left:
            p = n = 0
            for q in cons:
                for x, k in q.t:
                    if x == s:
                        if k > 0:
                            p += 1
                        else:
                            n += 1
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, s)
        s = best[1]
        left.discard(s)
        pos, ng, rest = [], [], []
        for q in cons:
            k = 0
            for x, kk in q.t:
                if x == s:
                    k = kk
            if k > 0:
                pos.append((k, q))
            elif k < 0:
                ng.append((-k, q))
            else:
                rest.append(q)
        if len(pos) * len(ng) > LIMIT:
            return False
        for kp, p in pos:
            for kn, n in ng:
                g = gcd(kp, kn)
                r = tighten(T.add(T.scale(p, kn // g), T.scale(n, kp // g)))
                if isinstance(r, int):
                    if r < 0:
                        return True
                else:
                    rest.append(r)
        cons = dedupe(rest)
        if cons is None:
            return True
        if len(cons) > LIMIT:
            return False
    return False


def has_point(st, cons, rel):
    """Find an integer point that satisfies all the constraints by local repair (a cheap refutation of unsatisfiability)."""
    box, val = {}, {}
    for s in rel:
        l, h = box[s] = st.bounds1(s)
        val[s] = l if l > -BIG else (h if h < BIG and h < 0 else 0)
    big = cons
    step = 0
    for _ in range(12):
        clean = True
        for q in big:
            v = q.c
            for s, k in q.t:
                v += k * val[s]
            if v >= 0:
                continue
            clean = False
            step += 1
            # move the variables of q, starting somewhere else each time
            n = len(q.t)
            for i in range(n):
                s, k = q.t[(i + step) % n]
                l, h = box[s]
                if k > 0:
                    d = min(-(v // k), h - val[s])
                else:
                    d = -min(-(v // -k), val[s] - l)
                if d:
                    val[s] += d
                    v += k * d
                    if v >= 0:
                        break
            if v < 0:
                return False        # not even alone within the box
        if clean:
            return True
    return False


def dedupe(cons):
    best = {}
    for q in cons:
        if isinstance(q, int):
            if q < 0:
                return None
            continue
        c = best.get(q.t)
        if c is None or q.c < c:
            best[q.t] = q.c
    for t, c in best.items():
        nt = tuple((s, -k) for s, k in t)
        c2 = best.get(nt)
        if c2 is not None and c + c2 < 0:
            return None
    return [Lin(c, t) for t, c in best.items()]
