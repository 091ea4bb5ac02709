"""Abstract states: memory, constraint store, ghost values; reading and writing places."""
from . import terms as T
from .terms import Lin
from .cons import Store
from .vals import *


class AnalysisError(Exception):
    pass


class Fork(Exception):
    """The current step needs a case distinction: re-execute it under each alternative."""

    def __init__(self, alts):
        self.alts = alts


class Panic(Exception):
    def __init__(self, what, detail=""):
        self.what = what
        self.detail = detail


class Infeasible(Exception):
    pass


LENMAX = 1 << 47


class State:
    __slots__ = ("mem", "c", "g", "tr")

    def __init__(self):
        self.mem = {}
        self.c = Store()
        self.g = {}
        self.tr = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.c = self.c.copy()
        s.g = dict(self.g)
        s.tr = self.tr
        return s

    # ---- formulas
    def assume(self, f):
        if f is True:
            return True
        if f is False:
            self.c.bad = True
            return False
        c = self.c
        op = f.op
        if op == "ge":
            return c.ge0(f.a[0])
        if op == "eq":
            return c.eq0(f.a[0])
        if op == "ne":
            return c.ne0(f.a[0])
        if op == "bit":
            return c.eq0(T.add(f.a[0], -1))
        if op == "and":
            for x in f.a:
                if not self.assume(x):
                    return False
            return True
        if op == "or":
            live = [x for x in f.a if self.decide(x) is not False]
            if not live:
                c.bad = True
                return False
            if len(live) == 1:
                return self.assume(live[0])
            return True     # dropping a disjunction over-approximates
        if op == "not":
            return True
        raise AnalysisError("assume " + op)

    def decide(self, f):
        """True / False / None"""
        if f is True or f is False:
            return f
        c = self.c
        op = f.op
        if op == "ge":
            return c.decide_ge0(f.a[0])
        if op == "eq":
            return c.decide_eq0(f.a[0])
        if op == "ne":
            r = c.decide_eq0(f.a[0])
            return None if r is None else not r
        if op == "bit":
            x = T.add(f.a[0], -1)
            r = c.decide_eq0(x)
            if r is not None and isinstance(x, T.Lin) and len(x.t) == 1 and not c.bad:
                c.eq0(x if r else f.a[0])       # entailed: record it as an equality
            return r
        if op == "and":
            r = True
            for x in f.a:
                d = self.decide(x)
                if d is False:
                    return False
                if d is None:
                    r = None
            return r
        if op == "or":
            r = False
            for x in f.a:
                d = self.decide(x)
                if d is True:
                    return True
                if d is None:
                    r = None
            return r
        if op == "not":
            r = self.decide(f.a[0])
            return None if r is None else not r
        raise AnalysisError("decide " + op)

    def holds(self, f):
        return self.decide(f) is True

    def need(self, f):
        """Decide f, forking if unknown."""
        d = self.decide(f)
        if d is None:
            if f.op in ("and", "or", "not"):
                # fork on the first undecided atom
                for x in f.a:
                    if self.decide(x) is None:
                        self.need(x)
            raise Fork([f, fnot(f)])
        return d

    def concretise(self, v, limit=64):
        """Case-split an integer with a small range."""
        v = self.c.norm(v)
        if isinstance(v, int):
            return v
        lo, hi = self.c.interval(v)
        if hi - lo > limit:
            raise AnalysisError("cannot enumerate %r in [%s,%s]" % (v, lo, hi))
        raise Fork([feq(T.sub(v, k)) for k in range(lo, hi + 1)])


def iszero(x):
    return isinstance(x, int) and x == 0


def boolval(v):
    """bool value -> formula"""
    if v is True or v is False or isinstance(v, F):
        return v
    if isinstance(v, int):
        return bool(v)
    if isinstance(v, Lin):
        return F("bit", v)
    raise AnalysisError("not a bool: %r" % (v,))


def boolint(f):
    """bool formula -> 0/1 term if expressible"""
    if f is True:
        return 1
    if f is False:
        return 0
    if f.op == "bit":
        return f.a[0]
    return None


# ---------------------------------------------------------------- sequences
def seq(*segs):
    out = []
    for s in segs:
        n = s[2] if s[0] == "r" else s[3]
        if iszero(n):
            continue
        if out:
            p = out[-1]
            if s[0] == "r" and p[0] == "r" and p[1] == s[1]:
                out[-1] = ("r", p[1], T.add(p[2], s[2]))
                continue
            if s[0] == "o" and p[0] == "o" and p[1] == s[1] and T.add(p[2], p[3]) == s[2]:
                out[-1] = ("o", p[1], p[2], T.add(p[3], s[3]), p[4])
                continue
        out.append(s)
    return S(tuple(out))


def seglen(s):
    return s[2] if s[0] == "r" else s[3]


def one(st, v, ty):
    """Segment holding the single value v."""
    e = as_elem(st, v) if ty is not None else None
    if e is not None:
        return ("o", e[0], e[1], 1, ty)
    return ("r", v, 1)


def as_elem(st, v):
    k = vkey(st, v)
    if k is not None and k[0] == "el":
        return k[1], k[2]
    return None


def vkey(st, v):
    """The key of the unknown that v is exactly, if any."""
    if isinstance(v, U):
        return v.key
    if isinstance(v, Lin):
        if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            return T.Sym.table[v.t[0][0]].key
        # exploded into bits?
        s0 = T.Sym.table[v.t[0][0]]
        if s0.key[0] == "bit":
            ex = T.EXPLODED.get(s0.key[1])
            if ex == v:
                return T.Sym.table[s0.key[1]].key
        return None
    if isinstance(v, F) and v.op == "bit":
        return vkey(st, v.a[0])
    if isinstance(v, N) and v.kids:
        if v.tag == "agg":
            var = None
        elif isinstance(v.tag, tuple) and v.tag[0] == "enm":
            var = v.tag[1]
        else:
            return None
        k0 = None
        for i, x in enumerate(v.kids):
            k = vkey(st, x)
            if k is None or k[0] != "f" or k[2] != var or k[3] != i:
                return None
            if k0 is None:
                k0 = k[1]
            elif k0 != k[1]:
                return None
        if var is not None:
            s = T.Sym.memo.get(("var", k0))
            if s is None or st.c.norm(T.var(s)) != var:
                return None
        return k0
    return None


def seq_append(st, s, v, ty):
    return seq(*(s.segs + (one(st, v, ty),)))


def seq_cat(*ss):
    segs = ()
    for s in ss:
        segs += s.segs
    return seq(*segs)


def norm_seq(st, s):
    c = st.c
    return seq(*[("r", x[1], c.norm(x[2])) if x[0] == "r" else ("o", x[1], c.norm(x[2]), c.norm(x[3]), x[4])
                 for x in s.segs])


def seq_split(st, s, i):
    """(before, after) around index i (0 <= i <= len assumed); may Fork."""
    i = st.c.norm(i)
    if iszero(i):
        return S(()), s
    pre = []
    o = 0
    segs = s.segs
    for k, x in enumerate(segs):
        n = seglen(x)
        rem = T.sub(i, o)
        d = st.need(fge(T.sub(rem, n)))     # i >= o + n
        if d:
            pre.append(x)
            o = T.add(o, n)
            rem2 = st.c.norm(T.sub(i, o))
            if iszero(rem2):
                return seq(*pre), seq(*segs[k + 1:])
            continue
        if st.need(feq(rem)):
            return seq(*pre), seq(*segs[k:])
        if x[0] == "r":
            a = ("r", x[1], rem)
            b = ("r", x[1], T.sub(n, rem))
        else:
            a = ("o", x[1], x[2], rem, x[4])
            b = ("o", x[1], T.add(x[2], rem), T.sub(n, rem), x[4])
        return seq(*(pre + [a])), seq(*((b,) + segs[k + 1:]))
    if not st.need(feq(T.sub(i, o))):
        raise AnalysisError("sequence split beyond end: %r at %r" % (s, i))
    return s, S(())


def seq_slice(st, s, a, n):
    _, r = seq_split(st, s, a)
    r, _ = seq_split(st, r, n)
    return r


def seq_set(st, s, i, v, ty):
    a, b = seq_split(st, s, i)
    _, c = seq_split(st, b, 1)
    return seq(*(a.segs + (one(st, v, ty),) + c.segs))


def seq_len(st, s):
    return st.c.norm(s.length())


def plausible(st):
    """Can all sequences of this state have lengths that are not negative?"""
    s = st.copy()
    todo, seen = list(s.mem.values()) + list(s.g.values()), 0
    while todo:
        v = todo.pop()
        if isinstance(v, S):
            for x in v.segs:
                n = seglen(x)
                if not isinstance(n, int):
                    seen += 1
                    if seen > 200:
                        return True
                    if s.decide(fge(n)) is False or s.assume(fge(n)) is False or s.c.bad:
                        return False
                if x[0] == "r":
                    todo.append(x[1])
        elif isinstance(v, N):
            todo.extend(v.kids)
    return not s.c.bad
