"""Integer terms of the abstract domain: affine expressions over abstract symbols.

A value is a Python int (constant) or a Lin.  A symbol stands for one unknown integer; its key says
where it comes from (a fresh unknown, element i of an opaque sequence, field f of an unknown, bit j
of another symbol, ...), so equal origins give equal symbols.
"""


class Sym:
    __slots__ = ("id", "lo", "hi", "key")
    table = []
    memo = {}

    def __repr__(self):
        return show_key(self.key)


def reset():
    Sym.table.clear()
    Sym.memo.clear()
    EXPLODED.clear()
    BITS_OF.clear()
    AXIOMS.clear()
    RANGED.clear()
    _n[0] = 0


_n = [0]
EXPLODED = {}   # sym id -> Lin over its bits (global, canonical)
BITS_OF = {}
RANGED = {}     # bit sym id -> Lin >= 0: the range of the symbol it is a bit of, where it is not 0..2^n-1
AXIOMS = {}     # sym id -> list of Lin >= 0 facts defining it


def sym(key, lo, hi):
    s = Sym.memo.get(key)
    if s is None:
        s = Sym()
        s.id = len(Sym.table)
        s.lo = lo
        s.hi = hi
        s.key = key
        Sym.table.append(s)
        Sym.memo[key] = s
    return s


def fresh(name, lo, hi):
    _n[0] += 1
    return var(sym(("fresh", _n[0], name), lo, hi))


def var(s):
    if s.id in EXPLODED:
        return EXPLODED[s.id]
    return Lin(0, ((s.id, 1),))


def show_key(k):
    if k[0] == "fresh":
        return "%s#%d" % (k[2], k[1])
    return k[0] + "(" + ",".join(str(x) for x in k[1:]) + ")"


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return show(self)


def show(l):
    if not isinstance(l, Lin):
        return str(l)
    out = ""
    for s, k in l.t:
        n = show_key(Sym.table[s].key)
        out += ("+" if k > 0 and out else "") + ("" if k == 1 else "-" if k == -1 else "%d*" % k) + n
    if l.c or not out:
        out += ("+" if l.c > 0 and out else "") + str(l.c)
    return out


def mk(c, d):
    """Lin from const and dict sym->coef."""
    t = tuple(sorted((s, k) for s, k in d.items() if k))
    return Lin(c, t) if t else c


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        return Lin(a + b.c, b.t)
    if isinstance(b, int):
        return Lin(a.c + b, a.t) if b else a
    d = dict(a.t)
    for s, k in b.t:
        d[s] = d.get(s, 0) + k
    return mk(a.c + b.c, d)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Lin(a.c * k, tuple((s, c * k) for s, c in a.t))


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, scale(b, -1))


def syms(a):
    return () if isinstance(a, int) else tuple(s for s, _ in a.t)


def subst(a, m):
    """Substitute symbols by m: dict sym id -> int|Lin."""
    if isinstance(a, int):
        return a
    hit = False
    for s, _ in a.t:
        if s in m:
            hit = True
            break
    if not hit:
        return a
    c = a.c
    d = {}
    for s, k in a.t:
        r = m.get(s)
        if r is None:
            d[s] = d.get(s, 0) + k
        elif isinstance(r, int):
            c += k * r
        else:
            c += k * r.c
            for s2, k2 in r.t:
                d[s2] = d.get(s2, 0) + k * k2
    return mk(c, d)


def explode(s):
    """Replace symbol s (0 <= s < 2^n) by the sum of its bits, globally.  Returns the bit symbols."""
    if s.id in BITS_OF:
        return BITS_OF[s.id]
    n = max(1, s.hi.bit_length())
    bits = [sym(("bit", s.id, j), 0, 1) for j in range(n)]
    BITS_OF[s.id] = bits
    if n == 1:
        BITS_OF[s.id] = [s]
        return [s]
    EXPLODED[s.id] = Lin(0, tuple(sorted((b.id, 1 << j) for j, b in enumerate(bits))))
    if s.hi != (1 << n) - 1:
        for b in bits:
            RANGED[b.id] = sub(s.hi, EXPLODED[s.id])
    return bits
