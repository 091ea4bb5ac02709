"""Abstract values."""
from . import terms as T
from .terms import Lin


class N:
    """A known constructor: 'agg' (struct/tuple), ('enm', variant), ('clo', type), 'vec', 'box',
    ('fn', inst), ('tok', name), ..."""
    __slots__ = ("tag", "kids", "h")

    def __init__(self, tag, kids=()):
        self.tag = tag
        self.kids = kids
        self.h = hash((tag, kids))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, N) and self.h == o.h and self.tag == o.tag and self.kids == o.kids)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        t = self.tag if isinstance(self.tag, str) else ":".join(map(str, self.tag))
        return "%s(%s)" % (t, ", ".join(map(repr, self.kids))) if self.kids else t

    def set(self, i, v):
        k = list(self.kids)
        k[i] = v
        return N(self.tag, tuple(k))


class U:
    """An unknown value of a known type; key identifies the unknown."""
    __slots__ = ("ty", "key")

    def __init__(self, ty, key):
        self.ty = ty
        self.key = key

    def __hash__(self):
        return hash((self.ty, self.key))

    def __eq__(self, o):
        return isinstance(o, U) and self.ty == o.ty and self.key == o.key

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return "?%s" % (keystr(self.key),)


def keystr(k):
    if isinstance(k, tuple):
        return "(" + " ".join(keystr(x) for x in k) + ")"
    return str(k)


class P:
    """A pointer: memory location, path inside it, element index (into the sequence at path) and,
    for slices, a length."""
    __slots__ = ("loc", "path", "idx", "len", "vt")

    def __init__(self, loc, path=(), idx=None, len=None, vt=None):
        self.loc = loc
        self.path = path
        self.idx = idx
        self.len = len
        self.vt = vt

    def t(self):
        return (self.loc, self.path, self.idx, self.len)

    def __hash__(self):
        return hash(self.t())

    def __eq__(self, o):
        return isinstance(o, P) and self.t() == o.t()

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return "&%s%s%s%s" % (keystr(self.loc), "".join(".%s" % (p,) for p in self.path),
                              "[%s]" % (self.idx,) if self.idx is not None else "",
                              "#%s" % (self.len,) if self.len is not None else "")


class S:
    """A sequence: segments ('r', value, count) and ('o', sid, offset, count, elem_ty)."""
    __slots__ = ("segs", "h")

    def __init__(self, segs):
        self.segs = segs
        self.h = hash(segs)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, S) and self.h == o.h and self.segs == o.segs)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        out = []
        for s in self.segs:
            if s[0] == "r":
                out.append("%r" % (s[1],) if s[2] == 1 else "%r*%s" % (s[1], s[2]))
            else:
                out.append("..%s[%s;%s]" % (keystr(s[1]), s[2], s[3]))
        return "<" + ", ".join(out) + ">"

    def length(self):
        n = 0
        for s in self.segs:
            n = T.add(n, s[2] if s[0] == "r" else s[3])
        return n


class F:
    """A symbolic boolean: ge/eq/ne over an affine term against 0, bit (a 0/1 term), not/and/or."""
    __slots__ = ("op", "a")

    def __init__(self, op, *a):
        self.op = op
        self.a = a

    def __hash__(self):
        return hash((self.op, self.a))

    def __eq__(self, o):
        return isinstance(o, F) and self.op == o.op and self.a == o.a

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return "%s{%s}" % (self.op, ",".join(map(repr, self.a)))


def fge(l):
    return l >= 0 if isinstance(l, int) else F("ge", l)


def onebit(l):
    """l == 0 for an l over a single 0/1 symbol: the bit term that is 1 exactly then (or False)."""
    if len(l.t) != 1:
        return None
    s, k = l.t[0]
    y = T.Sym.table[s]
    if y.lo != 0 or y.hi != 1:
        return None
    if l.c == 0:
        return T.Lin(1, ((s, -1),))
    if l.c == -k:
        return T.Lin(0, ((s, 1),))
    return False


def feq(l):
    if isinstance(l, int):
        return l == 0
    b = onebit(l)
    if b is None:
        return F("eq", l)
    return F("bit", b) if b is not False else False


def fne(l):
    return fnot(feq(l)) if not isinstance(l, int) else l != 0


def fnot(f):
    if f is True:
        return False
    if f is False:
        return True
    if f.op == "not":
        return f.a[0]
    if f.op == "eq":
        return F("ne", f.a[0])
    if f.op == "ne":
        return F("eq", f.a[0])
    if f.op == "ge":
        return F("ge", T.sub(-1, f.a[0]))
    if f.op == "bit":
        return F("bit", T.sub(1, f.a[0]))
    if f.op == "and":
        return F("or", *[fnot(x) for x in f.a])
    if f.op == "or":
        return F("and", *[fnot(x) for x in f.a])
    return F("not", f)


def fand(*fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f.op == "and":
            out.extend(f.a)
        else:
            out.append(f)
    if not out:
        return True
    return out[0] if len(out) == 1 else F("and", *out)


def for_(*fs):
    return fnot(fand(*[fnot(f) for f in fs]))


UNIT = N("agg", ())
UNINIT = N(("tok", "uninit"))
ERR = N(("tok", "error"))


def tok(name):
    return N(("tok", name))


def enm(v, *kids):
    return N(("enm", v), tuple(kids))


def agg(*kids):
    return N("agg", tuple(kids))


NONE = enm(0)


def some(x):
    return enm(1, x)


def ok(x):
    return enm(0, x)


def err(x=ERR):
    return enm(1, x)
