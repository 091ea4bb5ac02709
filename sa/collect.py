"""Collecting an iterator into a vector: Vec::extend / FromIterator analysed as the loop they stand for,
   while let Some(x) = iter.next() { vec.push(x) }
instead of through the standard library's specialisations."""
from .vals import *
from .state import *
from .mir import Fn


def drain_fn(I, itty, nxt):
    key = (itty, nxt)
    memo = I.cr.__dict__.setdefault("_drains", {})
    if key in memo:
        return memo[key]
    n = I.cr.fns[nxt]
    opt = n.body["locals"][0] if n.body else None
    f = Fn()
    for a in Fn.__slots__:
        setattr(f, a, None)
    f.id = -1
    f.path = "collect<%s>" % I.types[itty]["name"]
    f.kind = "item"
    f.local = False
    f.targs = []
    item = I.types[opt]["args"][0] if opt is not None else None
    call_next = {"inst": nxt, "path": "core::iter::traits::iterator::Iterator::next", "trait": "core::iter::traits::iterator::Iterator",
                 "targs": [itty], "nexts": []}
    push = {"inst": None, "path": "sa::push", "trait": None, "targs": [item], "nexts": []}
    unit = [i for i, t in enumerate(I.types) if t["k"] == "tuple" and not t["fields"]][0]
    isize = next(i for i, t in enumerate(I.types) if t["k"] == "int" and t["signed"])
    f.body = {"argc": 2, "locals": [unit, None, itty, None, opt, isize, item, unit], "blocks": [
        {"s": [], "t": ["goto", 1], "l": 0},
        {"s": [["=", [3], ["ref", [2], True, None], 0]], "t": ["call", call_next, [["cp", [3]]], [4], 2, opt], "l": 0},
        {"s": [["=", [5], ["discr", [4], opt], 0]], "t": ["switch", ["cp", [5]], [[0, 4]], 3], "l": 0},
        {"s": [["=", [6], ["use", ["mv", [4, ["d", 1], ["f", 0, item]]]], 0]],
         "t": ["call", push, [["cp", [1]], ["mv", [6]]], [7], 1, unit], "l": 0},
        {"s": [], "t": ["return"], "l": 0}]}
    memo[key] = f
    return f


def install(I):
    from .models import vec_of, set_vec, added

    def push(I, st, ca, a, rty):
        s = vec_of(I, st, a[0])
        st.assume(fge(T.sub(LENMAX, s.length())))
        v = a[1]
        if I.on_push is not None:
            v = I.on_push(I, st, v, ca["targs"][0])
        set_vec(I, st, a[0], seq(*(s.segs + added(I, st, seq_len(st, s), v, 1, ca["targs"][0]))))
        return UNIT
    I.env_hooks["sa::push"] = push

    def plain(I, ca):
        """(iterator type, next) when the items are collected as they are."""
        if len(ca["nexts"]) != 1:
            return None
        t, n = ca["nexts"][0]
        return t, n

    def is_vec(I, v):
        return isinstance(v, N) and v.tag == "vec"

    def spec_extend(I, st, ca, a, rty):
        p = plain(I, ca)
        if p is None:
            return NotImplemented
        if is_vec(I, a[1]):                 # vec::IntoIter
            set_vec(I, st, a[0], seq_cat(vec_of(I, st, a[0]), a[1].kids[0]))
            return UNIT
        if I.types[p[0]].get("path") in ("core::slice::iter::Iter",):
            return NotImplemented
        return [(s, UNIT) for s, _ in I.exec_fn(drain_fn(I, *p), [a[0], a[1]], st)]

    def from_iter(I, st, ca, a, rty):
        p = plain(I, ca)
        if p is None or I.types[rty].get("path") != "alloc::vec::Vec":
            return NotImplemented
        if is_vec(I, a[0]):
            return a[0]
        loc = ("tmp", len(I.stack), "collect")
        st.mem[loc] = N("vec", (S(()),))
        out = []
        for s, _ in I.exec_fn(drain_fn(I, *p), [P(loc), a[0]], st):
            v = s.mem.pop(loc)
            out.append((s, v))
        return out
    I.hooks["alloc::vec::spec_extend::SpecExtend::spec_extend"] = spec_extend
    I.hooks["core::iter::traits::collect::FromIterator::from_iter"] = from_iter
