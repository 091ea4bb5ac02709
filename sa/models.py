"""Transfer functions for the standard-library operations that are not analysed from their bodies."""
from . import terms as T
from .terms import Lin, sym, var
from .vals import *
from .state import *


def install(I):
    I.fn_models = dict(FN)
    I.intrinsics = dict(INTR)


FN = {}
INTR = {}


def fn(*paths):
    def d(f):
        for p in paths:
            FN[p] = f
        return f
    return d


def intr(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d


# ---------------------------------------------------------------- intrinsics
@intr("discriminant_value")
def _(I, st, ca, a, rty, f):
    p = a[0]
    v = deref(I, st, p)
    ty = f.targs[0] if f.targs else None
    if ty is None:
        ty = v.ty if isinstance(v, U) else None
    return I.discr(st, v, ty)


@intr("wrapping_add", "unchecked_add")
def _(I, st, ca, a, rty, f):
    return I.wrapfork(st, T.add(a[0], a[1]), rty)


@intr("wrapping_sub", "unchecked_sub")
def _(I, st, ca, a, rty, f):
    return I.wrapfork(st, T.sub(a[0], a[1]), rty)


@intr("wrapping_mul", "unchecked_mul")
def _(I, st, ca, a, rty, f):
    return I.binop(st, "Mul", a[0], a[1], rty)


@intr("integer_min")
def _(I, st, ca, a, rty, f):
    return a[0] if st.need(fge(T.sub(a[1], a[0]))) else a[1]


@intr("integer_max")
def _(I, st, ca, a, rty, f):
    return a[1] if st.need(fge(T.sub(a[1], a[0]))) else a[0]


@intr("add_with_overflow")
def _(I, st, ca, a, rty, f):
    return I.binop(st, "AddWithOverflow", a[0], a[1], I.types[rty]["fields"][0])


@intr("sub_with_overflow")
def _(I, st, ca, a, rty, f):
    return I.binop(st, "SubWithOverflow", a[0], a[1], I.types[rty]["fields"][0])


@intr("mul_with_overflow")
def _(I, st, ca, a, rty, f):
    return I.binop(st, "MulWithOverflow", a[0], a[1], I.types[rty]["fields"][0])


@intr("saturating_add")
def _(I, st, ca, a, rty, f):
    lo, hi = I.int_range(rty)
    v = T.add(a[0], a[1])
    if not st.need(fge(T.sub(hi, v))):
        return hi
    return v if st.need(fge(T.sub(v, lo))) else lo


@intr("saturating_sub")
def _(I, st, ca, a, rty, f):
    lo, hi = I.int_range(rty)
    v = T.sub(a[0], a[1])
    if not st.need(fge(T.sub(v, lo))):
        return lo
    return v if st.need(fge(T.sub(hi, v))) else hi


@intr("unchecked_shl")
def _(I, st, ca, a, rty, f):
    return I.binop(st, "Shl", a[0], a[1], rty)


@intr("unchecked_shr")
def _(I, st, ca, a, rty, f):
    return I.binop(st, "Shr", a[0], a[1], rty)


@intr("unchecked_div", "exact_div")
def _(I, st, ca, a, rty, f):
    return I.binop(st, "Div", a[0], a[1], rty)


@intr("unchecked_rem")
def _(I, st, ca, a, rty, f):
    return I.binop(st, "Rem", a[0], a[1], rty)


@intr("rotate_left", "rotate_right")
def _(I, st, ca, a, rty, f):
    n = I.width(rty)
    k = st.concretise(a[1]) % n
    if "right" in f.path:
        k = (n - k) % n
    b = I.bits(st, a[0], n)
    return I.unbits(b[n - k:] + b[:n - k])


@intr("bswap")
def _(I, st, ca, a, rty, f):
    n = I.width(rty)
    out = 0
    v = a[0]
    for i in range(n // 8):
        q, r = I.divmod(st, v, 256)
        out = T.add(T.scale(out, 256), r)
        v = q
    return out


@intr("bitreverse")
def _(I, st, ca, a, rty, f):
    return I.unbits(list(reversed(I.bits(st, a[0], I.width(rty)))))


@intr("ctpop", "ctlz", "cttz", "ctlz_nonzero", "cttz_nonzero")
def _(I, st, ca, a, rty, f):
    name = f.path.split("::")[-1]
    if isinstance(a[0], int):
        w = I.width(f.targs[0]) if f.targs else 64
        x = a[0] & ((1 << w) - 1)
        if name == "ctpop":
            return bin(x).count("1")
        if name.startswith("ctlz"):
            return w - x.bit_length()
        return (x & -x).bit_length() - 1 if x else w
    b = I.bits(st, a[0], I.width(f.targs[0]))
    if name == "ctpop":
        r = 0
        for x in b:
            r = T.add(r, x)
        return r
    order = list(reversed(b)) if name.startswith("ctlz") else b
    for i, x in enumerate(order):
        if st.need(feq(T.sub(x, 1))):
            return i
    return len(b)


@intr("three_way_compare")
def _(I, st, ca, a, rty, f):
    return I.binop(st, "Cmp", a[0], a[1], f.targs[0])


@intr("assume")
def _(I, st, ca, a, rty, f):
    if not st.assume(boolval(a[0])):
        raise Infeasible()
    return UNIT


@intr("likely", "unlikely", "black_box", "transmute", "transmute_unchecked")
def _(I, st, ca, a, rty, f):
    if f.path.endswith("transmute") and isinstance(a[0], S):
        t = I.types[rty]
        if t["k"] == "int":
            out = 0
            n = t["bits"] // 8
            for i in reversed(range(n)):
                out = T.add(T.scale(out, 256), I.seq_get(st, a[0], i))
            return out
    if f.path.endswith("transmute") and I.types[rty]["k"] == "array" and isinstance(a[0], (int, Lin)):
        out = []
        v = a[0]
        for i in range(I.types[rty]["len"]):
            v, r = I.divmod(st, v, 256)
            out.append(("r", r, 1))
        return seq(*out)
    if f.path.endswith("transmute") or f.path.endswith("transmute_unchecked"):
        t = I.types[rty]
        if t["k"] == "adt" and t["path"] == "core::option::Option" and isinstance(a[0], (int, Lin)):
            return NONE if st.need(feq(a[0])) else some(a[0])
    return a[0]


@intr("cold_path", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid")
def _(I, st, ca, a, rty, f):
    return UNIT


@intr("ub_checks", "contract_checks", "overflow_checks", "is_val_statically_known", "needs_drop")
def _(I, st, ca, a, rty, f):
    return False


@intr("size_of", "size_of_val", "align_of", "min_align_of", "align_of_val", "pref_align_of")
def _(I, st, ca, a, rty, f):
    return 1


@intr("ptr_offset_from", "ptr_offset_from_unsigned")
def _(I, st, ca, a, rty, f):
    if a[0].loc == a[1].loc and a[0].path == a[1].path:
        return st.c.norm(T.sub(a[0].idx or 0, a[1].idx or 0))
    raise AnalysisError("offset_from of unrelated pointers")


@intr("offset", "arith_offset")
def _(I, st, ca, a, rty, f):
    return I.ptrop(st, "Offset", a[0], a[1], None)


@intr("read_via_copy", "volatile_load", "unaligned_volatile_load")
def _(I, st, ca, a, rty, f):
    return deref(I, st, a[0])


@intr("write_via_move", "volatile_store")
def _(I, st, ca, a, rty, f):
    store(I, st, a[0], a[1])
    return UNIT


@intr("ptr_metadata")
def _(I, st, ca, a, rty, f):
    return a[0].len if a[0].len is not None else UNIT


@intr("aggregate_raw_ptr")
def _(I, st, ca, a, rty, f):
    if isinstance(a[1], N):
        return a[0]
    return P(a[0].loc, a[0].path, a[0].idx if a[0].idx is not None else 0, a[1])


@intr("slice_get_unchecked")
def _(I, st, ca, a, rty, f):
    return P(a[0].loc, a[0].path, T.add(a[0].idx, a[1]))


@intr("copy_nonoverlapping", "copy")
def _(I, st, ca, a, rty, f):
    I.copy_elems(st, a[0], a[1], a[2])
    return UNIT


@intr("raw_eq")
def _(I, st, ca, a, rty, f):
    r = I.veq(st, deref(I, st, a[0]), deref(I, st, a[1]))
    if r is None:
        raise AnalysisError("raw_eq")
    return r


@intr("forget")
def _(I, st, ca, a, rty, f):
    return UNIT


@intr("abort")
def _(I, st, ca, a, rty, f):
    raise Panic("abort")


# ---------------------------------------------------------------- helpers
def deref(I, st, p):
    if isinstance(p, N) and p.tag == "box":
        return p.kids[0]
    if not isinstance(p, P):
        raise AnalysisError("deref of %r" % (p,))
    v = I.read(st, p.loc, p.path)
    if p.idx is not None and p.len is None:
        v = I.seq_get(st, v, p.idx)
    elif p.len is not None and isinstance(v, S):
        v = seq_slice(st, v, p.idx or 0, p.len)
    return v


def store(I, st, p, v):
    if p.idx is not None and p.len is None:
        I.write(st, p.loc, p.path + (("x", p.idx),), v)
    elif p.len is not None:
        s = I.read(st, p.loc, p.path)
        a, b = seq_split(st, s, p.idx or 0)
        _, c = seq_split(st, b, p.len)
        I.write(st, p.loc, p.path, seq_cat(a, v, c))
    else:
        I.write(st, p.loc, p.path, v)


def vecptr(p):
    """(loc, path) of the contents of the Vec that p points to."""
    path = p.path
    if p.idx is not None:
        path = path + (("x", p.idx),)
    return p.loc, path + (("s",),)


def vec_of(I, st, p):
    loc, path = vecptr(p)
    return I.read(st, loc, path)


def fits(st, s):
    """A vector never holds more than isize::MAX elements."""
    n = s.length()
    if not st.holds(fge(T.sub(LENMAX, n))):
        st.assume(fge(T.sub(LENMAX, n)))
    return s


def set_vec(I, st, p, s):
    loc, path = vecptr(p)
    I.write(st, loc, path, s)


def elem_ty(I, f):
    return f.targs[0] if f.targs else None


def mkvec(s):
    return N("vec", (s,))


# ---------------------------------------------------------------- Vec
@fn("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity", "alloc::vec::Vec::<T, A>::new_in",
    "alloc::vec::Vec::<T, A>::with_capacity_in")
def _(I, st, ca, a, rty, f):
    return mkvec(S(()))


@fn("alloc::vec::Vec::<T, A>::push")
def _(I, st, ca, a, rty, f):
    s = vec_of(I, st, a[0])
    n = s.length()
    if not st.holds(fge(T.sub(LENMAX - 1, n))):
        st.assume(fge(T.sub(LENMAX - 1, n)))
    v = a[1]
    if I.on_push is not None:
        v = I.on_push(I, st, v, elem_ty(I, f))
    set_vec(I, st, a[0], seq(*(s.segs + added(I, st, seq_len(st, s), v, 1, elem_ty(I, f)))))
    return UNIT


def added(I, st, pos, v, n, ty):
    """Segments for n copies of v written at position pos."""
    if I.on_set is not None:
        g = I.on_set(I, st, pos, v, n)
        if g is not None:
            return g
    return (one(st, v, ty),) if n == 1 else (("r", v, n),)


@fn("alloc::vec::Vec::<T, A>::pop")
def _(I, st, ca, a, rty, f):
    s = vec_of(I, st, a[0])
    n = seq_len(st, s)
    if st.need(feq(n)):
        return NONE
    i = T.sub(n, 1)
    v = I.seq_get(st, s, i)
    x, _ = seq_split(st, s, i)
    set_vec(I, st, a[0], x)
    return some(v)


@fn("alloc::vec::Vec::<T, A>::len")
def _(I, st, ca, a, rty, f):
    return seq_len(st, fits(st, vec_of(I, st, a[0])))


@fn("alloc::vec::Vec::<T, A>::capacity")
def _(I, st, ca, a, rty, f):
    return I.unknown(rty, "capacity")


@fn("alloc::vec::Vec::<T, A>::is_empty")
def _(I, st, ca, a, rty, f):
    return feq(seq_len(st, vec_of(I, st, a[0])))


@fn("alloc::vec::Vec::<T, A>::clear")
def _(I, st, ca, a, rty, f):
    set_vec(I, st, a[0], S(()))
    return UNIT


@fn("alloc::vec::Vec::<T, A>::reserve", "alloc::vec::Vec::<T, A>::reserve_exact",
    "alloc::vec::Vec::<T, A>::shrink_to_fit")
def _(I, st, ca, a, rty, f):
    return UNIT


@fn("alloc::vec::Vec::<T, A>::truncate")
def _(I, st, ca, a, rty, f):
    s = vec_of(I, st, a[0])
    if st.need(fge(T.sub(seq_len(st, s), a[1]))):
        x, _ = seq_split(st, s, a[1])
        set_vec(I, st, a[0], x)
    return UNIT


@fn("alloc::vec::Vec::<T, A>::resize")
def _(I, st, ca, a, rty, f):
    s = vec_of(I, st, a[0])
    n = seq_len(st, s)
    if st.need(fge(T.sub(n, a[1]))):
        x, _ = seq_split(st, s, a[1])
    else:
        new = S(added(I, st, n, a[2], st.c.norm(T.sub(a[1], n)), None))
        if I.on_extend is not None:
            new = I.on_extend(I, st, new, elem_ty(I, f))
        x = fits(st, seq_cat(s, new))
    set_vec(I, st, a[0], x)
    return UNIT


def as_slice(I, st, a):
    loc, path = vecptr(a)
    s = I.read(st, loc, path)
    return P(loc, path, 0, seq_len(st, s))


@fn("alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice")
def _(I, st, ca, a, rty, f):
    return as_slice(I, st, a[0])


@fn("alloc::vec::Vec::<T, A>::as_ptr", "alloc::vec::Vec::<T, A>::as_mut_ptr")
def _(I, st, ca, a, rty, f):
    loc, path = vecptr(a[0])
    return P(loc, path, 0)


@fn(("core::ops::deref::Deref::deref", "alloc::vec::Vec"), ("core::ops::deref::DerefMut::deref_mut", "alloc::vec::Vec"))
def _(I, st, ca, a, rty, f):
    return as_slice(I, st, a[0])


@fn("alloc::vec::from_elem")
def _(I, st, ca, a, rty, f):
    return mkvec(seq(("r", a[0], st.c.norm(a[1]))))


@fn("alloc::slice::<impl [T]>::to_vec", "alloc::slice::<impl [T]>::to_vec_in")
def _(I, st, ca, a, rty, f):
    return mkvec(deref(I, st, a[0]))


@fn(("core::clone::Clone::clone", "alloc::vec::Vec"))
def _(I, st, ca, a, rty, f):
    return mkvec(vec_of(I, st, a[0]))


@fn("alloc::vec::Vec::<T, A>::into_boxed_slice")
def _(I, st, ca, a, rty, f):
    return N("box", (a[0].kids[0],))


@fn("alloc::slice::<impl [T]>::into_vec")
def _(I, st, ca, a, rty, f):
    return mkvec(a[0].kids[0])


@fn("alloc::vec::Vec::<T, A>::extend_from_slice", "alloc::vec::Vec::<T, A>::append_elements")
def _(I, st, ca, a, rty, f):
    s = vec_of(I, st, a[0])
    t = deref(I, st, a[1])
    if I.on_extend is not None:
        t = I.on_extend(I, st, t, elem_ty(I, f))
    set_vec(I, st, a[0], fits(st, seq_cat(s, t)))
    return UNIT


@fn("alloc::vec::Vec::<T, A>::append")
def _(I, st, ca, a, rty, f):
    s = vec_of(I, st, a[0])
    t = vec_of(I, st, a[1])
    if I.on_extend is not None:
        t = I.on_extend(I, st, t, elem_ty(I, f))
    set_vec(I, st, a[1], S(()))
    set_vec(I, st, a[0], fits(st, seq_cat(s, t)))
    return UNIT


@fn("alloc::vec::Vec::<T, A>::insert")
def _(I, st, ca, a, rty, f):
    s = vec_of(I, st, a[0])
    if not st.need(fge(T.sub(seq_len(st, s), a[1]))):
        raise Panic("insertion index out of bounds")
    x, y = seq_split(st, s, a[1])
    set_vec(I, st, a[0], seq_cat(seq_append(st, x, a[2], elem_ty(I, f)), y))
    return UNIT


@fn("alloc::vec::Vec::<T, A>::remove")
def _(I, st, ca, a, rty, f):
    s = vec_of(I, st, a[0])
    if not st.need(fge(T.sub(T.sub(seq_len(st, s), a[1]), 1))):
        raise Panic("removal index out of bounds")
    v = I.seq_get(st, s, a[1])
    x, y = seq_split(st, s, a[1])
    _, z = seq_split(st, y, 1)
    set_vec(I, st, a[0], seq_cat(x, z))
    return v


@fn("alloc::vec::Vec::<T, A>::split_off")
def _(I, st, ca, a, rty, f):
    s = vec_of(I, st, a[0])
    if not st.need(fge(T.sub(seq_len(st, s), a[1]))):
        raise Panic("split_off index out of bounds")
    x, y = seq_split(st, s, a[1])
    set_vec(I, st, a[0], x)
    return mkvec(y)


@fn("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def _(I, st, ca, a, rty, f):
    d, s = a
    if not st.need(feq(T.sub(d.len, s.len))):
        raise Panic("copy_from_slice: length mismatch")
    store(I, st, d, deref(I, st, s))
    return UNIT


@fn("core::slice::<impl [T]>::fill")
def _(I, st, ca, a, rty, f):
    store(I, st, a[0], seq(*added(I, st, a[0].idx or 0, a[1], st.c.norm(a[0].len), None)))
    return UNIT


@fn("core::slice::<impl [T]>::copy_within")
def _(I, st, ca, a, rty, f):
    raise AnalysisError("copy_within")


@fn("core::slice::<impl [T]>::reverse")
def _(I, st, ca, a, rty, f):
    s = deref(I, st, a[0])
    n = seq_len(st, s)
    if not isinstance(n, int) or n > 64:
        raise AnalysisError("reverse of unbounded slice")
    vs = [I.seq_get(st, s, i) for i in range(n)]
    store(I, st, a[0], seq(*[one(st, v, None) for v in reversed(vs)]))
    return UNIT


@fn("core::slice::<impl [T]>::swap")
def _(I, st, ca, a, rty, f):
    p, i, j = a
    for k in (i, j):
        if not st.need(fge(T.sub(T.sub(p.len, k), 1))):
            raise Panic("swap index out of bounds")
    s = deref(I, st, p)
    x, y = I.seq_get(st, s, i), I.seq_get(st, s, j)
    s = seq_set(st, s, i, y, I.seq_ty(s))
    s = seq_set(st, s, j, x, I.seq_ty(s))
    store(I, st, p, s)
    return UNIT


# ---------------------------------------------------------------- Box
@fn("alloc::boxed::Box::<T>::new")
def _(I, st, ca, a, rty, f):
    return N("box", (a[0],))


@fn("alloc::boxed::Box::<T>::new_uninit")
def _(I, st, ca, a, rty, f):
    return N("box", (UNINIT,))


@fn("alloc::boxed::box_assume_init_into_vec_unsafe")
def _(I, st, ca, a, rty, f):
    return mkvec(a[0].kids[0])


@fn("alloc::boxed::Box::<T, A>::into_raw", "alloc::boxed::Box::<T, A>::leak", "alloc::boxed::Box::<T, A>::from_raw")
def _(I, st, ca, a, rty, f):
    raise AnalysisError(f.path)


# ---------------------------------------------------------------- vec::IntoIter: a vector consumed from the front
@fn(("core::iter::traits::collect::IntoIterator::into_iter", "alloc::vec::Vec"))
def _(I, st, ca, a, rty, f):
    return N("vec", a[0].kids)


@fn(("core::iter::traits::iterator::Iterator::next", "alloc::vec::into_iter::IntoIter"))
def _(I, st, ca, a, rty, f):
    s = vec_of(I, st, a[0])
    n = seq_len(st, s)
    if st.need(feq(n)):
        return NONE
    v = I.seq_get(st, s, 0)
    _, r = seq_split(st, s, 1)
    set_vec(I, st, a[0], r)
    return some(v)


@fn(("core::iter::traits::double_ended::DoubleEndedIterator::next_back", "alloc::vec::into_iter::IntoIter"))
def _(I, st, ca, a, rty, f):
    return FN["alloc::vec::Vec::<T, A>::pop"](I, st, ca, a, rty, f)


@fn(("core::iter::traits::iterator::Iterator::size_hint", "alloc::vec::into_iter::IntoIter"))
def _(I, st, ca, a, rty, f):
    n = seq_len(st, vec_of(I, st, a[0]))
    return agg(n, some(n))


@fn(("core::iter::traits::exact_size::ExactSizeIterator::len", "alloc::vec::into_iter::IntoIter"))
def _(I, st, ca, a, rty, f):
    return seq_len(st, fits(st, vec_of(I, st, a[0])))


# ---------------------------------------------------------------- equality of slices
def slice_eq(I, st, x, y):
    n, m = seq_len(st, x), seq_len(st, y)
    if not st.need(feq(T.sub(n, m))):
        return False
    r = I.seq_eq(st, x, y)
    if r is None:
        return F("bit", var(sym(I.fresh_key("sliceeq"), 0, 1)))
    return r


# ---------------------------------------------------------------- misc
@fn("alloc::alloc::box_free", "core::ptr::drop_in_place", "core::ptr::drop_glue",
    "<alloc::boxed::Box<T, A> as core::ops::drop::Drop>::drop")
def _(I, st, ca, a, rty, f):
    return UNIT


@fn("core::mem::forget", "core::mem::drop")
def _(I, st, ca, a, rty, f):
    return UNIT


@fn("core::mem::replace")
def _(I, st, ca, a, rty, f):
    v = deref(I, st, a[0])
    store(I, st, a[0], a[1])
    return v


@fn("core::mem::swap")
def _(I, st, ca, a, rty, f):
    v, w = deref(I, st, a[0]), deref(I, st, a[1])
    store(I, st, a[0], w)
    store(I, st, a[1], v)
    return UNIT


@fn("core::ptr::read", "core::ptr::const_ptr::<impl *const T>::read")
def _(I, st, ca, a, rty, f):
    return deref(I, st, a[0])


@fn("core::ptr::write", "core::ptr::mut_ptr::<impl *mut T>::write")
def _(I, st, ca, a, rty, f):
    store(I, st, a[0], a[1])
    return UNIT


@fn("core::io::error::Error::kind", "std::io::error::Error::kind")
def _(I, st, ca, a, rty, f):
    v = deref(I, st, a[0])
    if isinstance(v, N) and v.tag == "ioerr":
        return v.kids[0]
    if isinstance(v, U):
        return I.mat(rty, ("kind", v.key))
    return I.unknown(rty, "kind")


@fn(("core::cmp::PartialEq::eq", "core::io::error::ErrorKind"), ("core::cmp::PartialEq::eq", "std::io::error::ErrorKind"))
def _(I, st, ca, a, rty, f):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    return feq(T.sub(I.variant(st, x), I.variant(st, y)))


@fn("anyhow::Context::with_context", "anyhow::Context::context")
def _(I, st, ca, a, rty, f):
    v = a[0]
    t = I.types[rty]
    if isinstance(v, N):
        if v.tag == ("enm", 0):
            return v
        return err()
    raise AnalysisError("with_context of %r" % (v,))


@fn("anyhow::__private::not")
def _(I, st, ca, a, rty, f):
    return fnot(boolval(a[0]))


@fn("lazy_static::lazy::Lazy::<T>::get")
def _(I, st, ca, a, rty, f):
    key = ("lazy", f.id, repr(a[1].tag) if isinstance(a[1], N) else "")
    loc = ("k",) + key
    if loc in I.consts:
        return P(loc)
    res = I.apply(st, a[1], [], I.types[rty]["to"])
    out = []
    if len(res) != 1:
        raise AnalysisError("non-deterministic lazy static")
    for s, v in res:
        I.consts[loc] = v
        out.append((s, P(loc)))
    return out
