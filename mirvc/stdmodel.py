"""Assumed contracts of external functions (std, ark-ff, sha2/digest, hex): primitives in Python."""
from engine import *

N = {}


def nat(*names):
    def d(f):
        for n in names:
            N[n] = f
        return f
    return d


def madt(name, *f):
    return Agg(('a', 'models::' + name, 0), tuple(f))


def is_iter(v):
    return type(v) is Agg and v.tag[0] == 'a' and (v.tag[1].startswith('models::') or v.tag[1] in ('std::ops::Range', 'std::ops::RangeFrom'))


def fields_of(eng, st, v):
    """Dereference fully and return a Poly, or raise."""
    v = eng.deref(st, v)
    if type(v) is Poly:
        return v
    raise Unsupported('field operation on %s' % type(v).__name__)


def seqref(eng, st, v):
    """A Ref that points at a Seq (through references and owning pointers)."""
    while True:
        if type(v) is Ref:
            w = eng.rd(st, v.cell, v.path) if not (v.path and v.path[-1][0] == 'w') else None
            if w is None or type(w) is Seq:
                return v
            v = w
        elif type(v) is Ptr:
            w = eng.load(st, v.cell)
            if type(w) is Seq:
                return Ref(v.cell)
            v = w
        elif type(v) is Seq:
            c = new_cell()
            st.mem[c] = v
            return Ref(c)
        else:
            raise Unsupported('expected a slice, got %s' % type(v).__name__)


def seqval(eng, st, v):
    r = seqref(eng, st, v)
    return eng.rd(st, r.cell, r.path)


def mk_slice_iter(eng, st, r):
    r = seqref(eng, st, r)
    return madt('SliceIter', r, 0, eng.seqlen(st, r), UNIT)


def into_iter(eng, st, v):
    if is_iter(v):
        return v
    if type(v) is Seq:
        return madt('OwnIter', v, 0, v.length(), UNIT)
    if type(v) is Ref:
        w = eng.rd(st, v.cell, v.path)
        if type(w) is Seq:
            return mk_slice_iter(eng, st, v)
        if is_iter(w):
            return v
        if type(w) in (Ref, Ptr):
            return into_iter(eng, st, w)
        if type(w) is Agg and w.tag[:2] == ('a', OPT):
            return madt('Once', some(Ref(v.cell, v.path + (('f', 0),))) if w.tag[2] == 1 else NONE)
    if type(v) is Ptr:
        w = eng.load(st, v.cell)
        if type(w) is Seq:
            return madt('OwnIter', w, 0, w.length(), UNIT)
    if type(v) is Agg and v.tag[:2] == ('a', OPT):
        return madt('Once', v)
    if type(v) is Agg and v.tag[0] == 'a':
        return v
    raise Unsupported('into_iter of %s' % type(v).__name__)


@nat('IntoIterator::into_iter', 'nat_iter')
def _(eng, st, a, c):
    return into_iter(eng, st, a[0])


# ---------------------------------------------------------------- model primitives
@nat('nat_unsup')
def _(eng, st, a, c):
    raise Unsupported('iterator operation')


@nat('nat_panic')
def _(eng, st, a, c):
    raise Panic('unwrap/expect')


@nat('nat_ref')
def _(eng, st, a, c):
    s = eng.deref1(st, a[0])
    if type(s) is not Ref:
        raise Unsupported('nat_ref')
    return Ref(s.cell, eng.join(s.path, a[1]))


@nat('nat_elem')
def _(eng, st, a, c):
    return eng.seq_get(st, seqval(eng, st, a[0]), a[1])


@nat('nat_view')
def _(eng, st, a, c):
    s = seqref(eng, st, eng.deref1(st, a[0]))
    return Ref(s.cell, eng.view(s.path, a[1], a[2]))


@nat('nat_set')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    eng.wr(st, r.cell, eng.join(r.path, a[1]), a[2])


@nat('nat_len')
def _(eng, st, a, c):
    return eng.seqlen(st, seqref(eng, st, a[0]))


def copyval(eng, st, v):
    if type(v) is Ref:
        v = eng.rd(st, v.cell, v.path)
    if type(v) is Ptr and v.kind == 'box':
        n = new_cell()
        st.mem[n] = eng.load(st, v.cell)
        return Ptr('box', n)
    return v


@nat('nat_copy', 'ToOwned::to_owned', 'Clone::clone', 'slice::to_vec', 'slice::into_vec', 'Arc::clone', 'Rc::clone', 'Vec::clone',
     'Iterator::clone', 'Into::into_vec')
def _(eng, st, a, c):
    return copyval(eng, st, a[0])


@nat('Clone::clone_from')
def _(eng, st, a, c):
    r = a[0]
    eng.wr(st, r.cell, r.path, copyval(eng, st, a[1]))


@nat('nat_vec', 'Vec::new', 'Vec::with_capacity')
def _(eng, st, a, c):
    return Seq(())


@nat('nat_default', 'Default::default')
def _(eng, st, a, c):
    t = c.dest_ty
    if t and t[0] == 'adt' and t[1] == 'std::vec::Vec':
        return Seq(())
    if t and t[0] == 'int':
        return 0
    if t and t[0] == 'bool':
        return False
    if is_field_ty(t):
        return ZERO
    if t and t[0] == 'adt' and t[1] == OPT:
        return NONE
    if t and t[0] == 'adt' and t[1].endswith('PhantomData'):
        return Agg(('a', t[1], 0), ())
    return NotImplemented


def is_field_ty(t):
    if not t:
        return False
    if t[0] == 'param':
        return True
    if t[0] == 'adt' and (t[1].startswith('ark_ff::') and t[1].endswith('Fp')):
        return True
    return t[0] == 'other'


def push(eng, st, r, x):
    v = eng.rd(st, r.cell, r.path)
    if type(v) is not Seq:
        raise Unsupported('push to %s' % type(v).__name__)
    p = v.p
    if p and p[-1][0] == 'c':
        p = p[:-1] + (('c', p[-1][1] + (x,)),)
    else:
        p = p + (('c', (x,)),)
    raw_wr(eng, st, r, Seq(p))


def raw_wr(eng, st, r, v):
    eng.wr(st, r.cell, r.path, v)


@nat('nat_push', 'Vec::push')
def _(eng, st, a, c):
    push(eng, st, a[0], a[1])
    return UNIT


# ---------------------------------------------------------------- equality and order
def eqf(eng, st, a, b):
    a, b = eng.deref(st, a), eng.deref(st, b)
    if type(a) is Ptr:
        a = eng.load(st, a.cell)
    if type(b) is Ptr:
        b = eng.load(st, b.cell)
    ta, tb = type(a), type(b)
    if ta in (int, I) and tb in (int, I):
        return eq(a, b)
    if ta in (bool, B) and tb in (bool, B):
        return bor(band(a, b), band(bnot(a), bnot(b)))
    if ta is Poly and tb is Poly:
        d = psub(a, b)
        if eng.rules:
            d = eng.nf(d)
        r = feq0(d)
        if type(r) is B and has_def(d):
            e = expand_small(d)
            if e is not None:
                r2 = feq0(e)
                if r2 is True or r2 is False:
                    return r2
        return r
    if ta is Agg and tb is Agg:
        if a.tag != b.tag:
            return False
        return band(*[eqf(eng, st, x, y) for x, y in zip(a.f, b.f)])
    if ta is Seq and tb is Seq:
        ca, cb = a.concrete(), b.concrete()
        if ca is not None and cb is not None:
            if len(ca) != len(cb):
                return False
            return band(*[eqf(eng, st, x, y) for x, y in zip(ca, cb)])
        if a == b:
            return True
    if a == b:
        return True
    eng.opaque_used.add('eq')
    return B('var', ('opq:eq:%s' % hash_name((a, b)),))


@nat('PartialEq::eq', 'nat_eq')
def _(eng, st, a, c):
    return eqf(eng, st, a[0], a[1])


@nat('PartialEq::ne')
def _(eng, st, a, c):
    return bnot(eqf(eng, st, a[0], a[1]))


def ltf(eng, st, a, b):
    a, b = eng.deref(st, a), eng.deref(st, b)
    if type(a) in (int, I) and type(b) in (int, I):
        return lt(a, b)
    eng.opaque_used.add('order')
    return B('var', ('opq:lt:%s' % hash_name((a, b)),))


ORD = 'std::cmp::Ordering'


@nat('nat_lt', 'PartialOrd::lt')
def _(eng, st, a, c):
    return ltf(eng, st, a[0], a[1])


@nat('PartialOrd::gt')
def _(eng, st, a, c):
    return ltf(eng, st, a[1], a[0])


@nat('PartialOrd::le')
def _(eng, st, a, c):
    return bnot(ltf(eng, st, a[1], a[0]))


@nat('PartialOrd::ge')
def _(eng, st, a, c):
    return bnot(ltf(eng, st, a[0], a[1]))


def cmpv(eng, st, a, b):
    if eng.decide(st, ltf(eng, st, a, b)):
        return Agg(('a', ORD, 0), ())
    if eng.decide(st, eqf(eng, st, a, b)):
        return Agg(('a', ORD, 1), ())
    return Agg(('a', ORD, 2), ())


@nat('Ord::cmp')
def _(eng, st, a, c):
    return cmpv(eng, st, a[0], a[1])


@nat('PartialOrd::partial_cmp')
def _(eng, st, a, c):
    return some(cmpv(eng, st, a[0], a[1]))


@nat('Ord::max', 'cmp::max')
def _(eng, st, a, c):
    return a[0] if eng.decide(st, ltf(eng, st, a[1], a[0])) else a[1]


@nat('Ord::min', 'cmp::min')
def _(eng, st, a, c):
    return a[1] if eng.decide(st, ltf(eng, st, a[1], a[0])) else a[0]


for _nm, _s in (('is_lt', {0}), ('is_le', {0, 1}), ('is_gt', {2}), ('is_ge', {1, 2}), ('is_eq', {1}), ('is_ne', {0, 2})):
    def _mk(s):
        return lambda eng, st, a, c: a[0].tag[2] in s
    N['Ordering::' + _nm] = _mk(_s)


@nat('Ordering::reverse')
def _(eng, st, a, c):
    return Agg(('a', ORD, 2 - a[0].tag[2]), ())


# ---------------------------------------------------------------- panics
@nat('panicking::panic', 'rt::begin_panic', 'panicking::assert_failed', 'panicking::panic_fmt', 'panicking::panic_explicit',
     'panicking::panic_display', 'panicking::unreachable_display', 'option::expect_failed', 'option::unwrap_failed', 'result::unwrap_failed',
     'panicking::assert_failed_inner', 'process::abort', 'process::exit', 'panicking::panic_str_2015', 'panicking::panic_bounds_check',
     'rt::panic_fmt', 'rt::panic_display', 'rt::panic_explicit', 'rt::panic_any', 'panic::panic_any', 'rt::unreachable_display', 'panicking::panic_any')
def _(eng, st, a, c):
    raise Panic('panic')


@nat('fmt::Arguments::new', 'Arguments::new', 'Arguments::new_v1', 'Arguments::new_const', 'Arguments::from_str', 'Argument::new_display',
     'Argument::new_debug', 'Argument::none', 'rt::Argument', 'Arguments::from_str_nonconst')
def _(eng, st, a, c):
    return Opaque('fmt')


@nat('hint::black_box', 'convert::identity')
def _(eng, st, a, c):
    return a[0]


@nat('mem::drop', 'mem::forget', 'hint::spin_loop', 'intrinsics::assume', 'hint::assert_unchecked')
def _(eng, st, a, c):
    return UNIT


# ---------------------------------------------------------------- boxes and shared pointers
@nat('Box::new', 'boxed::box_new')
def _(eng, st, a, c):
    n = new_cell()
    st.mem[n] = a[0]
    return Ptr('box', n)


@nat('Arc::new', 'Rc::new')
def _(eng, st, a, c):
    n = new_cell()
    st.mem[n] = a[0]
    return Ptr('arc', n)


@nat('Box::new_uninit')
def _(eng, st, a, c):
    n = new_cell()
    st.mem[n] = Opaque('uninit')
    return Ptr('box', n)


def find_seq(v):
    while type(v) is Agg:
        v = next((x for x in v.f if not (type(x) is Opaque and x.op == 'uninit')), None)
    return v


@nat('boxed::box_assume_init_into_vec_unsafe', 'Box::assume_init')
def _(eng, st, a, c):
    v = eng.load(st, a[0].cell)
    s = find_seq(v)
    if type(s) is not Seq:
        raise Unsupported('vec! box')
    return s


@nat('slice::into_vec', 'hack::into_vec')
def _(eng, st, a, c):
    v = a[0]
    if type(v) is Ptr:
        return eng.load(st, v.cell)
    return seqval(eng, st, v)


@nat('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'Vec::as_slice',
     'Vec::as_mut_slice', 'array::as_slice', 'array::as_mut_slice', 'Arc::as_ref', 'slice::as_ref', 'Arc::as_ptr', 'slice::as_slice', 'Vec::leak',
     'Vec::as_ptr', 'GenericArray::as_slice')
def _(eng, st, a, c):
    r = a[0]
    if type(r) is Ref:
        w = eng.rd(st, r.cell, r.path)
        if type(w) is Ptr:
            return Ref(w.cell)
        if type(w) is Ref:
            return w
        return r
    if type(r) is Ptr:
        return Ref(r.cell)
    return r


@nat('Vec::into_boxed_slice', 'Vec::shrink_to_fit', 'Vec::reserve', 'Vec::reserve_exact', 'Vec::into_iter_noop')
def _(eng, st, a, c):
    if type(a[0]) is Seq:
        n = new_cell()
        st.mem[n] = a[0]
        return Ptr('box', n)
    return UNIT


@nat('Arc::strong_count', 'Arc::weak_count', 'Vec::capacity')
def _(eng, st, a, c):
    raise Unsupported('observes allocation state')


@nat('Arc::ptr_eq', 'Rc::ptr_eq', 'ptr::eq')
def _(eng, st, a, c):
    x, y = eng.deref(st, a[0]), eng.deref(st, a[1])
    if type(x) is Ptr and type(y) is Ptr:
        return x.cell == y.cell
    raise Unsupported('pointer comparison')


@nat('mem::swap')
def _(eng, st, a, c):
    x, y = a
    u = eng.rd(st, x.cell, x.path)
    v = eng.rd(st, y.cell, y.path)
    eng.wr(st, x.cell, x.path, v)
    eng.wr(st, y.cell, y.path, u)
    return UNIT


@nat('mem::replace')
def _(eng, st, a, c):
    x = a[0]
    u = eng.rd(st, x.cell, x.path)
    eng.wr(st, x.cell, x.path, a[1])
    return u


@nat('mem::take')
def _(eng, st, a, c):
    x = a[0]
    u = eng.rd(st, x.cell, x.path)
    d = Seq(()) if type(u) is Seq else ZERO if type(u) is Poly else 0 if type(u) in (int, I) else NONE if type(u) is Agg and u.tag[:2] == ('a', OPT) else False if type(u) in (bool, B) else None
    if d is None:
        raise Unsupported('mem::take')
    eng.wr(st, x.cell, x.path, d)
    return u


# ---------------------------------------------------------------- indexing and slices
def rng(eng, st, idx, n):
    """(lo, hi) of a range value, with bounds checks; None if idx is an integer."""
    if type(idx) in (int, I):
        return None
    if type(idx) is Agg and idx.tag[0] == 'a':
        nm = idx.tag[1].split('::')[-1]
        if nm == 'Range':
            lo, hi = idx.f
        elif nm == 'RangeFrom':
            lo, hi = idx.f[0], n
        elif nm == 'RangeTo':
            lo, hi = 0, idx.f[0]
        elif nm == 'RangeFull':
            lo, hi = 0, n
        elif nm == 'RangeIncl':
            lo, hi = idx.f[0], iadd(idx.f[1], 1)
        elif nm == 'RangeToInclusive':
            lo, hi = 0, iadd(idx.f[0], 1)
        else:
            raise Unsupported('index by ' + nm)
        return lo, hi
    raise Unsupported('index by %s' % type(idx).__name__)


def index(eng, st, r, idx, ctx=None):
    v = eng.deref(st, r)
    if type(v) is Opaque:
        # strings and other opaque sequences
        lo_hi = rng(eng, st, idx, Opaque('len'))
        if lo_hi is not None and v.op in ('str', 'substr'):
            lo = lo_hi[0]
            if not eng.decide(st, B('var', ('strok:%s' % hash_name((v, lo_hi[0], lo_hi[1])),))):
                raise Panic('str index')
            n = new_cell()
            st.mem[n] = Opaque('substr', v, lo, lo_hi[1])
            return Ref(n)
        if type(idx) in (int, I):
            n = new_cell()
            st.mem[n] = Opaque('elem', v, idx)
            return Ref(n)
        raise Unsupported('index of opaque')
    r = seqref(eng, st, r)
    n = eng.seqlen(st, r)
    lh = rng(eng, st, idx, n)
    if lh is None:
        if not eng.decide(st, lt(idx, n)):
            raise Panic('index out of bounds')
        return Ref(r.cell, eng.join(r.path, idx))
    lo, hi = lh
    if not eng.decide(st, le(lo, hi)):
        raise Panic('slice index starts after end')
    if not eng.decide(st, le(hi, n)):
        raise Panic('slice index out of range')
    return Ref(r.cell, eng.view(r.path, lo, isub(hi, lo)))


@nat('Index::index', 'IndexMut::index_mut')
def _(eng, st, a, c):
    return index(eng, st, a[0], a[1])


@nat('slice::get', 'slice::get_mut', 'Vec::get', 'SliceIndex::get')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    n = eng.seqlen(st, r)
    lh = rng(eng, st, a[1], n)
    if lh is None:
        if eng.decide(st, lt(a[1], n)):
            return some(Ref(r.cell, eng.join(r.path, a[1])))
        return NONE
    lo, hi = lh
    if eng.decide(st, band(le(lo, hi), le(hi, n))):
        return some(Ref(r.cell, eng.view(r.path, lo, isub(hi, lo))))
    return NONE


@nat('RangeInclusive::new')
def _(eng, st, a, c):
    return madt('RangeIncl', a[0], a[1], False)


@nat('slice::get_unchecked', 'slice::get_unchecked_mut')
def _(eng, st, a, c):
    return index(eng, st, a[0], a[1])


@nat('slice::iter', 'slice::iter_mut', 'Vec::iter', 'Vec::iter_mut', 'array::iter')
def _(eng, st, a, c):
    return mk_slice_iter(eng, st, a[0])


@nat('slice::len', 'Vec::len', 'array::len', 'str::len')
def _(eng, st, a, c):
    v = eng.deref(st, a[0]) if type(a[0]) is Ref and not (a[0].path and a[0].path[-1][0] == 'w') else None
    if type(v) is Opaque:
        return iapp('len_' + hash_name(v), 0)
    return eng.seqlen(st, seqref(eng, st, a[0]))


@nat('slice::is_empty', 'Vec::is_empty', 'str::is_empty')
def _(eng, st, a, c):
    v = eng.deref(st, a[0]) if type(a[0]) is Ref and not (a[0].path and a[0].path[-1][0] == 'w') else None
    if type(v) is Opaque:
        return eq(iapp('len_' + hash_name(v), 0), 0)
    return eq(eng.seqlen(st, seqref(eng, st, a[0])), 0)


@nat('slice::first', 'slice::first_mut')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    if eng.decide(st, lt(0, eng.seqlen(st, r))):
        return some(Ref(r.cell, eng.join(r.path, 0)))
    return NONE


@nat('slice::last', 'slice::last_mut')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    n = eng.seqlen(st, r)
    if eng.decide(st, lt(0, n)):
        return some(Ref(r.cell, eng.join(r.path, isub(n, 1))))
    return NONE


@nat('slice::split_at', 'slice::split_at_mut')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    n = eng.seqlen(st, r)
    if not eng.decide(st, le(a[1], n)):
        raise Panic('split_at')
    return tup(Ref(r.cell, eng.view(r.path, 0, a[1])), Ref(r.cell, eng.view(r.path, a[1], isub(n, a[1]))))


@nat('slice::split_first', 'slice::split_first_mut')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    n = eng.seqlen(st, r)
    if not eng.decide(st, lt(0, n)):
        return NONE
    return some(tup(Ref(r.cell, eng.join(r.path, 0)), Ref(r.cell, eng.view(r.path, 1, isub(n, 1)))))


@nat('slice::split_last', 'slice::split_last_mut')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    n = eng.seqlen(st, r)
    if not eng.decide(st, lt(0, n)):
        return NONE
    return some(tup(Ref(r.cell, eng.join(r.path, isub(n, 1))), Ref(r.cell, eng.view(r.path, 0, isub(n, 1)))))


@nat('slice::swap')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    n = eng.seqlen(st, r)
    for i in a[1:]:
        if not eng.decide(st, lt(i, n)):
            raise Panic('swap index')
    p, q = Ref(r.cell, eng.join(r.path, a[1])), Ref(r.cell, eng.join(r.path, a[2]))
    u, v = eng.rd(st, p.cell, p.path), eng.rd(st, q.cell, q.path)
    eng.wr(st, p.cell, p.path, v)
    eng.wr(st, q.cell, q.path, u)
    return UNIT


def rotate(eng, st, r, k):
    """rotate_left by k"""
    r = seqref(eng, st, r)
    v = eng.rd(st, r.cell, r.path)
    n = v.length()
    a = eng.seq_slice(st, v, 0, k)
    b = eng.seq_slice(st, v, k, n)
    wr_seq(eng, st, r, Seq(norm_pieces(b.p + a.p)))


def wr_seq(eng, st, r, v):
    if r.path and r.path[-1][0] == 'w':
        base = r.path[:-1]
        lo, ln = r.path[-1][1], r.path[-1][2]
        old = eng.rd(st, r.cell, base)
        a = eng.seq_slice(st, old, 0, lo)
        b = eng.seq_slice(st, old, iadd(lo, ln), old.length())
        eng.wr(st, r.cell, base, Seq(norm_pieces(a.p + v.p + b.p)))
    else:
        eng.wr(st, r.cell, r.path, v)


@nat('slice::rotate_left')
def _(eng, st, a, c):
    n = eng.seqlen(st, seqref(eng, st, a[0]))
    if not eng.decide(st, le(a[1], n)):
        raise Panic('rotate')
    rotate(eng, st, a[0], a[1])
    return UNIT


@nat('slice::rotate_right')
def _(eng, st, a, c):
    n = eng.seqlen(st, seqref(eng, st, a[0]))
    if not eng.decide(st, le(a[1], n)):
        raise Panic('rotate')
    rotate(eng, st, a[0], isub(n, a[1]))
    return UNIT


@nat('slice::reverse')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    v = eng.rd(st, r.cell, r.path)
    cc = v.concrete()
    if cc is None:
        ps = []
        for p in reversed(v.p):
            if p[0] == 'c':
                ps.append(('c', p[1][::-1]))
            else:
                ps.append(('s', p[1], p[2], vsubst(p[3], {p[2]: isub(isub(p[1], 1), ivar(p[2]))})))
        wr_seq(eng, st, r, Seq(tuple(ps)))
    else:
        wr_seq(eng, st, r, cseq(cc[::-1]))
    return UNIT


@nat('slice::fill')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    v = eng.rd(st, r.cell, r.path)
    wr_seq(eng, st, r, rep(eng, v.length(), a[1]))
    return UNIT


def rep(eng, n, x):
    if type(n) is int:
        return cseq((x,) * n)
    return Seq((('s', n, fresh_name('k'), x),))


@nat('slice::clone_from_slice', 'slice::copy_from_slice')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    s = seqref(eng, st, a[1])
    if not eng.decide(st, eq(eng.seqlen(st, r), eng.seqlen(st, s))):
        raise Panic('clone_from_slice length')
    v = eng.rd(st, s.cell, s.path)
    wr_seq(eng, st, r, v)
    return UNIT


@nat('slice::swap_with_slice')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    s = seqref(eng, st, a[1])
    u, v = eng.rd(st, r.cell, r.path), eng.rd(st, s.cell, s.path)
    if not eng.decide(st, eq(u.length(), v.length())):
        raise Panic('swap_with_slice length')
    wr_seq(eng, st, r, v)
    wr_seq(eng, st, s, u)
    return UNIT


@nat('slice::copy_within')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    v = eng.rd(st, r.cell, r.path)
    n = v.length()
    lo, hi = rng(eng, st, a[1], n)
    d = a[2]
    ln = isub(hi, lo)
    if not eng.decide(st, band(le(lo, hi), le(hi, n), le(iadd(d, ln), n))):
        raise Panic('copy_within')
    src = eng.seq_slice(st, v, lo, hi)
    out = eng.seq_slice(st, v, 0, d).p + src.p + eng.seq_slice(st, v, iadd(d, ln), n).p
    wr_seq(eng, st, r, Seq(norm_pieces(out)))
    return UNIT


def chunkn(eng, st, n, size, exact):
    if type(n) is int and type(size) is int:
        return n // size if exact else -(-n // size)
    return eng.simp_div(st, n, size) if exact else ceil_div(eng, st, n, size)


def ceil_div(eng, st, n, size):
    # exact when size divides n
    if type(n) is I and size == 2:
        q = eng.simp_div(st, n, 2)
        if type(q) is I and not any(isinstance(x, tuple) and x[0] == 'div' for x, _ in q.t):
            return q
    return idiv(iadd(n, isub(size, 1)), size)


@nat('slice::chunks', 'slice::chunks_mut')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    n = eng.seqlen(st, r)
    if not eng.decide(st, lt(0, a[1])):
        raise Panic('chunk size')
    return madt('ChunkIter', r, 0, chunkn(eng, st, n, a[1], False), a[1], n, UNIT)


@nat('slice::chunks_exact', 'slice::chunks_exact_mut', 'slice::array_chunks')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    n = eng.seqlen(st, r)
    if not eng.decide(st, lt(0, a[1])):
        raise Panic('chunk size')
    return madt('ChunkIter', r, 0, chunkn(eng, st, n, a[1], True), a[1], n, UNIT)


@nat('slice::windows')
def _(eng, st, a, c):
    r = seqref(eng, st, a[0])
    n = eng.seqlen(st, r)
    if not eng.decide(st, lt(0, a[1])):
        raise Panic('window size')
    rem = iadd(isub(n, a[1]), 1) if eng.decide(st, le(a[1], n)) else 0
    return madt('WindowIter', r, 0, rem, a[1], UNIT)


@nat('slice::concat')
def _(eng, st, a, c):
    v = seqval(eng, st, a[0]).concrete()
    if v is None:
        raise Unsupported('concat')
    ps = ()
    for x in v:
        ps += seqval(eng, st, x).p
    return Seq(norm_pieces(ps))


@nat('slice::contains')
def _(eng, st, a, c):
    v = seqval(eng, st, a[0]).concrete()
    if v is None:
        raise Unsupported('contains')
    return bor(*[eqf(eng, st, x, a[1]) for x in v])


@nat('slice::starts_with')
def _(eng, st, a, c):
    raise Unsupported('starts_with')


# ---------------------------------------------------------------- Vec
@nat('vec::from_elem', 'Vec::from_elem')
def _(eng, st, a, c):
    return rep(eng, a[1], a[0])


@nat('Vec::pop')
def _(eng, st, a, c):
    r = a[0]
    v = eng.rd(st, r.cell, r.path)
    n = v.length()
    if not eng.decide(st, lt(0, n)):
        return NONE
    x = eng.seq_get(st, v, isub(n, 1))
    raw_wr(eng, st, r, eng.seq_slice(st, v, 0, isub(n, 1)))
    return some(x)


@nat('Vec::clear')
def _(eng, st, a, c):
    raw_wr(eng, st, a[0], Seq(()))
    return UNIT


@nat('Vec::truncate')
def _(eng, st, a, c):
    r = a[0]
    v = eng.rd(st, r.cell, r.path)
    if eng.decide(st, lt(a[1], v.length())):
        raw_wr(eng, st, r, eng.seq_slice(st, v, 0, a[1]))
    return UNIT


@nat('Vec::resize')
def _(eng, st, a, c):
    r = a[0]
    v = eng.rd(st, r.cell, r.path)
    n = v.length()
    if not eng.decide(st, le(n, a[1])):
        raw_wr(eng, st, r, eng.seq_slice(st, v, 0, a[1]))
    else:
        raw_wr(eng, st, r, Seq(norm_pieces(v.p + rep(eng, isub(a[1], n), a[2]).p)))
    return UNIT


@nat('Vec::extend_from_slice', 'Vec::append_slice')
def _(eng, st, a, c):
    r = a[0]
    v = eng.rd(st, r.cell, r.path)
    w = seqval(eng, st, a[1])
    raw_wr(eng, st, r, Seq(norm_pieces(v.p + w.p)))
    return UNIT


@nat('Vec::append')
def _(eng, st, a, c):
    r = a[0]
    v = eng.rd(st, r.cell, r.path)
    w = eng.rd(st, a[1].cell, a[1].path)
    raw_wr(eng, st, a[1], Seq(()))
    raw_wr(eng, st, r, Seq(norm_pieces(v.p + w.p)))
    return UNIT


@nat('Vec::insert')
def _(eng, st, a, c):
    r = a[0]
    v = eng.rd(st, r.cell, r.path)
    n = v.length()
    if not eng.decide(st, le(a[1], n)):
        raise Panic('insert')
    raw_wr(eng, st, r, Seq(norm_pieces(eng.seq_slice(st, v, 0, a[1]).p + (('c', (a[2],)),) + eng.seq_slice(st, v, a[1], n).p)))
    return UNIT


@nat('Vec::remove')
def _(eng, st, a, c):
    r = a[0]
    v = eng.rd(st, r.cell, r.path)
    n = v.length()
    if not eng.decide(st, lt(a[1], n)):
        raise Panic('remove')
    x = eng.seq_get(st, v, a[1])
    raw_wr(eng, st, r, Seq(norm_pieces(eng.seq_slice(st, v, 0, a[1]).p + eng.seq_slice(st, v, iadd(a[1], 1), n).p)))
    return x


@nat('Vec::swap_remove')
def _(eng, st, a, c):
    r = a[0]
    v = eng.rd(st, r.cell, r.path)
    n = v.length()
    if not eng.decide(st, lt(a[1], n)):
        raise Panic('swap_remove')
    x = eng.seq_get(st, v, a[1])
    l = eng.seq_get(st, v, isub(n, 1))
    raw_wr(eng, st, r, eng.seq_slice(st, eng.seq_set(st, v, a[1], l), 0, isub(n, 1)))
    return x


@nat('Vec::split_off')
def _(eng, st, a, c):
    r = a[0]
    v = eng.rd(st, r.cell, r.path)
    n = v.length()
    if not eng.decide(st, le(a[1], n)):
        raise Panic('split_off')
    raw_wr(eng, st, r, eng.seq_slice(st, v, 0, a[1]))
    return eng.seq_slice(st, v, a[1], n)


@nat('Vec::drain')
def _(eng, st, a, c):
    r = a[0]
    v = eng.rd(st, r.cell, r.path)
    n = v.length()
    lo, hi = rng(eng, st, a[1], n)
    if not eng.decide(st, band(le(lo, hi), le(hi, n))):
        raise Panic('drain')
    mid = eng.seq_slice(st, v, lo, hi)
    raw_wr(eng, st, r, Seq(norm_pieces(eng.seq_slice(st, v, 0, lo).p + eng.seq_slice(st, v, hi, n).p)))
    return madt('OwnIter', mid, 0, mid.length(), UNIT)


@nat('Vec::resize_with')
def _(eng, st, a, c):
    return Call(eng.models_fn('resize_with'), [a[0], a[1], a[2]])


@nat('Vec::retain')
def _(eng, st, a, c):
    return Call(eng.models_fn('retain'), [a[0], a[1]])


@nat('slice::fill_with')
def _(eng, st, a, c):
    return Call(eng.models_fn('slice_fill_with'), [a[0], eng.seqlen(st, seqref(eng, st, a[0])), a[1]])


@nat('array::from_fn')
def _(eng, st, a, c):
    t = c.dest_ty
    if t and t[0] == 'array':
        try:
            n = int(t[2])
        except ValueError:
            n = c.fr.tyenv.get(t[2])
        if isinstance(n, int):
            return Call(eng.models_fn('array_from_fn'), [a[0], n])
    raise Unsupported('array::from_fn')


@nat('array::map')
def _(eng, st, a, c):
    return Call(eng.models_fn('array__map'), [a[0], a[1]])


@nat('Extend::extend')
def _(eng, st, a, c):
    v = a[1]
    # Extend<&T> copies
    t = c.fn.info['args']
    T = c.fr.body.T
    ref = False
    if len(t) > 1 and not isinstance(t[1], str):
        ref = T[t[1]][0] == 'ref'
    return Call(eng.models_fn('extend_vec' if ref else 'extend_vec_val'), [a[0], v])


@nat('Iterator::collect', 'FromIterator::from_iter')
def _(eng, st, a, c):
    t = c.dest_ty
    it = into_iter(eng, st, a[0])
    if t and t[0] == 'adt':
        if t[1] == RES:
            return Call(eng.models_fn('collect_result'), [it])
        if t[1] == OPT:
            return Call(eng.models_fn('collect_option'), [it])
        if t[1] not in ('std::vec::Vec', 'std::boxed::Box', 'std::collections::VecDeque'):
            raise Unsupported('collect into ' + t[1])
    return Call(eng.models_fn('collect_vec'), [it])


@nat('Iterator::sum', 'Sum::sum')
def _(eng, st, a, c):
    z = 0 if c.dest_ty and c.dest_ty[0] == 'int' else ZERO
    return Call(eng.models_fn('sum_from'), [into_iter(eng, st, a[0]), z])


@nat('Iterator::product', 'Product::product')
def _(eng, st, a, c):
    z = 1 if c.dest_ty and c.dest_ty[0] == 'int' else ONE
    return Call(eng.models_fn('prod_from'), [into_iter(eng, st, a[0]), z])


@nat('Iterator::skip')
def _(eng, st, a, c):
    v, n = a
    if type(v) is Agg and v.tag[0] == 'a':
        nm = v.tag[1]
        if nm in ('models::SliceIter', 'models::OwnIter'):
            s, f, b, p = v.f
            g = iadd(f, n)
            return Agg(v.tag, (s, g if eng.decide(st, le(g, b)) else b, b, p))
        if nm == 'std::ops::Range':
            f, b = v.f
            g = iadd(f, n)
            if eng.decide(st, le(g, b)):
                return Agg(v.tag, (g, b))
            return Agg(v.tag, (b if eng.decide(st, le(f, b)) else f, b))
        if nm == 'models::Rev' and type(v.f[0]) is Agg and v.f[0].tag[1] in ('models::SliceIter', 'models::OwnIter'):
            s, f, b, p = v.f[0].f
            g = isub(b, n)
            return Agg(v.tag, (Agg(v.f[0].tag, (s, f, g if eng.decide(st, le(f, g)) else f, p)),))
        if nm == 'models::StepRange':
            s0, stp, rem = v.f
            if eng.decide(st, le(n, rem)):
                return Agg(v.tag, (iadd(s0, imul(stp, n)), stp, isub(rem, n)))
    return NotImplemented


@nat('Iterator::take')
def _(eng, st, a, c):
    v, n = a
    if type(v) is Agg and v.tag[0] == 'a':
        nm = v.tag[1]
        if nm in ('models::SliceIter', 'models::OwnIter'):
            s, f, b, p = v.f
            g = iadd(f, n)
            return Agg(v.tag, (s, f, g if eng.decide(st, le(g, b)) else b, p))
        if nm == 'std::ops::Range':
            f, b = v.f
            g = iadd(f, n)
            return Agg(v.tag, (f, g if eng.decide(st, le(g, b)) else b))
    return NotImplemented


@nat('Iterator::step_by')
def _(eng, st, a, c):
    v, n = a
    if type(v) is Agg and v.tag[1] == 'std::ops::Range':
        if not eng.decide(st, lt(0, n)):
            raise Panic('step_by 0')
        f, b = v.f
        if eng.decide(st, lt(f, b)):
            rem = ceil_div(eng, st, isub(b, f), n) if not (type(f) is int and type(b) is int and type(n) is int) else -(-(b - f) // n)
        else:
            rem = 0
        return madt('StepRange', f, n, rem)
    return NotImplemented


@nat('Iterator::size_hint')
def _(eng, st, a, c):
    raise Unsupported('size_hint')


# ---------------------------------------------------------------- conversions
def convert(eng, st, v, t):
    if type(v) is Ref:
        w = eng.rd(st, v.cell, v.path)
        if type(w) is Seq and t and t[0] == 'adt' and t[1] in ('std::vec::Vec', 'std::boxed::Box', 'std::sync::Arc'):
            return w
    if type(v) in (bool, int, I, B):
        if t and t[0] == 'int':
            if type(v) in (bool, B):
                return ite(v, 1, 0) if type(v) is B else int(v)
            return v
        if is_field_ty(t):
            if type(v) is bool:
                return ONE if v else ZERO
            if type(v) is int:
                return pconst(v)
            if type(v) is I:
                return papp('of_int', v)
    if type(v) is Poly or type(v) is Seq or type(v) is Ptr:
        if type(v) is Seq and t and t[0] == 'adt' and t[1] in ('std::sync::Arc', 'std::rc::Rc', 'std::boxed::Box'):
            n = new_cell()
            st.mem[n] = v
            return Ptr('arc', n)
        return v
    if type(v) is Agg and t and t[0] == 'adt' and t[1] in ('std::sync::Arc', 'std::rc::Rc', 'std::boxed::Box'):
        n = new_cell()
        st.mem[n] = v
        return Ptr('arc', n)
    return v


@nat('From::from', 'Into::into')
def _(eng, st, a, c):
    return convert(eng, st, a[0], c.dest_ty)


@nat('TryFrom::try_from', 'TryInto::try_into')
def _(eng, st, a, c):
    T = c.fr.body.T
    t = c.dest_ty
    v = a[0]
    if t and t[0] == 'adt' and t[1] == RES:
        t = T[t[2][0]]
    if type(v) in (int, I) and t[0] == 'int':
        lo, hi = int_range(t[1])
        if eng.decide(st, band(le(lo, v), le(v, hi))):
            return Agg(('a', RES, 0), (v,))
        return Agg(('a', RES, 1), (Opaque('err'),))
    if t[0] == 'array' or (t[0] == 'ref' and T[t[1]][0] == 'array'):
        n = int(t[2]) if t[0] == 'array' else int(T[t[1]][2])
        s = v if type(v) is Seq else seqval(eng, st, v)
        if eng.decide(st, eq(s.length(), n)):
            return Agg(('a', RES, 0), (v if t[0] == 'ref' else eng.seq_slice(st, s, 0, n),))
        return Agg(('a', RES, 1), (Opaque('err'),))
    raise Unsupported('try_from')


@nat('Try::branch')
def _(eng, st, a, c):
    v = a[0]
    CF = 'std::ops::ControlFlow'
    if v.tag[1] == OPT:
        return Agg(('a', CF, 0), (v.f[0],)) if v.tag[2] == 1 else Agg(('a', CF, 1), (NONE,))
    if v.tag[1] == RES:
        return Agg(('a', CF, 0), (v.f[0],)) if v.tag[2] == 0 else Agg(('a', CF, 1), (v,))
    raise Unsupported('? operator')


@nat('FromResidual::from_residual')
def _(eng, st, a, c):
    return a[0]


# ---------------------------------------------------------------- integers
@nat('int::wrapping_add', 'int::wrapping_sub', 'int::wrapping_mul')
def _(eng, st, a, c):
    nm = c.fn.info['name']
    x, y = a
    r = iadd(x, y) if nm.endswith('add') else isub(x, y) if nm.endswith('sub') else imul(x, y)
    return eng.wrap(st, r, c.dest_ty[1])


@nat('int::checked_add', 'int::checked_sub', 'int::checked_mul')
def _(eng, st, a, c):
    nm = c.fn.info['name']
    x, y = a
    r = iadd(x, y) if nm.endswith('add') else isub(x, y) if nm.endswith('sub') else imul(x, y)
    T = c.fr.body.T
    t = T[c.dest_ty[2][0]][1] if c.dest_ty and c.dest_ty[0] == 'adt' else 'usize'
    lo, hi = int_range(t)
    if eng.decide(st, band(le(lo, r), le(r, hi))):
        return some(r)
    return NONE


@nat('int::saturating_sub')
def _(eng, st, a, c):
    if eng.decide(st, le(a[1], a[0])):
        return isub(a[0], a[1])
    return 0


@nat('int::saturating_add')
def _(eng, st, a, c):
    r = iadd(a[0], a[1])
    lo, hi = int_range(c.dest_ty[1])
    return r if eng.decide(st, le(r, hi)) else hi


@nat('int::saturating_mul')
def _(eng, st, a, c):
    r = imul(a[0], a[1])
    lo, hi = int_range(c.dest_ty[1])
    return r if eng.decide(st, le(r, hi)) else hi


@nat('int::overflowing_add', 'int::overflowing_sub', 'int::overflowing_mul')
def _(eng, st, a, c):
    nm = c.fn.info['name']
    x, y = a
    r = iadd(x, y) if nm.endswith('add') else isub(x, y) if nm.endswith('sub') else imul(x, y)
    w = eng.wrap(st, r, 'usize')
    return tup(w, w is not r)


@nat('int::div_ceil')
def _(eng, st, a, c):
    if type(a[0]) is int and type(a[1]) is int:
        return -(-a[0] // a[1])
    return ceil_div(eng, st, a[0], a[1])


@nat('int::is_multiple_of')
def _(eng, st, a, c):
    if a[1] == 0:
        return eq(a[0], 0)
    return eq(imod(a[0], a[1]), 0)


@nat('int::abs_diff')
def _(eng, st, a, c):
    return isub(a[0], a[1]) if eng.decide(st, le(a[1], a[0])) else isub(a[1], a[0])


@nat('int::min_value')
def _(eng, st, a, c):
    return int_range(c.dest_ty[1])[0]


@nat('int::max_value')
def _(eng, st, a, c):
    return int_range(c.dest_ty[1])[1]


@nat('int::trailing_zeros', 'int::leading_zeros', 'int::count_ones', 'int::ilog2', 'int::rotate_left', 'int::rotate_right', 'int::checked_ilog2')
def _(eng, st, a, c):
    nm = c.fn.info['name']
    v = a[0]
    if type(v) is int:
        w = 64
        if nm == 'trailing_zeros':
            return w if v == 0 else (v & -v).bit_length() - 1
        if nm == 'leading_zeros':
            return w - v.bit_length()
        if nm == 'count_ones':
            return bin(v).count('1')
        if nm == 'ilog2':
            if v == 0:
                raise Panic('ilog2')
            return v.bit_length() - 1
    raise Unsupported(nm + ' of a symbolic integer')


@nat('nat_pow2test')
def _(eng, st, a, c):
    v = a[0]
    if type(v) is int:
        return v & (v - 1) == 0
    raise Unsupported('is_power_of_two of a symbolic integer')


# ---------------------------------------------------------------- field arithmetic (ark-ff contracts)
def num2(eng, st, x, y):
    x, y = eng.deref(st, x), eng.deref(st, y)
    return x, y


def arith(op):
    def f(eng, st, a, c):
        x, y = num2(eng, st, a[0], a[1])
        return arith2(eng, st, op, x, y, c)
    return f


def arith2(eng, st, op, x, y, c):
    if type(x) is Poly and type(y) is Poly:
        if op == '+':
            return padd(x, y)
        if op == '-':
            return psub(x, y)
        if op == '*':
            return fmul(eng, x, y)
        if op == '/':
            return fmul(eng, x, finv(eng, st, y))
    if type(x) in (int, I) and type(y) in (int, I):
        r = iadd(x, y) if op == '+' else isub(x, y) if op == '-' else imul(x, y) if op == '*' else None
        if r is None:
            if not eng.decide(st, lt(0, y)):
                raise Panic('division by zero')
            return eng.simp_div(st, x, y)
        lo, hi = int_range('usize')
        if not eng.decide(st, band(le(lo, r), le(r, hi))):
            if eng.progs[0].overflow:
                raise Panic('overflow')
            return eng.wrap(st, r, 'usize')
        return r
    raise Unsupported('arithmetic on %s, %s' % (type(x).__name__, type(y).__name__))


def fmul(eng, x, y):
    if eng.rules:
        if not x.is_const() and not y.is_const():
            if len(x.t) > 1:
                x = eng.nf(x)
            if len(y.t) > 1:
                y = eng.nf(y)
    return pmul(x, y)


def finv(eng, st, x):
    """Inverse: panics at zero."""
    if not x.t:
        raise Panic('division by zero')
    if x.is_const() and abs(x.const()) == 1:
        return x
    if eng.decide(st, feq0(x)):
        raise Panic('division by zero')
    return eng.inverse(st, x)


N['Add::add'] = arith('+')
N['Sub::sub'] = arith('-')
N['Mul::mul'] = arith('*')
N['Div::div'] = arith('/')
N['nat_add'] = arith('+')
N['nat_mul'] = arith('*')


@nat('Neg::neg')
def _(eng, st, a, c):
    v = eng.deref(st, a[0])
    return pneg(v) if type(v) is Poly else imulc(v, -1)


def assign_op(op):
    def f(eng, st, a, c):
        r = a[0]
        while type(eng.rd(st, r.cell, r.path)) is Ref:
            r = eng.rd(st, r.cell, r.path)
        x = eng.rd(st, r.cell, r.path)
        y = eng.deref(st, a[1])
        eng.wr(st, r.cell, r.path, arith2(eng, st, op, x, y, c))
        return UNIT
    return f


N['AddAssign::add_assign'] = assign_op('+')
N['SubAssign::sub_assign'] = assign_op('-')
N['MulAssign::mul_assign'] = assign_op('*')
N['DivAssign::div_assign'] = assign_op('/')


def upd1(fn):
    def f(eng, st, a, c):
        r = a[0]
        x = eng.rd(st, r.cell, r.path)
        if type(x) is not Poly:
            raise Unsupported('field operation on %s' % type(x).__name__)
        eng.wr(st, r.cell, r.path, fn(eng, st, x))
        return r
    return f


def map1(fn):
    def f(eng, st, a, c):
        return fn(eng, st, fields_of(eng, st, a[0]))
    return f


def _sq(eng, st, x):
    return fmul(eng, x, x)


N['Field::square_in_place'] = upd1(_sq)
N['Field::square'] = map1(_sq)
N['Field::double_in_place'] = upd1(lambda e, s, x: pscale(x, 2))
N['Field::double'] = map1(lambda e, s, x: pscale(x, 2))
N['Field::neg_in_place'] = upd1(lambda e, s, x: pneg(x))
N['AdditiveGroup::double_in_place'] = N['Field::double_in_place']
N['AdditiveGroup::double'] = N['Field::double']
N['AdditiveGroup::neg_in_place'] = N['Field::neg_in_place']


@nat('Field::inverse')
def _(eng, st, a, c):
    x = fields_of(eng, st, a[0])
    if not x.t:
        return NONE
    if x.is_const() and abs(x.const()) == 1:
        return some(x)
    if eng.decide(st, feq0(x)):
        return NONE
    return some(eng.inverse(st, x))


@nat('Field::inverse_in_place')
def _(eng, st, a, c):
    r = a[0]
    x = eng.rd(st, r.cell, r.path)
    if eng.decide(st, feq0(x)):
        return NONE
    eng.wr(st, r.cell, r.path, eng.inverse(st, x))
    return some(r)


@nat('Zero::zero')
def _(eng, st, a, c):
    return 0 if c.dest_ty and c.dest_ty[0] == 'int' else ZERO


@nat('One::one')
def _(eng, st, a, c):
    return 1 if c.dest_ty and c.dest_ty[0] == 'int' else ONE


@nat('const ZERO', 'const ONE')
def _(eng, st, a, c):
    raise Unsupported('associated constant')


def _kz(eng, st, a, c):
    return ZERO


def _ko(eng, st, a, c):
    return ONE


N['const ZERO'] = _kz
N['const ONE'] = _ko


@nat('Zero::is_zero')
def _(eng, st, a, c):
    x = eng.deref(st, a[0])
    if type(x) is Poly:
        return eqf(eng, st, x, ZERO)
    return eq(x, 0)


@nat('One::is_one')
def _(eng, st, a, c):
    return eqf(eng, st, a[0], ONE)


@nat('Zero::set_zero')
def _(eng, st, a, c):
    eng.wr(st, a[0].cell, a[0].path, ZERO)
    return UNIT


@nat('One::set_one')
def _(eng, st, a, c):
    eng.wr(st, a[0].cell, a[0].path, ONE)
    return UNIT


@nat('Field::pow')
def _(eng, st, a, c):
    x = fields_of(eng, st, a[0])
    e = eng.deref(st, a[1])
    if type(e) is Seq and e.concrete() is not None and all(type(v) is int for v in e.concrete()):
        n = sum(v << (64 * i) for i, v in enumerate(e.concrete()))
        if n <= 64:
            r = ONE
            for _ in range(n):
                r = fmul(eng, r, x)
            return r
        return papp('pow', x, n)
    if type(e) is Seq and e.concrete() is not None and len(e.concrete()) == 1:
        return papp('pow', x, e.concrete()[0])
    raise Unsupported('pow')


@nat('Field::sum_of_products')
def _(eng, st, a, c):
    x = seqval(eng, st, a[0]).concrete()
    y = seqval(eng, st, a[1]).concrete()
    r = ZERO
    for u, v in zip(x, y):
        r = padd(r, fmul(eng, u, v))
    return r


@nat('UniformRand::rand')
def _(eng, st, a, c):
    if not is_field_ty(c.dest_ty) and c.dest_ty and c.dest_ty[0] != 'param':
        raise Unsupported('rand of a non-field type')
    import loops
    p = papp(loops.fresh_at(eng, st, 'rnd'), *[ivar(n) for n in st.ctr])
    st.draws = st.draws + (p,)
    return p


@nat('rand::thread_rng', 'rngs::thread_rng', 'thread::thread_rng', 'ark_std::test_rng', 'rand::test_rng', 'SeedableRng::from_entropy', 'rand_helper::test_rng')
def _(eng, st, a, c):
    if 'test_rng' in c.fn.info['path']:
        raise Unsupported('deterministic rng')
    return Opaque('rng')


@nat('PrimeField::from_be_bytes_mod_order', 'PrimeField::from_le_bytes_mod_order')
def _(eng, st, a, c):
    v = eng.deref(st, a[0])
    name = c.fn.info['name']
    if type(v) is Seq:
        if len(v.p) != 1 or v.p[0][0] != 's':
            raise Unsupported('bytes of a field element')
        _, n, k, e = v.p[0]
        if type(e) is not Opaque or e.op != 'byte':
            raise Unsupported('bytes of a field element')
        if name.startswith('from_le'):
            e = vsubst(e, {k: isub(isub(n, 1), ivar(k))})
        if eng.prove(st, eq(n, ivar('hexlen:' + hash_name(e.args[0])))) and eng.prove(st, eq(e.args[1], ivar(k))):
            return papp('from_be_bytes_mod_order', Opaque('hexbytes', e.args[0]))
        return papp('from_be_bytes_mod_order', Opaque('bytes', n, vsubst(e, {k: ivar('k')})))
    return papp(name, v)


@nat('PrimeField::into_bigint', 'BigInteger::to_bytes_be', 'BigInteger::to_bytes_le', 'BigInteger::is_even', 'BigInteger::is_odd', 'BigInteger::num_bits',
     'Field::legendre', 'Field::sqrt', 'PrimeField::from_bigint', 'BigInteger::get_bit', 'BigInteger::is_zero', 'Hash::hash')
def _(eng, st, a, c):
    eng.opaque_used.add(c.fn.info['name'])
    o = Opaque(c.fn.info['name'], *[eng.deref(st, x) for x in a])
    t = c.dest_ty
    if t and t[0] == 'bool':
        return B('var', ('opq:' + hash_name(o),))
    if t and t[0] == 'int':
        return ivar('opq:' + hash_name(o))
    return o


# ---------------------------------------------------------------- digests
def hasher(eng, st, r):
    v = eng.rd(st, r.cell, r.path)
    if type(v) is not Opaque or v.op != 'hasher':
        raise Unsupported('digest object')
    return v


@nat('Digest::new')
def _(eng, st, a, c):
    return Opaque('hasher')


def flat(eng, st, v):
    v = eng.deref(st, v)
    if type(v) is Seq:
        cc = v.concrete()
        if cc is not None:
            o = ()
            for x in cc:
                o += flat(eng, st, x)
            return o
        return (Opaque('bytes', v),)
    return (v,)


@nat('Digest::update', 'Update::update')
def _(eng, st, a, c):
    h = hasher(eng, st, a[0])
    eng.wr(st, a[0].cell, a[0].path, Opaque('hasher', *(h.args + flat(eng, st, a[1]))))
    return UNIT


@nat('Digest::chain_update', 'Update::chain')
def _(eng, st, a, c):
    return Opaque('hasher', *(a[0].args + flat(eng, st, a[1])))


@nat('Digest::new_with_prefix')
def _(eng, st, a, c):
    return Opaque('hasher', *flat(eng, st, a[0]))


@nat('Digest::finalize', 'FixedOutput::finalize_fixed')
def _(eng, st, a, c):
    return papp('H', *a[0].args)


@nat('Digest::finalize_reset', 'FixedOutputReset::finalize_fixed_reset')
def _(eng, st, a, c):
    h = hasher(eng, st, a[0])
    eng.wr(st, a[0].cell, a[0].path, Opaque('hasher'))
    return papp('H', *h.args)


@nat('Digest::finalize_into_reset', 'FixedOutputReset::finalize_into_reset')
def _(eng, st, a, c):
    h = hasher(eng, st, a[0])
    eng.wr(st, a[0].cell, a[0].path, Opaque('hasher'))
    eng.wr(st, a[1].cell, a[1].path, papp('H', *h.args))
    return UNIT


@nat('Digest::finalize_into', 'FixedOutput::finalize_into')
def _(eng, st, a, c):
    eng.wr(st, a[1].cell, a[1].path, papp('H', *a[0].args))
    return UNIT


@nat('Digest::reset', 'Reset::reset')
def _(eng, st, a, c):
    eng.wr(st, a[0].cell, a[0].path, Opaque('hasher'))
    return UNIT


@nat('Digest::digest')
def _(eng, st, a, c):
    return papp('H', *flat(eng, st, a[0]))


# ---------------------------------------------------------------- hex
@nat('FromHex::from_hex', 'hex::decode')
def _(eng, st, a, c):
    v = eng.deref(st, a[0])
    if eng.decide(st, B('var', ('hexok:' + hash_name(v),))):
        n = ivar('hexlen:' + hash_name(v))
        st.assume(le(0, n))
        k = fresh_name('hx')
        return Agg(('a', RES, 0), (Seq(norm_pieces((('s', n, k, Opaque('byte', v, ivar(k))),))),))
    return Agg(('a', RES, 1), (Opaque('hexerr', v),))


@nat('Lazy::get')
def _(eng, st, a, c):
    f = a[1]
    r = eng.lazy_value(st, f)
    return r
