"""Models of library functions and of the user's trait implementations: what is assumed, not proved.
Every model used by a proof is named in its evidence."""
import z3
from .core import *
from .core import I, B
from .ex import Push, Multi, DIVERGE, Loc, NOMODEL

M = {}


def model(*paths):
    def deco(f):
        for p in paths:
            old = M.get(p)
            if old is None:
                M[p] = f
            else:           # the later one first, then the earlier one
                def both_(ex, st, c, old=old):
                    r = f(ex, st, c)
                    return old(ex, st, c) if r is NOMODEL else r
                M[p] = both_
        return f
    return deco


PM, PC, NN = 'core::ptr::mut_ptr::<impl *mut T>::', 'core::ptr::const_ptr::<impl *const T>::', 'core::ptr::non_null::NonNull::<T>::'


def both(*names):
    return [p + n for n in names for p in (PM, PC)]


def some(v):
    return En(1, {1: (v,)})


def opt(c, v):
    """Option with a symbolic discriminant"""
    if c is True:
        return some(v)
    if c is False:
        return NONE
    return En(If(c, 1, 0), {0: (), 1: (v,)})


NONE = En(0, {0: ()})
UNIT = S([])


# ---------------------------------------------------------------- pointers
@model('core::ptr::null_mut', 'core::ptr::null')
def null_mut(ex, st, c):
    return Ptr(0, 0, ex.p.strip(ex.p.pointee(c.destty)))


@model(*both('is_null'))
def is_null(ex, st, c):
    q = c.args[0]
    if isinstance(q, Ptr):
        return eq(q.obj, 0)
    if isinstance(q, LRef):
        return False
    if isinstance(q, Fat):
        return False if isinstance(q.ptr, LRef) else eq(q.ptr.obj, 0)
    return NOMODEL


@model(*both('as_ref', 'as_mut'))
def as_ref(ex, st, c):
    q = c.args[0]
    if isinstance(q, LRef):
        return some(q)
    cond = ne(q.obj, 0)
    if cond is True or cond is False:
        return some(q) if cond else NONE
    a, b = ex.fork(st, cond)
    return Multi([(s, v) for s, v in ((a, some(q)), (b, NONE)) if s is not None])


@model(*(both('as_mut_unchecked', 'as_ref_unchecked', 'cast_mut', 'cast_const') + ['core::ptr::from_mut', 'core::ptr::from_ref', 'core::mem::maybe_uninit::MaybeUninit::<T>::as_mut_ptr', 'core::mem::maybe_uninit::MaybeUninit::<T>::as_ptr', 'core::mem::maybe_uninit::MaybeUninit::<T>::assume_init_mut', 'core::mem::maybe_uninit::MaybeUninit::<T>::assume_init_ref', 'core::mem::maybe_uninit::MaybeUninit::<T>::assume_init',
         'core::mem::manually_drop::ManuallyDrop::<T>::new', 'core::mem::maybe_uninit::MaybeUninit::<T>::new', 'core::hint::must_use', 'core::mem::manually_drop::ManuallyDrop::<T>::into_inner']))
def ident(ex, st, c):
    v = c.args[0]
    d = ex.p.types[c.destty]
    if d['k'] in ('ptr', 'ref') and isinstance(v, (Ptr,)):
        return ex.retype(v, d['to'])
    if d['k'] in ('ptr', 'ref') and isinstance(v, LRef):
        w = ex.get_in(st, st.store[v.root], v.path) if v.root in st.store else None
        if isinstance(w, Box_) and ex.p.k(ex.p.strip(d['to'])) != 'array':
            return Ptr(w.obj, 0, w.base)
    return v


@model(*(both('cast') + ['core::ptr::mut_ptr::<impl *mut T>::cast']))
def pcast(ex, st, c):
    v = c.args[0]
    to = ex.p.pointee(c.destty)
    if isinstance(v, LRef):
        w = ex.get_in(st, st.store[v.root], v.path)
        if isinstance(w, Box_):
            return ex.retype(Ptr(w.obj, 0, w.base), to)
        return v
    if isinstance(v, Fat):
        v = v.ptr
    return ex.retype(v, to)


def check_stride(ex, q, ty):
    t = ex.p.strip(ex.p.pointee(ty))
    cur = ex.typ_of(q)
    thin = lambda x: ex.p.k(x) in ('ptr', 'ref') and not ex.p.is_fat(ex.p.pointee(x))
    if cur is not None and cur != t and ex.p.s(cur) != ex.p.s(t) and not (thin(cur) and thin(t)):
        raise Unsupported('pointer arithmetic in a different element type')


def offset(ex, st, c, q, n, sign):
    if isinstance(q, LRef):
        if eq(n, 0) is True:
            return q
        # a one element stack object: only its own address and the one past it
        raise Unsupported('pointer arithmetic on a local')
    if ex.flat() and isinstance(q, Ptr):
        b = ex.nlmul(n, ex.size_of(st, ex.p.pointee(c.argtys[0])))
        return Ptr(add(q.obj, b) if sign > 0 else sub(q.obj, b), 0, q.base)
    if ex.opaque(ex.p.strip(ex.p.pointee(c.argtys[0]))):
        raise Unsupported('pointer arithmetic in bytes')
    check_stride(ex, q, c.argtys[0])
    if q.path and ex.cpath(q) != ():
        raise Unsupported('pointer arithmetic inside a struct')
    i = add(q.idx, n) if sign > 0 else sub(q.idx, n)
    if eq(n, 0) is not True:
        g = And(ex.alive(st, q.obj), le(0, i), le(i, ex.blen(st, q.obj)))
        ex.prove(st, Or(eq(n, 0), g), 'pointer stays in its block', c.line)
    return Ptr(q.obj, i, q.base, q.path)


@model(*both('add', 'offset'))
def p_add(ex, st, c):
    return offset(ex, st, c, c.args[0], c.args[1], 1)


@model(*both('sub'))
def p_sub(ex, st, c):
    return offset(ex, st, c, c.args[0], c.args[1], -1)


@model(*both('align_offset'))
def p_align_offset(ex, st, c):
    if not ex.flat() or ex.size_of(st, ex.p.pointee(c.argtys[0])) != 1:
        return NOMODEL
    x, al = I(c.args[0].obj), I(c.args[1])
    rem = uf('REMAINDER', 2, 'int')(al, x + al - 1)
    r = al - 1 - rem
    st.pc.append(z3.And(0 <= rem, rem < al, uf('MULTIPLE', 2, 'bool')(al, x + r)))
    return r


@model(*both('wrapping_add'))
def p_wadd(ex, st, c):
    q = c.args[0]
    check_stride(ex, q, c.argtys[0])
    return Ptr(q.obj, add(q.idx, c.args[1]), q.base, q.path)


@model(*both('wrapping_sub'))
def p_wsub(ex, st, c):
    q = c.args[0]
    check_stride(ex, q, c.argtys[0])
    return Ptr(q.obj, sub(q.idx, c.args[1]), q.base, q.path)


@model(*(both('offset_from', 'sub_ptr', 'offset_from_unsigned')))
def offset_from(ex, st, c):
    a, b = c.args
    if isinstance(a, LRef) or isinstance(b, LRef):
        if isinstance(a, LRef) and isinstance(b, LRef) and a.root == b.root and a.path == b.path:
            return 0
        raise Unsupported('distance of stack pointers')
    check_stride(ex, a, c.argtys[0])
    check_stride(ex, b, c.argtys[1])
    ex.prove(st, Or(And(eq(a.obj, b.obj), Or(ex.alive(st, a.obj), eq(a.idx, b.idx))), ), 'both pointers are into one block', c.line)
    if 'unsigned' in c.path or c.path.endswith('sub_ptr'):
        ex.prove(st, le(b.idx, a.idx), 'distance is not negative', c.line)
    v = sub(a.idx, b.idx)
    if not isinstance(v, int):
        # blocks have at most isize::MAX elements
        ex.assume(st, z3.And(I(v) >= -2 ** 63, I(v) < 2 ** 63))
    return v


def moved_out(ex, st, q, ty, line):
    """the value at q, which is moved out of memory"""
    if isinstance(q, (LRef, It)):
        return ex.load(st, ex.loc_of(q), ty)
    q = ex.view(st, q, ty)
    v = ex.read_heap(st, q, ty, line)
    ex.take_init(st, q, ty, line, 'a value is moved out only if it is there')
    return v


@model(*(both('read', 'read_unaligned') + ['core::ptr::read', 'core::ptr::read_unaligned']))
def p_read(ex, st, c):
    return moved_out(ex, st, c.args[0], ex.p.pointee(c.argtys[0]), c.line)


def put(ex, st, q, ty, v, line):
    loc = ex.loc_of(q)
    if loc.kind == 'H':
        loc = Loc('H', ex.view(st, loc.a, ty))
    ex.store(st, loc, ty, v, line)


@model(*(both('write', 'write_unaligned') + ['core::ptr::write']))
def p_write(ex, st, c):
    put(ex, st, c.args[0], ex.p.pointee(c.argtys[0]), c.args[1], c.line)
    return UNIT


@model('core::mem::maybe_uninit::MaybeUninit::<T>::write')
def mu_write(ex, st, c):
    put(ex, st, c.args[0], ex.p.strip(ex.p.pointee(c.argtys[0])), c.args[1], c.line)
    return c.args[0]


@model('core::mem::replace')
def m_replace(ex, st, c):
    ty = ex.p.pointee(c.argtys[0])
    v = moved_out(ex, st, c.args[0], ty, c.line)
    put(ex, st, c.args[0], ty, c.args[1], c.line)
    return v


@model('core::mem::take')
def m_take(ex, st, c):
    return NOMODEL


def swap_arrays(ex, st, a, b, ty):
    """two arrays keep their places and exchange their contents"""
    if not isinstance(a, Box_) or not isinstance(b, Box_):
        raise Unsupported('swap of arrays elsewhere')
    ks = []
    for pa, lty in ex.leaves(a.base):
        key = ex.canon(a.base, pa)
        ks += [(k, ex.leafsort(lty)) for k in ([key + '#o', key + '#i'] if ex.p.k(lty) in ('ptr', 'ref') else [key])]
        if ex.p.k(lty) == 'param':
            ks.append((ex.init_key(a.base, pa), 'bool'))
    for k, sort in ks:
        h = ex.heap(st, k, sort)
        ex.hobj(st, k, a.obj, (lambda h: lambda i: h.read(b.obj, i))(h), sort)
        ex.hobj(st, k, b.obj, (lambda h: lambda i: h.read(a.obj, i))(h), sort)
    return UNIT


@model('core::array::from_fn')
def array_from_fn(ex, st, c):
    t = ex.p.strip(c.destty)
    e = ex.p.types[ex.p.types[t]['to']]
    if e['k'] != 'adt' or e['n'] != 'core::mem::maybe_uninit::MaybeUninit':
        return NOMODEL
    ex.trusted.add('an array of MaybeUninit made by from_fn has no elements in it')
    n = ex.arrlen(t)
    ex.array_facts(st, t)
    et = ex.p.strip(ex.p.types[t]['to'])
    return Box_(ex.alloc(st, et, n, 'uninit', box=True), et, n)


@model('core::mem::swap', 'core::ptr::swap')
def m_swap(ex, st, c):
    ty = ex.p.pointee(c.argtys[0])
    a, b = c.args
    if ex.p.k(ex.p.strip(ty)) == 'array':
        return swap_arrays(ex, st, ex.peek(st, a, ty), ex.peek(st, b, ty), ty)
    v = moved_out(ex, st, a, ty, c.line)
    w = moved_out(ex, st, b, ty, c.line)
    put(ex, st, a, ty, w, c.line)
    put(ex, st, b, ty, v, c.line)
    return UNIT


def copy_range(ex, st, src, dst, n, ty, line, what='copy'):
    """move the bits of n elements (memmove)"""
    ex.prove(st, Or(eq(n, 0), And(ex.alive(st, src.obj), le(0, src.idx), le(add(src.idx, n), ex.blen(st, src.obj)))),
             what + ' source in bounds', line)
    ex.prove(st, Or(eq(n, 0), And(ex.alive(st, dst.obj), le(0, dst.idx), le(add(dst.idx, n), ex.blen(st, dst.obj)))),
             what + ' destination in bounds', line)
    ty = ex.p.strip(ty)
    s, d = src.idx, dst.idx
    cond = lambda i: And(le(d, i), lt(i, add(d, n)))
    for pa, lty in ex.leaves(ty):
        ks = ex.canon(src.base, tuple(src.path) + pa)
        kd = ex.canon(dst.base, tuple(dst.path) + pa)
        suf = ['']
        if ex.p.k(lty) in ('ptr', 'ref'):
            suf = ['#o'] if ex.single(ex.p.types[lty]['to']) else ['#o', '#i']
        sort = ex.leafsort(lty)
        for x in suf:
            h = ex.heap(st, ks + x, sort)
            ex.hupd(st, kd + x, dst.obj, cond, (lambda h: lambda i: h.read(src.obj, add(sub(i, d), s)))(h), sort, eq(n, 0))
        if ex.p.k(lty) == 'param':
            ki, kj = 'I:' + ks, 'I:' + kd
            h = ex.heap(st, ki, 'bool')
            hd = ex.heap(st, kj, 'bool')
            insrc = lambda i: And(eq(src.obj, dst.obj), le(s, i), lt(i, add(s, n))) if ki == kj else False
            ex.prove(st, forall(lambda i: Imp(And(cond(i), Not(insrc(i))), Not(hd.read(dst.obj, i)))),
                     'no element is overwritten without being dropped', line, 'ownership')
            if ki == kj:
                # source is left without its values, then the destination gets them
                ex.hupd(st, ki, src.obj, lambda i: And(le(s, i), lt(i, add(s, n))), lambda i: False, 'bool', eq(n, 0))
            else:
                ex.hupd(st, ki, src.obj, lambda i: And(le(s, i), lt(i, add(s, n))), lambda i: False, 'bool', eq(n, 0))
            ex.hupd(st, kj, dst.obj, cond, (lambda h: lambda i: h.read(src.obj, add(sub(i, d), s)))(h), 'bool', eq(n, 0))


@model(*(both('copy_from', 'copy_from_nonoverlapping')))
def copy_from(ex, st, c):
    dst, src, n = c.args
    if 'nonoverlapping' in c.path:
        no_overlap(ex, st, src, dst, n, c.line)
    copy_range(ex, st, src, dst, n, ex.p.pointee(c.argtys[0]), c.line)
    return UNIT


@model(*(both('copy_to', 'copy_to_nonoverlapping') + ['core::ptr::copy', 'core::ptr::copy_nonoverlapping', 'core::intrinsics::copy', 'core::intrinsics::copy_nonoverlapping']))
def copy_to(ex, st, c):
    src, dst, n = c.args
    if 'nonoverlapping' in c.path:
        no_overlap(ex, st, src, dst, n, c.line)
    copy_range(ex, st, src, dst, n, ex.p.pointee(c.argtys[0]), c.line)
    return UNIT


def no_overlap(ex, st, src, dst, n, line):
    ex.prove(st, Or(ne(src.obj, dst.obj), le(add(src.idx, n), dst.idx), le(add(dst.idx, n), src.idx), eq(n, 0)),
             'source and destination do not overlap', line)


@model('core::ptr::drop_in_place', *both('drop_in_place'))
def drop_in_place(ex, st, c):
    q = c.args[0]
    ty = ex.p.pointee(c.argtys[0])
    if isinstance(q, Fat):
        et = ex.p.strip(ex.p.types[ty]['to'])
        drop_range(ex, st, q, et, c.line)
        return UNIT
    loc = ex.loc_of(q)
    if loc.kind == 'H':
        loc = Loc('H', ex.view(st, loc.a, ty))
    r = ex.drop_place(st, loc, ty, c.line, None, c.to)
    if r is None:
        return UNIT
    return r if isinstance(r, list) else [r]


def drop_range(ex, st, q, et, line):
    p = ex.p
    lv = ex.param_leaves(et)
    if p.k(et) not in ('param', 'int', 'char', 'bool', 'float', 'ptr', 'tuple'):
        if p.types[et]['k'] != 'adt' or ex.find_drop(et) is not None:
            raise Unsupported('drop of a slice of ' + p.s(et))
    if not lv:
        return
    a = q.ptr
    n = q.len
    ex.prove(st, Or(eq(n, 0), And(ex.alive(st, a.obj), le(0, a.idx), le(add(a.idx, n), ex.blen(st, a.obj)))), 'dropped slice in bounds', line)
    for pa, _ in lv:
        key = ex.init_key(a.base, tuple(a.path) + pa)
        h = ex.heap(st, key, 'bool')
        cond = lambda i: And(le(a.idx, i), lt(i, add(a.idx, n)))
        ex.prove(st, forall(lambda i: Imp(cond(i), h.read(a.obj, i))), 'a value is dropped only if it is there', line, 'ownership')
        ex.hupd(st, key, a.obj, cond, lambda i: False, 'bool', eq(n, 0))


@model('core::ptr::eq', 'core::ptr::addr_eq')
def ptr_eq(ex, st, c):
    return ex.ptr_eq(st, c.args[0], c.args[1])


# ---------------------------------------------------------------- mem
@model('core::mem::size_of')
def size_of(ex, st, c):
    return ex.size_of(st, c.targs[0])


@model('core::mem::size_of_val', 'core::intrinsics::size_of_val')
def size_of_val(ex, st, c):
    t = ex.p.pointee(c.argtys[0])
    if ex.p.k(t) == 'slice':
        f = c.args[0]
        return ex.nlmul(f.len, ex.size_of(st, ex.p.types[t]['to'])) if isinstance(f, Fat) else NOMODEL
    return NOMODEL if ex.p.is_fat(t) else ex.size_of(st, t)


@model('core::mem::align_of')
def align_of(ex, st, c):
    return ex.align_of(st, c.targs[0])


@model('core::mem::forget', 'core::mem::drop')
def forget(ex, st, c):
    if c.path.endswith('drop'):
        return NOMODEL
    return UNIT


@model('core::mem::maybe_uninit::MaybeUninit::<T>::uninit')
def mu_uninit(ex, st, c):
    t = ex.p.strip(c.destty)
    if ex.p.k(t) == 'array':
        et = ex.p.strip(ex.p.types[t]['to'])
        n = ex.arrlen(t)
        ex.array_facts(st, t)
        o = ex.alloc(st, et, n, 'uninit', box=True)
        ex.stack_objs.append(o)
        return Box_(o, et, n)
    return UNINIT


@model('core::mem::transmute')
def transmute(ex, st, c):
    raise Unsupported('transmute call')


# ---------------------------------------------------------------- slices
@model('core::slice::<impl [T]>::len', 'core::str::<impl str>::len')
def slice_len(ex, st, c):
    return c.args[0].len if isinstance(c.args[0], Fat) else NOMODEL


@model('core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty')
def slice_empty(ex, st, c):
    return eq(c.args[0].len, 0) if isinstance(c.args[0], Fat) else NOMODEL


@model('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr', 'core::str::<impl str>::as_ptr')
def slice_as_ptr(ex, st, c):
    return c.args[0].ptr


@model('core::slice::raw::from_raw_parts', 'core::slice::raw::from_raw_parts_mut')
def from_raw_parts(ex, st, c):
    q, n = c.args
    if isinstance(q, It) and q.kind == 'bytesof':
        r = q.ptr
        ex.prove(st, And(ne(r.obj, 0), le(0, n), ex.alive(st, r.obj), le(add(ex.nlmul(r.idx, ex.size_of(st, r.base)), n), ex.nlmul(ex.blen(st, r.obj), ex.size_of(st, r.base)))),
                 'slice lies in a live block', c.line)
        return Fat(q, n)
    if isinstance(q, LRef):
        raise Unsupported('slice of a local')
    ex.prove(st, And(ne(q.obj, 0), Or(eq(n, 0), And(ex.alive(st, q.obj), le(0, q.idx), le(add(q.idx, n), ex.blen(st, q.obj))))),
             'slice lies in a live block', c.line)
    ex.prove(st, le(0, n), 'slice length is not negative', c.line)
    for key in [ex.init_key(q.base, tuple(q.path) + pa) for pa, _ in ex.param_leaves(ex.typ_of(q))]:
        h = ex.heap(st, key, 'bool')
        ex.prove(st, forall(lambda i: Imp(And(le(q.idx, i), lt(i, add(q.idx, n))), h.read(q.obj, i))),
                 'every element of a slice is there', c.line, 'ownership')
    return Fat(q, n)


@model('core::ptr::slice_from_raw_parts', 'core::ptr::slice_from_raw_parts_mut')
def slice_from_raw(ex, st, c):
    return Fat(c.args[0], c.args[1])


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def slice_iter(ex, st, c):
    f = c.args[0]
    if not isinstance(f, Fat):
        raise Unsupported('iteration over %r' % (f,))
    return It('sliter', ptr=f.ptr, lo=0, hi=f.len)


@model('core::array::<impl [T; N]>::as_slice')
def arr_slice(ex, st, c):
    v = c.args[0]
    if isinstance(v, LRef):
        w = ex.get_in(st, st.store[v.root], v.path)
        return Fat(Ptr(w.obj, 0, w.base), w.len)
    return Fat(v, ex.arrlen(ex.p.pointee(c.argtys[0])))


@model('core::str::<impl str>::as_bytes')
def as_bytes(ex, st, c):
    return c.args[0]


@model('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def get_unchecked(ex, st, c):
    f, i = c.args
    if not isinstance(f, Fat) or isinstance(i, (S, It)):
        return NOMODEL
    ex.prove(st, And(le(0, i), lt(i, f.len)), 'unchecked index is in range', c.line, 'memory')
    return elem_ptr(f.ptr, i)


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def slice_get(ex, st, c):
    f, i = c.args
    if not isinstance(f, Fat) or isinstance(i, (S, It)):
        return NOMODEL
    return both_ways(ex, st, lt(i, f.len), lambda s: some(elem_ptr(f.ptr, i)), lambda s: NONE)


def elem_ptr(q, i):
    return Ptr(q.obj, add(q.idx, i), q.base, q.path)


def get_at(ex, st, ref):
    return ex.load(st, ex.loc_of(ref), None)


def set_at(ex, st, ref, v, ty):
    ex.store(st, ex.loc_of(ref), ty, v)


NEXT, NEXT_BACK = {}, {}


def nxt(kind):
    def deco(f):
        NEXT[kind] = f
        return f
    return deco


def nxtb(kind):
    def deco(f):
        NEXT_BACK[kind] = f
        return f
    return deco


@model('core::iter::traits::iterator::Iterator::next')
def it_next(ex, st, c):
    ref = c.args[0]
    v = get_at(ex, st, ref) if isinstance(ref, (LRef,)) else None
    if isinstance(v, It) and v.kind in NEXT:
        return NEXT[v.kind](ex, st, c, ref, v)
    if v is not None and ex.p.types[ex.p.pointee(c.argtys[0])].get('n') == 'core::ops::range::Range':
        return range_next(ex, st, c, ref, v)
    if isinstance(v, S) and len(v.f) == 1 and isinstance(v.f[0], It) and v.f[0].kind in ('sliter', 'param') and \
            ex.p.types[ex.p.pointee(c.argtys[0])].get('n') in ('core::iter::adapters::cloned::Cloned', 'core::iter::adapters::copied::Copied'):
        w = v.f[0]
        ety = ex.p.types[c.destty]['args'][0]

        ity = ex.p.fields(ex.p.strip(ex.p.pointee(c.argtys[0])))[0]
        if w.kind == 'param':
            def yes(s):
                set_at(ex, s, LRef(ref.root, tuple(ref.path) + (0,)), w.but(pos=add(w.pos, 1)), ity)
                return some(clone_value(ex, s, ex.spec.iter_item(ex, s, w, w.pos, ex.ptr_to(ety, 'ref', False)), ety, c.line))
            return both_ways(ex, st, lt(w.pos, w.n), yes, lambda s: NONE)

        def yes(s):
            set_at(ex, s, LRef(ref.root, tuple(ref.path) + (0,)), w.but(lo=add(w.lo, 1)), ity)
            return some(clone_value(ex, s, elem_ptr(w.ptr, w.lo), ety, c.line))
        return both_ways(ex, st, lt(w.lo, w.hi), yes, lambda s: NONE)
    return NOMODEL


@model('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def it_next_back(ex, st, c):
    ref = c.args[0]
    v = get_at(ex, st, ref) if isinstance(ref, (LRef,)) else None
    if isinstance(v, It) and v.kind in NEXT_BACK:
        return NEXT_BACK[v.kind](ex, st, c, ref, v)
    if v is not None and ex.p.types[ex.p.pointee(c.argtys[0])].get('n') == 'core::ops::range::Range':
        return range_next_back(ex, st, c, ref, v)
    return NOMODEL


def both_ways(ex, st, cond, yes, no):
    a, b = ex.fork(st, cond)
    out = []
    if a is not None:
        out.append((a, yes(a)))
    if b is not None:
        out.append((b, no(b)))
    return Multi(out)


@nxt('sliter')
def sl_next(ex, st, c, ref, v):
    def yes(s):
        set_at(ex, s, ref, v.but(lo=add(v.lo, 1)), ex.p.pointee(c.argtys[0]))
        return some(elem_ptr(v.ptr, v.lo))
    return both_ways(ex, st, lt(v.lo, v.hi), yes, lambda s: NONE)


@nxtb('sliter')
def sl_next_back(ex, st, c, ref, v):
    def yes(s):
        set_at(ex, s, ref, v.but(hi=sub(v.hi, 1)), ex.p.pointee(c.argtys[0]))
        return some(elem_ptr(v.ptr, sub(v.hi, 1)))
    return both_ways(ex, st, lt(v.lo, v.hi), yes, lambda s: NONE)


def range_next(ex, st, c, ref, v):
    def yes(s):
        set_at(ex, s, ref, S([add(v.f[0], 1), v.f[1]]), ex.p.pointee(c.argtys[0]))
        return some(v.f[0])
    return both_ways(ex, st, lt(v.f[0], v.f[1]), yes, lambda s: NONE)


def range_next_back(ex, st, c, ref, v):
    def yes(s):
        set_at(ex, s, ref, S([v.f[0], sub(v.f[1], 1)]), ex.p.pointee(c.argtys[0]))
        return some(sub(v.f[1], 1))
    return both_ways(ex, st, lt(v.f[0], v.f[1]), yes, lambda s: NONE)


# an iterator the caller supplies: an arbitrary finite sequence
@nxt('param')
def par_next(ex, st, c, ref, v):
    def yes(s):
        set_at(ex, s, ref, v.but(pos=add(v.pos, 1)), ex.p.pointee(c.argtys[0]))
        return some(ex.spec.iter_item(ex, s, v, v.pos, ex.p.types[c.destty]['args'][0]))
    return both_ways(ex, st, lt(v.pos, v.n), yes, lambda s: NONE)


@model('core::iter::traits::iterator::Iterator::size_hint')
def size_hint(ex, st, c):
    v = get_at(ex, st, c.args[0])
    if isinstance(v, It) and v.kind == 'param':
        # any hint at all
        return ex.fresh(st, c.destty, 'hint')
    return NOMODEL


@model('core::iter::traits::collect::IntoIterator::into_iter')
def into_iter(ex, st, c):
    v = c.args[0]
    if isinstance(v, It):
        return v
    d = ex.p.types[c.argtys[0]]
    if d['k'] == 'adt' and d['n'] == 'core::ops::range::Range':
        return v
    if isinstance(v, Box_) or d['k'] == 'array':
        return It('arriter', box=v, lo=0, hi=v.len)
    if isinstance(v, Fat):
        return It('sliter', ptr=v.ptr, lo=0, hi=v.len)
    if d['k'] == 'ref' and isinstance(v, LRef):
        w = get_at(ex, st, v)
        if isinstance(w, Box_):
            return It('sliter', ptr=Ptr(w.obj, 0, w.base), lo=0, hi=w.len)
    return NOMODEL


@nxt('arriter')
def arr_next(ex, st, c, ref, v):
    def yes(s):
        q = Ptr(v.box.obj, v.lo, v.box.base)
        x = moved_out(ex, s, q, v.box.base, c.line)
        set_at(ex, s, ref, v.but(lo=add(v.lo, 1)), ex.p.pointee(c.argtys[0]))
        return some(x)
    return both_ways(ex, st, lt(v.lo, v.hi), yes, lambda s: NONE)


@model('core::iter::traits::iterator::Iterator::by_ref')
def by_ref(ex, st, c):
    return c.args[0]


@model('core::iter::traits::iterator::Iterator::cloned', 'core::iter::traits::iterator::Iterator::copied')
def it_cloned(ex, st, c):
    return S([c.args[0]]) if isinstance(c.args[0], It) else NOMODEL


def by_own_fold(ex, c):
    """an adapter of core that is only iterated by a fold of its own"""
    from . import synth
    d = ex.p.types[c.argtys[0]]
    return d['k'] == 'adt' and d['n'].startswith('core::iter::adapters::') and synth.method(ex, 'Iterator', 'next', c.argtys[0]) is None and c.fnrec is not None and c.fnrec['body']


@model('core::iter::traits::iterator::Iterator::for_each')
def it_for_each(ex, st, c):
    from . import synth
    return NOMODEL if by_own_fold(ex, c) else synth.for_each(ex, st, c)


@model('core::iter::traits::iterator::Iterator::fold')
def it_fold(ex, st, c):
    from . import synth
    return NOMODEL if by_own_fold(ex, c) else synth.fold(ex, st, c)


def searching(kind):
    def f(ex, st, c):
        from . import synth
        v = get_at(ex, st, c.args[0])
        return synth.search(ex, st, c, kind) if isinstance(v, It) and v.kind in ('sliter', 'arriter') else NOMODEL
    return f


for _k in ('find', 'find_map'):
    M['core::iter::traits::iterator::Iterator::' + _k] = searching(_k)


# ---------------------------------------------------------------- pinned references, values built in place
@model('core::pin::Pin::<&\'a mut T>::get_unchecked_mut', 'core::pin::Pin::<Ptr>::new_unchecked', 'core::pin::Pin::<Ptr>::as_mut', 'core::pin::Pin::<&\'a mut T>::get_mut',
       'core::pin::Pin::<Ptr>::new', 'core::pin::Pin::<P>::new_unchecked', 'core::pin::Pin::<P>::as_mut')
def pin(ex, st, c):
    v = c.args[0]
    if c.path.endswith('as_mut'):
        v = get_at(ex, st, v) if isinstance(v, LRef) else NOMODEL
    return v


@model('moveit::new::factories::of')
def new_of(ex, st, c):
    return It('new', v=c.args[0], ty=c.argtys[0], f=None, fty=None)


@model('moveit::new::New::with')
def new_with(ex, st, c):
    v = c.args[0]
    if not isinstance(v, It) or v.kind != 'new' or v.f['f'] is not None:
        return NOMODEL
    return v.but(f=c.args[1], fty=c.argtys[1])


# ---------------------------------------------------------------- integers
@model('core::num::<impl usize>::checked_add', 'core::num::<impl usize>::checked_mul', 'core::num::<impl usize>::checked_sub')
def checked(ex, st, c):
    x, y = c.args
    v = {'a': add, 'm': mul, 's': sub}[c.path.rsplit('checked_', 1)[1][0]](x, y)
    lo, hi = ex.p.range(c.argtys[0])
    return opt(And(le(lo, v), le(v, hi)), v)


@model('core::num::<impl usize>::saturating_sub')
def sat_sub(ex, st, c):
    x, y = c.args
    return If(le(y, x), sub(x, y), 0)


def wrapping(op):
    def f(ex, st, c):
        v = op(c.args[0], c.args[1])
        return ex.wrap(v, c.argtys[0])
    return f


for _t in ('usize', 'u32', 'u64', 'u8', 'isize', 'i32'):
    M['core::num::<impl %s>::wrapping_add' % _t] = wrapping(add)
    M['core::num::<impl %s>::wrapping_sub' % _t] = wrapping(sub)
    M['core::num::<impl %s>::wrapping_mul' % _t] = wrapping(mul)


@model('core::cmp::Ord::max', 'core::cmp::Ord::min', 'core::f32::<impl f32>::max', 'core::f32::<impl f32>::min', 'core::cmp::max', 'core::cmp::min')
def ordmax(ex, st, c):
    t = ex.p.types[c.argtys[0]]
    if t['k'] not in ('int', 'float'):
        return NOMODEL
    x, y = c.args
    if t['k'] == 'float':
        r = z3.If(x >= y, x, y) if c.path.endswith('max') else z3.If(x <= y, x, y)
        return r
    return If(ge(x, y), x, y) if c.path.endswith('max') else If(le(x, y), x, y)


@model('std::f32::<impl f32>::ceil', 'core::f32::<impl f32>::ceil')
def ceil(ex, st, c):
    x = c.args[0]
    return -z3.ToReal(z3.ToInt(-x))


@model('std::f32::<impl f32>::floor', 'core::f32::<impl f32>::floor')
def floor(ex, st, c):
    return z3.ToReal(z3.ToInt(c.args[0]))


# ---------------------------------------------------------------- panics and printing
@model('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_display', 'core::panicking::assert_failed',
       'core::panicking::panic_bounds_check', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
       'core::panicking::unreachable_display', 'core::panicking::panic_explicit', 'core::str::slice_error_fail', 'core::slice::index::slice_index_fail',
       'core::panicking::panic_nounwind', 'alloc::alloc::handle_alloc_error', 'std::rt::begin_panic', 'core::panicking::panic_nounwind_fmt')
def panic(ex, st, c):
    ex.panic_check(st, True, 'no panic (%s)' % c.path.rsplit('::', 1)[-1], c.line)
    return DIVERGE


@model("core::fmt::Arguments::<'a>::new", "core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::new_const", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_display",
       'alloc::fmt::format', 'core::panicking::unimplemented_default_msg', "core::fmt::Arguments::<'a>::from_str_nonconst")
def fmt_any(ex, st, c):
    return It('opaque')


# ---------------------------------------------------------------- parameters' trait implementations
def uf(name, arity, ret):
    sorts = [z3.IntSort()] * arity + [{'int': z3.IntSort(), 'bool': z3.BoolSort()}[ret]]
    return z3.Function(name, *sorts)


def param_val(ex, st, ref, ty, line, what):
    """the value behind a reference to a parameter type (or a Copy scalar), which must be there"""
    v = ex.load(st, ex.loc_of(ref), ty, line)
    if isinstance(ref, Ptr):
        ex.require_init(st, ex.view(st, ref, ty), ty, line, what)
    return v


def clone_fun(ex, tyname):
    return uf('CLONE_' + tyname, 1, 'int')


@model('core::clone::Clone::clone')
def clone(ex, st, c):
    ty = ex.p.strip(ex.p.pointee(c.argtys[0]))
    k = ex.p.k(ty)
    if k == 'param':
        n = ex.p.types[ty]['n']
        if isinstance(ex.peek(st, c.args[0], ty), It):
            return ex.peek(st, c.args[0], ty)
        v = param_val(ex, st, c.args[0], ty, c.line, 'a value is cloned only if it is there')
        return clone_fun(ex, n)(I(v))
    if k in ('int', 'bool', 'char', 'float', 'ptr', 'ref'):
        return ex.load(st, ex.loc_of(c.args[0]), ty, c.line)
    if k == 'tuple':
        r = clone_parts(ex, st, c.args[0], ty, c.line)
        return NOMODEL if r is None else r
    if k == 'adt' and ex.p.types[ty]['n'] == 'core::slice::iter::Iter':
        v = get_at(ex, st, c.args[0])
        return v if isinstance(v, It) else NOMODEL
    return NOMODEL


@model("core::slice::iter::Iter::<'a, T>::as_slice")
def iter_as_slice(ex, st, c):
    v = get_at(ex, st, c.args[0])
    if not isinstance(v, It) or v.kind != 'sliter':
        return NOMODEL
    return Fat(Ptr(v.ptr.obj, add(v.ptr.idx, v.lo), v.ptr.base, v.ptr.path), sub(v.hi, v.lo))


def clone_value(ex, st, ref, ty, line):
    ty = ex.p.strip(ty)
    k = ex.p.k(ty)
    if k == 'param':
        return clone_fun(ex, ex.p.types[ty]['n'])(I(param_val(ex, st, ref, ty, line, 'a value is cloned only if it is there')))
    if k == 'tuple':
        r = clone_parts(ex, st, ref, ty, line)
        if r is not None:
            return r
    if k in ('int', 'bool', 'char', 'float', 'ptr', 'ref'):
        return ex.load(st, ex.loc_of(ref), ty, line)
    raise Unsupported('clone of ' + ex.p.s(ty))


def clone_parts(ex, st, ref, ty, line):
    """a clone of a tuple of parameters and scalars"""
    out = []
    for i, t in enumerate(ex.p.types[ty]['elems']):
        sub_ = LRef(ref.root, tuple(ref.path) + (i,)) if isinstance(ref, LRef) else Ptr(ref.obj, ref.idx, ref.base, tuple(ref.path) + (i,))
        k = ex.p.k(t)
        if k == 'param':
            out.append(clone_fun(ex, ex.p.types[t]['n'])(I(param_val(ex, st, sub_, t, line, 'a value is cloned only if it is there'))))
        elif k == 'tuple':
            r = clone_parts(ex, st, sub_, t, line)
            if r is None:
                return None
            out.append(r)
        elif k in ('int', 'bool', 'char', 'float', 'ptr', 'ref'):
            out.append(ex.load(st, ex.loc_of(sub_), t, line))
        else:
            return None
    return S(out)


@model('core::default::Default::default')
def default(ex, st, c):
    if ex.p.k(c.destty) == 'param':
        return ex.fresh(st, c.destty, 'default')
    if ex.p.k(c.destty) == 'int':
        return 0
    if ex.p.k(c.destty) == 'bool':
        return False
    return NOMODEL


@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def partial_eq(ex, st, c):
    ty = ex.p.pointee(c.argtys[0])
    neg = c.path.endswith('ne')
    k = ex.p.k(ty)
    if k == 'param':
        a = param_val(ex, st, c.args[0], ty, c.line, 'a value is compared only if it is there')
        b = param_val(ex, st, c.args[1], ty, c.line, 'a value is compared only if it is there')
        r = uf('EQ_' + ex.p.types[ty]['n'], 2, 'bool')(I(a), I(b))
        return Not(r) if neg else r
    if k in ('int', 'bool', 'char', 'ptr', 'float'):
        a = ex.load(st, ex.loc_of(c.args[0]), ty, c.line)
        b = ex.load(st, ex.loc_of(c.args[1]), ty, c.line)
        return ex.binop(st, 'Ne' if neg else 'Eq', a, b, ty, c.line)
    if k == 'ref':
        to = ex.p.pointee(ty)
        a = ex.load(st, ex.loc_of(c.args[0]), ty, c.line)
        b = ex.load(st, ex.loc_of(c.args[1]), ty, c.line)
        if ex.p.k(to) == 'param':
            x = param_val(ex, st, a, to, c.line, 'a value is compared only if it is there')
            y = param_val(ex, st, b, to, c.line, 'a value is compared only if it is there')
            r = uf('EQ_' + ex.p.types[to]['n'], 2, 'bool')(I(x), I(y))
            return Not(r) if neg else r
    if k == 'adt' and ex.p.types[ty]['kind'] == 'enum' and all(not v['fields'] for v in ex.p.types[ty]['variants']) and (ex.p.types[ty]['n'].startswith('core::')):
        a = ex.load(st, ex.loc_of(c.args[0]), ty, c.line)
        b = ex.load(st, ex.loc_of(c.args[1]), ty, c.line)
        r = eq(a.d, b.d)
        return Not(r) if neg else r
    return NOMODEL


def cmp_model(kind):
    def f(ex, st, c):
        ty = ex.p.pointee(c.argtys[0])
        k = ex.p.k(ty)
        if k == 'ref' and ex.p.k(ex.p.pointee(ty)) == 'param':
            a = ex.load(st, ex.loc_of(c.args[0]), ty)
            b = ex.load(st, ex.loc_of(c.args[1]), ty)
            ty = ex.p.pointee(ty)
        elif k in ('param', 'int', 'char', 'float'):
            a, b = c.args[0], c.args[1]
        else:
            return NOMODEL
        x = param_val(ex, st, a, ty, c.line, 'a value is compared only if it is there')
        y = param_val(ex, st, b, ty, c.line, 'a value is compared only if it is there')
        if ex.p.k(ty) == 'param':
            L = uf('LT_' + ex.p.types[ty]['n'], 2, 'bool')
            x, y = I(x), I(y)
            return {'lt': lambda: L(x, y), 'gt': lambda: L(y, x)}[kind]() if kind in ('lt', 'gt') else NOMODEL
        return {'lt': lt, 'gt': gt, 'le': le, 'ge': ge}[kind](x, y)
    return f


for _k in ('lt', 'gt', 'le', 'ge'):
    M['core::cmp::PartialOrd::' + _k] = cmp_model(_k)


@model('equals::Equals::equals')
def equals(ex, st, c):
    ty = ex.p.pointee(c.argtys[-1])
    if ex.p.k(c.targs[0]) != 'param':
        return NOMODEL
    a = param_val(ex, st, c.args[-2], ty, c.line, 'a key is compared only if it is there')
    b = param_val(ex, st, c.args[-1], ty, c.line, 'a key is compared only if it is there')
    return uf('EQUALS', 2, 'bool')(I(a), I(b))


@model('compare::Compare::compare')
def compare(ex, st, c):
    if ex.p.k(c.targs[0]) != 'param':
        return NOMODEL
    ty = ex.p.pointee(c.argtys[-1])
    a = param_val(ex, st, c.args[-2], ty, c.line, 'a key is compared only if it is there')
    b = param_val(ex, st, c.args[-1], ty, c.line, 'a key is compared only if it is there')
    return uf('LESS', 2, 'bool')(I(a), I(b))


@model('hash::Hash::hash')
def hash_(ex, st, c):
    if ex.p.k(c.targs[0]) != 'param':
        return NOMODEL
    ty = ex.p.pointee(c.argtys[-1])
    a = param_val(ex, st, c.args[-1], ty, c.line, 'a key is hashed only if it is there')
    h = uf('HASH', 1, 'int')(I(a))
    st.pc.append(z3.And(h >= 0, h < 2 ** 64))
    return h


@model('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def call_fn(ex, st, c):
    f = c.args[0]
    args = c.args[1]
    fty = c.argtys[0]
    if ex.p.k(fty) == 'ref':
        fv = ex.peek(st, f, ex.p.pointee(fty))
        fty = ex.p.pointee(fty)
    else:
        fv = f
    while ex.p.k(fty) == 'ref':
        f = fv
        fty = ex.p.pointee(fty)
        fv = ex.peek(st, f, fty)
    d = ex.p.types[fty]
    if d['k'] == 'param':
        ex.trusted.add('a caller supplied function returns a value and changes nothing but what it is given to change')
        tt = ex.p.types[ex.p.strip(c.argtys[1])]
        if isinstance(args, S) and tt['k'] == 'tuple':
            for x, t in zip(args.f, tt['elems']):
                if ex.p.k(t) == 'ref' and ex.p.types[ex.p.strip(t)].get('mut') and not ex.p.is_fat(ex.p.pointee(t)):
                    ex.havoc_place(st, x, ex.p.pointee(t))
        r = ex.fresh(st, c.destty, 'called')
        st.ghost['called'] = st.ghost.get('called', ()) + ((d['n'], args, r),)
        return r
    if d['k'] == 'closure':
        return ex.call_closure(st, f, fv, fty, args, c)
    if d['k'] == 'fndef':
        return ex.call_fndef(st, d, args, c)
    return NOMODEL


# ---------------------------------------------------------------- the Allocator trait, as its documentation has it
def max_elems(ex, st, t):
    """the largest number of elements of a type that fit into isize::MAX bytes"""
    if ex.p.k(ex.p.strip(t)) in ('ptr', 'ref') and not ex.p.is_fat(ex.p.pointee(ex.p.strip(t))):
        return (2 ** 63 - 1) // 8
    v = z3.Int('MX_' + ex.p.s(ex.p.strip(t)))
    st.pc.append(z3.And(v >= 1, v < 2 ** 63))
    return v


def made_by(o):
    """the type of the allocator a block comes from (rigid: a block keeps it)"""
    return uf('FROM', 1, 'int')(I(o))


def tail(ex, o, t):
    """what the allocator left in the cell after a block (rigid): the null character of a string's allocator"""
    return [(k, uf('TAIL:' + k, 1, 'int')(I(o))) for k in tail_keys(ex, t)]


def tail_keys(ex, t):
    t = ex.p.strip(t)
    return [ex.canon(t, ())] if ex.p.k(t) in ('int', 'param') else []


def tail_def(ex, st, o, t, n):
    for k, v in tail(ex, o, t):
        ex.assume(st, eq(ex.hread(st, k, o, n), v))


def tail_kept(ex, st, o, t, n):
    return And([eq(ex.hread(st, k, o, n), v) for k, v in tail(ex, o, t)])


@model('allocator::Allocator::allocate')
def allocate(ex, st, c):
    t = ex.p.strip(c.targs[1])
    n = c.args[1]
    ex.trusted.add('Allocator implementations return a fresh, suitably sized and aligned block or panic')
    ex.prove(st, ne(n, 0), 'allocation is not empty', c.line)
    mx = max_elems(ex, st, t)
    ex.panic_check(st, gt(n, mx), 'no panic: capacity overflow', c.line)
    ex.assume(st, le(n, mx))
    o = ex.alloc(st, t, n, 'blk')
    st.ghost['allocated'] = st.ghost.get('allocated', ()) + ((o, t),)
    ex.assume(st, eq(made_by(o), ex.tycode(c.targs[0])))
    tail_def(ex, st, o, t, n)
    return Ptr(o, 0, t)


@model('allocator::Allocator::deallocate')
def deallocate(ex, st, c):
    t = ex.p.strip(c.targs[1])
    q, n = c.args[1], c.args[2]
    if not isinstance(q, Ptr):
        raise Unsupported('deallocation of %r' % (q,))
    ex.prove(st, And(ne(q.obj, 0), ex.alive(st, q.obj)), 'freed block is live', c.line, 'memory')
    ex.prove(st, And(eq(q.idx, 0), q.path == () or ex.cpath(q) == ()), 'freed pointer is the start of its block', c.line, 'memory')
    ex.prove(st, eq(n, ex.blen(st, q.obj)), 'freed with the size it was allocated with', c.line, 'memory')
    ex.prove(st, eq(ex.tycode(t), ex.bty(st, q.obj)), 'freed with the type it was allocated with', c.line, 'memory')
    ex.prove(st, eq(ex.tycode(c.targs[0]), made_by(q.obj)), 'given back to the allocator it came from', c.line, 'memory')
    for key in ex.init_keys(t):
        h = ex.heap(st, key, 'bool')
        ex.prove(st, forall(lambda i: Imp(And(le(0, i), lt(i, n)), Not(h.read(q.obj, i)))), 'no element is leaked with its block', c.line, 'ownership')
    ex.hwrite(st, 'ALIVE', q.obj, 0, False, 'bool')
    st.ghost['freed'] = st.ghost.get('freed', ()) + (q.obj,)
    return UNIT


@model('core::mem::needs_drop', 'core::intrinsics::needs_drop')
def needs_drop(ex, st, c):
    return True


# ---------------------------------------------------------------- ranges of slices, filling and copying them
def range_bounds(ex, v, ty, n):
    """(lo, hi) of an index range into n elements, or None"""
    t = ex.p.types[ex.p.strip(ty)].get('n')
    if not isinstance(v, S):
        return None
    if t == 'core::ops::range::Range' and len(v.f) == 2:
        return v.f[0], v.f[1]
    if t == 'core::ops::range::RangeTo':
        return 0, v.f[0]
    if t == 'core::ops::range::RangeFrom':
        return v.f[0], n
    if t == 'core::ops::range::RangeFull':
        return 0, n
    return None


@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def slice_index(ex, st, c):
    f, i = c.args
    if not isinstance(f, Fat) or ex.p.k(ex.p.pointee(c.argtys[0])) != 'slice':
        return NOMODEL
    if ex.p.k(c.argtys[1]) == 'int':
        ex.panic_check(st, Or(lt(i, 0), ge(i, f.len)), 'no panic: index in range', c.line)
        ex.assume(st, And(le(0, i), lt(i, f.len)))
        return elem_ptr(f.ptr, i)
    b = range_bounds(ex, i, c.argtys[1], f.len)
    if b is None:
        return NOMODEL
    lo, hi = b
    ex.panic_check(st, Or(lt(hi, lo), gt(hi, f.len)), 'no panic: range of indices in range', c.line)
    ex.assume(st, And(le(lo, hi), le(hi, f.len)))
    return Fat(elem_ptr(f.ptr, lo), sub(hi, lo))


@model('core::slice::<impl [T]>::copy_within')
def copy_within(ex, st, c):
    f, r, d = c.args
    b = range_bounds(ex, r, c.argtys[1], f.len) if isinstance(f, Fat) else None
    if b is None:
        return NOMODEL
    lo, hi = b
    n = sub(hi, lo)
    ex.panic_check(st, Or(lt(hi, lo), gt(hi, f.len), gt(add(d, n), f.len)), 'no panic: ranges in range', c.line)
    ex.assume(st, And(le(lo, hi), le(hi, f.len), le(add(d, n), f.len)))
    copy_range(ex, st, elem_ptr(f.ptr, lo), elem_ptr(f.ptr, d), n, ex.p.types[ex.p.pointee(c.argtys[0])]['to'], c.line)
    return UNIT


@model('core::slice::<impl [T]>::copy_from_slice')
def copy_from_slice(ex, st, c):
    a, b = c.args
    if not isinstance(a, Fat) or not isinstance(b, Fat):
        return NOMODEL
    ex.panic_check(st, ne(a.len, b.len), 'no panic: slices of one length', c.line)
    ex.assume(st, eq(a.len, b.len))
    copy_range(ex, st, b.ptr, a.ptr, a.len, ex.p.types[ex.p.pointee(c.argtys[0])]['to'], c.line)
    return UNIT


def fill_range(ex, st, f, ety, v):
    """every element of a slice of scalars or pointers becomes v"""
    ety = ex.p.strip(ety)
    if ex.p.k(ety) not in ('int', 'ptr', 'bool', 'char') or (ex.p.k(ety) == 'ptr' and ex.p.is_fat(ex.p.pointee(ety))):
        return NOMODEL
    cond = lambda i: And(le(f.ptr.idx, i), lt(i, add(f.ptr.idx, f.len)))
    key = ex.canon(f.ptr.base, tuple(f.ptr.path))
    if isinstance(v, Ptr):
        if v.path:
            return NOMODEL
        ex.hupd(st, key + '#o', f.ptr.obj, cond, lambda i: v.obj, 'int', eq(f.len, 0))
        if not ex.single(ex.p.pointee(ety)):
            ex.hupd(st, key + '#i', f.ptr.obj, cond, lambda i: v.idx, 'int', eq(f.len, 0))
        return UNIT
    ex.hupd(st, key, f.ptr.obj, cond, lambda i: v, ex.leafsort(ety), eq(f.len, 0))
    return UNIT


@model('core::slice::<impl [T]>::fill')
def slice_fill(ex, st, c):
    if not isinstance(c.args[0], Fat):
        return NOMODEL
    return fill_range(ex, st, c.args[0], ex.p.types[ex.p.pointee(c.argtys[0])]['to'], c.args[1])


@model('core::slice::<impl [T]>::fill_with')
def slice_fill_with(ex, st, c):
    d = ex.p.types[c.argtys[1]]
    ety = ex.p.types[ex.p.pointee(c.argtys[0])]['to']
    if not isinstance(c.args[0], Fat):
        return NOMODEL
    if d['k'] == 'fndef' and d['n'] in ('core::ptr::null_mut', 'core::ptr::null'):
        return fill_range(ex, st, c.args[0], ety, Ptr(0, 0, ex.p.strip(ex.p.pointee(ety))))
    if d['k'] == 'closure' and not d['elems']:       # captures nothing: look at what it returns
        fn = ex.p.find_instance(d['n'], d['args']) or ex.p.find_instance(d['n'])
        b = fn['body'] if fn else []
        if len(b) == 2 and b[0]['t']['k'] == 'call' and b[0]['t'].get('f', {}).get('path') in ('core::ptr::null_mut', 'core::ptr::null') and b[1]['t']['k'] == 'return':
            return fill_range(ex, st, c.args[0], ety, Ptr(0, 0, ex.p.strip(ex.p.pointee(ety))))
    return NOMODEL


@model('core::intrinsics::cold_path', 'core::hint::cold_path')
def cold_path(ex, st, c):
    return UNIT
