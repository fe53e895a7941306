"""Vector, its IntoIter."""
from .util import *


VEC = 'vector::Vector'


class Vec:
    """Vector<T, A> seen through its contract: block, length, capacity."""
    NAMES = [('begin_ptr', 0), ('end_ptr', 1), ('capacity_ptr', 2), ('allocator', 3)]

    def __init__(self, ex, st, val, ty):
        self.ex, self.st, self.val = ex, st, val
        ty = ex.p.strip(ty)
        self.ty = ty
        if ex.p.types[ty].get('n') != 'vector::Vector':
            raise LostAnchor('lost anchor: %s is no Vector' % ex.p.s(ty))
        self.ety = ex.p.strip(ex.p.types[ty]['args'][0])
        self.aty = ex.p.strip(ex.p.types[ty]['args'][1])
        self.b, self.e, self.c, self.alloc = [field(ex, ty, val, n, i)[0] for n, i in self.NAMES]
        self.obj = self.b.obj
        self.len = self.e.idx
        self.cap = self.c.idx
        self.seq = Seq(ex, st, self.obj, self.ety)

    def inv(self):
        ex, st = self.ex, self.st
        b, e, c = self.b, self.e, self.c
        mx = max_elems(ex, st, self.ety)
        return rep([('pointers are into one block', And(eq(e.obj, b.obj), eq(c.obj, b.obj), eq(b.idx, 0), le(0, e.idx), le(e.idx, c.idx), le(c.idx, mx))),
                ('no block without capacity', Imp(eq(b.obj, 0), eq(c.idx, 0))),
                ('block is live and as large as the capacity', Imp(ne(b.obj, 0), And(gt(b.obj, 0), ex.alive(st, b.obj), eq(ex.blen(st, b.obj), c.idx), lt(0, c.idx),
                                                       eq(ex.bty(st, b.obj), ex.tycode(self.ety)), eq(made_by(b.obj), ex.tycode(self.aty))))),
                ('nothing is written past the block', Imp(ne(b.obj, 0), tail_kept(ex, st, b.obj, self.ety, c.idx))),
                ('elements are there up to the length', self.seq.all_init(0, self.len)),
                ('nothing is there past the length', self.seq.all_uninit(self.len, self.cap))])

    def fp(self):
        return FP([self.obj])


def vec(cx, i=0, st=None):
    st = cx.old if st is None else st
    return Vec(cx.ex, st, cx.val(i, st), cx.valty(i))


def resvec(cx):
    return Vec(cx.ex, cx.st, cx.res, cx.destty)


class VC(Contract):
    """on &self / &mut self of a vector"""
    mut = False
    consumes = False

    def requires(self, cx):
        return vec(cx).inv()

    def footprint(self, cx):
        if self.mut or self.consumes:
            return vec(cx).fp()
        return nothing(cx)

    def post_footprint(self, cx):
        if self.mut:
            return vec(cx, 0, cx.st).fp()
        return nothing(cx)

    def post(self, cx, o, n):
        return []

    def ensures(self, cx):
        o = vec(cx)
        if self.mut:
            n = vec(cx, 0, cx.st)
            return n.inv() + self.post(cx, o, n)
        return (unchanged(cx) if not self.consumes else []) + self.post(cx, o, None)


CONTRACTS = []


def contract(cls):
    CONTRACTS.append(cls)
    return cls


class Pure(VC):
    pure = True
    inline = True

    def result(self, cx, o):
        pass

    def post(self, cx, o, n):
        return [('result', eq(cx.res, self.result(cx, o)))]


@contract
class Len(Pure):
    key = 'vector::Vector::len'

    def result(self, cx, o):
        return o.len


@contract
class Cap(Pure):
    key = 'vector::Vector::capacity'

    def result(self, cx, o):
        return o.cap


@contract
class IsEmpty(Pure):
    key = 'vector::Vector::is_empty'

    def result(self, cx, o):
        return eq(o.len, 0)


@contract
class IsFull(Pure):
    key = 'vector::Vector::is_full'

    def result(self, cx, o):
        return eq(o.len, o.cap)


class SliceOf(VC):
    inline = True
    pure = True

    def post(self, cx, o, n):
        r = cx.res
        return [('length', eq(r.len, o.len)),
                ('place', Imp(lt(0, o.len), And(eq(r.ptr.obj, o.obj), eq(r.ptr.idx, 0))))]


for _k in ('vector::Vector::as_slice', 'vector::Vector::as_slice_mut', '<vector::Vector as Deref>::deref', '<vector::Vector as DerefMut>::deref_mut', '<vector::Vector as AsRef<[T]>>::as_ref'):
    CONTRACTS.append(type('SliceOf_', (SliceOf,), {'key': _k}))


@contract
class NewIn(Contract):
    key = 'vector::Vector::new_in'
    pure = True

    def ensures(self, cx):
        n = resvec(cx)
        return n.inv() + [('empty', And(eq(n.obj, 0), eq(n.len, 0), eq(n.cap, 0)))]

    def post_footprint(self, cx):
        return resvec(cx).fp()


@contract
class New(NewIn):
    key = 'vector::Vector::new'


@contract
class Default(NewIn):
    key = '<vector::Vector as Default>::default'


@contract
class WithCapacity(Contract):
    key = 'vector::Vector::with_capacity'

    def may_panic(self, cx):
        t = cx.p.types[cx.destty]['args'][0]
        return gt(cx.args[0], max_elems(cx.ex, cx.old, t))

    def ensures(self, cx):
        n = resvec(cx)
        return n.inv() + [('empty', eq(n.len, 0)), ('capacity', eq(n.cap, cx.args[0]))]

    def post_footprint(self, cx):
        return resvec(cx).fp()


def inv_if_any(cx):
    """a null first pointer is enough to know that there is nothing"""
    o = vec(cx)
    return [(n, Or(eq(o.b.obj, 0), g)) for n, g in o.inv()]


@contract
class Clear(VC):
    key = 'vector::Vector::clear'
    mut = True

    def requires(self, cx):
        return inv_if_any(cx)

    def post(self, cx, o, n):
        return [('empty', And(eq(n.obj, 0), eq(n.len, 0), eq(n.cap, 0)))]


@contract
class DropV(VC):
    key = '<vector::Vector as Drop>::drop'
    consumes = True

    def requires(self, cx):
        return inv_if_any(cx)

    def mods(self, cx):
        return []

    def ensures(self, cx):
        return []


@contract
class Reserve(VC):
    key = 'vector::Vector::reserve'
    mut = True

    def may_panic(self, cx):
        o = vec(cx)
        return gt(add(o.cap, cx.args[1]), max_elems(cx.ex, cx.old, o.ety))

    def post(self, cx, o, n):
        return [('length kept', eq(n.len, o.len)), ('capacity grows as asked', eq(n.cap, add(o.cap, cx.args[1]))),
                ('elements kept', same(n.seq, o.seq, 0, o.len)),
                ('untouched if nothing is asked for', Imp(eq(cx.args[1], 0), eq(n.obj, o.obj)))]


@contract
class Grow(VC):
    key = 'vector::Vector::grow'
    mut = True

    def may_panic(self, cx):
        o = vec(cx)
        return gt(If(eq(o.cap, 0), 1, mul(o.cap, 2)), max_elems(cx.ex, cx.old, o.ety))

    def post(self, cx, o, n):
        return [('length kept', eq(n.len, o.len)), ('capacity doubles', eq(n.cap, If(eq(o.cap, 0), 1, mul(o.cap, 2)))),
                ('elements kept', same(n.seq, o.seq, 0, o.len))]


def grow_panics(cx, o):
    return And(eq(o.len, o.cap), gt(If(eq(o.cap, 0), 1, mul(o.cap, 2)), max_elems(cx.ex, cx.old, o.ety)))


def grown_cap(o):
    return If(eq(o.len, o.cap), If(eq(o.cap, 0), 1, mul(o.cap, 2)), o.cap)


@contract
class Push(VC):
    key = 'vector::Vector::push'
    mut = True

    def may_panic(self, cx):
        return grow_panics(cx, vec(cx))

    def post(self, cx, o, n):
        return [('one longer', eq(n.len, add(o.len, 1))), ('elements kept', same(n.seq, o.seq, 0, o.len)),
                ('last is the new one', val_eq(n.seq.at(o.len), cx.args[1])), ('capacity', eq(n.cap, grown_cap(o)))]


class OptRes(VC):
    """returns Option<element>"""

    def results(self, cx):
        ex = cx.ex
        o = vec(cx)
        c = self.some(cx, o)
        out = []
        a, b = ex.fork(cx.st, c)
        ety = ex.p.types[cx.destty]['args'][0]
        if a is not None:
            out.append((a, some(ex.fresh(a, ety, 'item'))))
        if b is not None:
            out.append((b, NONE))
        return out

    def cases(self, cx, yes, no):
        """postconditions of the two cases"""
        r = cx.res
        c = self.some(cx, vec(cx))
        out = [('Some exactly when there is one', eq(eq(r.d, 1), c))]
        if 1 in r.vs:
            out += [(n, Imp(c, g)) for n, g in yes(r.vs[1][0])]
        out += [(n, Imp(Not(c), g)) for n, g in no()]
        return out


@contract
class Pop(OptRes):
    key = 'vector::Vector::pop'
    mut = True

    def some(self, cx, o):
        return lt(0, o.len)

    def post(self, cx, o, n):
        return [('capacity kept', And(eq(n.cap, o.cap), eq(n.obj, o.obj)))] + self.cases(
            cx, lambda x: [('one shorter', eq(n.len, sub(o.len, 1))), ('the last one is returned', val_eq(x, o.seq.at(sub(o.len, 1)))),
                           ('the others are kept', same(n.seq, o.seq, 0, sub(o.len, 1)))],
            lambda: [('still empty', eq(n.len, 0))])


@contract
class Insert(VC):
    key = 'vector::Vector::insert'
    mut = True

    def may_panic(self, cx):
        o = vec(cx)
        return Or(gt(cx.args[1], o.len), grow_panics(cx, o))

    def post(self, cx, o, n):
        i = cx.args[1]
        return [('index was in range', le(i, o.len)), ('one longer', eq(n.len, add(o.len, 1))),
                ('elements before are kept', same(n.seq, o.seq, 0, i)),
                ('the new one is at the index', val_eq(n.seq.at(i), cx.args[2])),
                ('elements after move up', same(n.seq, o.seq, add(i, 1), add(o.len, 1), -1)), ('capacity', eq(n.cap, grown_cap(o)))]


@contract
class Remove(OptRes):
    key = 'vector::Vector::remove'
    mut = True

    def some(self, cx, o):
        return lt(cx.args[1], o.len)

    def post(self, cx, o, n):
        i = cx.args[1]
        return [('capacity kept', And(eq(n.cap, o.cap), eq(n.obj, o.obj)))] + self.cases(
            cx, lambda x: [('one shorter', eq(n.len, sub(o.len, 1))), ('that element is returned', val_eq(x, o.seq.at(i))),
                           ('elements before are kept', same(n.seq, o.seq, 0, i)), ('elements after move down', same(n.seq, o.seq, i, sub(o.len, 1), 1))],
            lambda: [('unchanged', And(eq(n.len, o.len), same(n.seq, o.seq, 0, o.len)))])


# ---------------------------------------------------------------- cloning from slices
class SliceArg:
    """a &[T] argument"""

    def __init__(self, cx, i, st=None):
        self.fat = cx.args[i]
        self.len = self.fat.len
        q = self.fat.ptr
        self.obj = q.obj
        to = cx.p.pointee(cx.argtys[i])
        self.ety = cx.p.strip(cx.p.types[to]['to']) if cx.p.k(to) == 'slice' else cx.ex.u8()
        self.seq = Seq(cx.ex, st or cx.old, q.obj, self.ety, q.idx, tuple(q.path)) if q.base == self.ety or not q.path else None


def clones(ex, dst, src, lo, hi, shift):
    """dst[k] is a clone of src[k + shift] for lo <= k < hi"""
    return forall(lambda k: Imp(And(le(lo, k), lt(k, hi)), val_eq(dst.at(k), clone_of(ex, src.ety, src.at(add(k, shift))))))


def progress(lc, obj=None):
    """how many elements the loop has been through: the position of the iterator it runs on"""
    for v in lc.iters():
        if v.kind == 'sliter' and (obj is None or eq(v.ptr.obj, obj) is True):
            return v.lo
        if v.kind == 'arriter':
            return v.lo
        if v.kind == 'param':
            return v.pos
    for j, n, ty, v in lc.locals():
        if lc.p.types[ty].get('n') == 'core::ops::range::Range' and isinstance(v, S):
            return v.f[0]
    raise LostAnchor('lost anchor: no iterator at the loop of ' + lc.fn['key'])


def local_vec(lc):
    for j, n, ty, v in lc.all_locals():
        t = lc.p.strip(ty)
        if lc.p.types[t].get('n') == 'vector::Vector' and isinstance(v, S):
            return Vec(lc.ex, lc.st, v, t)
    raise LostAnchor('lost anchor: no vector at the loop of ' + lc.fn['key'])


@contract
class Append(VC):
    key = 'vector::Vector::append'
    mut = True

    def requires(self, cx):
        return vec(cx).inv() + [('the slice is not the vector', Or(eq(SliceArg(cx, 1).len, 0), ne(SliceArg(cx, 1).obj, vec(cx).obj)))]

    def may_panic(self, cx):
        o, b = vec(cx), SliceArg(cx, 1)
        return And(gt(add(o.len, b.len), o.cap), gt(add(o.len, b.len), max_elems(cx.ex, cx.old, o.ety)))

    def post(self, cx, o, n):
        b = SliceArg(cx, 1)
        nl = add(o.len, b.len)
        return [('as much longer as the slice', eq(n.len, nl)), ('elements kept', same(n.seq, o.seq, 0, o.len)),
                ('clones of the slice follow', clones(cx.ex, n.seq, b.seq, o.len, nl, sub(0, o.len))),
                ('capacity', eq(n.cap, If(gt(nl, o.cap), nl, o.cap)))]

    def owned(self, lc):
        return vec(lc.ex.cx0, 0, lc.st).fp()

    def invariant(self, lc):
        cx = lc.ex.cx0
        o, b = vec(cx), SliceArg(cx, 1)
        progress(lc, b.fat.ptr.obj)

        def inv(lc):
            n = vec(cx, 0, lc.st)
            k = progress(lc, b.fat.ptr.obj)
            return n.inv() + [('length', eq(n.len, add(o.len, k))), ('progress', And(le(0, k), le(k, b.len))),
                              ('room', le(add(o.len, b.len), n.cap)),
                              ('capacity', eq(n.cap, If(gt(add(o.len, b.len), o.cap), add(o.len, b.len), o.cap))),
                              ('elements kept', same(n.seq, o.seq, 0, o.len)),
                              ('block is ours', And(Or(ne(n.obj, 0), eq(b.len, 0)), Or(eq(n.obj, o.obj), Not(cx.ex.alive(cx.old, n.obj))))),
                              ('clones so far', clones(cx.ex, n.seq, b.seq, o.len, n.len, sub(0, o.len)))]
        return inv


@contract
class Assign(VC):
    key = 'vector::Vector::assign'
    mut = True

    def requires(self, cx):
        return vec(cx).inv() + [('the slice is not the vector', Or(eq(SliceArg(cx, 1).len, 0), ne(SliceArg(cx, 1).obj, vec(cx).obj)))]

    def may_panic(self, cx):
        o, b = vec(cx), SliceArg(cx, 1)
        return And(gt(b.len, o.cap), gt(b.len, max_elems(cx.ex, cx.old, o.ety)))

    def post(self, cx, o, n):
        b = SliceArg(cx, 1)
        return [('as long as the slice', eq(n.len, b.len)), ('clones of the slice', clones(cx.ex, n.seq, b.seq, 0, b.len, 0)),
                ('capacity', eq(n.cap, If(gt(b.len, o.cap), b.len, o.cap)))]


class FromSlice(Contract):
    buf = 0

    def src(self, cx):
        return SliceArg(cx, self.buf)

    def cap(self, cx, b):
        return b.len

    def may_panic(self, cx):
        t = cx.p.types[cx.p.strip(cx.destty)]['args'][0]
        return gt(self.src(cx).len, max_elems(cx.ex, cx.old, t))

    def ensures(self, cx):
        n, b = resvec(cx), self.src(cx)
        return n.inv() + [('as long as the slice', eq(n.len, b.len)), ('clones of the slice', clones(cx.ex, n.seq, b.seq, 0, b.len, 0)),
                          ('capacity', eq(n.cap, b.len))]

    def post_footprint(self, cx):
        return resvec(cx).fp()


for _k in ('vector::Vector::from_in', '<vector::Vector as From<&[T]>>::from', '<vector::Vector as From<&mut [T]>>::from'):
    CONTRACTS.append(type('FromSlice_', (FromSlice,), {'key': _k}))


class ArrRef:
    def __init__(self, cx, i):
        a = cx.args[i]
        if isinstance(a, LRef):
            a = cx.ex.get_in(cx.old, cx.old.store[a.root], a.path)
        ety = a.base
        self.len = a.len if isinstance(a, Box_) else cx.ex.arrlen(cx.p.pointee(cx.argtys[i]))
        self.obj = a.obj
        self.seq = Seq(cx.ex, cx.old, a.obj, ety, 0 if isinstance(a, Box_) else a.idx)


@contract
class FromArrRef(FromSlice):
    key = '<vector::Vector as From<&[T; N]>>::from'

    def requires(self, cx):
        a = ArrRef(cx, 0)
        return [('array is filled', a.seq.all_init(0, a.len))]

    def src(self, cx):
        return ArrRef(cx, 0)


@contract
class FromArr(Contract):
    key = '<vector::Vector as From<[T; N]>>::from'

    def requires(self, cx):
        a = ArrRef(cx, 0)
        return [('array is filled', a.seq.all_init(0, a.len)), ('len', le(0, a.len))]

    def may_panic(self, cx):
        t = cx.p.types[cx.p.strip(cx.destty)]['args'][0]
        return gt(ArrRef(cx, 0).len, max_elems(cx.ex, cx.old, t))

    def footprint(self, cx):
        return FP([ArrRef(cx, 0).obj])

    def post_footprint(self, cx):
        return resvec(cx).fp() + FP([ArrRef(cx, 0).obj])

    def ensures(self, cx):
        n, b = resvec(cx), ArrRef(cx, 0)
        return n.inv() + [('as long as the array', eq(n.len, b.len)), ('the elements of the array', same(n.seq, b.seq, 0, b.len)),
                          ('capacity', eq(n.cap, b.len))]

    def owned(self, lc):
        return local_vec(lc).fp() + FP([ArrRef(lc.ex.cx0, 0).obj])

    def invariant(self, lc):
        cx = lc.ex.cx0
        b = ArrRef(cx, 0)
        local_vec(lc), progress(lc)

        def inv(lc):
            n = local_vec(lc)
            k = progress(lc)
            its = [v for v in lc.iters('arriter')]
            ext = []
            if its:
                s = Seq(lc.ex, lc.st, its[0].box.obj, its[0].box.base)
                ext = [('rest of the array', And(forall(lambda i: Imp(And(le(k, i), lt(i, b.len)), And(s.init(i), val_eq(s.at(i), b.seq.at(i)))))))]
            return n.inv() + [('length', eq(n.len, k)), ('progress', And(le(0, k), le(k, b.len))), ('capacity', eq(n.cap, b.len)),
                              ('elements', same(n.seq, b.seq, 0, k)), ('block is ours', Or(eq(n.obj, 0), Not(cx.ex.alive(cx.old, n.obj))))] + ext
        return inv


@contract
class FromIter(Contract):
    key = '<vector::Vector as FromIterator<T>>::from_iter'

    def may_panic(self, cx):
        return True       # capacity overflow by a wrong size hint, or more elements than fit

    def items(self, cx):
        it = cx.args[0]
        if not isinstance(it, It) or it.kind != 'param':
            raise Unsupported('iterator argument')
        return it

    def ensures(self, cx):
        n, it = resvec(cx), self.items(cx)
        return n.inv() + self.rel(cx.ex, cx.st, n, it, it.n)

    def owned(self, lc):
        return local_vec(lc).fp()

    def rel(self, ex, st, n, it, k):
        return [('length', eq(n.len, k)), ('elements', forall(lambda i: Imp(And(le(0, i), lt(i, k)),
                 val_eq(n.seq.at(i), ex.spec.seq_value(ex, st, 'ITEM%s' % it.id, i, n.ety)))))]

    def post_footprint(self, cx):
        return resvec(cx).fp()

    def invariant(self, lc):
        cx = lc.ex.cx0
        it = self.items(cx)
        local_vec(lc), progress(lc)

        def inv(lc):
            n = local_vec(lc)
            k = progress(lc)
            return n.inv() + self.rel(lc.ex, lc.st, n, it, k) + [('block is ours', Or(eq(n.obj, 0), Not(cx.ex.alive(cx.old, n.obj)))), ('progress', And(le(0, k), le(k, it.n)))]
        return inv


@contract
class CloneV(VC):
    key = '<vector::Vector as Clone>::clone'

    def may_panic(self, cx):
        o = vec(cx)
        return gt(o.len, max_elems(cx.ex, cx.old, o.ety))

    def ensures(self, cx):
        o, n = vec(cx), resvec(cx)
        return n.inv() + [('as long', eq(n.len, o.len)), ('clones', clones(cx.ex, n.seq, o.seq, 0, o.len, 0)), ('capacity', eq(n.cap, o.len))]

    def post_footprint(self, cx):
        return resvec(cx).fp()


# ---------------------------------------------------------------- IntoIter
class Iter:
    NAMES = [('begin_ptr', 0), ('capacity_ptr', 1), ('front_cursor', 2), ('back_cursor', 3)]

    def __init__(self, ex, st, val, ty):
        ty = ex.p.strip(ty)
        self.ex, self.st, self.ty = ex, st, ty
        if ex.p.types[ty].get('n') != 'vector::into_iter::IntoIter':
            raise LostAnchor('lost anchor: IntoIter')
        self.ety = ex.p.strip(ex.p.types[ty]['args'][0])
        self.aty = ex.p.strip(ex.p.types[ty]['args'][1])
        self.b, self.c, self.f, self.k = [field(ex, ty, val, n, i)[0] for n, i in self.NAMES]
        self.obj, self.lo, self.hi, self.cap = self.b.obj, self.f.idx, self.k.idx, self.c.idx
        self.seq = Seq(ex, st, self.obj, self.ety)

    def inv(self):
        ex, st = self.ex, self.st
        o = self.obj
        mx = max_elems(ex, st, self.ety)
        return rep([('pointers are into one block', And([eq(x.obj, o) for x in (self.c, self.f, self.k)] + [eq(self.b.idx, 0), le(0, self.lo), le(self.lo, self.hi), le(self.hi, self.cap), le(self.cap, mx)])),
                ('no block without capacity', Imp(eq(o, 0), eq(self.cap, 0))),
                ('block is live', Imp(ne(o, 0), And(gt(o, 0), ex.alive(st, o), eq(ex.blen(st, o), self.cap), lt(0, self.cap), eq(ex.bty(st, o), ex.tycode(self.ety)), eq(made_by(o), ex.tycode(self.aty))))),
                ('remaining elements are there', self.seq.all_init(self.lo, self.hi)),
                ('others are gone', And(self.seq.all_uninit(0, self.lo), self.seq.all_uninit(self.hi, self.cap)))])

    def fp(self):
        return FP([self.obj])


def itv(cx, st=None):
    st = cx.old if st is None else st
    return Iter(cx.ex, st, cx.val(0, st), cx.valty(0))


@contract
class IntoIterV(VC):
    key = '<vector::Vector as IntoIterator>::into_iter'
    consumes = True

    def ensures(self, cx):
        o = vec(cx)
        r = Iter(cx.ex, cx.st, cx.res, cx.destty)
        return r.inv() + [('all elements remain', And(eq(r.lo, 0), eq(r.hi, o.len), eq(r.obj, o.obj), eq(r.cap, o.cap), same(r.seq, o.seq, 0, o.len)))]

    def post_footprint(self, cx):
        return Iter(cx.ex, cx.st, cx.res, cx.destty).fp()


class ItC(VC):
    def requires(self, cx):
        return itv(cx).inv()

    def footprint(self, cx):
        return itv(cx).fp() if self.mut or self.consumes else FP()

    def post_footprint(self, cx):
        return itv(cx, cx.st).fp() if self.mut else FP()

    def ensures(self, cx):
        o = itv(cx)
        if self.mut:
            n = itv(cx, cx.st)
            return n.inv() + self.post(cx, o, n)
        return self.post(cx, o, None)


class ItNum(ItC):
    pure = True
    inline = True

    def post(self, cx, o, n):
        return [('result', eq(cx.res, self.result(o)))]


for _n, _f in (('len', lambda o: sub(o.hi, o.lo)), ('capacity', lambda o: o.cap), ('is_empty', lambda o: eq(o.lo, o.hi))):
    CONTRACTS.append(type('It_' + _n, (ItNum,), {'key': 'vector::into_iter::IntoIter::' + _n, 'result': (lambda f: lambda self, o: f(o))(_f)}))


class ItSlice(ItC):
    pure = True
    inline = True

    def post(self, cx, o, n):
        r = cx.res
        return [('length', eq(r.len, sub(o.hi, o.lo))), ('place', Imp(lt(o.lo, o.hi), And(eq(r.ptr.obj, o.obj), eq(r.ptr.idx, o.lo))))]


for _n in ('as_slice', 'as_slice_mut'):
    CONTRACTS.append(type('It_' + _n, (ItSlice,), {'key': 'vector::into_iter::IntoIter::' + _n}))


class ItNext(ItC):
    mut = True

    def some(self, cx, o):
        return lt(o.lo, o.hi)

    def results(self, cx):
        a, b = cx.ex.fork(cx.st, self.some(cx, itv(cx)))
        out = []
        if a is not None:
            out.append((a, some(cx.ex.fresh(a, cx.p.types[cx.destty]['args'][0], 'item'))))
        if b is not None:
            out.append((b, NONE))
        return out

    def post(self, cx, o, n):
        r = cx.res
        c = self.some(cx, o)
        out = [('Some exactly when one remains', eq(eq(r.d, 1), c)), ('block kept', And(eq(n.obj, o.obj), eq(n.cap, o.cap)))]
        if self.back:
            x, lo, hi = o.seq.at(sub(o.hi, 1)), o.lo, sub(o.hi, 1)
        else:
            x, lo, hi = o.seq.at(o.lo), add(o.lo, 1), o.hi
        if 1 in r.vs:
            out.append(('the right one is returned', Imp(c, val_eq(r.vs[1][0], x))))
        out.append(('one fewer remains', And(Imp(c, And(eq(n.lo, lo), eq(n.hi, hi))), Imp(Not(c), And(eq(n.lo, o.lo), eq(n.hi, o.hi))))))
        out.append(('the others are kept', same(n.seq, o.seq, n.lo, n.hi)))
        return out


CONTRACTS.append(type('ItNext_', (ItNext,), {'key': '<vector::into_iter::IntoIter as Iterator>::next', 'back': False}))
CONTRACTS.append(type('ItNextBack_', (ItNext,), {'key': '<vector::into_iter::IntoIter as DoubleEndedIterator>::next_back', 'back': True}))


@contract
class ItDrop(ItC):
    key = '<vector::into_iter::IntoIter as Drop>::drop'
    consumes = True

    def mods(self, cx):
        return []
