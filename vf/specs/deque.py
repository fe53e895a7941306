"""Deque, Queue, their iterators. An element is at a place (subarray, offset); G:slot(P, o) is the index of subarray o in
the array of subarray pointers P. Places are ordered by slot, then by offset."""
from .util import *

DEQUE, QUEUE, INTO = 'deque::Deque', 'queue::Queue', 'deque::iter::IntoIter'
ITS = ('deque::iter::CompatIter', 'deque::iter::CompatIterMut')
RAW, ITER, ITERMUT = 'deque::iter::RawIter', 'deque::iter::Iter', 'deque::iter::IterMut'
SIZES = [64, 32, 16, 8, 4]


def sub_size(ex, st, ety):
    """the number of elements of a subarray: one of SIZES, by the size of an element"""
    if getattr(ex.__dict__.get('con'), 'sized', False):
        return ex.con.variant
    v = z3.Int('SUBARRAY_' + ex.p.s(ex.p.strip(ety)))
    st.pc.append(z3.And(v >= 4, v <= 64))
    return v


def size_table(ex, st, ety):
    n = ex.size_of(st, ety)
    return If(le(n, 4), 64, If(le(n, 8), 32, If(le(n, 16), 16, If(le(n, 32), 8, 4))))


CONTRACTS = []


def contract(cls):
    CONTRACTS.append(cls)
    return cls


class SubSize(Contract):
    """as EASTL's DEQUE_DEFAULT_SUBARRAY_SIZE"""
    pure = True

    def ety(self, cx):
        return cx.targs[0]

    def results(self, cx):
        return [(cx.st, sub_size(cx.ex, cx.st, self.ety(cx)))]

    def value(self, ex, st, targs):
        return sub_size(ex, st, targs[0])

    def ensures(self, cx):
        return [('the size EASTL gives subarrays', eq(cx.res, size_table(cx.ex, cx.st, self.ety(cx))))] if not cx.caller else []


for _n in ('SUBARRAY_SIZE', 'calculate_subarray_size'):
    CONTRACTS.append(type(_n, (SubSize,), {'key': 'deque::Deque::' + _n, 'inline': _n != 'SUBARRAY_SIZE'}))


def before(k, i, k2, i2):
    return Or(lt(k, k2), And(eq(k, k2), lt(i, i2)))


class Span:
    """the places from (a, bi) up to (z, ei)"""

    def cell(self, k):
        return self.ex.read_leafs_raw(self.st, self.P, k, self.pty, (), self.pty)

    def sub(self, k):
        return self.cell(k).obj

    def slot(self, o):
        return self.ex.hread(self.st, 'G:slot', self.P, o)

    def there(self, o, i):
        return And([self.ex.hread(self.st, self.ex.init_key(self.ety, pa), o, i, 'bool') for pa, _ in self.ex.param_leaves(self.ety)])

    def val(self, o, i):
        return self.ex.read_leafs_raw(self.st, o, i, self.ety, (), self.ety)

    def member(self, o):
        k = self.slot(o)
        return And(le(self.a, k), le(k, self.z), eq(self.sub(k), o))

    def inside(self, o, i):
        """is place (o, i) one of the span?"""
        k = self.slot(o)
        return And(self.member(o), le(0, i), lt(i, self.SZ), Not(before(k, i, self.a, self.bi)), before(k, i, self.z, self.ei))

    def geometry(self, only_it=False):
        ex, st, SZ = self.ex, self.st, self.SZ
        return [('the array of subarrays is live', And(gt(self.P, 0), ex.alive(st, self.P), eq(ex.bty(st, self.P), ex.tycode(self.pty)), le(0, self.a), le(self.a, self.z), lt(self.z, ex.blen(st, self.P)),
                                                       lt(ex.blen(st, self.P), 2 ** 32))),
                ('every subarray is a live block of its size', forall_at(lambda k: Imp(And(le(self.a, k), le(k, self.z)), And(
                    eq(self.cell(k).idx, 0), gt(self.sub(k), 0), ex.alive(st, self.sub(k)), eq(ex.blen(st, self.sub(k)), SZ), eq(ex.bty(st, self.sub(k)), ex.tycode(self.ety)),
                    eq(self.slot(self.sub(k)), k))), self.sub)),
                ('both ends are in their subarrays', And(eq(self.bo, self.sub(self.a)), eq(self.eo, self.sub(self.z)), le(0, self.bi), lt(self.bi, SZ), le(0, self.ei), lt(self.ei, SZ),
                                                         Imp(eq(self.a, self.z), le(self.bi, self.ei))))]

    def empty(self):
        return And(eq(self.a, self.z), eq(self.bi, self.ei))

    def len(self):
        return sub(add(mul(sub(self.z, self.a), self.SZ), self.ei), self.bi)

    # places counted from the first cell of the array of subarrays (subarray size known)
    def lo(self):
        return add(mul(self.a, self.SZ), self.bi)

    def hi(self):
        return add(mul(self.z, self.SZ), self.ei)

    def lin(self, o, i):
        return add(mul(self.slot(o), self.SZ), i)


def each_place(f, trig):
    def pats(o, i):
        out = []
        for t in trig(o, i):
            for e in base_apps(t, o):
                if any(c.eq(i) for c in e.children()):
                    out.append(e)
        return out
    return forall(f, 2, pats)


class Deq(Span):
    def __init__(self, ex, st, val, ty):
        p = ex.p
        ty = p.strip(ty)
        while p.types[ty].get('n') in (QUEUE, INTO):
            val, ty = val.f[0], p.strip(p.fields(ty)[0])
        if p.types[ty].get('n') != DEQUE:
            raise LostAnchor('lost anchor: %s is no Deque' % p.s(ty))
        self.ex, self.st, self.ty = ex, st, ty
        targs = [a for a in p.types[ty]['args'] if isinstance(a, int)]
        self.ety, self.aty = p.strip(targs[-2]), p.strip(targs[-1])
        q, pty = field(ex, ty, val, 'ptr_array', 0)
        self.ptr = q
        self.P, self.pty = q.obj, p.strip(p.pointee(pty))
        self.N = field(ex, ty, val, 'ptr_array_size', 1)[0]
        self.SZ = sub_size(ex, st, self.ety)
        b, bt = field(ex, ty, val, 'begin_it', 2)
        e, et = field(ex, ty, val, 'end_it', 3)
        self.b = [field(ex, bt, b, n, i)[0] for i, n in enumerate(('current', 'begin', 'end', 'current_array'))]
        self.e = [field(ex, et, e, n, i)[0] for i, n in enumerate(('current', 'begin', 'end', 'current_array'))]
        self.bo, self.bi, self.a = self.b[0].obj, self.b[0].idx, self.b[3].idx
        self.eo, self.ei, self.z = self.e[0].obj, self.e[0].idx, self.e[3].idx

    def frame(self):
        """the pointers of the deque are consistent"""
        def it(q, o):
            return And(eq(q[1].obj, o), eq(q[1].idx, 0), eq(q[2].obj, o), eq(q[2].idx, self.SZ), eq(q[3].obj, self.P))
        ex, st = self.ex, self.st
        return [('the deque has its array of subarrays', And(eq(self.ptr.idx, 0), eq(self.N, ex.blen(st, self.P)))),
                ('begin and end know their subarrays', And(it(self.b, self.bo), it(self.e, self.eo))),
                ('its blocks come from its allocator', And(eq(made_by(self.P), ex.tycode(self.aty)),
                 forall_at(lambda k: Imp(And(le(self.a, k), le(k, self.z)), eq(made_by(self.sub(k)), ex.tycode(self.aty))), self.sub)))]

    def inv(self):
        return rep(self.frame() + self.geometry() + [
            ('exactly the places from begin to end hold elements', each_place(lambda o, i: Imp(And(self.member(o), le(0, i), lt(i, self.SZ)), eq(self.there(o, i), self.inside(o, i))),
                                                                              lambda o, i: [self.there(o, i)]))])

    def fp(self):
        return FP([self.P], [(self.member, self.sub, lambda k: And(le(self.a, k), le(k, self.z)))])

    def moved(self, o, d, first=None, last=None):
        """the places of deque o (from slot first up to slot last) are ours, d slots further, with the same elements"""
        return [('the subarrays stay in order', forall_at(lambda j: Imp(And(le(add(o.a, d), j), le(j, add(o.z, d)), self.between(sub(j, d), first, last)), eq(self.sub(j), o.sub(sub(j, d)))), self.sub)),
                ('no subarray changes its place', forall_at(lambda x: Imp(And(o.member(x), self.between(o.slot(x), first, last)), And(self.member(x), eq(self.slot(x), add(o.slot(x), d)))), lambda x: [o.slot(x), self.slot(x)])),
                ('the others are kept', each_place(lambda x, i: Imp(And(o.inside(x, i), self.inside(x, i)), val_eq(self.val(x, i), o.val(x, i))), lambda x, i: leaf_terms(self.val(x, i)) + leaf_terms(o.val(x, i))))]

    def between(self, k, first, last):
        return And(True if first is None else le(first, k), True if last is None else le(k, last))

    def renumber(self, st, old=None):
        """ghost: the subarrays at the ends are where they are now, the others by old (default: as they were)"""
        a, z, ao, zo = self.a, self.z, self.sub(self.a), self.sub(self.z)
        if old is None:
            h = self.ex.heap(st, 'G:slot')
            old = lambda x: h.read(self.P, x)
        self.ex.hobj(st, 'G:slot', self.P, lambda x: If(eq(x, ao), a, If(eq(x, zo), z, old(x))))


def deq(cx, i=0, st=None):
    st = cx.old if st is None else st
    return Deq(cx.ex, st, cx.val(i, st), cx.valty(i))


class DC(Contract):
    """on &self / &mut self of a deque"""
    mut = False
    sized = False

    def variants(self):
        return SIZES if self.sized else [None]

    def requires(self, cx):
        return deq(cx).inv()

    def footprint(self, cx):
        return deq(cx).fp() if self.mut else FP()

    def post_footprint(self, cx):
        return deq(cx, 0, cx.st).fp() if self.mut else FP()

    def post(self, cx, o, n):
        return []

    def ensures(self, cx):
        o = deq(cx)
        if self.mut:
            n = deq(cx, 0, cx.st)
            return n.inv() + self.post(cx, o, n)
        return unchanged(cx) + self.post(cx, o, o)


class IsEmpty(DC):
    pure = True
    inline = True

    def post(self, cx, o, n):
        return [('result', eq(cx.res, o.empty()))]


class Length(DC):
    pure = True
    sized = True

    def post(self, cx, o, n):
        return [('result', eq(cx.res, o.len()))]


for _t in (DEQUE, QUEUE):
    CONTRACTS.append(type('IsEmpty_', (IsEmpty,), {'key': _t + '::is_empty'}))
    CONTRACTS.append(type('Length_', (Length,), {'key': _t + '::len'}))


class OptDeq(DC):
    """returns an Option"""

    def ring(self, cx):
        return deq(cx)

    def item(self, cx, st):
        ety = cx.p.types[cx.destty]['args'][0]
        if cx.p.k(ety) == 'ref':
            return Ptr(fresh_int('itemo'), fresh_int('itemi'), self.ring(cx).ety)
        return cx.ex.fresh(st, ety, 'item')

    def results(self, cx):
        a, b = cx.ex.fork(cx.st, Not(self.ring(cx).empty()))
        out = []
        if a is not None:
            out.append((a, some(self.item(cx, a))))
        if b is not None:
            out.append((b, NONE))
        return out

    def cases(self, cx, o, yes, no):
        r = cx.res
        c = Not(o.empty())
        out = [('Some exactly when there is one', eq(eq(r.d, 1), c))]
        if 1 in r.vs:
            out += [(n, Imp(c, g)) for n, g in yes(r.vs[1][0])]
        out += [(n, Imp(Not(c), g)) for n, g in no()]
        return out


def place_ref(cx, r, o, x, i):
    """reference r is to the element at place (x, i)"""
    if not isinstance(r, Ptr) or tuple(r.path) != () or cx.p.strip(r.base) != o.ety:
        return False
    return And(eq(r.obj, x), eq(r.idx, i))


def last_place(o, r, k, i):
    """place (k, i) is the one before the end of o"""
    return If(lt(0, o.ei), And(eq(k, o.z), eq(i, sub(o.ei, 1))), And(eq(k, sub(o.z, 1)), eq(i, sub(o.SZ, 1))))


class EndRef(OptDeq):
    pure = True
    back = False

    def post(self, cx, o, n):
        if self.back:
            return self.cases(cx, o, lambda r: [('it is the last element', If(lt(0, o.ei), place_ref(cx, r, o, o.eo, sub(o.ei, 1)), place_ref(cx, r, o, o.sub(sub(o.z, 1)), sub(o.SZ, 1))))], lambda: [])
        return self.cases(cx, o, lambda r: [('it is the first element', place_ref(cx, r, o, o.bo, o.bi))], lambda: [])


for _n in ('front', 'front_mut', 'back', 'back_mut'):
    CONTRACTS.append(type('Deque_' + _n, (EndRef,), {'key': DEQUE + '::' + _n, 'back': 'back' in _n}))
CONTRACTS.append(type('Queue_top', (EndRef,), {'key': QUEUE + '::top'}))


def no_room(cx, o):
    """the panics of growing: a subarray larger than memory, or an array of subarrays larger than its size can count"""
    ex = cx.ex
    return Or(lt(max_elems(ex, cx.old, o.ety), o.SZ), ge(o.N, 2 ** 28))


class Pop(OptDeq):
    mut = True
    back = True

    def witness(self, cx):
        deq(cx, 0, cx.st).renumber(cx.st)

    def post(self, cx, o, n):
        same_end = And(eq(n.P, o.P), eq(n.N, o.N))
        if self.back:
            x, i = If(lt(0, o.ei), o.eo, o.sub(sub(o.z, 1))), If(lt(0, o.ei), sub(o.ei, 1), sub(o.SZ, 1))
            return self.cases(cx, o, lambda v: [('the last one is returned', val_eq(v, o.val(x, i))), ('one shorter at the end', last_place(o, v, n.z, n.ei)),
                                                ('the front stays', And(same_end, eq(n.a, o.a), eq(n.bi, o.bi)))] + n.moved(o, 0, None, n.z),
                              lambda: [('still empty', n.empty())])
        step = If(lt(o.bi, sub(o.SZ, 1)), And(eq(n.a, o.a), eq(n.bi, add(o.bi, 1))), And(eq(n.a, add(o.a, 1)), eq(n.bi, 0)))
        return self.cases(cx, o, lambda v: [('the first one is returned', val_eq(v, o.val(o.bo, o.bi))), ('one shorter at the front', step),
                                            ('the end stays', And(same_end, eq(n.z, o.z), eq(n.ei, o.ei)))] + n.moved(o, 0, n.a, None),
                          lambda: [('still empty', n.empty())])


for _k, _b in ((DEQUE + '::pop_front', False), (DEQUE + '::pop_back', True), (QUEUE + '::pop', False), ('<%s as Iterator>::next' % INTO, False), ('<%s as DoubleEndedIterator>::next_back' % INTO, True)):
    CONTRACTS.append(type('Pop_', (Pop,), {'key': _k, 'back': _b}))


class Push(DC):
    mut = True
    back = True

    def may_panic(self, cx):
        return no_room(cx, deq(cx))

    def shift(self, o, n):
        return sub(n.a, o.a) if self.back else sub(n.z, o.z)

    def witness(self, cx):
        deq(cx, 0, cx.st).renumber(cx.st)

    def post(self, cx, o, n):
        v = cx.args[1]
        d = self.shift(o, n)
        if self.back:
            step = If(lt(o.ei, sub(o.SZ, 1)), And(eq(n.z, add(o.z, d)), eq(n.ei, add(o.ei, 1))), And(eq(n.z, add(add(o.z, d), 1)), eq(n.ei, 0)))
            return n.moved(o, d) + [('the new one is the last', And(val_eq(n.val(o.eo, o.ei), v), n.inside(o.eo, o.ei))), ('one longer at the end', step), ('the front stays', eq(n.bi, o.bi))]
        step = If(lt(0, o.bi), And(eq(n.a, add(o.a, d)), eq(n.bi, sub(o.bi, 1))), And(eq(n.a, sub(add(o.a, d), 1)), eq(n.bi, sub(o.SZ, 1))))
        return n.moved(o, d) + [('the new one is the first', val_eq(n.val(n.bo, n.bi), v)), ('one longer at the front', step), ('the end stays', eq(n.ei, o.ei))]


for _k, _b in ((DEQUE + '::push_front', False), (DEQUE + '::push_back', True), (QUEUE + '::push', True)):
    CONTRACTS.append(type('Push_', (Push,), {'key': _k, 'back': _b}))


@contract
class Realloc(DC):
    key = 'deque::Deque::realloc_ptr_array'
    mut = True

    def requires(self, cx):
        return deq(cx).inv() + [('a little room is asked for', And(le(1, cx.args[1]), lt(cx.args[1], 2 ** 32)))]

    def may_panic(self, cx):
        o = deq(cx)
        return Or(ge(o.N, 2 ** 28), ge(cx.args[1], 2 ** 28))       # its size is kept in 32 bits

    def witness(self, cx):
        o, n = deq(cx), deq(cx, 0, cx.st)
        n.renumber(cx.st, lambda x: add(o.slot(x), sub(n.a, o.a)))

    def post(self, cx, o, n):
        d = sub(n.a, o.a)
        k, front = cx.args[1], cx.args[2]
        return n.moved(o, d) + [('as many subarrays', eq(sub(n.z, n.a), sub(o.z, o.a))), ('same ends', And(eq(n.bi, o.bi), eq(n.ei, o.ei), eq(n.bo, o.bo), eq(n.eo, o.eo))),
                                ('there is room', If(front, le(k, n.a), lt(add(n.z, k), n.N))), ('not smaller', ge(n.N, o.N))]


class NewDeque(Contract):
    def may_panic(self, cx):
        ex = cx.ex
        ety, _ = self.elem(cx)
        return lt(max_elems(ex, cx.old, ety), sub_size(ex, cx.st, ety))

    def elem(self, cx):
        p = cx.p
        t = p.strip(cx.destty)
        while p.types[t].get('n') != DEQUE:
            t = p.strip(p.fields(t)[0])
        a = [x for x in p.types[t]['args'] if isinstance(x, int)]
        return a[-2], a[-1]

    def res(self, cx):
        return Deq(cx.ex, cx.st, cx.res, cx.destty)

    def witness(self, cx):
        n = self.res(cx)
        n.ex.hobj(cx.st, 'G:slot', n.P, lambda x: n.a)

    def post_footprint(self, cx):
        return self.res(cx).fp()

    def ensures(self, cx):
        n = self.res(cx)
        return n.inv() + [('empty', n.empty())]


for _k in (DEQUE + '::new', DEQUE + '::new_in', '<%s as Default>::default' % DEQUE, QUEUE + '::new', QUEUE + '::new_in', '<%s as Default>::default' % QUEUE):
    CONTRACTS.append(type('New_', (NewDeque,), {'key': _k}))


class Whole(Contract):
    """takes a deque apart or wraps it"""

    def requires(self, cx):
        return deq(cx).inv()

    def footprint(self, cx):
        return deq(cx).fp()

    def post_footprint(self, cx):
        return Deq(cx.ex, cx.st, cx.res, cx.destty).fp()

    pure = True
    inline = True

    def ensures(self, cx):
        o, n = deq(cx), Deq(cx.ex, cx.st, cx.res, cx.destty)
        return n.inv() + [('the same elements', And(eq(n.P, o.P), eq(n.a, o.a), eq(n.z, o.z), eq(n.bi, o.bi), eq(n.ei, o.ei)))]


for _k in (QUEUE + '::into_inner', '<%s as IntoIterator>::into_iter' % DEQUE, '<%s as IntoIterator>::into_iter' % QUEUE):
    CONTRACTS.append(type('Whole_', (Whole,), {'key': _k}))


# ---------------------------------------------------------------- iterators
class Raw(Span):
    """an iterator over a deque"""

    def __init__(self, ex, st, val, ty):
        p = ex.p
        ty = p.strip(ty)
        if p.types[ty].get('n') in (ITER, ITERMUT):
            val, ty = val.f[0], p.strip(p.fields(ty)[0])
        if p.types[ty].get('n') != RAW:
            raise LostAnchor('lost anchor: %s is no iterator of a deque' % p.s(ty))
        self.ex, self.st, self.ty = ex, st, ty
        cur, ct = field(ex, ty, val, 'current', 0)
        arr, at = field(ex, ty, val, 'current_arr', 1)
        last = field(ex, ty, val, 'last', 2)[0]
        larr = field(ex, ty, val, 'last_arr', 3)[0]
        self.size = field(ex, ty, val, 'subarray_size', 4)[0]
        self.ety, self.pty = p.strip(p.pointee(ct)), p.strip(p.pointee(at))
        self.P, self.Q = arr.obj, larr.obj
        self.SZ = sub_size(ex, st, self.ety)
        self.bo, self.bi, self.a = cur.obj, cur.idx, arr.idx
        self.eo, self.ei, self.z = last.obj, last.idx, larr.idx

    def shape(self):
        return [('the iterator knows its array', And(eq(self.Q, self.P), eq(self.size, self.SZ)))] + self.geometry()

    def inv(self):
        return rep(self.shape() + [('the places ahead hold elements', each_place(lambda o, i: Imp(self.inside(o, i), self.there(o, i)), lambda o, i: [self.there(o, i)]))])


class RawNext(OptDeq):
    pure = True
    back = False

    def ring(self, cx):
        return self.it(cx)

    def it(self, cx, st=None):
        st = cx.old if st is None else st
        return Raw(cx.ex, st, cx.val(0, st), cx.valty(0))

    def requires(self, cx):
        return self.it(cx).inv()

    def count(self, cx):
        """how many are stepped over"""
        return 0

    def ensures(self, cx):
        o, n = self.it(cx), self.it(cx, cx.st)
        out = n.inv() + [('same deque', eq(n.P, o.P))]
        if self.back:
            stay = And(eq(n.a, o.a), eq(n.bi, o.bi))
            return out + self.cases(cx, o, lambda r: [('the last element in order is given', place_ref(cx, r, o, n.eo, n.ei)), ('one fewer is left', last_place(o, r, n.z, n.ei)), ('the front stays', stay)],
                                    lambda: [('still at the end', n.empty())])
        stay = And(eq(n.z, o.z), eq(n.ei, o.ei))
        step = If(lt(o.bi, sub(o.SZ, 1)), And(eq(n.a, o.a), eq(n.bi, add(o.bi, 1))), And(eq(n.a, add(o.a, 1)), eq(n.bi, 0)))
        return out + self.cases(cx, o, lambda r: [('the next element in order is given', place_ref(cx, r, o, o.bo, o.bi)), ('one fewer is left', step), ('the end stays', stay)],
                                lambda: [('still at the end', n.empty())])


for _t in (RAW, ITER, ITERMUT):
    CONTRACTS.append(type('Next_', (RawNext,), {'key': '<%s as Iterator>::next' % _t}))
    CONTRACTS.append(type('NextBack_', (RawNext,), {'key': '<%s as DoubleEndedIterator>::next_back' % _t, 'back': True}))


class IterOf(DC):
    pure = True

    def results(self, cx):
        return [(cx.st, cx.ex.fresh(cx.st, cx.destty, 'it'))]

    def ensures(self, cx):
        o = deq(cx)
        r = Raw(cx.ex, cx.st, cx.res, cx.destty)
        return unchanged(cx) + r.inv() + [('over all of this deque', And(eq(r.P, o.P), eq(r.a, o.a), eq(r.bi, o.bi), eq(r.z, o.z), eq(r.ei, o.ei)))]


for _k in (DEQUE + '::iter', DEQUE + '::iter_mut', DEQUE + '::iter_mut_unchecked', QUEUE + '::iter', QUEUE + '::iter_mut'):
    CONTRACTS.append(type('IterOf_', (IterOf,), {'key': _k}))


class Half:
    """one end of an iterator, in the form C++ has it"""

    def __init__(self, ex, st, val, ty):
        p = ex.p
        ty = p.strip(ty)
        if p.types[ty].get('n') not in ITS:
            raise LostAnchor('lost anchor: %s is no end of an iterator' % p.s(ty))
        self.q = [field(ex, ty, val, n, i)[0] for i, n in enumerate(('current', 'begin', 'end', 'current_array'))]

    def at(self, s, front):
        x, i, k = (s.bo, s.bi, s.a) if front else (s.eo, s.ei, s.z)
        q = self.q
        return And(eq(q[0].obj, x), eq(q[0].idx, i), eq(q[1].obj, x), eq(q[1].idx, 0), eq(q[2].obj, x), eq(q[2].idx, s.SZ), eq(q[3].obj, s.P), eq(q[3].idx, k))

    def same(self, o):
        return And([And(eq(x.obj, y.obj), eq(x.idx, y.idx)) for x, y in zip(self.q, o.q)])


class IntoCompat(Contract):
    """gives both ends of an iterator"""
    pure = True
    inline = True

    def it(self, cx):
        return Raw(cx.ex, cx.old, cx.val(0), cx.valty(0))

    def requires(self, cx):
        return self.it(cx).inv()

    def ensures(self, cx):
        r, ts = cx.res, cx.p.types[cx.p.strip(cx.destty)]['elems']
        return [(n, Half(cx.ex, cx.st, r.f[i], ts[i]).at(self.it(cx), i == 0)) for i, n in enumerate(('the begin iterator', 'the end iterator'))]


for _k in (RAW + '::into_compat', RAW + '::into_compat_mut', ITER + '::into_compat', ITERMUT + '::into_compat', ITERMUT + '::into_compat_mut'):
    CONTRACTS.append(type('IntoCompat_', (IntoCompat,), {'key': _k}))


class FromCompat(Contract):
    pure = True
    inline = True

    def requires(self, cx):
        b, e = Half(cx.ex, cx.old, cx.args[0], cx.argtys[0]), Half(cx.ex, cx.old, cx.args[1], cx.argtys[1])
        self.b, self.e = b, e
        SZ = sub_size(cx.ex, cx.old, b.q[0].base)
        return [('both are ends of a subarray', And([And(eq(q.q[1].obj, q.q[0].obj), eq(q.q[2].obj, q.q[0].obj), eq(q.q[1].idx, 0), eq(q.q[2].idx, SZ), cx.ex.alive(cx.old, q.q[0].obj)) for q in (b, e)]))]

    def ensures(self, cx):
        b, e = Half(cx.ex, cx.old, cx.args[0], cx.argtys[0]), Half(cx.ex, cx.old, cx.args[1], cx.argtys[1])
        r = Raw(cx.ex, cx.st, cx.res, cx.destty)
        return [('from the first to the second', And(eq(r.bo, b.q[0].obj), eq(r.bi, b.q[0].idx), eq(r.P, b.q[3].obj), eq(r.a, b.q[3].idx),
                                                     eq(r.eo, e.q[0].obj), eq(r.ei, e.q[0].idx), eq(r.Q, e.q[3].obj), eq(r.z, e.q[3].idx))), ('subarray size', eq(r.size, r.SZ))]


for _k in (RAW + '::from_compat', RAW + '::from_compat_mut', ITER + '::from_compat', ITERMUT + '::from_compat'):
    CONTRACTS.append(type('FromCompat_', (FromCompat,), {'key': _k}))


class SameHalf(Contract):
    pure = True
    inline = True

    def ensures(self, cx):
        return [('the same end', Half(cx.ex, cx.st, cx.res, cx.destty).same(Half(cx.ex, cx.old, cx.val(0), cx.valty(0))))]


for _k in ("<deque::iter::CompatIter as From<deque::iter::CompatIterMut<'a, T>>>::from", "<deque::iter::CompatIter as From<&deque::iter::CompatIterMut<'a, T>>>::from", 'deque::iter::CompatIterMut::clone'):
    CONTRACTS.append(type('SameHalf_', (SameHalf,), {'key': _k}))


# ---------------------------------------------------------------- the end of a deque
@contract
class DropD(DC):
    key = '<deque::Deque as Drop>::drop'

    def mods(self, cx):
        return [0]

    def footprint(self, cx):
        return deq(cx).fp()

    def local_iter(self, lc):
        for j, n, ty, v in lc.moving():
            t = lc.p.strip(ty)
            if lc.p.types[t].get('n') in (RAW, ITER, ITERMUT) and isinstance(v, S):
                return Raw(lc.ex, lc.st, v, t)

    def slices(self, lc):
        for v in lc.iters('sliter'):
            return v

    def invariant(self, lc):
        cx = lc.ex.cx0
        o = deq(cx)
        if self.slices(lc) is None and self.local_iter(lc) is None:
            raise LostAnchor('lost anchor: no iterator at the loop of ' + lc.fn['key'])

        def inv(lc):
            ex, st = lc.ex, lc.st
            v = self.slices(lc)
            if v is not None:
                k = add(v.ptr.idx, v.lo)
                return [('it runs over the subarrays', And(eq(v.ptr.obj, o.P), eq(v.ptr.idx, o.a), le(0, v.lo), le(v.lo, v.hi), eq(add(v.ptr.idx, v.hi), add(o.z, 1)))),
                        ('the subarrays ahead are not freed yet', forall_at(lambda j: Imp(And(le(k, j), le(j, o.z)), ex.alive(st, o.sub(j))), o.sub)),
                        ('the array of subarrays is not freed yet', ex.alive(st, o.P))]
            it = self.local_iter(lc)
            return it.inv() + [('it runs to the end', And(eq(it.P, o.P), eq(it.z, o.z), eq(it.ei, o.ei), le(o.a, it.a))),
                               ('no other place holds an element', each_place(lambda x, i: Imp(And(o.member(x), le(0, i), lt(i, o.SZ), Not(it.inside(x, i))), Not(it.there(x, i))), lambda x, i: [it.there(x, i)]))]
        return inv

    def owned(self, lc):
        cx = lc.ex.cx0
        o = deq(cx)
        v = self.slices(lc)
        if v is None:
            return o.fp()
        k = add(v.ptr.idx, v.lo)
        return FP([o.P], [(lambda x: And(o.member(x), le(k, o.slot(x))), o.sub, lambda j: And(le(k, j), le(j, o.z)))])


def local_deque(lc):
    for j, n, ty, v in lc.all_locals():
        t = lc.p.strip(ty)
        if lc.p.types[t].get('n') == DEQUE and isinstance(v, S):
            return Deq(lc.ex, lc.st, v, t)
    raise LostAnchor('lost anchor: no deque at the loop of ' + lc.fn['key'])


class FromIter(NewDeque):
    sized = True

    def variants(self):
        return SIZES

    def may_panic(self, cx):
        return True

    def items(self, cx):
        it = cx.args[0]
        if not isinstance(it, It) or it.kind != 'param':
            raise Unsupported('iterator argument')
        return it

    def witness(self, cx):
        pass

    def rel(self, ex, st, n, it, k):
        return [('length', eq(n.len(), k)), ('elements', each_place(lambda x, i: Imp(n.inside(x, i), val_eq(n.val(x, i), ex.spec.seq_value(ex, st, 'ITEM%s' % it.id, sub(n.lin(x, i), n.lo()), n.ety))),
                                                                    lambda x, i: leaf_terms(n.val(x, i))))]

    def ensures(self, cx):
        n, it = self.res(cx), self.items(cx)
        return n.inv() + self.rel(cx.ex, cx.st, n, it, it.n)

    def owned(self, lc):
        return local_deque(lc).fp()

    def invariant(self, lc):
        from .vector import progress
        cx = lc.ex.cx0
        it = self.items(cx)
        local_deque(lc), progress(lc)

        def inv(lc):
            n = local_deque(lc)
            k = progress(lc)
            return n.inv() + self.rel(lc.ex, lc.st, n, it, k) + [('blocks are ours', And(Not(cx.ex.alive(cx.old, n.P)), forall_at(lambda j: Imp(And(le(n.a, j), le(j, n.z)), Not(cx.ex.alive(cx.old, n.sub(j)))), n.sub))),
                                                                 ('progress', And(le(0, k), le(k, it.n)))]
        return inv


for _t in (DEQUE, QUEUE):
    CONTRACTS.append(type('FromIter_', (FromIter,), {'key': '<%s as FromIterator<T>>::from_iter' % _t}))


# ---------------------------------------------------------------- removal from the middle
class Nth(RawNext):
    """Iterator::nth and DoubleEndedIterator::nth_back of core, which an iterator inherits: next, n + 1 times"""

    def some(self, cx, o):
        return lt(cx.args[1], sub(o.hi(), o.lo()))

    def results(self, cx):
        a, b = cx.ex.fork(cx.st, self.some(cx, self.it(cx)))
        return ([(a, some(self.item(cx, a)))] if a is not None else []) + ([(b, NONE)] if b is not None else [])

    def requires(self, cx):
        return self.it(cx).inv() + [('a count', le(0, cx.args[1]))]

    def ensures(self, cx):
        o, n = self.it(cx), self.it(cx, cx.st)
        c, k, r = self.some(cx, o), cx.args[1], cx.res
        out = n.inv() + [('same deque', eq(n.P, o.P)), ('Some', eq(eq(r.d, 1), c))]
        if self.back:
            out += [('the front stays', And(eq(n.a, o.a), eq(n.bi, o.bi))), ('steps', eq(n.hi(), If(c, sub(o.hi(), add(k, 1)), o.lo())))]
            x, i = n.eo, n.ei
        else:
            out += [('the end stays', And(eq(n.z, o.z), eq(n.ei, o.ei))), ('steps', eq(n.lo(), If(c, add(o.lo(), add(k, 1)), o.hi())))]
            x = i = None
        if 1 in r.vs:
            q = r.vs[1][0]
            out += [('the item', Imp(c, And(o.inside(q.obj, q.idx), eq(o.lin(q.obj, q.idx), sub(sub(o.hi(), 1), k) if self.back else add(o.lo(), k)))))]
        return out


NTH, NTH_BACK = Nth(), Nth()
NTH.key, NTH_BACK.key = 'core::iter::traits::iterator::Iterator::nth', 'core::iter::traits::double_ended::DoubleEndedIterator::nth_back'
NTH_BACK.back = True


def nth_model(con):
    def f(ex, st, c):
        t = ex.p.types[ex.p.strip(ex.p.pointee(c.argtys[0]))]
        if t.get('n') not in (RAW, ITER, ITERMUT):
            from ..models import NOMODEL
            return NOMODEL
        ex.trusted.add('Iterator::nth(n) and nth_back(n) of core call next (next_back) n + 1 times')
        r = ex.apply_contract(st, con, c)
        return r if isinstance(r, list) else [r]
    return f


MODELS = {NTH.key: nth_model(NTH), NTH_BACK.key: nth_model(NTH_BACK)}


class Stepper:
    """an iterator of a deque under adapters: which place it gives next"""

    def __init__(self, ex, st, val, ty):
        p = ex.p
        ty = p.strip(ty)
        self.n, self.rev = 0, False
        while True:
            t = p.types[ty].get('n')
            if t == 'core::iter::adapters::skip::Skip':
                it, self_n = field(ex, ty, val, 'iter', 0)[0], field(ex, ty, val, 'n', 1)[0]
                self.n = add(self.n, self_n)
                val, ty = it, p.strip(field(ex, ty, val, 'iter', 0)[1])
            elif t == 'core::iter::adapters::rev::Rev':
                self.rev = not self.rev
                val, ty = val.f[0], p.strip(p.fields(ty)[0])
            else:
                break
        self.raw = Raw(ex, st, val, ty)

    def place(self):
        """the place it gives next, counted from the first cell"""
        return sub(sub(self.raw.hi(), 1), self.n) if self.rev else add(self.raw.lo(), self.n)


def steppers(lc):
    out = []
    for j, n, ty, v in lc.locals():
        if isinstance(v, S):
            try:
                out.append(Stepper(lc.ex, lc.st, v, ty))
            except (LostAnchor, Unsupported):
                pass
    return out


@contract
class Remove(OptDeq):
    key = 'deque::Deque::remove'
    mut = True
    sized = True

    def results(self, cx):
        a, b = cx.ex.fork(cx.st, lt(cx.args[1], deq(cx).len()))
        return ([(a, some(self.item(cx, a)))] if a is not None else []) + ([(b, NONE)] if b is not None else [])

    def witness(self, cx):
        deq(cx, 0, cx.st).renumber(cx.st)

    def at(self, o, q):
        """the element at place q"""
        return o.val(o.sub(I(q) / o.SZ), I(q) % o.SZ)

    def near(self, o, x, i, d):
        """the element d places after place (x, i)"""
        k = o.slot(x)
        up = If(lt(i, sub(o.SZ, 1)), o.val(x, add(i, 1)), o.val(o.sub(add(k, 1)), 0))
        down = If(lt(0, i), o.val(x, sub(i, 1)), o.val(o.sub(sub(k, 1)), sub(o.SZ, 1)))
        return lambda v: And(Imp(eq(d, 0), val_eq(v, o.val(x, i))), Imp(eq(d, 1), val_eq(v, up)), Imp(eq(d, -1), val_eq(v, down)),
                             Imp(Or(lt(d, -1), lt(1, d)), val_eq(v, self.at(o, add(o.lin(x, i), d)))))

    def post(self, cx, o, n):
        r, j = cx.res, cx.args[1]
        c = lt(j, o.len())
        out = [('Some exactly when there is one', eq(eq(r.d, 1), c)), ('one shorter', eq(n.len(), If(c, sub(o.len(), 1), o.len())))]
        if 1 in r.vs:
            out += [('the one at the index is returned', Imp(c, val_eq(r.vs[1][0], self.at(o, add(o.lo(), j)))))]

        def kept(x, i):
            m = sub(n.lin(x, i), n.lo())
            return Imp(n.inside(x, i), self.near(o, x, i, add(sub(o.lo(), n.lo()), If(And(c, le(j, m)), 1, 0)))(n.val(x, i)))
        return out + [('the others are kept in order', each_place(kept, lambda x, i: leaf_terms(n.val(x, i))))]

    def invariant(self, lc):
        cx = lc.ex.cx0
        o = deq(cx)
        R = add(o.lo(), cx.args[1])

        def pair(lc):
            s = steppers(lc)
            if len(s) < 2:
                raise LostAnchor('lost anchor: no two iterators at the loop of ' + lc.fn['key'])
            return s[0], s[1]
        pair(lc)

        def inv(lc):
            st = lc.st
            s, t = pair(lc)
            h = Hole(lc.ex, st, o)
            g = s.place()
            ok = And(le(o.lo(), g), lt(g, o.hi()))
            out = s.raw.inv() + t.raw.inv()
            for x in (s, t):
                out += [('over this deque', And(eq(x.raw.P, o.P), le(0, x.n), eq(x.raw.lo() if x.rev else x.raw.hi(), o.lo() if x.rev else o.hi()), le(o.lo(), x.raw.lo()), le(x.raw.hi(), o.hi())))]
            d = lambda p: If(And(le(R, p), lt(p, g)), 1, If(And(lt(g, p), le(p, R)), -1, 0))
            out += [('the element to remove is at the first iterator', And(ok, le(g, R) if s.rev else le(R, g))), ('the second one is one step ahead', And(s.rev == t.rev, eq(t.place(), sub(g, 1) if s.rev else add(g, 1)))),
                    ('the elements passed moved up', each_place(lambda x, i: Imp(o.inside(x, i), If(eq(o.lin(x, i), g), val_eq(h.val(x, i), self.at(o, R)), self.near(o, x, i, d(o.lin(x, i)))(h.val(x, i)))), lambda x, i: leaf_terms(h.val(x, i)))),
                    ('the same places hold elements', each_place(lambda x, i: Imp(And(o.member(x), le(0, i), lt(i, o.SZ)), eq(h.there(x, i), o.inside(x, i))), lambda x, i: [h.there(x, i)]))]
            return out
        return inv

    def owned(self, lc):
        return None


class Hole(Span):
    """the elements of deque o in another state"""

    def __init__(self, ex, st, o):
        self.ex, self.st, self.ety = ex, st, o.ety
