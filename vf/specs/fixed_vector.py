"""Fixed vectors: a vector that begins in a buffer of its own. The buffer counts as a block that came from the
FixedVectorAllocator (made_by), which takes it back without doing anything: that is its contract below. The operations are
those of the vector (specs/vector.py), whose contracts are for every allocator."""
from .util import *
from .small import AllocC, DeallocC, MAXI
from .vector import Vec, VEC
from ..ex import MOVEREF

FV = 'fixed_vector::FixedVector'
FVA = 'fixed_vector::allocator::FixedVectorAllocator'
CONTRACTS = []


def contract(cls):
    CONTRACTS.append(cls)
    return cls


def pool_of(ex, aty, a):
    """(overflow allocator, begin of the buffer) of an allocator"""
    if ex.p.types[aty].get('n') != FVA:
        raise LostAnchor('lost anchor: %s is no allocator of a fixed vector' % ex.p.s(aty))
    return field(ex, aty, a, 'overflow_allocator', 0)[0], field(ex, aty, a, 'pool_begin', 1)[0]


class FVec:
    """FixedVector<T, N, A>: a vector over a buffer of N elements"""

    def __init__(self, ex, st, val, ty):
        ty = ex.p.strip(ty)
        d = ex.p.types[ty]
        if d.get('n') != FV:
            raise LostAnchor('lost anchor: %s is no fixed vector' % d['s'])
        fs = [ex.p.strip(f[1]) for f in d['variants'][0]['fields']]
        vi = [i for i, t in enumerate(fs) if ex.p.types[t].get('n') == VEC]
        bi = [i for i, t in enumerate(fs) if ex.p.k(t) == 'array']
        if len(vi) != 1 or len(bi) != 1:
            raise LostAnchor('lost anchor: vector and buffer of ' + d['s'])
        self.ex, self.st, self.vi = ex, st, vi[0]
        self.v = v = Vec(ex, st, val.f[vi[0]], fs[vi[0]])
        self.len, self.cap, self.obj, self.seq, self.ety = v.len, v.cap, v.obj, v.seq, v.ety
        self.buf = val.f[bi[0]]
        if not isinstance(self.buf, Box_):
            raise LostAnchor('lost anchor: buffer of ' + d['s'])
        self.B = self.buf.obj
        self.N = ex.arrlen(fs[bi[0]])
        self.over, self.pool = pool_of(ex, v.aty, v.alloc)
        ex.array_facts(st, fs[bi[0]])
        self.bseq = Seq(ex, st, self.B, self.ety)

    def inside(self):
        return And(ne(self.obj, 0), eq(self.obj, self.B))

    def inv(self):
        ex, st, v = self.ex, self.st, self.v
        b, e, c = v.b, v.e, v.c
        out = Not(self.inside())
        heap = And(ne(b.obj, 0), out)
        return rep([('there is a buffer', le(1, self.N)),
                    ('pointers are into one block', And(eq(e.obj, b.obj), eq(c.obj, b.obj), eq(b.idx, 0), le(0, e.idx), le(e.idx, c.idx), le(c.idx, max_elems(ex, st, self.ety)))),
                    ('no block without capacity', Imp(eq(b.obj, 0), eq(c.idx, 0))),
                    ('in the buffer the capacity is that of the buffer', Imp(self.inside(), eq(c.idx, self.N))),
                    ('outside of the buffer the block is live and as large as the capacity', Imp(heap, And(gt(b.obj, 0), ex.alive(st, b.obj), eq(ex.blen(st, b.obj), c.idx), lt(0, c.idx),
                                                           eq(ex.bty(st, b.obj), ex.tycode(self.ety)), eq(made_by(b.obj), ex.tycode(v.aty))))),
                    ('nothing is written past the block', Imp(heap, tail_kept(ex, st, b.obj, self.ety, c.idx))),
                    ('elements are there up to the length', self.seq.all_init(0, self.len)),
                    ('nothing is there past the length', self.seq.all_uninit(self.len, self.cap)),
                    ('nothing is in a buffer that is not used', Imp(out, self.bseq.all_uninit(0, self.N))),
                    ('the allocator knows the buffer', And(eq(self.pool.obj, self.B), eq(self.pool.idx, 0)))])


def fvec(cx, i=0, st=None):
    st = cx.old if st is None else st
    a, t = cx.args[i], cx.argtys[i]
    if cx.p.types[t].get('n') == MOVEREF:
        return FVec(cx.ex, st, cx.ex.get_in(st, st.store[a.root], a.path), cx.p.types[t]['args'][-1])
    return FVec(cx.ex, st, cx.val(i, st), cx.valty(i))




class FC(Contract):
    pure = True

    def requires(self, cx):
        return fvec(cx).inv()

    def ensures(self, cx):
        return unchanged(cx) + self.post(cx, fvec(cx))


@contract
class MaxSize(FC):
    key = FV + '::max_size'

    def post(self, cx, o):
        return [('the size of the buffer', eq(cx.res, o.N))]


@contract
class HasOverflowed(FC):
    key = FV + '::has_overflowed'
    inline = True

    def post(self, cx, o):
        return [('whether the elements are in memory of an allocator', eq(cx.res, And(ne(o.obj, 0), Not(o.inside()))))]


@contract
class AsRef(FC):
    key = '<%s as AsRef<[T]>>::as_ref' % FV

    def requires(self, cx):
        return fvec(cx).inv()

    def post(self, cx, o):
        r = cx.res
        return [('length', eq(r.len, o.len)), ('place', Imp(lt(0, o.len), And(eq(r.ptr.obj, o.obj), eq(r.ptr.idx, 0))))]


class DerefF(FC):
    inline = True

    def post(self, cx, o):
        r, a = cx.res, cx.args[0]
        return [('its vector', isinstance(r, LRef) and r.root == a.root and tuple(r.path) == tuple(a.path) + (o.vi,))]


for _k in ('<%s as Deref>::deref', '<%s as DerefMut>::deref_mut'):
    CONTRACTS.append(type('DerefF_', (DerefF,), {'key': _k % FV}))


@contract
class InitBase(Contract):
    key = FV + '::init_base_vec'
    inline = True
    pure = True

    def may_panic(self, cx):
        return eq(fvec(cx).N, 0)

    def ensures(self, cx):
        o, n = fvec(cx), fvec(cx, 0, cx.st)
        v = n.v
        return [('empty, in its own buffer', And([And(eq(q.obj, o.B), eq(q.idx, i)) for q, i in ((v.b, 0), (v.e, 0), (v.c, o.N))])),
                ('the allocator knows the buffer', And(eq(n.pool.obj, o.B), eq(n.pool.idx, 0))), ('the buffer stays', eq(n.B, o.B)), ('the overflow allocator stays', val_eq(S([n.over]), S([o.over])))]


class NewFV(InPlace):
    pure = True

    def may_panic(self, cx):
        n = [l for l in cx.targs if isinstance(l, str)]
        return eq(z3.Int('const_NODE_COUNT'), 0)

    def ensures(self, cx):
        v, ty = self.built(cx)
        n = FVec(cx.ex, cx.st, v, ty)
        return n.inv() + [('empty', eq(n.len, 0)), ('in its own buffer', n.inside())]


for _n in ('new', 'new_in'):
    CONTRACTS.append(type('NewFV_', (NewFV,), {'key': FV + '::' + _n}))


@contract
class MoveNewFV(Contract):
    key = '<%s as MoveNew>::move_new' % FV

    def mods(self, cx):
        return [1]

    def requires(self, cx):
        s, t = fvec(cx, 0), fvec(cx, 1)
        return s.inv() + [('nothing is in the new place', t.bseq.all_uninit(0, t.N)), ('two places', ne(s.B, t.B)), ('the elements of the one are not in the other', ne(s.obj, t.B))]

    def footprint(self, cx):
        s, t = fvec(cx, 0), fvec(cx, 1)
        return FP([s.obj, s.B, t.B])

    def post_footprint(self, cx):
        return FP([fvec(cx, 1, cx.st).obj])

    def ensures(self, cx):
        o, t = fvec(cx, 0), fvec(cx, 1)
        s, n = fvec(cx, 0, cx.st), fvec(cx, 1, cx.st)
        over = lambda f: And(ne(f.obj, 0), Not(f.inside()))
        return n.inv() + [('the buffer is where it was', eq(n.B, t.B)), ('length is kept', eq(n.len, o.len)), ('elements are kept', same(n.seq, o.seq, 0, o.len)),
                          ('capacity is kept', Imp(ne(o.obj, 0), eq(n.cap, o.cap))), ('it says the same of where they are', eq(over(n), over(o))),
                          ('the overflow allocator moves along', val_eq(S([n.over]), S([o.over]))), ('nothing is left behind', eq(s.obj, 0))]


# ---------------------------------------------------------------- the allocator
class FVAlloc(AllocC):
    def align(self, cx):
        return cx.args[self.al]


@contract
class FVAAlloc(FVAlloc):
    key = '<%s as Allocator>::allocate_raw_aligned' % FVA
    al = 2


@contract
class FVADealloc(DeallocC):
    key = '<%s as Allocator>::deallocate_raw_aligned' % FVA

    def own(self, cx):
        q = pool_of(cx.ex, cx.valty(0), cx.val(0))[1]
        p = cx.args[1]
        return And(eq(p.obj, q.obj), eq(p.idx, q.idx))

    def align(self, cx):
        return cx.args[3]

    def requires(self, cx):
        return [(n, Or(self.own(cx), g)) for n, g in DeallocC.requires(self, cx)]

    def footprint(self, cx):
        return FP([If(self.own(cx), 0, cx.args[1].obj)])

    def ensures(self, cx):
        r = cx.st.ghost.get('raw', ())
        own = self.own(cx)
        if not r:
            return [('nothing is released only if it is the buffer', own)]
        return [('the buffer is not released', Not(own))] + DeallocC.ensures(self, cx)


class FVANew(Contract):
    pure = True

    def over(self, cx):
        return None

    def ensures(self, cx):
        o, q = pool_of(cx.ex, cx.p.strip(cx.destty), cx.res)
        w = self.over(cx)
        return [('no buffer yet', eq(q.obj, 0))] + ([('with that overflow allocator', val_eq(S([o]), S([w])))] if w is not None else [])


@contract
class FVANewWith(FVANew):
    key = FVA + '::new_with'
    inline = True

    def over(self, cx):
        return cx.args[0]


@contract
class FVADefault(FVANew):
    key = '<%s as Default>::default' % FVA


@contract
class FVAClone(Contract):
    key = '<%s as Clone>::clone' % FVA
    pure = True

    def ensures(self, cx):
        t = cx.valty(0)
        o, q = pool_of(cx.ex, t, cx.val(0))
        o2, q2 = pool_of(cx.ex, t, cx.res)
        oty = field(cx.ex, t, cx.val(0), 'overflow_allocator', 0)[1]
        return [('a clone of the overflow allocator', val_eq(S([o2]), S([clone_of(cx.ex, oty, o)]))), ('the same buffer', And(eq(q2.obj, q.obj), eq(q2.idx, q.idx)))]
