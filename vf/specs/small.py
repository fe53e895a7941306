"""Hashes, comparisons, the packed parent/color word, the provided methods of Allocator."""
from .util import *
from ..models import model, M, UNIT, opt
from ..ex import NOMODEL

CONTRACTS = []


def contract(cls):
    CONTRACTS.append(cls)
    return cls


# ---------------------------------------------------------------- hashes of numbers
class HashNum(Contract):
    pure = True
    float = False

    def ensures(self, cx):
        v = cx.val(0)
        ty = cx.valty(0)
        if cx.p.k(ty) == 'float':
            # `as usize`: towards zero, saturating
            t = z3.ToInt(v)
            t = z3.If(v < 0, z3.IntVal(0), z3.If(t > 2 ** 64 - 1, z3.IntVal(2 ** 64 - 1), t))
            return [('the number itself', eq(cx.res, t))]
        if cx.p.k(ty) == 'bool':
            return [('0 or 1', eq(cx.res, If(v, 1, 0)))]
        return [('the number itself, sign extended', eq(cx.res, If(lt(v, 0), add(v, 2 ** 64), v)))]


for _t in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize', 'f32', 'f64', 'bool'):
    CONTRACTS.append(type('HashNum_', (HashNum,), {'key': '<hash::DefaultHash<%s> as Hash<%s>>::hash' % (_t, _t)}))


# ---------------------------------------------------------------- hashes of strings
def fnv(ex, st, fat):
    """k -> the FNV-1 hash of the first k bytes, defined by its recursion on the bytes in state st"""
    q = fat.ptr
    u32 = ex.tyid('u32', {'k': 'int', 'n': 'u32', 's': 'u32'})
    h = ex.heap(st, ex.canon(q.base, q.path))
    names = ex.__dict__.setdefault('_fnv', {})
    k = (id(h), str(q.obj), str(q.idx))
    if k not in names:
        f = uf('FNV%d' % len(names), 1, 'int')
        names[k] = (f, h)
    f = names[k][0]
    X = uf('XOR', 2, 'int')
    st.pc.append(f(0) == 2166136261)
    st.pc.append(forall(lambda i: Imp(And(le(0, i), lt(i, fat.len)),
                                      eq(f(i + 1), X(I(ex.wrap(mul(f(i), 16777619), u32)), I(h.read(q.obj, add(q.idx, i))))))))
    st.pc.append(forall(lambda a, b: eq(X(a, b), X(b, a)), 2))
    return f


class Bytes(Contract):
    """hash of the bytes of a string"""
    pure = True

    def bytes(self, cx):
        v = cx.args[0]
        if isinstance(v, Fat):
            return v
        if isinstance(v, It) and v.kind == 'bytes':
            return v.fat
        v = cx.val(0)
        if isinstance(v, Fat):
            return v
        raise Unsupported('hash of %r' % (v,))

    def ensures(self, cx):
        b = self.bytes(cx)
        g = fnv(cx.ex, cx.old if not cx.caller else cx.st, b)
        if not cx.caller:
            g = fnv(cx.ex, cx.st, b) if False else g
        cx.st.pc.extend(cx.old.pc[-3:] if not cx.caller else [])
        return [('FNV-1 of its bytes', eq(cx.res, g(I(b.len))))]

    def invariant(self, lc):
        cx = lc.ex.cx0
        b = self.bytes(cx)
        accs = []

        def inv(lc):
            st = lc.st
            g = fnv(lc.ex, cx.old, b)
            st.pc.extend(cx.old.pc[-3:])
            its = [v for v in lc.iters('sliter')]
            if not its:
                raise LostAnchor('lost anchor: no slice iterator at the loop of ' + lc.fn['key'])
            k = sub(add(its[0].ptr.idx, its[0].lo), b.ptr.idx)
            acc = [(r, pa) for (r, pa), ty in lc.mod[0].items() if lc.p.k(ty) == 'int' and lc.p.s(ty) in ('u32', 'usize', 'u64')]
            if not acc:
                raise LostAnchor('lost anchor: no running hash at the loop of ' + lc.fn['key'])
            out = [('progress', And(le(0, k), le(k, b.len), eq(its[0].ptr.obj, b.ptr.obj), eq(add(its[0].ptr.idx, its[0].hi), add(b.ptr.idx, b.len))))]
            for r, pa in acc:
                v = lc.ex.get_in(st, st.store[r], pa)
                out.append(('hash so far', eq(v, g(I(k)))))
            return out
        return inv


@contract
class Fnv1(Bytes):
    key = 'hash::fnv1'
    inline = True        # callers see its body: their contract says the same of it

    def param_value(self, ex, st, n, name):
        v = ex.fresh(st, ex.p.bystr['&[u8]'], name)
        st.pc.append(z3.And(v.ptr.obj > 0, v.ptr.idx >= 0))
        st.pc.append(B(ex.alive(st, v.ptr.obj)))
        st.pc.append(I(v.ptr.idx) + v.len <= I(ex.blen(st, v.ptr.obj)))
        return It('bytes', fat=v)


for _k in ('str', '&str'):
    CONTRACTS.append(type('HashStr_', (Bytes,), {'key': '<hash::DefaultHash<%s> as Hash<%s>>::hash' % (_k, _k)}))


def strlen(ex, st, q):
    """the length of the C string at q: as documented, there is a first null byte"""
    f = uf('STRLEN', 2, 'int')
    n = f(I(q.obj), I(q.idx))
    u8 = ex.u8()
    rd = lambda i: ex.hread(st, ex.canon(u8, ()), q.obj, i)
    return n, [('a C string', And(gt(q.obj, 0), ex.alive(st, q.obj), le(0, q.idx), le(0, n), lt(n, 2 ** 63 - 1), lt(add(q.idx, n), ex.blen(st, q.obj)),
                                  eq(rd(add(q.idx, n)), 0), forall(lambda i: Imp(And(le(q.idx, i), lt(i, add(q.idx, n))), ne(rd(i), 0)))))]


@contract
class HashC(Bytes):
    key = '<hash::DefaultHash<*const i8> as Hash<*const i8>>::hash'

    def requires(self, cx):
        return strlen(cx.ex, cx.old, cx.val(0))[1]

    def bytes(self, cx):
        q = cx.val(0)
        n, _ = strlen(cx.ex, cx.old, q)
        return Fat(Ptr(q.obj, q.idx, cx.ex.u8()), n)


@model('core::ffi::c_str::CStr::from_ptr')
def cstr_from_ptr(ex, st, c):
    q = c.args[0]
    n, pre = strlen(ex, st, q)
    for name, g in pre:
        ex.prove(st, g, 'CStr::from_ptr is given ' + name, c.line)
    return Fat(Ptr(q.obj, q.idx, ex.u8()), n)


@model('core::ffi::c_str::CStr::to_bytes')
def cstr_bytes(ex, st, c):
    return c.args[0]


@model('core::ffi::c_str::CStr::to_bytes_with_nul')
def cstr_bytes_nul(ex, st, c):
    return Fat(c.args[0].ptr, add(c.args[0].len, 1))


@model('core::ffi::c_str::CStr::count_bytes')
def cstr_count(ex, st, c):
    return c.args[0].len


@model('core::convert::AsRef::as_ref')
def as_ref(ex, st, c):
    ty = ex.p.pointee(c.argtys[0])
    if ex.p.k(ty) == 'param':
        v = ex.peek(st, c.args[0], ty)
        if isinstance(v, It) and v.kind == 'bytes':
            ex.trusted.add('AsRef<[u8]> of a caller returns the same bytes every time')
            return v.fat
    return NOMODEL


# ---------------------------------------------------------------- comparisons
class Cmp2(Contract):
    pure = True

    def ensures(self, cx):
        a, b = cx.val(0), cx.val(1)
        n = cx.p.types[cx.valty(0)].get('n', '?')
        return [(self.what, eq(cx.res, self.rel(n, I(a), I(b))))]


@contract
class LessC(Cmp2):
    key = '<compare::Less as Compare<T>>::compare'
    what = 'true exactly when left < right'

    def rel(self, n, a, b):
        return uf('LT_' + n, 2, 'bool')(a, b)


@contract
class GreaterC(Cmp2):
    key = '<compare::Greater as Compare<T>>::compare'
    what = 'true exactly when left > right'

    def rel(self, n, a, b):
        return uf('LT_' + n, 2, 'bool')(b, a)


@contract
class EqC(Cmp2):
    key = '<equals::EqualTo as Equals<T>>::equals'
    what = 'true exactly when left == right'

    def rel(self, n, a, b):
        return uf('EQ_' + n, 2, 'bool')(a, b)


# ---------------------------------------------------------------- parent pointer and color in one word
ADDR, NODE = uf('ADDR', 1, 'int'), uf('NODE', 1, 'int')


def addr_facts(st, o):
    """addresses of nodes: distinct, 8-aligned, null is 0 (a node holds pointers, so its alignment is a multiple of 8)"""
    a = ADDR(I(o))
    st.pc.append(z3.And(a >= 0, a < 2 ** 64, a % 8 == 0, NODE(a) == I(o)))
    st.pc.append(z3.And(ADDR(0) == 0, NODE(0) == 0))
    return a


class PC:
    """the word as (parent, color): red is False"""

    def __init__(self, cx, v):
        self.raw = None
        if isinstance(v, It):
            self.o, self.c = v.o, v.c
        else:
            self.raw = r = I(v.f[0])
            self.o, self.c = NODE(r - r % 2), eq(r % 2, 1)

    def inv(self, cx, st):
        if self.raw is None:
            return []
        addr_facts(st, self.o)
        return [('rep: the word is an address and a color bit', eq(ADDR(I(self.o)), self.raw - self.raw % 2))]


class PCC(Contract):
    raw_pc = True
    pure = True
    check_leaks = False

    def requires(self, cx):
        if cx.caller:
            return []
        return PC(cx, cx.val(0)).inv(cx, cx.st)

    def color(self, cx, v):
        return eq(v.d, 1)


@contract
class PCColor(PCC):
    key = 'internal::rb_tree::node::ParentColor::color'

    def ensures(self, cx):
        return [('the color', eq(self.color(cx, cx.res), PC(cx, cx.val(0)).c))]


@contract
class PCPtr(PCC):
    key = 'internal::rb_tree::node::ParentColor::ptr'

    def ensures(self, cx):
        return [('the parent', eq(cx.res.obj, PC(cx, cx.val(0)).o))]


class PCSet(PCC):
    def results(self, cx):
        return [(cx.st, UNIT)]

    def ensures(self, cx):
        o, n = PC(cx, cx.val(0)), PC(cx, cx.val(0, cx.st))
        return n.inv(cx, cx.st) + self.post(cx, o, n)


@contract
class PCSetColor(PCSet):
    key = 'internal::rb_tree::node::ParentColor::_set_color'

    def post(self, cx, o, n):
        return [('the color is the new one', eq(n.c, self.color(cx, cx.args[1]))), ('the parent is kept', eq(n.o, o.o))]


@contract
class PCSetPtr(PCSet):
    key = 'internal::rb_tree::node::ParentColor::_set_ptr'

    def requires(self, cx):
        addr_facts(cx.st, cx.args[1].obj)
        return PCC.requires(self, cx)

    def post(self, cx, o, n):
        return [('the parent is the new one', eq(n.o, cx.args[1].obj)), ('the color is kept', eq(n.c, o.c))]


@contract
class PCNew(PCC):
    key = 'internal::rb_tree::node::ParentColor::_new'

    def requires(self, cx):
        addr_facts(cx.st, cx.args[1].obj)
        return []

    def ensures(self, cx):
        n = PC(cx, cx.res)
        return n.inv(cx, cx.st) + [('the parent', eq(n.o, cx.args[1].obj)), ('the color', eq(n.c, self.color(cx, cx.args[0])))]


@contract
class PCDefault(PCC):
    key = '<internal::rb_tree::node::ParentColor as Default>::default'

    def requires(self, cx):
        addr_facts(cx.st, 0)
        return []

    def ensures(self, cx):
        n = PC(cx, cx.res)
        return n.inv(cx, cx.st) + [('no parent, red', And(eq(n.o, 0), Not(n.c)))]


class NodeC(Contract):
    check_leaks = False

    def heap_arg(self, i):
        return True

    def f(self, cx, name, st=None, o=None):
        ex = cx.ex
        st = st or cx.old
        nd = cx.p.strip(cx.p.pointee(cx.argtys[0]))
        o = cx.args[0].obj if o is None else o
        i = cx.p.field_index(nd, name)
        key = ex.canon(nd, (i,))
        if name == 'parent':
            return ex.hread(st, key + '#o', o, 0), ex.hread(st, key + '#c', o, 0, 'bool')
        return ex.hread(st, key + '#o', o, 0)

    def footprint(self, cx):
        return FP([cx.args[0].obj])

    def post_footprint(self, cx):
        return FP([cx.args[0].obj])


@contract
class NColor(NodeC):
    key = 'internal::rb_tree::node::Node::_color'
    pure = True

    def ensures(self, cx):
        return [('the color', eq(eq(cx.res.d, 1), self.f(cx, 'parent')[1]))]


@contract
class NParent(NodeC):
    key = 'internal::rb_tree::node::Node::_parent'
    pure = True
    inline = True

    def ensures(self, cx):
        p = self.f(cx, 'parent')[0]
        r = cx.res
        return [('Some exactly when there is one', eq(eq(r.d, 1), ne(p, 0)))] + ([('the parent', Imp(ne(p, 0), eq(r.vs[1][0].obj, p)))] if 1 in r.vs else [])


class NSet(NodeC):
    others = ('left', 'right', 'parent')

    def kept(self, cx, *names):
        return [(n + ' is kept', And([eq(a, b) for a, b in zip(tup(self.f(cx, n)), tup(self.f(cx, n, cx.st)))])) for n in names]


def tup(x):
    return x if isinstance(x, tuple) else (x,)


@contract
class NSetColor(NSet):
    key = 'internal::rb_tree::node::Node::_set_color'

    def ensures(self, cx):
        return [('the color', eq(self.f(cx, 'parent', cx.st)[1], eq(cx.args[1].d, 1))), ('the parent is kept', eq(self.f(cx, 'parent', cx.st)[0], self.f(cx, 'parent')[0]))] + self.kept(cx, 'left', 'right')


@contract
class NSetParent(NSet):
    key = 'internal::rb_tree::node::Node::_set_parent'

    def ensures(self, cx):
        return [('the old parent is returned', eq(cx.res.obj, self.f(cx, 'parent')[0])), ('the parent', eq(self.f(cx, 'parent', cx.st)[0], cx.args[1].obj)),
                ('the color is kept', eq(self.f(cx, 'parent', cx.st)[1], self.f(cx, 'parent')[1]))] + self.kept(cx, 'left', 'right')


class NSetChild(NSet):
    def requires(self, cx):
        o = cx.args[1].obj
        return [('the child is a node', Or(eq(o, 0), And(cx.ex.alive(cx.old, o), eq(cx.ex.blen(cx.old, o), 1)))), ('of its own', ne(o, cx.args[0].obj))]

    def footprint(self, cx):
        return FP([cx.args[0].obj, cx.args[1].obj])

    post_footprint = footprint

    def ensures(self, cx):
        c = cx.args[1].obj
        k = lambda st: self.f(cx, 'parent', st, c)
        return [('the old child is returned', eq(cx.res.obj, self.f(cx, self.side))), ('the child', eq(self.f(cx, self.side, cx.st), c)),
                ('the child has this parent', Imp(ne(c, 0), And(eq(k(cx.st)[0], cx.args[0].obj), eq(k(cx.st)[1], k(cx.old)[1]))))] + self.kept(cx, *[n for n in self.others if n != self.side])


for _s in ('left', 'right'):
    CONTRACTS.append(type('NSet_' + _s, (NSetChild,), {'key': 'internal::rb_tree::node::Node::_set_' + _s, 'side': _s}))


# ---------------------------------------------------------------- allocators
POW2 = uf('POW2', 1, 'bool')
ASIZE, AALIGN = uf('ASIZE', 1, 'int'), uf('AALIGN', 1, 'int')
OOM = z3.Bool('OUT_OF_MEMORY')
MAXI = 2 ** 63 - 1


@model('core::alloc::layout::Layout::array')
def layout_array(ex, st, c):
    t = c.targs[0]
    sz, al = ex.size_of(st, t), ex.align_of(st, t)
    st.pc.append(POW2(I(al)))
    st.pc.append(POW2(1))
    n = mul(c.args[0], sz)
    return En(If(le(add(n, sub(al, 1)), MAXI), 0, 1), {0: (It('layout', size=n, align=al),), 1: (S([]),)})


@model('core::alloc::layout::Layout::from_size_align')
def layout_fsa(ex, st, c):
    n, a = c.args
    return En(If(And(POW2(I(a)), le(add(n, sub(a, 1)), MAXI)), 0, 1), {0: (It('layout', size=n, align=a),), 1: (S([]),)})


@model('core::alloc::layout::Layout::align_to')
def layout_align_to(ex, st, c):
    l = ex.peek(st, c.args[0], ex.p.pointee(c.argtys[0])) if ex.p.k(c.argtys[0]) == 'ref' else c.args[0]
    a = c.args[1]
    al = If(ge(l.align, a), l.align, a)
    return En(If(And(POW2(I(a)), le(add(l.size, sub(al, 1)), MAXI)), 0, 1), {0: (l.but(align=al),), 1: (S([]),)})


@model('core::alloc::layout::Layout::size')
def layout_size(ex, st, c):
    return ex.peek(st, c.args[0], ex.p.pointee(c.argtys[0])).size


@model('core::alloc::layout::Layout::align')
def layout_align(ex, st, c):
    return ex.peek(st, c.args[0], ex.p.pointee(c.argtys[0])).align


@model('alloc::alloc::alloc', 'alloc::alloc::alloc_zeroed')
def std_alloc(ex, st, c):
    l = c.args[0]
    ex.prove(st, ne(l.size, 0), 'the global allocator is not asked for nothing', c.line)
    a, b = ex.fork(st, Not(OOM))
    o = ex.alloc(a, ex.u8(), l.size, 'raw')
    ex.assume(a, eq(ASIZE(o), l.size))
    ex.assume(a, eq(AALIGN(o), l.align))
    from ..models import Multi
    return Multi([(a, Ptr(o, 0, ex.u8())), (b, Ptr(0, 0, ex.u8()))])


@model('alloc::alloc::dealloc')
def std_dealloc(ex, st, c):
    q, l = c.args
    ex.prove(st, And(ne(q.obj, 0), ex.alive(st, q.obj), eq(q.idx, 0)), 'freed block is live', c.line)
    ex.prove(st, And(eq(l.size, ASIZE(I(q.obj))), eq(l.align, AALIGN(I(q.obj)))), 'freed with the layout it was allocated with', c.line, 'memory')
    ex.hwrite(st, 'ALIVE', q.obj, 0, False, 'bool')
    return UNIT


def note(st, what, *a):
    st.ghost['raw'] = st.ghost.get('raw', ()) + ((what,) + a,)


@model('allocator::Allocator::allocate_raw_aligned')
def raw_alloc(ex, st, c):
    if ex.p.k(c.targs[0]) != 'param':
        return NOMODEL
    ex.trusted.add('Allocator implementations return a fresh, suitably sized and aligned block or panic')
    o = ex.alloc(st, ex.u8(), c.args[1], 'raw')
    note(st, 'alloc', c.args[1], c.args[2], o)
    return Ptr(o, 0, ex.p.strip(ex.p.pointee(c.destty)))


@model('allocator::Allocator::allocate_raw')
def raw_alloc8(ex, st, c):
    if ex.p.k(c.targs[0]) != 'param':
        return NOMODEL
    c.args = list(c.args) + [8]
    return raw_alloc(ex, st, c)


@model('allocator::Allocator::deallocate_raw_aligned')
def raw_dealloc(ex, st, c):
    if ex.p.k(c.targs[0]) != 'param':
        return NOMODEL
    note(st, 'dealloc', c.args[1].obj, c.args[2], c.args[3], c.args[1].idx)
    ex.hwrite(st, 'ALIVE', c.args[1].obj, 0, False, 'bool')
    return UNIT


class AllocC(Contract):
    """what a provided method asks the required ones for"""
    inline = True
    extra = 0

    def mods(self, cx):
        return []

    def size(self, cx, n):
        return add(n, self.extra)

    def align(self, cx):
        return 8

    def post_footprint(self, cx):
        return FP([cx.res.obj])

    def ensures(self, cx):
        r = cx.st.ghost.get('raw', ())
        ok = len(r) == 1 and r[0][0] == 'alloc'
        out = [('one request', ok)]
        if ok:
            out += [('of the right size', eq(r[0][1], self.size(cx, cx.args[1]))), ('of the right alignment', eq(r[0][2], self.align(cx))),
                    ('whose block is returned', And(eq(cx.res.obj, r[0][3]), eq(cx.res.idx, 0)))]
        return out


class DeallocC(AllocC):
    def footprint(self, cx):
        return FP([cx.args[1].obj])

    def requires(self, cx):
        return [('a block is given back', And(gt(cx.args[1].obj, 0), eq(cx.args[1].idx, 0), cx.ex.alive(cx.old, cx.args[1].obj))),
                ('of at most isize::MAX bytes', le(self.size(cx, cx.args[2]), MAXI))]

    def post_footprint(self, cx):
        return FP()

    def ensures(self, cx):
        r = cx.st.ghost.get('raw', ())
        ok = len(r) == 1 and r[0][0] == 'dealloc'
        out = [('one release', ok)]
        if ok:
            out += [('of that block', And(eq(r[0][1], cx.args[1].obj), eq(r[0][4], 0))), ('of the right size', eq(r[0][2], self.size(cx, cx.args[2]))),
                    ('of the right alignment', eq(r[0][3], self.align(cx)))]
        return out


def elem(cx):
    return cx.targs[1]


@contract
class Allocate(AllocC):
    key = 'allocator::Allocator::allocate'

    def size(self, cx, n):
        return mul(n, cx.ex.size_of(cx.st, elem(cx)))

    def align(self, cx):
        return cx.ex.align_of(cx.st, elem(cx))

    def may_panic(self, cx):
        return gt(self.size(cx, cx.args[1]), 2 ** 64 - 1)


@contract
class AllocateRaw(AllocC):
    key = 'allocator::Allocator::allocate_raw'


@contract
class Deallocate(DeallocC):
    key = 'allocator::Allocator::deallocate'
    size, align = Allocate.size, Allocate.align


@contract
class DeallocateRaw(DeallocC):
    key = 'allocator::Allocator::deallocate_raw'


class NullT:
    extra = 1

    def align(self, cx):
        return cx.args[self.al]


@contract
class NullAlloc(NullT, AllocC):
    key = '<string::null_terminator_allocator::NullTerminatorAllocator as Allocator>::allocate_raw_aligned'
    al = 2

    def may_panic(self, cx):
        return gt(add(cx.args[1], 1), 2 ** 64 - 1)


@contract
class NullDealloc(NullT, DeallocC):
    key = '<string::null_terminator_allocator::NullTerminatorAllocator as Allocator>::deallocate_raw_aligned'
    al = 3


@contract
class DefAlloc(Contract):
    key = '<allocator::DefaultAllocator as Allocator>::allocate_raw_aligned'
    inline = True

    def requires(self, cx):
        return [('machine word has an alignment', POW2(1))]

    def bad(self, cx):
        n, a = cx.args[1], cx.args[2]
        return Or(eq(n, 0), Not(POW2(I(a))), gt(add(n, If(ge(a, 1), sub(a, 1), 0)), MAXI))

    def may_panic(self, cx):
        return Or(self.bad(cx), OOM)

    def ensures(self, cx):
        q, n, a = cx.res, cx.args[1], cx.args[2]
        al = If(ge(a, 1), a, 1)
        return [('never null', gt(q.obj, 0)), ('start of a fresh block', And(eq(q.idx, 0), cx.ex.alive(cx.st, q.obj), Not(cx.ex.alive(cx.old, q.obj)))),
                ('of the size asked for', eq(ASIZE(I(q.obj)), n)), ('of the alignment asked for', eq(AALIGN(I(q.obj)), al)), ('request was sound', Not(self.bad(cx)))]

    def post_footprint(self, cx):
        return FP([cx.res.obj])


@contract
class DefDealloc(Contract):
    key = '<allocator::DefaultAllocator as Allocator>::deallocate_raw_aligned'
    inline = True

    def requires(self, cx):
        q, n, a = cx.args[1], cx.args[2], cx.args[3]
        return [('a block this allocator gave out for the same request', And(gt(q.obj, 0), eq(q.idx, 0), cx.ex.alive(cx.old, q.obj), eq(ASIZE(I(q.obj)), n),
                 eq(AALIGN(I(q.obj)), a), POW2(I(a)), ge(a, 1), le(add(n, sub(a, 1)), MAXI)))]

    def footprint(self, cx):
        return FP([cx.args[1].obj])

    def ensures(self, cx):
        return [('the block is gone', Not(cx.ex.alive(cx.st, cx.args[1].obj)))]
