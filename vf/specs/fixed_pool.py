"""Fixed pools. Pointers are plain addresses here (flat): a slot of the pool is a block of its own, at its address. Ghost
heaps: G:pool_base(0, 0) is the address of the first slot, G:pool_rank(0, a) the number of free slots behind the slot at a in
the list of free ones (negative if it is not in the list)."""
from .util import *
from .small import note

POOL, OVER, LINK = 'fixed_pool::FixedPool', 'fixed_pool::with_overflow::FixedPoolWithOverflow', 'fixed_pool::Link'
TOP = 2 ** 63
MULTIPLE = uf('MULTIPLE', 2, 'bool')
CONTRACTS = []


def contract(cls):
    CONTRACTS.append(cls)
    return cls


def sizes(cx, nty):
    """size and alignment of a node, and what is known of their multiples"""
    ex, st = cx.ex, cx.st
    s, al = I(ex.size_of(st, nty)), I(ex.align_of(st, nty))
    fs = [MULTIPLE(s, z3.IntVal(0)), MULTIPLE(al, z3.IntVal(0))]
    x, y = z3.Ints('mx my')
    fs.append(z3.ForAll([x, y], z3.Implies(z3.And(MULTIPLE(s, x), MULTIPLE(s, y), x < y), x + s <= y), patterns=[z3.MultiPattern(MULTIPLE(s, x), MULTIPLE(s, y))]))
    fs.append(z3.ForAll([x], z3.Implies(MULTIPLE(s, x), MULTIPLE(al, x)), patterns=[MULTIPLE(s, x)]))
    have = {f.get_id() for f in st.pc if not isinstance(f, bool)}
    st.pc += [f for f in fs if f.get_id() not in have]
    return s, al


def link_size(cx):
    t = cx.p.bystr.get(LINK)
    if t is None:
        raise LostAnchor('lost anchor: ' + LINK)
    return cx.ex.size_of(cx.st, t)


class Pool:
    def __init__(self, cx, st, v, ty):
        ex = cx.ex
        self.cx, self.ex, self.st, self.ty = cx, ex, st, ty
        d = ex.p.types[ty]
        if d.get('n') != POOL:
            raise LostAnchor('lost anchor: %s is no fixed pool' % d['s'])
        self.node = ex.p.strip(d['args'][0])
        self.s, self.al = sizes(cx, self.node)
        self.head, self.next, self.cap = (field(ex, ty, v, n, i)[0].obj for i, n in enumerate(('head', 'next', 'capacity')))
        self.lty = ex.p.bystr.get(LINK)
        if self.lty is None:
            raise LostAnchor('lost anchor: ' + LINK)
        self.base = ex.hread(st, 'G:pool_base', 0, 0)

    def rank(self, a):
        return self.ex.hread(self.st, 'G:pool_rank', 0, a)

    def link(self, a):
        return self.ex.hread(self.st, self.ex.canon(self.lty, (0,)) + '#o', a, 0)

    def slot(self, a):
        return And(le(self.base, a), lt(a, self.cap), MULTIPLE(self.s, I(sub(a, self.base))))

    def given(self, a):
        return And(self.slot(a), lt(a, self.next))

    def free(self, a):
        """is a in the list of free slots?"""
        return And(self.given(a), le(0, self.rank(a)))

    def in_use(self, a):
        return And(self.given(a), lt(self.rank(a), 0))

    def nfree(self):
        return If(eq(self.head, 0), 0, add(self.rank(self.head), 1))

    def inv(self):
        ex, st = self.ex, self.st

        def behind(a):
            return And(lt(self.rank(a), self.nfree()),
                       If(eq(self.rank(a), 0), eq(self.link(a), 0), And(self.free(self.link(a)), eq(self.rank(self.link(a)), sub(self.rank(a), 1)))))

        def pats(a, b):
            return [z3.MultiPattern(I(x), I(y)) for x in base_apps(self.rank(a), a) for y in base_apps(self.rank(b), b)]
        a, b = z3.Ints('sa!%d sb!%d' % (serial(), serial()))
        distinct = B(Imp(And(self.free(a), self.free(b), eq(self.rank(a), self.rank(b))), eq(a, b)))
        return rep([('the slots', And(le(0, self.base), le(self.base, self.next), le(self.next, self.cap), lt(self.cap, TOP), Or(lt(0, self.base), eq(self.base, self.cap)),
                                      MULTIPLE(self.s, I(sub(self.next, self.base))), MULTIPLE(self.s, I(sub(self.cap, self.base))))),
                    ('the first slot is aligned', MULTIPLE(self.al, I(self.base))),
                    ('the slots are there', forall_at(lambda a: Imp(self.slot(a), And(ex.alive(st, a), eq(ex.blen(st, a), 1))), lambda a: ex.alive(st, a))),
                    ('the first free slot', Or(eq(self.head, 0), self.free(self.head))),
                    ('the next free slot', forall_at(lambda a: Imp(self.free(a), behind(a)), lambda a: [self.rank(a), self.link(a)])),
                    ('no slot is in the list twice', z3.ForAll([a, b], distinct, patterns=pats(a, b)))])

    def pads(self):
        """what is known when a slot is found at address x: the one after it is a multiple further"""
        n = I(sub(self.next, self.base))
        return [z3.Implies(MULTIPLE(self.s, n), MULTIPLE(self.s, n + self.s))]

    def aligned(self, a):
        """a sum of multiples is one"""
        x = I(sub(a, self.base))
        self.st.pc.append(z3.Implies(z3.And(MULTIPLE(self.al, I(self.base)), MULTIPLE(self.al, x)), MULTIPLE(self.al, I(a))))
        return MULTIPLE(self.al, I(a))

    def all_in_use(self):
        return forall_at(lambda a: Imp(self.slot(a), self.in_use(a)), self.rank)

    def same_but(self, o, x):
        """in use now what was in use before, with the exception of x; nothing else changed"""
        return [('the other slots are as before', forall_at(lambda a: Imp(ne(a, x), eq(self.in_use(a), o.in_use(a))), self.rank)),
                ('the same slots', And(eq(self.cap, o.cap), eq(self.base, o.base)))]


def outside(cx):
    """a caller whose pointers are not plain addresses (a list over a pool) learns what memory the pool was given"""
    return cx.caller and not cx.ex.flat()


class PoolC(Contract):
    flat = True
    check_leaks = False
    over = False

    def pool(self, cx, st, v=None, ty=None):
        if v is None:
            v, ty = cx.val(0, st), cx.valty(0)
        if cx.p.types[ty].get('n') == OVER:
            v, ty = field(cx.ex, ty, v, 'pool_allocator', 0)
            ty = cx.p.strip(ty)
        return Pool(cx, st, v, ty)

    def begin(self, cx, st, v=None, ty=None):
        if v is None:
            v, ty = cx.val(0, st), cx.valty(0)
        return field(cx.ex, ty, v, 'pool_begin', 2)[0].obj

    def is_over(self, cx, ty=None):
        return cx.p.types[cx.valty(0) if ty is None else ty].get('n') == OVER

    def inv(self, cx, st, v=None, ty=None):
        P = self.pool(cx, st, v, ty)
        out = P.inv()
        if self.is_over(cx, ty if v is not None else None):
            b = self.begin(cx, st, v, ty)
            out += rep([('the pool begins before its slots', And(le(0, b), le(b, P.base), Or(lt(0, b), eq(P.cap, 0))))])
        return out

    def wanted(self, cx, n, al):
        s, a = sizes(cx, self.pool(cx, cx.st).node)
        return [('room for one node is asked for', And(eq(cx.args[n], s), eq(cx.args[al], a))), ('a free node holds a link', le(link_size(cx), s))]

    def set_ghost(self, cx, key, a, v):
        cx.ex.hwrite(cx.st, key, 0, a, v)

    def raw(self, cx):
        return cx.st.ghost.get('raw', ())[len(cx.old.ghost.get('raw', ())):]


@contract
class CanAllocate(PoolC):
    key = 'fixed_pool::FixedPool::can_allocate'
    pure = True

    def requires(self, cx):
        return self.inv(cx, cx.st)

    def ensures(self, cx):
        P = self.pool(cx, cx.st)
        return [('false only if every slot is in use', Imp(Not(cx.res), P.all_in_use())),
                ('true only if a slot is not in use', Imp(cx.res, Or(And(P.slot(P.head), Not(P.in_use(P.head))), And(P.slot(P.next), Not(P.in_use(P.next))))))]


@contract
class OverCanAllocate(CanAllocate):
    key = OVER + '::can_allocate'


class AllocateC(PoolC):
    def requires(self, cx):
        return self.inv(cx, cx.st) + self.wanted(cx, 1, 2)

    def gave(self, cx, P, o):
        a = cx.res.obj
        return [('a slot that was not in use', And(o.slot(a), Not(o.in_use(a)))), ('it is in use now', P.in_use(a)), ('it is not null', lt(0, a)), ('it is aligned', P.aligned(a))]


@contract
class PoolAllocate(AllocateC):
    key = '<fixed_pool::FixedPool as Allocator>::allocate_raw_aligned'

    def ensures(self, cx):
        o = self.pool(cx, cx.old)
        cx.st.pc += o.pads()
        a = cx.res.obj
        self.set_ghost(cx, 'G:pool_rank', a, -1)
        P = self.pool(cx, cx.st)
        yes = ne(a, 0)
        return self.inv(cx, cx.st) + [(n, Imp(yes, g)) for n, g in self.gave(cx, P, o)] + P.same_but(o, a) + [
            ('null only if every slot is in use', Imp(Not(yes), o.all_in_use()))]


@contract
class PoolDeallocate(PoolC):
    key = '<fixed_pool::FixedPool as Allocator>::deallocate_raw_aligned'

    def requires(self, cx):
        P = self.pool(cx, cx.st)
        return self.inv(cx, cx.st) + [('a slot that is in use', P.in_use(cx.args[1].obj))]

    def footprint(self, cx):
        return FP([cx.args[1].obj])

    def post_footprint(self, cx):
        return FP([cx.args[1].obj])

    def ensures(self, cx):
        o = self.pool(cx, cx.old)
        a = cx.args[1].obj
        self.set_ghost(cx, 'G:pool_rank', a, o.nfree())
        P = self.pool(cx, cx.st)
        return self.inv(cx, cx.st) + [('it is not in use any more', And(P.slot(a), Not(P.in_use(a))))] + P.same_but(o, a)


class MakeC(PoolC):
    """a pool over the memory of an argument"""
    mem = 0

    def memory(self, cx):
        return cx.args[self.mem].ptr.obj, cx.args[self.mem].len

    def node(self, cx):
        t = cx.valty(0) if self.fresh is None else cx.p.strip(cx.destty)
        d = cx.p.types[t]
        if d['n'] == OVER:
            d = cx.p.types[cx.p.strip(cx.p.fields(t)[0])]
        return cx.p.strip(d['args'][0])
    fresh = True

    def requires(self, cx):
        ex, st = cx.ex, cx.st
        m, n = self.memory(cx)
        s, al = sizes(cx, self.node(cx))
        up = m + al - 1
        rem = uf('REMAINDER', 2, 'int')(al, I(up))
        return [('memory', And(lt(0, m), lt(add(m, n), TOP))), ('that is long enough to be aligned', And(lt(add(m, al), TOP), le(sub(sub(up, rem), m), n))),
                ('a free node holds a link', le(link_size(cx), s)),
                ('the memory is there', forall_at(lambda a: Imp(And(le(m, a), lt(a, add(m, n))), And(ex.alive(st, a), eq(ex.blen(st, a), 1))), lambda a: ex.alive(st, a)))]

    def result(self, cx):
        return (cx.res, cx.p.strip(cx.destty)) if self.fresh else (cx.val(0, cx.st), cx.valty(0))

    def ensures(self, cx):
        v, ty = self.result(cx)
        m, n = self.memory(cx)
        self.set_ghost(cx, 'G:pool_base', 0, self.pool(cx, cx.st, v, ty).next)
        P = self.pool(cx, cx.st, v, ty)
        out = self.inv(cx, cx.st, v, ty) + [('no slot is in use', forall_at(lambda a: Not(P.in_use(a)), P.rank)),
                                            ('the slots begin at the first aligned address', And(le(m, P.base), lt(sub(P.base, m), P.al))),
                                            ('and fill the memory', And(le(P.cap, add(m, n)), lt(add(m, n), add(P.cap, P.s))))]
        if self.is_over(cx, ty):
            b = self.begin(cx, cx.st, v, ty)
            out += [('the pool begins in its memory', And(le(m, b), le(b, P.base)))]
        return out + self.also(cx, v, ty)

    def also(self, cx, v, ty):
        return []


@contract
class PoolNew(MakeC):
    key = 'fixed_pool::FixedPool::new'


def mem_of(f):
    """where bytes are that are handed on: (pointer, number of bytes)"""
    if isinstance(f, Fat) and isinstance(f.ptr, It) and f.ptr.kind == 'bytesof':
        return f.ptr.ptr, f.len
    raise Unsupported('memory of a pool')


class InitC(MakeC):
    fresh = None
    mem = 1

    def requires(self, cx):
        if not outside(cx):
            return MakeC.requires(self, cx)
        q = mem_of(cx.args[1])[0]
        return [('the memory is there', And(gt(q.obj, 0), cx.ex.alive(cx.old, q.obj)))]

    def ensures(self, cx):
        if not outside(cx):
            return MakeC.ensures(self, cx)
        note(cx.st, 'init', *mem_of(cx.args[1]))
        return self.also(cx, cx.val(0, cx.st), cx.valty(0))

    def also(self, cx, v, ty):
        return [('the overflow allocator is kept', same_overflow(cx, v, ty, cx.val(0)))] if self.is_over(cx, ty) else []


def same_overflow(cx, v, ty, w):
    return val_eq(field(cx.ex, ty, v, 'overflow_allocator', 1)[0], field(cx.ex, ty, w, 'overflow_allocator', 1)[0])


@contract
class PoolInit(InitC):
    key = '<fixed_pool::FixedPool as PoolAllocator>::init'


@contract
class OverInit(InitC):
    key = '<fixed_pool::with_overflow::FixedPoolWithOverflow as PoolAllocator>::init'


@contract
class OverNew(MakeC):
    key = OVER + '::new'

    def also(self, cx, v, ty):
        return [('the overflow allocator is the one given', val_eq(field(cx.ex, ty, v, 'overflow_allocator', 1)[0], cx.args[1]))]


@contract
class OverNewDefault(MakeC):
    key = OVER + '::new_with_default_allocator'


class EmptyC(PoolC):
    def ensures(self, cx):
        ty = cx.p.strip(cx.destty)
        if outside(cx):
            return [('the overflow allocator is the one given', val_eq(field(cx.ex, ty, cx.res, 'overflow_allocator', 1)[0], cx.args[0]))] if cx.args else []
        self.set_ghost(cx, 'G:pool_base', 0, self.pool(cx, cx.st, cx.res, ty).next)
        P = self.pool(cx, cx.st, cx.res, ty)
        out = self.inv(cx, cx.st, cx.res, ty) + [('it has no slots', And(eq(P.head, 0), eq(P.next, 0), eq(P.cap, 0)))]
        if self.is_over(cx, ty):
            out.append(('it has no memory', eq(self.begin(cx, cx.st, cx.res, ty), 0)))
        if cx.args:
            out.append(('the overflow allocator is the one given', val_eq(field(cx.ex, ty, cx.res, 'overflow_allocator', 1)[0], cx.args[0])))
        return out


@contract
class PoolDefault(EmptyC):
    key = '<fixed_pool::FixedPool as Default>::default'


@contract
class OverDefault(EmptyC):
    key = '<fixed_pool::with_overflow::FixedPoolWithOverflow as Default>::default'


@contract
class OverWith(EmptyC):
    key = OVER + '::with_allocator'


@contract
class OverAllocate(AllocateC):
    key = '<fixed_pool::with_overflow::FixedPoolWithOverflow as Allocator>::allocate_raw_aligned'
    inline = True

    def post_footprint(self, cx):
        return FP([cx.res.obj])

    def ensures(self, cx):
        o, P = self.pool(cx, cx.old), self.pool(cx, cx.st)
        r, a = self.raw(cx), cx.res.obj
        out = self.inv(cx, cx.st) + [('the pool begins where it did', eq(self.begin(cx, cx.st), self.begin(cx, cx.old)))]
        if not r:
            return out + self.gave(cx, P, o) + P.same_but(o, a)
        ok = len(r) == 1 and r[0][0] == 'alloc'
        out += [('one request to the overflow allocator', ok), ('only if every slot is in use', o.all_in_use())] + P.same_but(o, 0)
        if ok:
            out += [('for the same', And(eq(r[0][1], cx.args[1]), eq(r[0][2], cx.args[2]))), ('whose block is returned', And(eq(a, r[0][3]), eq(cx.res.idx, 0)))]
        return out


@contract
class OverDeallocate(PoolC):
    key = '<fixed_pool::with_overflow::FixedPoolWithOverflow as Allocator>::deallocate_raw_aligned'
    inline = True

    def inside(self, cx):
        return self.pool(cx, cx.old).in_use(cx.args[1].obj)

    def requires(self, cx):
        a = cx.args[1].obj
        P = self.pool(cx, cx.st)
        return self.inv(cx, cx.st) + [('a slot that is in use, or a block of the overflow allocator, which is elsewhere',
                                       Or(P.in_use(a), And(lt(0, a), cx.ex.alive(cx.st, a), Or(lt(a, self.begin(cx, cx.st)), le(P.cap, a)))))]

    def footprint(self, cx):
        return FP([cx.args[1].obj])

    def post_footprint(self, cx):
        return FP([cx.args[1].obj])

    def ensures(self, cx):
        o, P = self.pool(cx, cx.old), self.pool(cx, cx.st)
        a, r = cx.args[1].obj, self.raw(cx)
        out = self.inv(cx, cx.st) + [('the pool begins where it did', eq(self.begin(cx, cx.st), self.begin(cx, cx.old)))] + P.same_but(o, a)
        if not r:
            return out + [('a slot of the pool', And(o.in_use(a), P.slot(a), Not(P.in_use(a))))]
        ok = len(r) == 1 and r[0][0] == 'dealloc'
        out += [('one release', ok), ('of what is not of the pool', Not(o.in_use(a)))]
        if ok:
            out += [('of that block', And(eq(r[0][1], a), eq(r[0][4], 0))), ('for the same', And(eq(r[0][2], cx.args[2]), eq(r[0][3], cx.args[3])))]
        return out
