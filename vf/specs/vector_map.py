"""VectorMap and its entries."""
from .util import *
from .vector import Vec, SliceArg, ArrRef

CONTRACTS = []
LEMMA = 'a sequence that is sorted by a strict order has a lower bound for every key (least number principle)'
ORDER = 'the comparison of a map is a strict weak order, and == of its keys says that neither of two keys is less'


def contract(cls):
    CONTRACTS.append(cls)
    return cls


class Order:
    """the comparison C of a map with keys of type K, and == of K"""

    def __init__(self, ex, kty, cty):
        p = ex.p
        d = p.types[p.strip(kty)]
        if d['k'] != 'param':
            raise LostAnchor('lost anchor: key type ' + d['s'])
        n = d['n']
        self.E = uf('EQ_' + n, 2, 'bool')
        c = p.types[cty]
        if c['k'] == 'param':
            self.L = uf('LESS', 2, 'bool')
        elif c.get('n') == 'compare::Less':
            self.L = uf('LT_' + n, 2, 'bool')
        elif c.get('n') == 'compare::Greater':
            f = uf('LT_' + n, 2, 'bool')
            self.L = lambda a, b: f(b, a)
        else:
            raise LostAnchor('lost anchor: comparison ' + c['s'])

    def axioms(self):
        L, E = self.L, self.E
        a, b, c = z3.Ints('oa ob oc')
        return [z3.ForAll([a], z3.Not(L(a, a)), patterns=[L(a, a)]),
                z3.ForAll([a, b, c], z3.Implies(z3.And(L(a, b), L(b, c)), L(a, c)), patterns=[z3.MultiPattern(L(a, b), L(b, c))]),
                z3.ForAll([a, b, c], z3.Implies(L(a, c), z3.Or(L(a, b), L(b, c))), patterns=[z3.MultiPattern(L(a, c), E(a, b)), z3.MultiPattern(L(a, c), E(b, a)), z3.MultiPattern(L(a, c), E(b, c)), z3.MultiPattern(L(a, c), E(c, b))]),
                z3.ForAll([a, b], E(a, b) == z3.And(z3.Not(L(a, b)), z3.Not(L(b, a))), patterns=[E(a, b)]),
                z3.ForAll([a, b], z3.Implies(L(a, b), z3.Not(L(b, a))), patterns=[L(a, b)])]


class VMap:
    def __init__(self, ex, st, val, ty):
        p = ex.p
        ty = p.strip(ty)
        if p.types[ty].get('n') != 'vector_map::VectorMap':
            raise LostAnchor('lost anchor: %s is no VectorMap' % p.s(ty))
        self.ex, self.st, self.ty = ex, st, ty
        b, bty = field(ex, ty, val, 'base', 0)
        self.v = Vec(ex, st, b, bty)
        a = p.types[ty]['args']
        self.kty, self.vty = p.strip(a[0]), p.strip(a[1])
        self.ord = Order(ex, self.kty, a[3])
        self.len, self.cap, self.obj, self.seq = self.v.len, self.v.cap, self.v.obj, self.v.seq
        ex.trusted.add(ORDER)

    def key(self, i):
        return I(self.seq.at(i).f[0])

    def value(self, i):
        return self.seq.at(i).f[1]

    def inv(self):
        return self.v.inv() + rep([('keys are in order and all different', self.sorted())])

    def sorted(self):
        L = self.ord.L
        return forall(lambda i, j: Imp(And(le(0, i), lt(i, j), lt(j, self.len)), L(self.key(i), self.key(j))), 2, lambda i, j: [(self.key(i), self.key(j))])

    def is_bound(self, r, key):
        L = self.ord.L
        return [And(le(0, r), le(r, self.len)), forall(lambda i: Imp(And(le(0, i), lt(i, r)), L(self.key(i), I(key))), 1, lambda i: [self.key(i)]),
                forall(lambda i: Imp(And(le(r, i), lt(i, self.len)), Not(L(self.key(i), I(key)))), 1, lambda i: [self.key(i)])]

    def found(self, r, key):
        return And(lt(r, self.len), self.ord.E(self.key(r), I(key)))

    def fp(self):
        return self.v.fp()


def vmap(cx, i=0, st=None):
    st = cx.old if st is None else st
    return VMap(cx.ex, st, cx.val(i, st), cx.valty(i))


def resmap(cx):
    return VMap(cx.ex, cx.st, cx.res, cx.destty)


class MC(Contract):
    mut = False
    pos = True          # takes a key

    def keyval(self, cx, i=1):
        a = cx.args[i]
        return cx.val(i) if cx.p.k(cx.argtys[i]) == 'ref' else a

    def bound(self, cx):
        """the place of the key in the map, which exists because it is sorted"""
        if 'r' not in cx.extra:
            o = vmap(cx)
            r = fresh_int('bound')
            cx.extra['r'] = r
            cx.ex.trusted.add(LEMMA)
            for g in o.is_bound(r, self.keyval(cx)):
                cx.st.pc.append(B(g))
            for s in (cx.old,):
                if s is not cx.st:
                    s.pc.append(B(True))
        return cx.extra['r']

    def requires(self, cx):
        o = vmap(cx)
        if not cx.caller:
            cx.st.pc.extend(o.ord.axioms())
        return o.inv()

    def footprint(self, cx):
        return vmap(cx).fp() if self.mut else FP()

    def post_footprint(self, cx):
        return vmap(cx, 0, cx.st).fp() if self.mut else FP()

    def post(self, cx, o, n):
        return []

    def ensures(self, cx):
        o = vmap(cx)
        if self.mut:
            n = vmap(cx, 0, cx.st)
            return n.inv() + self.post(cx, o, n)
        return self.post(cx, o, None)


class Pure(MC):
    pure = True

    def post(self, cx, o, n):
        return [('result', eq(cx.res, self.result(cx, o)))]


for _n, _f in (('len', lambda o: o.len), ('is_empty', lambda o: eq(o.len, 0)), ('capacity', lambda o: o.cap)):
    CONTRACTS.append(type('VM_' + _n, (Pure,), {'key': 'vector_map::VectorMap::' + _n, 'inline': True, 'result': (lambda f: lambda self, cx, o: f(o))(_f)}))


class SliceOf(MC):
    pure = True
    inline = True

    def post(self, cx, o, n):
        r = cx.res
        return [('length', eq(r.len, o.len)), ('place', Imp(lt(0, o.len), And(eq(r.ptr.obj, o.obj), eq(r.ptr.idx, 0))))]


for _k in ('<vector_map::VectorMap as AsRef<[(K, V)]>>::as_ref', '<vector_map::VectorMap as Deref>::deref'):
    CONTRACTS.append(type('VMSlice_', (SliceOf,), {'key': _k}))


class NewC(Contract):
    pure = True

    def ensures(self, cx):
        n = resmap(cx)
        return n.inv() + [('empty', And(eq(n.obj, 0), eq(n.len, 0), eq(n.cap, 0)))]

    def post_footprint(self, cx):
        return resmap(cx).fp()


for _k in ('vector_map::VectorMap::new_in', 'vector_map::VectorMap::new', '<vector_map::VectorMap as Default>::default'):
    CONTRACTS.append(type('VMNew_', (NewC,), {'key': _k}))


@contract
class WithCapacity(Contract):
    key = 'vector_map::VectorMap::with_capacity'

    def elem(self, cx):
        p = cx.p
        b = [f for f in p.types[p.strip(cx.destty)]['variants'][0]['fields'] if p.types[p.strip(f[1])].get('n') == 'vector::Vector']
        if not b:
            raise LostAnchor('lost anchor: no vector in a VectorMap')
        return p.types[p.strip(b[0][1])]['args'][0]

    def may_panic(self, cx):
        return gt(cx.args[0], max_elems(cx.ex, cx.old, self.elem(cx)))

    def ensures(self, cx):
        n = resmap(cx)
        return n.inv() + [('empty', eq(n.len, 0)), ('capacity', eq(n.cap, cx.args[0]))]

    def post_footprint(self, cx):
        return resmap(cx).fp()


@contract
class Clear(MC):
    key = 'vector_map::VectorMap::clear'
    mut = True

    def post(self, cx, o, n):
        return [('empty', eq(n.len, 0))]


@contract
class LowerBound(MC):
    key = 'vector_map::VectorMap::lower_bound'
    pure = True

    def requires(self, cx):
        out = MC.requires(self, cx)
        if cx.caller:
            return out
        return out

    def ensures(self, cx):
        o, k = vmap(cx), self.keyval(cx)
        g = o.is_bound(cx.res, k)
        return [('in range', g[0]), ('all before are less', g[1]), ('none after is less', g[2])]

    def invariant(self, lc):
        cx = lc.ex.cx0
        o, k = vmap(cx), self.keyval(cx)
        L = o.ord.L
        names = [('size',), ('base',)]
        try:
            size, base = [lc.named(*n) for n in names]
        except LostAnchor:
            return None

        def inv(lc):
            size, base = [lc.named(*n) for n in names]
            return [('window', And(le(1, size), le(0, base), le(add(base, size), o.len))),
                    ('all before the window are less', Imp(lt(0, base), forall(lambda i: Imp(And(le(0, i), le(i, base)), L(o.key(i), I(k))), 1, lambda i: [o.key(i)]))),
                    ('none after the window is less', forall(lambda i: Imp(And(le(add(base, size), i), lt(i, o.len)), Not(L(o.key(i), I(k)))), 1, lambda i: [o.key(i)]))]
        return inv


class Lookup(MC):
    """Option<&V> of a key"""
    pure = True

    def requires(self, cx):
        out = MC.requires(self, cx)
        if cx.caller:
            return out
        self.bound(cx)
        return out

    def results(self, cx):
        o = vmap(cx)
        r = self.bound(cx)
        a, b = cx.ex.fork(cx.st, o.found(r, self.keyval(cx)))
        out = []
        if a is not None:
            out.append((a, some(Ptr(o.obj, r, o.v.ety, (1,)))))
        if b is not None:
            out.append((b, NONE))
        return out

    def ensures(self, cx):
        o, k, res = vmap(cx), self.keyval(cx), cx.res
        r = self.bound(cx)
        out = [('Some exactly if the key is there', eq(eq(res.d, 1), o.found(r, k))),
               ('None only if no key is equal', Imp(eq(res.d, 0), forall(lambda i: Imp(And(le(0, i), lt(i, o.len)), Not(o.ord.E(o.key(i), I(k)))), 1, lambda i: [o.key(i)])))]
        if 1 in res.vs:
            q = res.vs[1][0]
            out.append(('the value of that key', Imp(eq(res.d, 1), And(eq(q.obj, o.obj), eq(q.idx, r), tuple(q.path) == (1,)))))
        if self.mut:
            n = vmap(cx, 0, cx.st)
            out += n.inv() + [('nothing changed', And(eq(n.len, o.len), eq(n.obj, o.obj), eq(n.cap, o.cap), same(n.seq, o.seq, 0, o.len)))]
        return out


@contract
class Get(Lookup):
    key = 'vector_map::VectorMap::get'


@contract
class GetMut(Lookup):
    key = 'vector_map::VectorMap::get_mut'
    mut = True

    def mods(self, cx):
        return []

    def footprint(self, cx):
        return FP()

    def post_footprint(self, cx):
        return FP()


@contract
class Contains(Lookup):
    key = 'vector_map::VectorMap::contains_key'

    def results(self, cx):
        return MC.results(self, cx)

    def ensures(self, cx):
        o, k = vmap(cx), self.keyval(cx)
        return [('result', eq(cx.res, o.found(self.bound(cx), k))),
                ('false only if no key is equal', Or(cx.res, forall(lambda i: Imp(And(le(0, i), lt(i, o.len)), Not(o.ord.E(o.key(i), I(k)))), 1, lambda i: [o.key(i)])))]


def grow_panics(cx, o):
    return And(eq(o.len, o.cap), gt(If(eq(o.cap, 0), 1, mul(o.cap, 2)), max_elems(cx.ex, cx.old, o.v.ety)))


def inserted(o, n, r, kv, upto=None):
    """the pair kv is new at r, all others are kept in order"""
    return [('one longer', eq(n.len, add(o.len, 1))), ('the pair is in its place', val_eq(n.seq.at(r), kv)),
            ('smaller keys are kept', same(n.seq, o.seq, 0, r)), ('larger keys move up', same(n.seq, o.seq, add(r, 1), add(o.len, 1), -1))]


@contract
class Insert(Lookup):
    key = 'vector_map::VectorMap::insert'
    mut = True
    pure = False

    def axioms(self, cx):
        return [('witness', TRY(self.bound(cx)))]

    def footprint(self, cx):
        return vmap(cx).fp()

    def post_footprint(self, cx):
        return vmap(cx, 0, cx.st).fp()

    def may_panic(self, cx):
        o = vmap(cx)
        return And(Not(o.found(self.bound(cx), cx.args[1])), grow_panics(cx, o))

    def results(self, cx):
        o = vmap(cx)
        a, b = cx.ex.fork(cx.st, o.found(self.bound(cx), cx.args[1]))
        out = []
        if a is not None:
            out.append((a, some(cx.ex.fresh(a, o.vty, 'was'))))
        if b is not None:
            out.append((b, NONE))
        return out

    def ensures(self, cx):
        o, n, res = vmap(cx), vmap(cx, 0, cx.st), cx.res
        k, v = cx.args[1], cx.args[2]
        r = self.bound(cx)
        f = o.found(r, k)
        out = n.inv() + [('Some exactly if the key was there', eq(eq(res.d, 1), f)),
                         ('capacity', eq(n.cap, If(And(Not(f), eq(o.len, o.cap)), If(eq(o.cap, 0), 1, mul(o.cap, 2)), o.cap)))]
        if 1 in res.vs:
            out.append(('the old value is returned', Imp(f, val_eq(res.vs[1][0], o.value(r)))))
        out += [('known key: ' + a, Imp(f, g)) for a, g in [('as long', eq(n.len, o.len)), ('new value', And(val_eq(n.value(r), v), eq(n.key(r), o.key(r)))),
                                                            ('others before kept', same(n.seq, o.seq, 0, r)), ('others after kept', same(n.seq, o.seq, add(r, 1), o.len))]]
        out += [('new key: ' + a, Imp(Not(f), g)) for a, g in inserted(o, n, r, S([k, v]))]
        return out


@contract
class RemoveEntry(Lookup):
    key = 'vector_map::VectorMap::remove_entry'
    mut = True
    pure = False

    def footprint(self, cx):
        return vmap(cx).fp()

    def post_footprint(self, cx):
        return vmap(cx, 0, cx.st).fp()

    def results(self, cx):
        o = vmap(cx)
        a, b = cx.ex.fork(cx.st, o.found(self.bound(cx), self.keyval(cx)))
        out = []
        if a is not None:
            out.append((a, some(cx.ex.fresh(a, cx.p.types[cx.destty]['args'][0], 'was'))))
        if b is not None:
            out.append((b, NONE))
        return out

    def returned(self, o, r):
        return o.seq.at(r)

    def ensures(self, cx):
        o, n, res = vmap(cx), vmap(cx, 0, cx.st), cx.res
        r = self.bound(cx)
        f = o.found(r, self.keyval(cx))
        out = n.inv() + [('Some exactly if the key was there', eq(eq(res.d, 1), f)), ('capacity', eq(n.cap, o.cap))]
        if 1 in res.vs:
            out.append(('what was there is returned', Imp(f, val_eq(res.vs[1][0], self.returned(o, r)))))
        out += [('one shorter', Imp(f, eq(n.len, sub(o.len, 1)))), ('smaller keys are kept', Imp(f, same(n.seq, o.seq, 0, r))),
                ('larger keys move down', Imp(f, same(n.seq, o.seq, r, sub(o.len, 1), 1))),
                ('unchanged if it was not there', Imp(Not(f), And(eq(n.len, o.len), same(n.seq, o.seq, 0, o.len))))]
        return out


@contract
class Remove(RemoveEntry):
    key = 'vector_map::VectorMap::remove'

    def returned(self, o, r):
        return o.value(r)


# ---------------------------------------------------------------- entries
@contract
class EntryC(Lookup):
    key = 'vector_map::VectorMap::entry'
    mut = True

    def footprint(self, cx):
        return FP()

    def post_footprint(self, cx):
        return FP()

    def mods(self, cx):
        return []

    def results(self, cx):
        return MC.results(self, cx)

    def ensures(self, cx):
        o, n, res = vmap(cx), vmap(cx, 0, cx.st), cx.res
        r = self.bound(cx)
        f = o.found(r, cx.args[1])
        out = n.inv() + [('occupied exactly if the key is there', eq(eq(res.d, 0), f)),
                         ('nothing changed', And(eq(n.len, o.len), eq(n.obj, o.obj), eq(n.cap, o.cap), same(n.seq, o.seq, 0, o.len)))]
        if 0 in res.vs:
            q = res.vs[0][0].f[0]
            out.append(('the pair of that key', Imp(f, And(eq(q.obj, o.obj), eq(q.idx, r), tuple(q.path) == ()))))
        if 1 in res.vs:
            e = res.vs[1][0]
            ety = cx.p.types[cx.p.strip(cx.destty)]['variants'][1]['fields'][0][1]
            m, mt = field(cx.ex, ety, e, 'vec', 0)
            out += [('the key is kept', Imp(Not(f), val_eq(field(cx.ex, ety, e, 'key', 1)[0], cx.args[1]))), ('where it belongs', Imp(Not(f), eq(field(cx.ex, ety, e, 'lower_bound', 2)[0], r))),
                    ('of this map', isinstance(m, LRef) and isinstance(cx.args[0], LRef) and m.root == cx.args[0].root and tuple(m.path) == tuple(cx.args[0].path))]
        return out


class Occ(Contract):
    """accessors of an occupied entry"""
    pure = True
    part = 1

    def pair(self, cx):
        return cx.val(0).f[0]

    def requires(self, cx):
        q = self.pair(cx)
        ex = cx.ex
        return [('the pair is there', And(gt(q.obj, 0), ex.alive(cx.old, q.obj), le(0, q.idx), lt(q.idx, ex.blen(cx.old, q.obj)),
                                          And([ex.is_init(cx.old, q.obj, q.idx, q.base, pa) for pa, _ in ex.param_leaves(q.base)])))]

    def mods(self, cx):
        return []

    def ensures(self, cx):
        q, r = self.pair(cx), cx.res
        return [('result', And(eq(r.obj, q.obj), eq(r.idx, q.idx), tuple(r.path) == (self.part,)))]


for _n, _p in (('get', 1), ('get_mut', 1), ('key', 0)):
    CONTRACTS.append(type('Occ_' + _n, (Occ,), {'key': 'vector_map::entry::OccupiedEntry::' + _n, 'part': _p}))


class Vacant(Contract):
    """a vacant entry holds a key that is not in its map, and its place"""
    pure = False

    def parts(self, cx, st=None):
        st = st or cx.old
        ty = cx.valty(0)
        e = cx.val(0, st)
        m, mt = field(cx.ex, ty, e, 'vec', 0)
        k = field(cx.ex, ty, e, 'key', 1)[0]
        lb = field(cx.ex, ty, e, 'lower_bound', 2)[0]
        to = cx.p.pointee(mt)
        return m, VMap(cx.ex, st, cx.ex.peek(st, m, to), to), k, lb

    def requires(self, cx):
        m, v, k, lb = self.parts(cx)
        ex, st = cx.ex, cx.old
        if not cx.caller:
            cx.st.pc.extend(v.ord.axioms())
        g = v.is_bound(lb, k)
        return [('map is there', And(gt(m.obj, 0), ex.alive(st, m.obj), le(0, m.idx), lt(m.idx, ex.blen(st, m.obj)), ne(m.obj, v.obj)))] + v.inv() + \
            [('place of the key', And(g)), ('the key is not there', Not(v.found(lb, k)))]

    def footprint(self, cx):
        m, v, k, lb = self.parts(cx)
        return FP([m.obj]) + v.fp()

    def newmap(self, cx):
        m, v, k, lb = self.parts(cx)
        return VMap(cx.ex, cx.st, cx.ex.peek(cx.st, m, v.ty), v.ty)

    def post_footprint(self, cx):
        return FP([self.parts(cx)[0].obj]) + self.newmap(cx).fp()


@contract
class VacInsert(Vacant):
    key = 'vector_map::entry::VacantEntry::insert'

    def may_panic(self, cx):
        return grow_panics(cx, self.parts(cx)[1])

    def ensures(self, cx):
        m, o, k, lb = self.parts(cx)
        n = self.newmap(cx)
        q = cx.res
        return n.inv() + inserted(o, n, lb, S([k, cx.args[1]])) + [('the new value is returned', And(eq(q.obj, n.obj), eq(q.idx, lb), tuple(q.path) == (1,)))]


@contract
class VacIntoKey(Vacant):
    key = 'vector_map::entry::VacantEntry::into_key'

    def ensures(self, cx):
        return [('the key', val_eq(cx.res, self.parts(cx)[2]))]


@contract
class VacKey(Vacant):
    key = 'vector_map::entry::VacantEntry::key'

    def ensures(self, cx):
        r = cx.res
        a = cx.args[0]
        v = cx.ex.peek(cx.st, r, cx.p.pointee(cx.destty))
        return [('the key', val_eq(v, self.parts(cx)[2]))]


# ---------------------------------------------------------------- from lists of pairs
def local_map(lc):
    for j, n, ty, v in lc.all_locals():
        t = lc.p.strip(ty)
        if lc.p.types[t].get('n') == 'vector_map::VectorMap' and isinstance(v, S):
            return VMap(lc.ex, lc.st, v, t)
    raise LostAnchor('lost anchor: no map at the loop of ' + lc.fn['key'])


def find_it(v):
    if isinstance(v, It) and v.kind in ('sliter', 'arriter', 'param'):
        return v
    if isinstance(v, S):
        for x in v.f:
            r = find_it(x)
            if r is not None:
                return r
    if isinstance(v, It):
        for x in v.f.values():
            r = find_it(x) if isinstance(x, V) else None
            if r is not None:
                return r
    return None


def position(lc):
    for j, n, ty, v in lc.all_locals():
        r = find_it(v)
        if r is not None:
            return (r.pos if r.kind == 'param' else r.lo), r
    raise LostAnchor('lost anchor: no iterator at the loop of ' + lc.fn['key'])


class FromPairs(Contract):
    """the map of a finite sequence of pairs: for equal keys the last value counts"""

    def item(self, cx, i):
        raise NotImplementedError

    def count(self, cx):
        raise NotImplementedError

    def pre(self, cx):
        return []

    def requires(self, cx):
        if not cx.caller:
            p = cx.p
            a = p.types[p.strip(cx.destty)]['args']
            cx.st.pc.extend(Order(cx.ex, a[0], a[3]).axioms() + near_axioms())
        return self.pre(cx)

    def rel(self, cx, n, cnt, goal):
        """n is the map of the first cnt items"""
        E = n.ord.E
        key = lambda i: I(self.item(cx, i).f[0])
        last = lambda m, i: And(le(0, i), lt(i, cnt), E(n.key(m), key(i)), val_eq(n.value(m), self.item(cx, i).f[1]),
                                forall(lambda j: Imp(And(lt(i, j), lt(j, cnt)), Not(E(n.key(m), key(j)))), 1, lambda j: [key(j)]))
        return [('no more pairs than items', le(n.len, cnt)),
                ('every pair is the last item with its key', forall(lambda m: Imp(And(le(0, m), lt(m, n.len)), exists(lambda i: last(m, i))), 1, lambda m: [n.key(m)])),
                ('every item has a pair', forall(lambda i: Imp(And(le(0, i), lt(i, cnt)), some_index(lambda m: And(le(0, m), lt(m, n.len), E(n.key(m), key(i))), goal)), 1, lambda i: [key(i)]))]

    def ensures(self, cx):
        n = resmap(cx)
        return n.inv() + self.rel(cx, n, self.count(cx), not cx.caller)

    def post_footprint(self, cx):
        return resmap(cx).fp()

    def owned(self, lc):
        return local_map(lc).fp()

    def capacity(self, cx, n, k):
        return []

    def rest(self, cx, lc, it, k):
        return []

    def invariant(self, lc):
        cx = lc.ex.cx0
        if lc.fn['key'].startswith('superslice') or 'lower_bound' in lc.fn['key']:
            return None
        local_map(lc), position(lc)

        def inv(lc):
            n = local_map(lc)
            k, it = position(lc)
            return n.inv() + self.rel(cx, n, k, not lc.assuming) + self.capacity(cx, n, k) + self.rest(cx, lc, it, k) + \
                [('progress', And(le(0, k), le(k, self.count(cx)))), ('block is ours', Or(eq(n.obj, 0), Not(cx.ex.alive(cx.old, n.obj))))]
        return inv


@contract
class FromIter(FromPairs):
    key = '<vector_map::VectorMap as FromIterator<(K, V)>>::from_iter'

    def param_value(self, ex, st, n, name):
        if name == 'a0':
            s = serial()
            ln = z3.Int('itern!%d' % s)
            st.pc.append(z3.And(ln >= 0, ln < 2 ** 63))
            return It('param', id=s, pos=0, n=ln)

    def may_panic(self, cx):
        return True

    def it(self, cx):
        it = cx.args[0]
        if not isinstance(it, It) or it.kind != 'param':
            raise Unsupported('iterator argument')
        return it

    def count(self, cx):
        return self.it(cx).n

    def item(self, cx, i):
        p = cx.p
        a = p.types[p.strip(cx.destty)]['args']
        f = uf('ITEM%s.0' % self.it(cx).id, 1, 'int')
        g = uf('ITEM%s.1' % self.it(cx).id, 1, 'int')
        return S([f(I(i)), g(I(i))])


class FromSized(FromPairs):
    def may_panic(self, cx):
        return gt(self.count(cx), max_elems(cx.ex, cx.old, WithCapacity.elem(self, cx)))

    def capacity(self, cx, n, k):
        return [('room', eq(n.cap, self.count(cx)))]


class FromSlice(FromSized):
    def count(self, cx):
        return SliceArg(cx, 0).len

    def item(self, cx, i):
        s = SliceArg(cx, 0)
        return clone_of(cx.ex, s.ety, s.seq.at(i))


for _k in ('<vector_map::VectorMap as From<&[(K, V)]>>::from', '<vector_map::VectorMap as From<&mut [(K, V)]>>::from'):
    CONTRACTS.append(type('VMFromSlice_', (FromSlice,), {'key': _k}))


@contract
class FromArrRef(FromSized):
    key = '<vector_map::VectorMap as From<&[(K, V); N]>>::from'

    def pre(self, cx):
        a = ArrRef(cx, 0)
        return [('array is filled', a.seq.all_init(0, a.len))]

    def count(self, cx):
        return ArrRef(cx, 0).len

    def item(self, cx, i):
        a = ArrRef(cx, 0)
        return clone_of(cx.ex, a.seq.ety, a.seq.at(i))


@contract
class FromArr(FromSized):
    key = '<vector_map::VectorMap as From<[(K, V); N]>>::from'

    def pre(self, cx):
        a = ArrRef(cx, 0)
        return [('array is filled', a.seq.all_init(0, a.len)), ('len', le(0, a.len))]

    def count(self, cx):
        return ArrRef(cx, 0).len

    def item(self, cx, i):
        return ArrRef(cx, 0).seq.at(i)

    def footprint(self, cx):
        return FP([ArrRef(cx, 0).obj])

    def post_footprint(self, cx):
        return resmap(cx).fp() + FP([ArrRef(cx, 0).obj])

    def owned(self, lc):
        return local_map(lc).fp() + FP([ArrRef(lc.ex.cx0, 0).obj])

    def rest(self, cx, lc, it, k):
        b = ArrRef(cx, 0)
        s = Seq(lc.ex, lc.st, it.box.obj, it.box.base)
        return [('rest of the array', forall(lambda i: Imp(And(le(k, i), lt(i, b.len)), And(s.init(i), val_eq(s.at(i), b.seq.at(i))))))]
