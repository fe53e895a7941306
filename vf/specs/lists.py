"""List, its iterators. The sequence of nodes of a list is a ghost heap at its sentinel:
G:node(s, k) is the k-th node, G:pos(s, o) the position of node o, G:len(s) their number."""
from .util import *

NAMED = 'list::List'
NODE = 'list::node::ListNode'


class Links:
    """the ring of nodes at a sentinel s, holding elements of type ety"""

    def __init__(self, ex, st, s, ety):
        self.ex, self.st, self.s, self.ety = ex, st, s, ex.p.strip(ety)
        self.n = ex.hread(st, 'G:len', s, 0)
        self.nty = node_type(ex, self.ety)
        self.vpath = value_path(ex, self.nty)
        self.base = ex.p.fields(self.nty)[0] if self.vpath[0] == 1 else ex.p.fields(self.nty)[1]
        self.fi = {f[0]: i for i, f in enumerate(ex.p.types[self.base]['variants'][0]['fields'])}
        if set(self.fi) != {'next', 'prev'}:
            raise LostAnchor('lost anchor: ListNodeBase::next, prev')

    def node(self, k):
        return self.ex.hread(self.st, 'G:node', self.s, k)

    def pos(self, o):
        return self.ex.hread(self.st, 'G:pos', self.s, o)

    def link(self, o, name):
        return self.ex.hread(self.st, self.ex.canon(self.base, (self.fi[name],)) + '#o', o, 0)

    def next(self, o):
        return self.link(o, 'next')

    def prev(self, o):
        return self.link(o, 'prev')

    def there(self, o):
        return And([self.ex.hread(self.st, self.ex.init_key(self.nty, self.vpath + pa), o, 0, 'bool') for pa, _ in self.ex.param_leaves(self.ety)])

    def val(self, o):
        return self.ex.read_leafs_raw(self.st, o, 0, self.nty, self.vpath, self.ety)

    def valk(self, k):
        return self.val(self.node(k))

    def is_node(self, o):
        return And(le(0, self.pos(o)), lt(self.pos(o), self.n), eq(self.node(self.pos(o)), o))

    def block_ok(self, o):
        ex, st = self.ex, self.st
        return And(gt(o, 0), ex.alive(st, o), eq(ex.blen(st, o), 1), eq(ex.bty(st, o), ex.tycode(self.nty)))

    def nodes(self, lo=0):
        """the nodes from position lo on are blocks, at their positions"""
        ex, st, n = self.ex, self.st, self.n
        return forall_at(lambda k: Imp(And(le(lo, k), lt(k, n)), And(self.block_ok(self.node(k)), ne(self.node(k), self.s), eq(self.pos(self.node(k)), k))), self.node)

    def inv(self):
        ex, st, s, n = self.ex, self.st, self.s, self.n
        return rep([('sentinel', And(gt(s, 0), ex.alive(st, s), eq(ex.blen(st, s), 1), lt(ex.bty(st, s), 0), le(0, n))),
                    ('nodes are distinct live blocks', self.nodes()),
                    ('the sentinel links to the first and the last node', And(eq(self.next(s), If(lt(0, n), self.node(0), s)), eq(self.prev(s), If(lt(0, n), self.node(sub(n, 1)), s)))),
                    ('every node links to the next one', forall_at(lambda o: Imp(self.is_node(o), eq(self.next(o), If(lt(add(self.pos(o), 1), n), self.node(add(self.pos(o), 1)), s))), self.next)),
                    ('every node links to the one before', forall_at(lambda o: Imp(self.is_node(o), eq(self.prev(o), If(lt(0, self.pos(o)), self.node(sub(self.pos(o), 1)), s))), self.prev)),
                    ('every node holds an element', forall_at(lambda o: Imp(self.is_node(o), self.there(o)), lambda o: [self.there(o), self.next(o), self.prev(o)]))])

    def fp(self):
        return FP([self.s], [(self.is_node, self.node, lambda k: And(le(0, k), lt(k, self.n)))])

    # ---- ghost updates, at the end of the function under proof
    def set(self, st, node, pos, n):
        ex, s = self.ex, self.s
        a, b = ex.heap(st, 'G:node'), ex.heap(st, 'G:pos')
        ex.hobj(st, 'G:node', s, node)
        ex.hobj(st, 'G:pos', s, pos)
        ex.hwrite(st, 'G:len', s, 0, n)


def node_type(ex, ety):
    want = '%s<%s>' % (NODE, ex.p.s(ety))
    for i, d in enumerate(ex.p.types):
        if d.get('n') == NODE and ex.p.strip(d['args'][0]) == ex.p.strip(ety):
            return i
    raise LostAnchor('lost anchor: no type ' + want)


def value_path(ex, nty):
    for i, (n, t) in enumerate(ex.p.types[nty]['variants'][0]['fields']):
        if ex.p.types[ex.p.strip(t)].get('n') != 'list::node::ListNodeBase':
            return (i,)
    raise LostAnchor('lost anchor: value of ListNode')


class Lst(Links):
    def __init__(self, ex, st, val, ty):
        ty = ex.p.strip(ty)
        if ex.p.types[ty].get('n') != NAMED:
            raise LostAnchor('lost anchor: %s is no List' % ex.p.s(ty))
        self.ty = ty
        box = field(ex, ty, val, 'node', 0)[0]
        self.size = field(ex, ty, val, 'size', 1)[0]
        Links.__init__(self, ex, st, box.obj, ex.p.types[ty]['args'][0])

    def inv(self):
        a = self.ex.tycode(self.ex.p.types[self.ty]['args'][1])
        return Links.inv(self) + rep([('nodes come from the allocator of the list', forall_at(lambda k: Imp(And(le(0, k), lt(k, self.n)), eq(made_by(self.node(k)), a)), self.node)), ('the size is the number of nodes', eq(self.size, self.n))])


def lst(cx, i=0, st=None):
    st = cx.old if st is None else st
    return Lst(cx.ex, st, cx.val(i, st), cx.valty(i))


def kept(n, o, lo, hi, shift=0):
    """node k of n is node k + shift of o, with the same element"""
    return forall_at(lambda k: Imp(And(le(lo, k), lt(k, hi)), And(eq(n.node(k), o.node(add(k, shift))), val_eq(n.valk(k), o.val(o.node(add(k, shift)))))), n.node)


class LC(Contract):
    """on &self / &mut self of a list"""
    mut = False
    pure = False

    def requires(self, cx):
        return lst(cx).inv()

    def footprint(self, cx):
        return lst(cx).fp() if self.mut else FP()

    def post_footprint(self, cx):
        return lst(cx, 0, cx.st).fp() if self.mut else FP()

    def post(self, cx, o, n):
        return []

    def ensures(self, cx):
        o = lst(cx)
        if self.mut:
            n = lst(cx, 0, cx.st)
            return n.inv() + self.post(cx, o, n)
        return unchanged(cx) + self.post(cx, o, o)


CONTRACTS = []


def contract(cls):
    CONTRACTS.append(cls)
    return cls


class Num(LC):
    pure = True
    inline = True

    def post(self, cx, o, n):
        return [('result', eq(cx.res, self.result(o)))]


for _n, _f in (('len', lambda o: o.n), ('size', lambda o: o.n), ('empty', lambda o: eq(o.n, 0)), ('is_empty', lambda o: eq(o.n, 0))):
    CONTRACTS.append(type('List_' + _n, (Num,), {'key': 'list::List::' + _n, 'result': (lambda f: lambda self, o: f(o))(_f)}))


def value_ref(cx, r, o, x):
    """reference r is to the element of node x"""
    if not isinstance(r, Ptr) or tuple(r.path) != o.vpath or cx.p.s(r.base) != cx.p.s(o.nty):
        return False
    return eq(r.obj, x)


class OptList(LC):
    """returns an Option"""

    def some(self, cx, o):
        return lt(0, o.n)

    def item(self, cx, st):
        ety = cx.p.types[cx.destty]['args'][0]
        if cx.p.k(ety) == 'ref':
            o = self.ring(cx)
            return Ptr(fresh_int('itemo'), 0, o.nty, o.vpath)
        return cx.ex.fresh(st, ety, 'item')

    def ring(self, cx):
        return lst(cx)

    def results(self, cx):
        a, b = cx.ex.fork(cx.st, self.some(cx, self.ring(cx)))
        out = []
        if a is not None:
            out.append((a, some(self.item(cx, a))))
        if b is not None:
            out.append((b, NONE))
        return out

    def cases(self, cx, o, yes, no):
        r = cx.res
        c = self.some(cx, o)
        out = [('Some exactly when there is one', eq(eq(r.d, 1), c))]
        if 1 in r.vs:
            out += [(n, Imp(c, g)) for n, g in yes(r.vs[1][0])]
        out += [(n, Imp(Not(c), g)) for n, g in no()]
        return out


class EndRef(OptList):
    pure = True
    back = False

    def post(self, cx, o, n):
        return self.cases(cx, o, lambda r: [('it is the element at that end', value_ref(cx, r, o, o.node(sub(o.n, 1) if self.back else 0)))], lambda: [])


for _n in ('front', 'front_mut', 'back', 'back_mut'):
    CONTRACTS.append(type('List_' + _n, (EndRef,), {'key': 'list::List::' + _n, 'back': 'back' in _n}))


class PushEnd(LC):
    mut = True
    back = True

    def may_panic(self, cx):
        return eq(lst(cx).n, 2 ** 32 - 1)

    def witness(self, cx):
        o, n = lst(cx), lst(cx, 0, cx.st)
        if self.back:
            x = n.prev(o.s)
            n.set(cx.st, lambda k: If(eq(k, o.n), x, o.node(k)), lambda b: If(eq(b, x), o.n, o.pos(b)), add(o.n, 1))
        else:
            x = n.next(o.s)
            n.set(cx.st, lambda k: If(eq(k, 0), x, o.node(sub(k, 1))), lambda b: If(eq(b, x), 0, add(o.pos(b), 1)), add(o.n, 1))

    def post(self, cx, o, n):
        v = cx.args[1]
        if self.back:
            return [('one longer', eq(n.n, add(o.n, 1))), ('the others are kept', kept(n, o, 0, o.n)), ('the new one is the last', val_eq(n.valk(o.n), v))]
        return [('one longer', eq(n.n, add(o.n, 1))), ('the others are kept', kept(n, o, 1, add(o.n, 1), -1)), ('the new one is the first', val_eq(n.valk(0), v))]


for _n in ('front', 'back'):
    CONTRACTS.append(type('Push_' + _n, (PushEnd,), {'key': 'list::List::push_' + _n, 'back': _n == 'back'}))


class PopEnd(OptList):
    mut = True
    back = True

    def witness(self, cx):
        o, n = lst(cx), lst(cx, 0, cx.st)
        m = If(lt(0, o.n), sub(o.n, 1), 0)
        if self.back:
            n.set(cx.st, o.node, o.pos, m)
        else:
            n.set(cx.st, lambda k: o.node(add(k, 1)), lambda b: sub(o.pos(b), 1), m)

    def post(self, cx, o, n):
        last = sub(o.n, 1)
        if self.back:
            return self.cases(cx, o, lambda v: [('one shorter', eq(n.n, last)), ('the last one is returned', val_eq(v, o.valk(last))), ('the others are kept', kept(n, o, 0, last))],
                              lambda: [('still empty', eq(n.n, 0))])
        return self.cases(cx, o, lambda v: [('one shorter', eq(n.n, last)), ('the first one is returned', val_eq(v, o.valk(0))), ('the others are kept', kept(n, o, 0, last, 1))],
                          lambda: [('still empty', eq(n.n, 0))])


for _n in ('front', 'back'):
    CONTRACTS.append(type('Pop_' + _n, (PopEnd,), {'key': 'list::List::pop_' + _n, 'back': _n == 'back'}))


def cursor(lc, o):
    """the position of the one node pointer the loop moves: past the last node, it is the sentinel"""
    cand = []
    for j, n, ty, v in lc.locals():
        if isinstance(v, Ptr) and lc.ex.p.k(ty) == 'ptr' and lc.ex.p.types[lc.ex.p.strip(lc.ex.p.pointee(ty))].get('n') in ('list::node::ListNodeBase', NODE):
            cand.append((j, n, v))
    return cand


@contract
class Clear(LC):
    key = 'list::List::clear'
    mut = True
    ends = False

    def witness(self, cx):
        n, m = lst(cx, 0, cx.st), lst(cx, 0, cx.st.copy())
        n.set(cx.st, m.node, m.pos, 0)

    def post(self, cx, o, n):
        return [('empty', eq(n.n, 0))]

    def at(self, lc, o):
        xs = [(n, v) for j, n, v in cursor(lc, o) if j in moved(lc)] or [(n, v) for j, n, v in cursor(lc, o)]
        if not xs:
            return None, None
        q = xs[0][1]
        return q, If(eq(q.obj, o.s), -1 if self.back(lc) else o.n, o.pos(q.obj))

    def back(self, lc):
        return lc.ex.__dict__.get('backwards', False)

    def left(self, lc, o, k):
        """the nodes that are still there when the cursor is at position k"""
        return (lambda b: And(o.is_node(b), le(o.pos(b), k))) if self.back(lc) else (lambda b: And(o.is_node(b), le(k, o.pos(b))))

    def invariant(self, lc):
        cx = lc.ex.cx0
        o = lst(cx)
        q = self.at(lc, o)[0]
        if q is not None:
            ends = [lc.ex.entails(lc.st, eq(q.obj, e(o.s))) for e in (o.next, o.prev)]
            if not any(ends):
                raise Unsupported('a walk that does not begin at an end of the list')
            lc.ex.backwards = not ends[0]

        def inv(lc):
            n = Links(lc.ex, lc.st, o.s, o.ety)
            q, k = self.at(lc, o)
            if q is None:              # no cursor: the list itself shrinks
                n = lst(cx, 0, lc.st)
                return n.inv() + [('same sentinel', eq(n.s, o.s)), ('blocks are ours', n_own(cx, n, o))]
            return [('the cursor is at a node or at the end', Or(eq(q.obj, o.s), o.is_node(q.obj))),
                    ('the sentinel is there', And(lc.ex.alive(lc.st, o.s), eq(lc.ex.blen(lc.st, o.s), 1), lt(lc.ex.bty(lc.st, o.s), 0))),
                    ('the rest is as before', forall_at(lambda b: Imp(self.left(lc, o, k)(b), And(n.block_ok(b), n.there(b), eq(n.prev(b), o.prev(b)) if self.back(lc) else eq(n.next(b), o.next(b)))), lambda b: [n.next(b), n.there(b), lc.ex.alive(lc.st, b)]))]
        return inv

    def owned(self, lc):
        o = lst(lc.ex.cx0)
        q, k = self.at(lc, o)
        if q is None:
            return lst(lc.ex.cx0, 0, lc.st).fp()
        return FP([o.s], [(self.left(lc, o, k), o.node, (lambda i: And(le(0, i), le(i, k))) if self.back(lc) else (lambda i: And(le(k, i), lt(i, o.n))))])


def moved(lc):
    """locals of the loop's function that the loop changes"""
    return {root[1] for root, path in lc.mod[0] if root[0] == lc.uid} if lc.mod else set()


@contract
class DropL(LC):
    key = '<list::List as Drop>::drop'

    def mods(self, cx):
        return [0]

    def footprint(self, cx):
        return lst(cx).fp()

    def post_footprint(self, cx):
        return FP()

    def ensures(self, cx):
        return []


# ---------------------------------------------------------------- iterators
ITERS = ('list::iter::Iter', 'list::iter::IterMut')


class ListIter(Links):
    """an iterator over the list at its sentinel: next is the position it gives next"""

    def __init__(self, ex, st, val, ty):
        ty = ex.p.strip(ty)
        if ex.p.types[ty].get('n') not in ITERS:
            raise LostAnchor('lost anchor: %s is no list iterator' % ex.p.s(ty))
        et = [a for a in ex.p.types[ty]['args'] if a is not None]
        Links.__init__(self, ex, st, field(ex, ty, val, 'sentinel_node', 0)[0].obj, et[-1])
        self.cur = field(ex, ty, val, 'current_node', 1)[0].obj
        self.len = field(ex, ty, val, 'len', 2)[0]

    @property
    def done(self):
        """how many elements it has given"""
        return If(eq(self.cur, self.s), 0, add(self.pos(self.cur), 1))

    def inv(self):
        return Links.inv(self) + rep([('the iterator is at the head or at a node', Or(eq(self.cur, self.s), self.is_node(self.cur))),
                                      ('the length of the iterator is what is left', eq(self.len, sub(self.n, self.done)))])


class IterNext(OptList):
    pure = True

    def ring(self, cx):
        return self.it(cx)

    def it(self, cx, st=None):
        st = cx.old if st is None else st
        return ListIter(cx.ex, st, cx.val(0, st), cx.valty(0))

    def requires(self, cx):
        return self.it(cx).inv()

    def some(self, cx, o):
        return lt(o.done, o.n)

    def ensures(self, cx):
        o, n = self.it(cx), self.it(cx, cx.st)
        return n.inv() + [('same list', eq(n.s, o.s))] + self.cases(
            cx, o, lambda r: [('the next element in order is given', value_ref(cx, r, o, o.node(o.done))), ('one fewer is left', eq(n.done, add(o.done, 1)))],
            lambda: [('still at the end', eq(n.done, o.done))])


class IterHint(IterNext):
    def results(self, cx):
        return Contract.results(self, cx)

    def ensures(self, cx):
        o = self.it(cx)
        r = cx.res
        return [('lower bound is exact', eq(r.f[0], sub(o.n, o.done))),
                ('upper bound is exact', And(eq(r.f[1].d, 1), eq(r.f[1].vs[1][0], sub(o.n, o.done))) if 1 in r.f[1].vs else False)]


class ListIterOf(LC):
    pure = True

    def ensures(self, cx):
        o = lst(cx)
        r = ListIter(cx.ex, cx.st, cx.res, cx.destty)
        return unchanged(cx) + r.inv() + [('over this list, from its front', And(eq(r.s, o.s), eq(r.done, 0)))]


for _n in ITERS:
    CONTRACTS.append(type('Next_', (IterNext,), {'key': '<%s as Iterator>::next' % _n}))
    CONTRACTS.append(type('Hint_', (IterHint,), {'key': '<%s as Iterator>::size_hint' % _n}))
for _n in ('iter', 'iter_mut'):
    CONTRACTS.append(type('IterOf_', (ListIterOf,), {'key': 'list::List::' + _n}))


# ---------------------------------------------------------------- extending
class Extend(LC):
    mut = True
    clones = False

    def may_panic(self, cx):
        return True                    # more elements than a 32 bit size can count

    def items(self, cx):
        it = cx.args[1]
        if isinstance(it, S) and len(it.f) == 1 and cx.p.types[cx.p.strip(cx.argtys[1])].get('n') in ('core::iter::adapters::cloned::Cloned', 'core::iter::adapters::copied::Copied'):
            it = it.f[0]               # copies of the items of another iterator
        if not isinstance(it, It) or it.kind != 'param':
            raise Unsupported('iterator argument')
        return it

    def refs(self, cx):
        return self.items(cx) is not cx.args[1]

    def place(self, cx, i, ety):
        """the element the i-th reference is to"""
        it = self.items(cx)
        return cx.ex.spec.seq_value(cx.ex, cx.old, 'ITEM%s' % it.id, i, cx.ex.ptr_to(ety, 'ref', False))

    def item(self, cx, st, i, n):
        it = self.items(cx)
        if self.refs(cx):
            q = self.place(cx, i, n.ety)
            return clone_of(cx.ex, n.ety, cx.ex.read_leafs_raw(cx.old, q.obj, q.idx, q.base, (), n.ety))
        return cx.ex.spec.seq_value(cx.ex, st, 'ITEM%s' % it.id, i, n.ety)

    def requires(self, cx):
        o = lst(cx)
        out = o.inv()
        if self.refs(cx):
            ex, st = cx.ex, cx.old

            def ok(i):
                q = self.place(cx, i, o.ety)
                return And(gt(q.obj, 0), ex.alive(st, q.obj), le(0, q.idx), lt(q.idx, ex.blen(st, q.obj)), Seq(ex, st, q.obj, o.ety).init(q.idx), Not(o.fp()(q.obj)))
            out = out + [('the items are borrowed elements, none of this list', forall_at(ok, lambda i: self.place(cx, i, o.ety).obj))]
        return out

    def upto(self, cx, st, o, n, k):
        return [('as much longer as there are items', eq(n.n, add(o.n, k))), ('the elements it had are kept', kept(n, o, 0, o.n)),
                ('the items follow in order', forall_at(lambda i: Imp(And(le(o.n, i), lt(i, n.n)), val_eq(n.valk(i), self.item(cx, st, sub(i, o.n), n))), n.node))]

    def post(self, cx, o, n):
        return self.upto(cx, cx.st, o, n, self.items(cx).n)

    def invariant(self, lc):
        from .vector import progress
        cx = lc.ex.cx0
        o, it = lst(cx), self.items(cx)
        progress(lc)

        def inv(lc):
            n = lst(cx, 0, lc.st)
            k = progress(lc)
            return n.inv() + [('same sentinel', eq(n.s, o.s)), ('progress', And(le(0, k), le(k, it.n))),
                              ('blocks are ours', n_own(cx, n, o))] + self.upto(cx, lc.st, o, n, k)
        return inv

    def owned(self, lc):
        return lst(lc.ex.cx0, 0, lc.st).fp()


def n_own(cx, n, o):
    """every node is one the list had or was allocated since"""
    return forall_at(lambda k: Imp(And(le(0, k), lt(k, n.n)), Or(o.fp()(n.node(k)), Not(cx.ex.alive(cx.old, n.node(k))))), n.node)


CONTRACTS.append(type('Extend_', (Extend,), {'key': '<list::List as Extend<T>>::extend'}))


class ExtendRefs(Extend):
    """copies of borrowed items"""

    def refs(self, cx):
        return True


CONTRACTS.append(type('ExtendRefs_', (ExtendRefs,), {'key': "<list::List as Extend<&'a T>>::extend"}))


class NewList(InPlace):
    def witness(self, cx):
        v, ty = self.built(cx)
        n = Lst(cx.ex, cx.st, v, ty)
        n.set(cx.st, lambda k: 0, lambda b: -1, 0)

    def ensures(self, cx):
        v, ty = self.built(cx)
        n = Lst(cx.ex, cx.st, v, ty)
        return n.inv() + [('empty', eq(n.n, 0))]


for _n in ('new', 'new_in'):
    CONTRACTS.append(type('NewList_', (NewList,), {'key': 'list::List::' + _n}))
