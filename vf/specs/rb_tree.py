"""Red-black trees, maps and sets, their iterators. The nodes of a tree are numbered in order. Ghost heaps: G:tnode(0, k) is
the k-th node, G:tpos(0, o) the number of node o, G:tlo(0, o) and G:thi(0, o) the first number in the subtree of o and the one
after the last. The anchor is the place the parent of the root and the successor of the last node are at: the words begin,
end and parent of the tree itself, seen as a node (G:tanchor; G:tlen is the number of nodes where there is no tree at hand)."""
from .util import *
from .vector_map import Order
from .hash_table import node_ref, moved_locals

TREE, NODE = 'internal::rb_tree::RBTree', 'internal::rb_tree::node::Node'
WRAPS = ('map::Map', 'set::Set')
ITERS = ('internal::rb_tree::iter::Iter', 'internal::rb_tree::iter::IterMut')
ANCHOR = 'the words begin, end and parent of a tree are laid out as the first words of a node (right, left, parent): C++ links the root and the iterators to them'

CONTRACTS = []


def contract(cls):
    CONTRACTS.append(cls)
    return cls


class Nodes:
    """n linked nodes"""

    def __init__(self, ex, st, nty, n=None):
        p = ex.p
        self.ex, self.st, self.nty = ex, st, p.strip(nty)
        d = p.types[self.nty]
        if d.get('n') != NODE:
            raise LostAnchor('lost anchor: %s is no tree node' % d['s'])
        self.fi = {f[0]: i for i, f in enumerate(d['variants'][0]['fields'])}
        if set(self.fi) != {'right', 'left', 'parent', 'pair'}:
            raise LostAnchor('lost anchor: Node::right, left, parent, pair')
        i = self.fi['pair']
        self.kp, self.vp = (i, 0), (i, 1)
        self.kty, self.vty = [p.strip(t) for t in p.types[p.strip(p.fields(self.nty)[i])]['elems']]
        self.A = ex.hread(st, 'G:tanchor', 0, 0)
        self.n = ex.hread(st, 'G:tlen', 0, 0) if n is None else n

    def node(self, k):
        return self.ex.hread(self.st, 'G:tnode', 0, k)

    def pos(self, o):
        return self.ex.hread(self.st, 'G:tpos', 0, o)

    def lo(self, o):
        return self.ex.hread(self.st, 'G:tlo', 0, o)

    def hi(self, o):
        return self.ex.hread(self.st, 'G:thi', 0, o)

    def link(self, o, name):
        return self.ex.hread(self.st, self.ex.canon(self.nty, (self.fi[name],)) + '#o', o, 0)

    def left(self, o):
        return self.link(o, 'left')

    def right(self, o):
        return self.link(o, 'right')

    def parent(self, o):
        return self.link(o, 'parent')

    def key(self, o):
        return self.ex.read_leafs_raw(self.st, o, 0, self.nty, self.kp, self.kty)

    def val(self, o):
        return self.ex.read_leafs_raw(self.st, o, 0, self.nty, self.vp, self.vty)

    def there(self, o):
        return And([self.ex.hread(self.st, self.ex.init_key(self.nty, path + pa), o, 0, 'bool')
                    for path, t in ((self.kp, self.kty), (self.vp, self.vty)) for pa, _ in self.ex.param_leaves(t)])

    def is_node(self, o):
        return And(le(0, self.pos(o)), lt(self.pos(o), self.n), eq(self.node(self.pos(o)), o))

    def block_ok(self, o):
        ex, st = self.ex, self.st
        return And(gt(o, 0), ex.alive(st, o), eq(ex.blen(st, o), 1), eq(ex.bty(st, o), ex.tycode(self.nty)))

    def numbered(self, lo=0, hi=None):
        """the nodes numbered from lo to hi"""
        hi = self.n if hi is None else hi
        return [('nodes are distinct live blocks', forall_at(lambda k: Imp(And(le(lo, k), lt(k, hi)), And(self.block_ok(self.node(k)), eq(self.pos(self.node(k)), k))), self.node)),
                ('every node holds a pair', self.within(lo, hi, self.there, lambda o: [self.there(o), self.left(o), self.right(o), self.key(o)]))]

    def within(self, lo, hi, f, trig):
        return forall_at(lambda o: Imp(And(self.is_node(o), le(lo, self.pos(o)), lt(self.pos(o), hi)), f(o)), trig)

    def child(self, o, c, lo, hi):
        """c is the child of o for the numbers from lo to hi, null if there are none"""
        return If(eq(c, 0), eq(lo, hi), And(self.is_node(c), eq(self.lo(c), lo), eq(self.hi(c), hi), le(lo, self.pos(c)), lt(self.pos(c), hi)))

    def linked(self, lo=0, hi=None):
        hi = self.n if hi is None else hi
        return [('the left child is before the node', self.within(lo, hi, lambda o: self.child(o, self.left(o), self.lo(o), self.pos(o)), self.left)),
                ('the right child is after the node', self.within(lo, hi, lambda o: self.child(o, self.right(o), add(self.pos(o), 1), self.hi(o)), self.right))]

    def at_root(self, r):
        return If(eq(r, 0), eq(self.n, 0), And(self.is_node(r), eq(self.lo(r), 0), eq(self.hi(r), self.n)))

    def upward(self, root):
        """what iterating needs"""
        ex, st, A = self.ex, self.st, self.A
        ex.trusted.add(ANCHOR)

        def up(o):
            q = self.parent(o)
            return If(eq(q, A), eq(o, root), And(self.is_node(q), Or(eq(self.left(q), o), eq(self.right(q), o))))
        return [('the anchor', And(gt(A, 0), ex.alive(st, A), eq(ex.blen(st, A), 1), lt(ex.bty(st, A), 0), Imp(lt(0, self.n), And(eq(self.right(A), self.node(0)), eq(self.parent(A), root))))),
                ('every node is linked to its parent', forall_at(lambda o: Imp(self.is_node(o), up(o)), self.parent))]

    def shape(self, root):
        return rep([('the number of nodes', le(0, self.n)), ('the root', self.at_root(root))] + self.numbered() + self.linked())

    def ordered(self, order):
        def one(a, b):
            return Imp(And(self.is_node(a), self.is_node(b), lt(self.pos(a), self.pos(b))), order.L(I(self.key(a)), I(self.key(b))))

        def pats(a, b):
            return [(x, y) for x in base_apps(self.key(a), a) for y in base_apps(self.key(b), b)]
        return forall(one, 2, pats)

    def fp(self):
        return FP([], [(self.is_node, self.node, lambda k: And(le(0, k), lt(k, self.n)))])


class Tree(Nodes):
    def __init__(self, ex, st, val, ty):
        p = ex.p
        ty = p.strip(ty)
        while p.types[ty].get('n') in WRAPS:
            val, ty = val.f[0], p.strip(p.fields(ty)[0])
        if p.types[ty].get('n') != TREE:
            raise LostAnchor('lost anchor: %s is no RBTree' % p.s(ty))
        b, bt = field(ex, ty, val, 'begin', 1)
        self.ty, self.self = ty, val
        self.begin, self.end, self.root = b.obj, field(ex, ty, val, 'end', 2)[0].obj, field(ex, ty, val, 'parent', 3)[0].obj
        Nodes.__init__(self, ex, st, p.strip(p.pointee(bt)), field(ex, ty, val, 'size', 4)[0])
        a = p.types[ty]['args']
        if p.k(self.kty) != 'param':
            raise LostAnchor('lost anchor: key type ' + p.s(self.kty))
        self.aty, self.order = a[2], Order(ex, self.kty, a[3])
        ex.trusted.add('the comparison of a tree is a strict weak order')

    def made(self):
        return forall_at(lambda k: Imp(And(le(0, k), lt(k, self.n)), eq(made_by(self.node(k)), self.ex.tycode(self.aty))), self.node)

    def inv(self):
        return self.shape(self.root) + rep([('nodes come from the allocator of the tree', self.made()),
                                            ('it begins at the first node', If(lt(0, self.n), eq(self.begin, self.node(0)), Or(eq(self.begin, 0), eq(self.begin, self.A))))]) + \
            [('keys are in order', self.ordered(self.order))]


def tree(cx, i=0, st=None):
    st = cx.old if st is None else st
    return Tree(cx.ex, st, cx.val(i, st), cx.valty(i))


class TC(Contract):
    """on &self / &mut self of a tree, map or set"""
    mut = False
    pure = False

    def requires(self, cx):
        t = tree(cx)
        if not cx.caller:
            L = t.order.L
            a, b, c = z3.Ints('ta tb tc')
            cx.st.pc.append(z3.ForAll([a, b, c], z3.Implies(z3.And(L(a, b), L(b, c)), L(a, c)), patterns=[z3.MultiPattern(L(a, b), L(b, c))]))
            cx.st.pc.append(z3.ForAll([a, b], z3.Implies(L(a, b), z3.Not(L(b, a))), patterns=[L(a, b)]))
        return t.inv()

    def mods(self, cx):
        return Contract.mods(self, cx) if self.mut else []

    def footprint(self, cx):
        return tree(cx).fp() if self.mut else FP()

    def post_footprint(self, cx):
        return tree(cx, 0, cx.st).fp() if self.mut else FP()

    def post(self, cx, o, n):
        return []

    def ensures(self, cx):
        o = tree(cx)
        if self.mut:
            n = tree(cx, 0, cx.st)
            return n.inv() + self.post(cx, o, n)
        return self.post(cx, o, o)


class Num(TC):
    pure = True
    inline = True

    def post(self, cx, o, n):
        return [('result', eq(cx.res, self.result(o)))]


for _t in (TREE,) + WRAPS:
    for _n, _f in (('len', lambda o: o.n), ('is_empty', lambda o: eq(o.n, 0))):
        CONTRACTS.append(type('RB_' + _n, (Num,), {'key': _t + '::' + _n, 'result': (lambda f: lambda self, o: f(o))(_f)}))


class New(Contract):
    pure = True

    def ensures(self, cx):
        n = Tree(cx.ex, cx.st, cx.res, cx.destty)
        return n.inv() + [('empty', And(eq(n.n, 0), eq(n.begin, 0), eq(n.end, 0), eq(n.root, 0)))]


for _t in (TREE,) + WRAPS:
    for _k in (('%s::new' % _t,) if _t == TREE else ()) + ('<%s as Default>::default' % _t, _t + '::with_allocator', _t + '::with_compare', _t + '::with_allocator_and_compare'):
        CONTRACTS.append(type('RB_new', (New,), {'key': _k}))


# ---------------------------------------------------------------- looking up
def cursors(lc):
    """the nodes the loop is at: (node or 0, value)"""
    p = lc.p
    for ty, v in moved_locals(lc):
        t = p.strip(ty)
        if isinstance(v, Ptr) and not v.path and is_node_ty(p, t):
            yield v.obj, v
        if isinstance(v, En) and p.types[t].get('n') == 'core::option::Option' and is_node_ty(p, p.strip(p.types[t]['args'][0])):
            yield (0 if 1 not in v.vs or v.vs[1][0] is UNINIT else If(eq(v.d, 1), v.vs[1][0].obj, 0)), v


def is_node_ty(p, t):
    return p.k(t) in ('ptr', 'ref') and not p.is_fat(p.pointee(t)) and p.types[p.strip(p.pointee(t))].get('n') == NODE


class Find(TC):
    """the node with a key"""
    pure = True
    path = None

    def keyval(self, cx):
        return cx.val(1)

    def results(self, cx):
        t = tree(cx)
        x = cx.extra['x'] = fresh_int('found')
        a = cx.st.copy()
        a.ghost['cur'] = x
        return [(a, some(Ptr(x, 0, t.nty, self.where(t)))), (cx.st, NONE)]

    def where(self, t):
        return ()

    def post(self, cx, o, n):
        r, k = cx.res, self.keyval(cx)
        out = [('None only if no element has the key', Imp(eq(r.d, 0), absent(o, k)))]
        if 1 in r.vs:
            v = r.vs[1][0]
            x = v.obj if isinstance(v, Ptr) else 0
            out += [('an element with the key', Imp(eq(r.d, 1), has(o, x, k))), ('the result is that element', Imp(eq(r.d, 1), node_ref(cx, v, o, x, self.where(o))))]
        return out

    def invariant(self, lc):
        cx = lc.ex.cx0
        o, k = tree(cx), self.keyval(cx)
        L = o.order.L

        def inv(lc):
            xs = list(cursors(lc))
            if not xs and lc.mod is not None and lc.mod[0]:
                raise LostAnchor('lost anchor: nothing moves down the tree at the loop of ' + lc.fn['key'])
            out = []
            for x, v in xs[:1]:
                out += [('at a node or at the end', Or(eq(x, 0), o.is_node(x))),
                        ('smaller keys before', forall_at(lambda b: Imp(And(o.is_node(b), ne(x, 0), lt(o.pos(b), o.lo(x))), L(I(o.key(b)), I(k))), lambda b: [o.key(b)])),
                        ('greater keys after', forall_at(lambda b: Imp(And(o.is_node(b), ne(x, 0), le(o.hi(x), o.pos(b))), L(I(k), I(o.key(b)))), lambda b: [o.key(b)])),
                        ('none if at the end', Imp(eq(x, 0), absent(o, k)))]
                if isinstance(v, En):
                    out.append(('a node if Some', Imp(eq(v.d, 1), ne(x, 0))))
            return out
        return inv


def equal(o, b, k):
    L = o.order.L
    return And(Not(L(I(o.key(b)), I(k))), Not(L(I(k), I(o.key(b)))))


def absent(o, k):
    return forall_at(lambda b: Imp(o.is_node(b), Not(equal(o, b, k))), lambda b: [o.key(b), o.pos(b)])


def has(o, x, k):
    return And(o.is_node(x), equal(o, x, k))


@contract
class FindInTree(Find):
    key = TREE + '::find_in_tree'


class Get(Find):
    def where(self, t):
        return t.vp


for _t in (TREE, WRAPS[0]):
    for _n in ('get', 'get_mut'):
        CONTRACTS.append(type('RB_' + _n, (Get,), {'key': '%s::%s' % (_t, _n)}))


class Contains(Find):
    def results(self, cx):
        x = cx.extra['x'] = fresh_int('found')
        cx.st.ghost['cur'] = x
        return [(cx.st, fresh_bool('contains'))]

    def post(self, cx, o, n):
        k = self.keyval(cx)
        x = cx.extra['x'] if cx.caller else cx.st.ghost.get('cur')
        return [('false only if no element has the key', Or(cx.res, absent(o, k))), ('true only if an element has it', Imp(cx.res, has(o, x, k) if x is not None else False))]


for _t in (TREE,) + WRAPS:
    CONTRACTS.append(type('RB_contains', (Contains,), {'key': _t + '::contains_key'}))


# ---------------------------------------------------------------- freeing
@contract
class FreeTree(TC):
    """frees a subtree"""
    key = TREE + '::free_tree'
    mut = True

    def heap_arg(self, i):
        return i == 1

    def root(self, cx):
        return cx.args[1].obj

    def requires(self, cx):
        t, r = tree(cx), self.root(cx)
        lo, hi = t.lo(r), t.hi(r)
        return [('the root is a node', And(t.is_node(r), le(0, lo), le(lo, t.pos(r)), lt(t.pos(r), hi), le(hi, t.n), eq(cx.args[1].idx, 0)))] + \
            rep(t.numbered(lo, hi) + t.linked(lo, hi) + [('nodes come from the allocator of the tree', forall_at(lambda k: Imp(And(le(lo, k), lt(k, hi)), eq(made_by(t.node(k)), t.ex.tycode(t.aty))), t.node))])

    def mods(self, cx):
        return [0]

    def footprint(self, cx):
        t, r = tree(cx), self.root(cx)
        lo, hi = t.lo(r), t.hi(r)
        return FP([], [(lambda o: And(t.is_node(o), le(lo, t.pos(o)), lt(t.pos(o), hi)), t.node, lambda k: And(le(lo, k), lt(k, hi)))])

    def post_footprint(self, cx):
        return FP()

    def ensures(self, cx):
        return unchanged(cx)


class Clear(TC):
    mut = True

    def post(self, cx, o, n):
        return [('empty', eq(n.n, 0))]


for _k in (TREE + '::free_nodes', TREE + '::clear') + tuple(w + '::clear' for w in WRAPS):
    CONTRACTS.append(type('RB_clear', (Clear,), {'key': _k}))


@contract
class DropT(TC):
    key = '<%s as Drop>::drop' % TREE
    mut = True

    def post_footprint(self, cx):
        return FP()

    def ensures(self, cx):
        return []


# ---------------------------------------------------------------- iterating
class NodeNext(Contract):
    pure = True
    check_leaks = False

    def heap_arg(self, i):
        return True

    def nodes(self, cx):
        return Nodes(cx.ex, cx.old, cx.p.pointee(cx.argtys[0]))

    def requires(self, cx):
        t = self.nodes(cx)
        root = t.parent(t.A)
        return t.shape(root) + rep(t.upward(root)) + [('of a node', And(t.is_node(cx.args[0].obj), eq(cx.args[0].idx, 0)))]

    def mods(self, cx):
        return []

    def results(self, cx):
        return [(cx.st, Ptr(fresh_int('next'), 0, self.nodes(cx).nty))]

    def ensures(self, cx):
        t = self.nodes(cx)
        k = add(t.pos(cx.args[0].obj), 1)
        r = cx.res
        if not isinstance(r, Ptr) or r.path or cx.p.s(r.base) != cx.p.s(t.nty):
            return [('a node', False)]
        return [('the next node, or the anchor after the last one', And(eq(r.idx, 0), eq(r.obj, If(lt(k, t.n), t.node(k), t.A))))]

    def invariant(self, lc):
        cx = lc.ex.cx0
        t, s = self.nodes(cx), cx.args[0].obj
        root, k = t.parent(t.A), add(t.pos(s), 1)

        def inv(lc):
            xs = [v for x, v in cursors(lc)]
            roots = [root for root, path in lc.mod[0] if isinstance(lc.st.store.get(root), Ptr)] if lc.mod else []
            ups, downs = [], []
            for rt in dict.fromkeys(roots):
                v, e = lc.st.store[rt], lc.entry.store.get(rt)
                if not isinstance(v, Ptr) or not isinstance(e, Ptr) or cx.p.types[cx.p.strip(v.base)].get('n') != NODE:
                    continue
                (ups if eq(e.obj, s) is True else downs).append(v)
            if lc.mod is None or not lc.mod[0]:
                return []
            if not ups and not downs:
                raise LostAnchor('lost anchor: no node moves at the loop of ' + lc.fn['key'])
            if not ups:          # down to the left
                return [('in the right subtree', And(ne(t.right(s), 0), *[And(t.is_node(c.obj), eq(c.idx, 0), eq(t.lo(c.obj), k)) for c in downs]))]
            c = ups[0].obj
            q = t.parent(c)
            g = And(eq(t.right(s), 0), Or(And(t.is_node(c), eq(t.hi(c), k)), And(eq(c, t.A), eq(k, t.n), eq(t.node(0), root))))
            return [('nothing greater in the subtree', g)] + [('its parent', And(eq(d.obj, q), eq(d.idx, 0))) for d in downs]
        return inv


for _n in ('next', 'next_mut'):
    CONTRACTS.append(type('RB_' + _n, (NodeNext,), {'key': NODE + '::' + _n}))


class TIter(Nodes):
    def __init__(self, ex, st, val, ty):
        p = ex.p
        ty = p.strip(ty)
        if p.types[ty].get('n') not in ITERS:
            raise LostAnchor('lost anchor: %s is no iterator of a tree' % p.s(ty))
        nd, nt = field(ex, ty, val, 'node', 0)
        self.x, self.a = nd, field(ex, ty, val, 'anchor', 1)[0]
        Nodes.__init__(self, ex, st, p.strip(p.pointee(nt)))

    def at(self):
        """the number of the next node"""
        return If(Or(eq(self.x.obj, 0), eq(self.x.obj, self.A)), self.n, self.pos(self.x.obj))

    def inv(self):
        root = self.parent(self.A)
        return self.shape(root) + rep(self.upward(root)) + [
            ('it ends at the anchor', And(eq(self.a.obj, self.A), eq(self.a.idx, 0))),
            ('at a node or at the end', And(eq(self.x.idx, 0), Or(self.is_node(self.x.obj), eq(self.x.obj, self.A), And(eq(self.x.obj, 0), eq(self.n, 0)))))]


class NextC(Contract):
    pure = True

    def it(self, cx, st=None):
        st = cx.old if st is None else st
        return TIter(cx.ex, st, cx.val(0, st), cx.valty(0))

    def requires(self, cx):
        return self.it(cx).inv()

    def results(self, cx):
        o = self.it(cx)
        a, b = cx.ex.fork(cx.st, eq(o.at(), o.n))
        return ([(a, NONE)] if a is not None else []) + ([(b, some(S([Ptr(o.x.obj, 0, o.nty, o.kp), Ptr(o.x.obj, 0, o.nty, o.vp)])))] if b is not None else [])

    def ensures(self, cx):
        o, n, r = self.it(cx), self.it(cx, cx.st), cx.res
        out = n.inv() + [('it ends exactly after the last element', eq(eq(r.d, 0), eq(o.at(), o.n))), ('one step', eq(n.at(), If(eq(o.at(), o.n), o.n, add(o.at(), 1))))]
        if 1 in r.vs:
            out.append(('the next element is given', Imp(eq(r.d, 1), And([node_ref(cx, a, o, o.node(o.at()), b) for a, b in zip(r.vs[1][0].f, (o.kp, o.vp))]))))
        return out


for _t in ITERS:
    CONTRACTS.append(type('RI_next', (NextC,), {'key': '<%s as Iterator>::next' % _t}))


class IterC(TC):
    """iter and iter_mut: from the first node to the tree itself"""
    pure = True
    inline = True

    def post(self, cx, o, n):
        ty = cx.p.strip(cx.destty)
        v = cx.res
        if cx.p.types[ty].get('n') not in ITERS:
            return [('an iterator of a tree', False)]
        x, a = field(cx.ex, ty, v, 'node', 0)[0], field(cx.ex, ty, v, 'anchor', 1)[0]
        path, t, want = (), cx.valty(0), cx.args[0]
        while cx.p.types[t].get('n') in WRAPS:
            path, t = path + (0,), cx.p.strip(cx.p.fields(t)[0])
        path += (cx.p.field_index(t, 'begin'),)
        there = isinstance(a, LRef) and a.root == want.root and tuple(a.path) == tuple(want.path) + path
        return [('it starts at the first node', eq(x.obj, o.begin)), ('it ends at the tree itself', there)]


for _t, _k in ((TREE, 'iter'), (TREE, 'iter_mut'), (WRAPS[0], 'iter'), (WRAPS[0], 'iter_mut')):
    CONTRACTS.append(type('RB_' + _k, (IterC,), {'key': '%s::%s' % (_t, _k)}))


@contract
class SetIter(IterC):
    """the iterator over the tree, mapped to the first part of every pair"""
    key = 'set::Set::iter'
    inline = False

    def then(self, cx, st, val):
        ex, p = cx.ex, cx.p
        d = p.types[p.strip(cx.destty)]
        if d.get('n') != 'core::iter::adapters::map::Map':
            raise LostAnchor('lost anchor: the iterator of a set is %s' % d['s'])
        c = p.types[p.strip(d['args'][1])]
        fn = (p.find_instance(c['n'], c['args']) or p.find_instance(c['n'])) if c['k'] == 'closure' else None
        if fn is None:
            raise Unsupported('a value mapped by ' + c['s'])
        t = tree(cx)
        x = fresh_int('member')
        root = ('closure', ex.new_uid())
        st.store[root] = val.f[1]
        cx.extra['x'], cx.extra['iter'] = x, p.strip(d['args'][0])
        return fn, [LRef(root), S([Ptr(x, 0, t.nty, t.kp), Ptr(x, 0, t.nty, t.vp)])], lambda s, v: S([val.f[0], v])

    def post(self, cx, o, n):
        if cx.caller:
            return []
        c2 = cx.with_state(cx.st, cx.res.f[0])
        c2.destty = cx.extra['iter']
        return IterC.post(self, c2, o, n) + [('the key of every pair is given', node_ref(cx, cx.res.f[1], o, cx.extra['x'], o.kp))]
