"""Hash tables, maps and sets, their iterators and entries. The nodes of a table are numbered bucket by bucket, in the order
of the chains. Ghost heaps at the bucket array B: G:hnode(B, p) is the p-th node, G:hpos(B, o) the number of node o,
G:hbkt(B, o) its bucket, and G:hfirst(B, i) the number of the first node of bucket i (so bucket i has the nodes from
first(i) up to first(i + 1)). A table with one bucket is the static empty one, which has no ghost state: it has no nodes."""
from .util import *

TABLE, NODE = 'internal::hash_table::HashTable', 'internal::hash_table::node::Node'
WRAPS = ('hash_map::HashMap', 'hash_set::HashSet')
RAW = 'internal::hash_table::iter::RawIter'
ITERS = ('internal::hash_table::iter::Iter', 'internal::hash_table::iter::IterMut', 'hash_set::iter::Iter')
EQUAL = 'the equality of a table (Equals, or == of the keys) is an equivalence relation, and equal keys have equal hashes'
FLOATS = 'numbers of elements and buckets are exact as f32 (they are, up to 2^24; beyond, the load factor is approximate)'
MAXB = 4294967291

CONTRACTS = []


def contract(cls):
    CONTRACTS.append(cls)
    return cls


def REM(h, c):
    return uf('REM', 2, 'int')(I(h), I(c))


def HASH(k):
    return uf('HASH', 1, 'int')(I(k))


def EQ(a, b):
    return uf('EQUALS', 2, 'bool')(I(a), I(b))


def key_axioms(trans=False):
    a, b, c = z3.Ints('ka kb kc')
    out = [z3.ForAll([a, b], EQ(a, b) == EQ(b, a), patterns=[EQ(a, b)]),
           z3.ForAll([a, b], z3.Implies(EQ(a, b), HASH(a) == HASH(b)), patterns=[EQ(a, b)])]
    if trans:
        out.append(z3.ForAll([a, b, c], z3.Implies(z3.And(EQ(a, b), EQ(b, c)), EQ(a, c)), patterns=[z3.MultiPattern(EQ(a, b), EQ(b, c))]))
    return out


class Tab:
    """c chained buckets at B"""

    def __init__(self, ex, st, B_, c, nty, many=False):
        p = ex.p
        self.many = many                # more than one bucket, for sure
        self.ex, self.st, self.B, self.c, self.nty = ex, st, B_, c, p.strip(nty)
        d = p.types[self.nty]
        if d.get('n') != NODE:
            raise LostAnchor('lost anchor: %s is no hash table node' % d['s'])
        self.fi = {f[0]: i for i, f in enumerate(d['variants'][0]['fields'])}
        if set(self.fi) != {'key', 'val', 'next'}:
            raise LostAnchor('lost anchor: Node::key, val, next')
        fs = p.fields(self.nty)
        self.kp, self.vp, self.np = (self.fi['key'],), (self.fi['val'],), (self.fi['next'],)
        self.kty, self.vty, self.pty = p.strip(fs[self.kp[0]]), p.strip(fs[self.vp[0]]), p.strip(fs[self.np[0]])
        if p.k(self.kty) != 'param':
            raise LostAnchor('lost anchor: key type ' + p.s(self.kty))
        self.n = self.first(c)

    def node(self, k):
        return self.ex.hread(self.st, 'G:hnode', self.B, k)

    def pos(self, o):
        return self.ex.hread(self.st, 'G:hpos', self.B, o)

    def bkt(self, o):
        return self.ex.hread(self.st, 'G:hbkt', self.B, o)

    def first(self, i):
        n = self.ex.hread(self.st, 'G:hfirst', self.B, i)
        return n if self.many else If(eq(self.c, 1), 0, n)

    def cell(self, i):
        return self.ex.hread(self.st, self.ex.canon(self.pty, ()) + '#o', self.B, i)

    def next(self, o):
        return self.ex.hread(self.st, self.ex.canon(self.nty, self.np) + '#o', o, 0)

    def key(self, o):
        return self.ex.read_leafs_raw(self.st, o, 0, self.nty, self.kp, self.kty)

    def val(self, o):
        return self.ex.read_leafs_raw(self.st, o, 0, self.nty, self.vp, self.vty)

    def there(self, o):
        return And([self.ex.hread(self.st, self.ex.init_key(self.nty, path + pa), o, 0, 'bool')
                    for path, t in ((self.kp, self.kty), (self.vp, self.vty)) for pa, _ in self.ex.param_leaves(t)])

    def is_node(self, o):
        return And(le(0, self.pos(o)), lt(self.pos(o), self.n), eq(self.node(self.pos(o)), o))

    def block_ok(self, o):
        ex, st = self.ex, self.st
        return And(gt(o, 0), ex.alive(st, o), eq(ex.blen(st, o), 1), eq(ex.bty(st, o), ex.tycode(self.nty)))

    def after(self, o):
        """the node after o in its bucket"""
        k = add(self.pos(o), 1)
        return If(lt(k, self.first(add(self.bkt(o), 1))), self.node(k), 0)

    def head(self, i):
        return If(lt(self.first(i), self.first(add(i, 1))), self.node(self.first(i)), 0)

    def array(self):
        ex, st, B_, c = self.ex, self.st, self.B, self.c
        return And(ne(B_, 0), le(1, c), le(c, MAXB), ex.alive(st, B_), eq(ex.blen(st, B_), add(c, 1)),
                   If(eq(c, 1), And(lt(B_, 0), lt(ex.bty(st, B_), 0)), And(gt(B_, 0), eq(ex.bty(st, B_), ex.tycode(self.pty)))))

    def sentinel(self):
        return eq(self.cell(self.c), self.ex.spec.intptr(2 ** 64 - 1))

    def order(self):
        f, c, n = self.first, self.c, self.n
        return [('numbers of first nodes', And(eq(f(0), 0), le(0, n), forall_at(lambda i: Imp(And(le(0, i), le(i, c)), And(le(0, f(i)), le(f(i), n))), f))),
                ('buckets are in order', each2(lambda i, j: Imp(And(le(0, i), le(i, j), le(j, c)), le(f(i), f(j))), f)),
                ('nodes are distinct live blocks', forall_at(lambda k: Imp(And(le(0, k), lt(k, n)), self.numbered(k)), self.node))]

    def numbered(self, k):
        o = self.node(k)
        b = self.bkt(o)
        return And(self.block_ok(o), eq(self.pos(o), k), le(0, b), lt(b, self.c), le(self.first(b), k), lt(k, self.first(add(b, 1))))

    def cells(self):
        return forall_at(lambda i: Imp(And(le(0, i), lt(i, self.c)), eq(self.cell(i), self.head(i))), self.cell)

    def chained(self, unless=None):
        return forall_at(lambda o: Imp(self.is_node(o), eq(self.next(o), self.after(o))), self.next)

    def filled(self):
        return forall_at(lambda o: Imp(self.is_node(o), self.there(o)), lambda o: [self.there(o), self.next(o), self.key(o)])

    def placed(self):
        return forall_at(lambda o: Imp(self.is_node(o), eq(self.bkt(o), REM(HASH(self.key(o)), self.c))), lambda o: [self.bkt(o), self.key(o)])

    def different(self):
        return each2(lambda a, b: Imp(And(self.is_node(a), self.is_node(b), ne(a, b)), Not(EQ(self.key(a), self.key(b)))), self.key)

    def shape(self):
        """all that iterating needs"""
        return rep([('bucket array', self.array())]) + [('the end marker follows the buckets', self.sentinel())] + rep(self.order() + [
            ('every bucket has its first node', self.cells()), ('every node links to the next one in its bucket', self.chained()), ('every node holds a key and a value', self.filled())])

    def inv(self):
        return self.shape() + [('every element is in the bucket of its hash', self.placed()), ('keys are all different', self.different())]

    def arr(self):
        return self.B if self.many else If(gt(self.c, 1), self.B, 0)

    def fp(self):
        return FP([self.arr()], [(self.is_node, self.node, lambda k: And(le(0, k), lt(k, self.n)))])

    # ---- ghost updates
    def set(self, st, node, pos, bkt, first):
        ex, B_ = self.ex, self.arr()
        for key, f in (('G:hnode', node), ('G:hpos', pos), ('G:hbkt', bkt), ('G:hfirst', first)):
            ex.heap(st, key)
        for key, f in (('G:hnode', node), ('G:hpos', pos), ('G:hbkt', bkt), ('G:hfirst', first)):
            ex.hobj(st, key, B_, f)

    def frozen(self):
        return Tab(self.ex, self.st.copy(), self.B, self.c, self.nty, self.many)

    def set_empty(self, st):
        self.set(st, lambda k: 0, lambda b: -1, lambda b: 0, lambda j: 0)

    def insert_head(self, st, x, i):
        o = self.frozen()
        q = o.first(i)
        self.set(st, lambda k: If(lt(k, q), o.node(k), If(eq(k, q), x, o.node(sub(k, 1)))), lambda b: If(eq(b, x), q, If(lt(o.pos(b), q), o.pos(b), add(o.pos(b), 1))),
                 lambda b: If(eq(b, x), i, o.bkt(b)), lambda j: If(le(j, i), o.first(j), add(o.first(j), 1)))

    def remove_at(self, st, x):
        o = self.frozen()
        q, i = o.pos(x), o.bkt(x)
        self.set(st, lambda k: If(lt(k, q), o.node(k), o.node(add(k, 1))), lambda b: If(eq(b, x), -1, If(lt(o.pos(b), q), o.pos(b), sub(o.pos(b), 1))),
                 lambda b: o.bkt(b), lambda j: If(le(j, i), o.first(j), sub(o.first(j), 1)))


def each2(f, term):
    """forall a, b, instantiated at pairs of reads of term"""
    def pats(a, b):
        return [(x, y) for x in base_apps(term(a), a) for y in base_apps(term(b), b)]
    return forall(f, 2, pats)


class HTab(Tab):
    def __init__(self, ex, st, val, ty):
        p = ex.p
        ty = p.strip(ty)
        while p.types[ty].get('n') in WRAPS:
            val, ty = val.f[0], p.strip(p.fields(ty)[0])
        if p.types[ty].get('n') != TABLE:
            raise LostAnchor('lost anchor: %s is no HashTable' % p.s(ty))
        self.ty, self.self = ty, val
        q, qt = field(ex, ty, val, 'bucket_array', 1)
        self.ptr = q
        Tab.__init__(self, ex, st, q.obj, field(ex, ty, val, 'bucket_count', 2)[0], p.pointee(p.pointee(qt)))
        self.len = field(ex, ty, val, 'element_count', 3)[0]
        pol, pt = field(ex, ty, val, 'rehash_policy', 4)
        self.mlf, self.gf, self.nr = [field(ex, pt, pol, n, i)[0] for i, n in enumerate(('max_load_factor', 'growth_factor', 'next_resize'))]
        self.aty = field_type(p, ty, 'allocator')
        ex.trusted.add(EQUAL)
        ex.trusted.add(FLOATS)

    def policy(self):
        return [('load factor 1, growth factor 2', And(real(self.mlf) == 1, real(self.gf) == 2)), ('the next resize is not late', And(le(0, self.nr), le(self.nr, self.c), Imp(eq(self.c, 1), eq(self.nr, 0))))]

    def made(self):
        a = self.ex.tycode(self.aty)
        return And(Imp(gt(self.c, 1), eq(made_by(self.B), a)), forall_at(lambda k: Imp(And(le(0, k), lt(k, self.n)), eq(made_by(self.node(k)), a)), self.node))

    def base(self):
        """without the number of elements"""
        return Tab.inv(self) + rep([('start of the bucket array', eq(self.ptr.idx, 0)), ('made by its allocator', self.made())])

    def inv(self):
        return self.base() + rep([('the length is the number of nodes', eq(self.len, self.n))]) + [(n, g) for n, g in self.policy()] + \
            [('never more elements than buckets', Imp(gt(self.c, 1), le(self.n, self.c)))]


def real(x):
    return z3.RealVal(x) if isinstance(x, (int, float)) else x


def field_type(p, ty, name):
    for f in p.types[ty]['variants'][0]['fields']:
        if f[0] == name:
            return p.strip(f[1])
    raise LostAnchor('lost anchor: field %s of %s' % (name, p.s(ty)))


def htab(cx, i=0, st=None):
    st = cx.old if st is None else st
    return HTab(cx.ex, st, cx.val(i, st), cx.valty(i))


def res_tab(cx):
    return HTab(cx.ex, cx.st, cx.res, cx.destty)


# ---------------------------------------------------------------- what happened to the elements
def members(n, o, gone=None, new=None):
    """the nodes of n are those of o, without gone, and new"""
    def one(b):
        old = o.is_node(b) if gone is None else And(o.is_node(b), ne(b, gone))
        return eq(n.is_node(b), old if new is None else Or(old, eq(b, new)))
    return forall_at(one, lambda b: [n.pos(b), o.pos(b)])


def contents(n, o, but=None):
    """the nodes of o still have their keys and values (but one has another value)"""
    return And(forall_at(lambda b: Imp(And(o.is_node(b), n.is_node(b)), eq(n.key(b), o.key(b))), lambda b: [n.key(b)]),
               forall_at(lambda b: Imp(And(o.is_node(b), n.is_node(b), *([] if but is None else [ne(b, but)])), val_eq(n.val(b), o.val(b))), lambda b: leaf_terms(n.val(b))) if leaf_terms(n.val(1)) else True)


def same_elements(n, o, gone=None, new=None, but=None):
    m = If(eq(0, 0), 0, 0)
    return [('the other elements are kept', members(n, o, gone, new)), ('with their keys and values', contents(n, o, but))]


def absent(o, k):
    return forall_at(lambda b: Imp(o.is_node(b), Not(EQ(o.key(b), I(k)))), lambda b: [o.key(b), o.pos(b)])


def has(o, x, k):
    return And(o.is_node(x), EQ(o.key(x), I(k)))


def node_ref(cx, r, t, x, path):
    if not isinstance(r, Ptr) or tuple(r.path) != tuple(path) or cx.p.s(r.base) != cx.p.s(t.nty):
        return False
    return eq(r.obj, x)


# ---------------------------------------------------------------- cursors in chains
def is_node_ty(p, t):
    return p.k(t) in ('ptr', 'ref') and not p.is_fat(p.pointee(t)) and p.types[p.strip(p.pointee(t))].get('n') == NODE


def moved_locals(lc):
    """the locals the loop moves, that had a value when it was entered"""
    if lc.mod is None:
        return
    seen = set()
    for root, path in lc.mod[0]:
        if root in seen or lc.entry.store.get(root, UNINIT) is UNINIT:
            continue
        seen.add(root)
        v = lc.st.store.get(root, UNINIT)
        for fr in lc.st.frames:
            if v is not UNINIT and fr.uid == root[0]:
                yield fr.fn['locals'][root[1]][0], v


def chain_cursors(lc):
    p = lc.p
    for ty, v in moved_locals(lc):
        t = p.strip(ty)
        if isinstance(v, Ptr) and is_node_ty(p, t):
            yield 'node', v.obj, None
        elif isinstance(v, En) and p.types[t].get('n') == 'core::option::Option' and is_node_ty(p, p.strip(p.types[t]['args'][0])):
            if 1 not in v.vs or v.vs[1][0] is UNINIT:
                yield 'none', 0, None
            else:
                yield 'option', If(eq(v.d, 1), v.vs[1][0].obj, 0), v
        elif isinstance(v, Ptr) and p.k(t) in ('ptr', 'ref') and not p.is_fat(p.pointee(t)) and is_node_ty(p, p.strip(p.pointee(t))):
            yield 'slot', None, v


def chain_cursor(lc):
    """the node the loop is at: (kind, node or 0, slot or None)"""
    cs = list(chain_cursors(lc))
    slots = [c for c in cs if c[0] == 'slot']
    if len(slots) == 1:
        return slots[0]
    return cs[0] if cs else None


def find_it(v, lc, deep=0):
    """a slice iterator over buckets in a value"""
    if deep > 6:
        return None
    p = lc.p
    if isinstance(v, It):
        if v.kind == 'sliter':
            b = p.strip(v.ptr.base)
            if not v.ptr.path and is_node_ty(p, b):
                return v
            return None
        for x in v.f.values():
            r = find_it(x, lc, deep + 1) if isinstance(x, V) else None
            if r is not None:
                return r
    if isinstance(v, S):
        for x in v.f:
            r = find_it(x, lc, deep + 1)
            if r is not None:
                return r
    if isinstance(v, En):
        for fs in v.vs.values():
            for x in fs:
                r = find_it(x, lc, deep + 1)
                if r is not None:
                    return r
    return None


def moving_it(lc):
    """the iterator over buckets that the loop moves"""
    for root, path in lc.mod[0] if lc.mod else ():
        v = lc.st.store.get(root)
        if v is None or v is UNINIT:
            continue
        v = lc.ex.get_in(lc.st, v, path)
        r = find_it(v, lc) if isinstance(v, V) else None
        if r is not None:
            return r
    return None


def bucket_it(lc, B_, st=None):
    """the iterator over the buckets of B, wherever it is"""
    for root, v in reversed(list((st or lc.st).store.items())):
        if isinstance(v, V):
            r = find_it(v, lc)
            if r is not None and eq(r.ptr.obj, B_) is True:
                return r
    return None


class HC(Contract):
    """on &self / &mut self of a table, map or set"""
    mut = False
    pure = False
    uf_rem = True
    trans = False
    grown = False       # it certainly has buckets afterwards

    def requires(self, cx):
        if not cx.caller:
            cx.st.pc.extend(key_axioms(self.trans))
        return htab(cx).inv()

    def mods(self, cx):
        return Contract.mods(self, cx) if self.mut else []

    def footprint(self, cx):
        return htab(cx).fp() if self.mut else FP()

    def post_footprint(self, cx):
        return htab(cx, 0, cx.st).fp() if self.mut else FP()

    def post(self, cx, o, n):
        return []

    def ensures(self, cx):
        o = htab(cx)
        if self.mut:
            n = htab(cx, 0, cx.st)
            first = []
            if self.grown:
                first = [('there is a bucket array', And(gt(n.c, 1), gt(n.B, 0)))]
                if cx.caller:
                    cx.ex.assume(cx.st, first[0][1])
                    cx.ex.settle_ghosts(cx.st, n.B)
                    n = htab(cx, 0, cx.st)
                n.many = True
            return first + n.inv() + self.post(cx, o, n)
        return unchanged(cx) + self.post(cx, o, o)

    def keyval(self, cx, i=1):
        return cx.val(i) if cx.p.k(cx.argtys[i]) == 'ref' else cx.args[i]

    # the node that was found, made or removed
    def found(self, cx):
        if cx.caller:
            return cx.extra['x']
        x = cx.st.ghost.get('cur')
        if x is None:
            raise LostAnchor('lost anchor: the node at the end of a search')
        return x

    def two(self, cx, item, none=True):
        """Some with the node in question, or None"""
        x = cx.extra['x'] = fresh_int('found')
        a = cx.st.copy()
        a.ghost['cur'] = x
        out = [(a, some(item(a, x)))]
        if none:
            cx.st.ghost['cur'] = x
            out.append((cx.st, NONE))
        return out


def search_inv(con, cx, lc, key):
    """looking for a key in a chain"""
    o = htab(cx)
    i0 = REM(HASH(key), o.c)
    both = {}

    def inv(lc):
        c = chain_cursor(lc)
        if c is None and lc.mod is not None and not lc.mod[0]:
            lc.st.ghost['cur'] = 0  # the loop ends at once
            return []
        if c is None:
            raise LostAnchor('lost anchor: nothing moves along the chain at the loop of ' + lc.fn['key'])
        if c[0] != 'slot':
            x, extra = c[1], []
            if c[0] == 'option':
                extra = [('a node if Some', Imp(eq(c[2].d, 1), ne(c[1], 0)))]
        else:
            s = c[2]
            if s.path:
                if tuple(s.path) != o.np:
                    raise LostAnchor('lost anchor: a pointer into a node')
                extra = [('the cursor is the link of a node', And(o.is_node(s.obj), eq(o.bkt(s.obj), i0)))]
                x = o.next(s.obj)
            else:
                extra = [('the cursor is the bucket', And(eq(s.obj, o.B), eq(s.idx, i0)))]
                x = o.cell(i0)
            # the node the link leads to may be at hand as well
            for n, (k, y, v) in enumerate(chain_cursors(lc)):
                if k in ('node', 'option') and both.setdefault(n, lc.ex.entails(lc.st, eq(y, x))):
                    extra.append(('the node is the one the link leads to', eq(y, x)))
                    if v is not None:
                        extra.append(('a node if Some', Imp(eq(v.d, 1), ne(y, 0))))
        if lc.assuming:
            lc.st.ghost['cur'] = x
        return extra + [('the bucket is one of the table', And(le(0, i0), lt(i0, o.c))),
                        ('the search is at a node of the bucket or at its end', Or(eq(x, 0), And(o.is_node(x), eq(o.bkt(x), i0)))),
                        ('no node before has the key', forall_at(lambda b: Imp(And(o.is_node(b), eq(o.bkt(b), i0), Or(eq(x, 0), lt(o.pos(b), o.pos(x)))), Not(EQ(o.key(b), I(key)))), lambda b: [o.key(b)]))]
    return inv


class Num(HC):
    pure = True
    inline = True

    def post(self, cx, o, n):
        return [('result', eq(cx.res, self.result(o)))]


for _t in (TABLE,) + WRAPS:
    for _n, _f in (('len', lambda o: o.n), ('is_empty', lambda o: eq(o.n, 0))):
        CONTRACTS.append(type('HT_' + _n, (Num,), {'key': _t + '::' + _n, 'result': (lambda f: lambda self, o: f(o))(_f)}))


class Search(HC):
    pure = True

    def invariant(self, lc):
        cx = lc.ex.cx0
        return search_inv(self, cx, lc, self.keyval(cx))

    def answer(self, cx, o, yes):
        r, k = cx.res, self.keyval(cx)
        out = [('None only if no element has the key', Imp(eq(r.d, 0), absent(o, k)))]
        if 1 in r.vs:
            out += [(n, Imp(eq(r.d, 1), g)) for n, g in yes(r.vs[1][0])]
        return out


class Get(Search):
    parts = 'kv'

    def results(self, cx):
        t = htab(cx)

        def item(st, x):
            ks, vs = Ptr(x, 0, t.nty, t.kp), Ptr(x, 0, t.nty, t.vp)
            return S([ks, vs]) if self.parts == 'kv' else ks if self.parts == 'k' else vs
        return self.two(cx, item)

    def post(self, cx, o, n):
        def yes(v):
            vs = list(v.f) if self.parts == 'kv' else [v]
            ps = {'kv': (o.kp, o.vp), 'k': (o.kp,), 'v': (o.vp,)}[self.parts]
            x = vs[0].obj if isinstance(vs[0], Ptr) else 0
            return [('an element with the key', has(o, x, k))] + [('the result is that element', node_ref(cx, a, o, x, b)) for a, b in zip(vs, ps)]
        k = self.keyval(cx)
        return self.answer(cx, o, yes)


for _k, _p in (('get', 'kv'), ('get_mut', 'v')):
    CONTRACTS.append(type('HT_' + _k, (Get,), {'key': '%s::%s' % (TABLE, _k), 'parts': _p}))
for _k in ('get', 'get_mut'):
    CONTRACTS.append(type('HM_' + _k, (Get,), {'key': 'hash_map::HashMap::' + _k, 'parts': 'v'}))
CONTRACTS.append(type('HS_get', (Get,), {'key': 'hash_set::HashSet::get', 'parts': 'k'}))


class Contains(Search):
    def results(self, cx):
        x = cx.extra['x'] = fresh_int('found')
        cx.st.ghost['cur'] = x
        return [(cx.st, fresh_bool('contains'))]

    def post(self, cx, o, n):
        k = self.keyval(cx)
        return [('false only if no element has the key', Or(cx.res, absent(o, k))), ('true only if an element has it', Imp(cx.res, has(o, self.found(cx), k)))]


for _t in (TABLE,) + WRAPS:
    CONTRACTS.append(type('HT_contains', (Contains,), {'key': _t + '::contains_key'}))


# ---------------------------------------------------------------- growing
POLICY = 'internal::hash_table::rehash_policy::PrimeRehashPolicy'


@contract
class RehashRequired(Contract):
    """is it time to grow, and to how many buckets?"""
    key = POLICY + '::get_rehash_required'
    pure = True

    def pol(self, cx, st=None):
        st = st or cx.old
        v, t = cx.val(0, st), cx.valty(0)
        return [field(cx.ex, t, v, n, i)[0] for i, n in enumerate(('max_load_factor', 'growth_factor', 'next_resize'))]

    def setup(self, cx):
        t = cx.valty(0)
        v = cx.val(0)
        fs = [f[0] for f in cx.p.types[t]['variants'][0]['fields']]
        if 'max_load_factor' not in fs or 'growth_factor' not in fs:
            raise LostAnchor('lost anchor: the factors of the policy')
        cx.st.store[cx.args[0].root] = S([z3.RealVal(1) if n == 'max_load_factor' else z3.RealVal(2) if n == 'growth_factor' else x for n, x in zip(fs, v.f)])

    def requires(self, cx):
        m, g, r = self.pol(cx)
        c = cx.args[1]
        cx.ex.trusted.add(FLOATS)
        return [('load factor 1, growth factor 2', And(real(m) == 1, real(g) == 2)), ('the next resize is not late', And(le(r, c), Imp(eq(c, 1), eq(r, 0)))), ('buckets', le(1, c)), ('something is added', le(1, cx.args[3]))]

    def must(self, cx):
        c, e = cx.args[1], add(cx.args[2], cx.args[3])
        return Or(gt(e, c), eq(c, 1))

    def may_panic(self, cx):
        c, e = cx.args[1], add(cx.args[2], cx.args[3])
        return Or(ge(e, 2 ** 32), And(gt(e, c), Or(gt(e, MAXB), gt(mul(c, 2), MAXB))))

    def results(self, cx):
        ex = cx.ex
        a, b = ex.fork(cx.st, gt(add(cx.args[2], cx.args[3]), cx.args[1]))
        out = []
        if a is not None:
            out.append((a, some(ex.fresh(a, cx.p.types[cx.destty]['args'][0], 'buckets'))))
        if b is not None:
            b2 = b.copy()
            out.append((b, NONE))
            out.append((b2, some(ex.fresh(b2, cx.p.types[cx.destty]['args'][0], 'buckets'))))
        return out

    def ensures(self, cx):
        m, g, r = self.pol(cx)
        m2, g2, r2 = self.pol(cx, cx.st)
        c, e = cx.args[1], add(cx.args[2], cx.args[3])
        out = [('the factors are kept', And(real(m2) == real(m), real(g2) == real(g))), ('it grows if there would be more elements than buckets', Imp(self.must(cx), eq(cx.res.d, 1)))]
        if 1 in cx.res.vs:
            x = cx.res.vs[1][0]
            out += [('it grows only then', Imp(eq(cx.res.d, 1), self.must(cx))), ('enough buckets', Imp(eq(cx.res.d, 1), And(le(e, x), le(2, x), lt(c, x), le(x, MAXB)))), ('at the earliest', Imp(eq(cx.res.d, 1), eq(r2, x)))]
        out += [('the next resize is not late', Imp(eq(cx.res.d, 0), And(le(r2, c), le(e, c))))]
        return out

    def invariant(self, lc):
        try:
            size, base = lc.named('size'), lc.named('base')
        except LostAnchor:
            return None
        ta = [t for t in getattr(lc.ex, 'tables', {}).values() if len(t[1]) == 257]
        if not ta:
            return None
        f, vals = ta[0]
        xs = [v for j, n, t, v in lc.all_locals() if n == 'x']
        if not xs:
            return None
        x = lc.ex.peek(lc.st, xs[0], lc.p.pointee([t for j, n, t, v in lc.all_locals() if n == 'x'][0]))

        def inv(lc):
            size, base = lc.named('size'), lc.named('base')
            return [('window', And(le(1, size), le(0, base), le(add(base, size), len(vals)))), ('all before are less', Imp(lt(0, base), lt(f(I(sub(base, 1))), I(x)))),
                    ('none after is less', Imp(lt(add(base, size), len(vals)), ge(f(I(add(base, size))), x)))]
        return inv


def last_alloc(st, t):
    xs = [o for o, ty in st.ghost.get('allocated', ()) if ty == t]
    return xs[-1] if xs else None


@contract
class Rehash(HC):
    key = TABLE + '::rehash'
    mut = True

    def requires(self, cx):
        if not cx.caller:
            cx.st.pc.extend(key_axioms(self.trans))
        o = htab(cx)
        return o.base() + [('enough buckets', And(le(2, cx.args[1]), le(o.n, cx.args[1]), le(cx.args[1], MAXB)))]

    def ensures(self, cx):
        o, n = htab(cx), htab(cx, 0, cx.st)
        return n.base() + [('that many buckets', eq(n.c, cx.args[1])), ('the same number of elements', eq(n.n, o.n)), ('the length is kept', eq(n.len, o.len)), ('the policy is kept', And(real(n.mlf) == real(o.mlf), real(n.gf) == real(o.gf), eq(n.nr, o.nr)))] + \
            same_elements(n, o)

    def new(self, lc_or_cx, st):
        cx = lc_or_cx
        o = htab(cx)
        b2 = last_alloc(st, o.pty)
        return None if b2 is None else Tab(cx.ex, st, b2, cx.args[1], o.nty, True)

    def loop_ghost(self, lc, head):
        cx = lc.ex.cx0
        st = lc.st
        o = htab(cx)
        if head is None:
            t2 = self.new(cx, st)
            if t2 is None or st.ghost.get('moving'):
                return
            st.ghost['moving'] = True
            Tab(cx.ex, st, o.B, o.c, o.nty).set_empty(st)
            t2.set_empty(st)
            return
        if moving_it(lc) is not None or head.mod is None:
            return
        c = chain_cursor(head)
        t2 = self.new(cx, st)
        if c is None or c[0] == 'slot' or t2 is None:
            return
        t2.insert_head(st, c[1], REM(HASH(o.key(c[1])), t2.c))

    def invariant(self, lc):
        cx = lc.ex.cx0
        o = htab(cx)

        def inv(lc):
            st = lc.st
            t2 = self.new(cx, st)
            it = bucket_it(lc, o.B)
            if t2 is None or it is None:
                raise LostAnchor('lost anchor: the buckets that are moved at the loop of ' + lc.fn['key'])
            now = Tab(cx.ex, st, o.B, o.c, o.nty)
            j = add(it.ptr.idx, it.lo)
            c = None if moving_it(lc) is not None else chain_cursor(lc)
            if c is not None and c[0] == 'slot':
                raise LostAnchor('lost anchor: a cursor of another kind')
            x = None if c is None else c[1]
            k = o.first(j) if x is None else If(eq(x, 0), o.first(j), o.pos(x))
            out = [] if x is None else [('at a node of the bucket or at its end', Or(eq(x, 0), And(o.is_node(x), eq(o.bkt(x), sub(j, 1)))))]
            done = j if x is None else sub(j, 1)
            return out + [('progress', And(le(0, j), le(j, o.c), *([] if x is None else [lt(0, j)]))), ('all buckets', eq(add(it.ptr.idx, it.hi), o.c))] + t2.shape() + [
                ('nodes are in the buckets of their hashes', t2.placed()), ('as many as were moved', eq(t2.n, k)),
                ('those that were moved', forall_at(lambda b: eq(t2.is_node(b), And(o.is_node(b), lt(o.pos(b), k))), lambda b: [t2.pos(b), o.pos(b)])),
                ('the others are linked as before', forall_at(lambda b: Imp(And(o.is_node(b), le(k, o.pos(b))), eq(t2.next(b), o.next(b))), lambda b: [t2.next(b)])),
                ('emptied buckets', forall_at(lambda i: Imp(And(le(0, i), lt(i, done)), eq(now.cell(i), 0)), now.cell)),
                ('the other buckets are as before', forall_at(lambda i: Imp(And(le(j, i), le(i, o.c)), eq(now.cell(i), o.cell(i))), now.cell))]
        return inv


class Free(HC):
    """loops that free the nodes, bucket by bucket"""
    mut = True

    def at(self, lc):
        cx = lc.ex.cx0
        o = htab(cx)
        it = bucket_it(lc, o.B)
        if it is None:
            raise LostAnchor('lost anchor: the buckets that are freed at the loop of ' + lc.fn['key'])
        j = add(it.ptr.idx, it.lo)
        c = None if moving_it(lc) is not None else chain_cursor(lc)
        x = None if c is None else c[1]
        return o, it, j, x, o.first(j) if x is None else If(eq(x, 0), o.first(j), o.pos(x))

    def invariant(self, lc):
        cx = lc.ex.cx0

        def inv(lc):
            o, it, j, x, k = self.at(lc)
            n = Tab(lc.ex, lc.st, o.B, o.c, o.nty)
            out = [] if x is None else [('at a node of the bucket or at its end', Or(eq(x, 0), And(o.is_node(x), eq(o.bkt(x), sub(j, 1)))))]
            out += [('progress', And(le(0, j), le(j, o.c), *([] if x is None else [lt(0, j)]))), ('all buckets', eq(add(it.ptr.idx, it.hi), o.c)),
                    ('the array is there', And(lc.ex.alive(lc.st, o.B), eq(lc.ex.blen(lc.st, o.B), add(o.c, 1)), eq(lc.ex.bty(lc.st, o.B), lc.ex.bty(lc.entry if False else cx.old, o.B)))),
                    ('the rest is as before', forall_at(lambda b: Imp(And(o.is_node(b), le(k, o.pos(b))), And(n.block_ok(b), n.there(b), eq(n.next(b), o.next(b)))), lambda b: [n.next(b), n.there(b), lc.ex.alive(lc.st, b)])),
                    ('buckets to come are as before', forall_at(lambda i: Imp(And(le(j, i), le(i, o.c)), eq(n.cell(i), o.cell(i))), n.cell))]
            if lc.mod is not None and lc.ex.canon(o.pty, ()) + '#o' in lc.mod[1]:
                done = j if x is None else sub(j, 1)
                out.append(('emptied buckets', forall_at(lambda i: Imp(And(le(0, i), lt(i, done)), eq(n.cell(i), 0)), n.cell)))
            if x is None and lc.mod is not None and 'ALIVE' not in lc.mod[1]:
                i0 = bucket_it(lc, o.B, lc.entry)
                if i0 is not None:
                    out.append(('buckets that are skipped are empty', eq(o.first(j), o.first(add(i0.ptr.idx, i0.lo)))))
            return out
        return inv

    def owned(self, lc):
        if lc.mod is None or 'ALIVE' not in lc.mod[1]:
            return None
        o, it, j, x, k = self.at(lc)
        return FP([o.arr()], [(lambda b: And(o.is_node(b), le(k, o.pos(b))), o.node, lambda i: And(le(k, i), lt(i, o.n)))])


@contract
class FreeBuckets(Free):
    key = TABLE + '::free_buckets'

    def requires(self, cx):
        if not cx.caller:
            cx.st.pc.extend(key_axioms())
        return htab(cx).base()

    def witness(self, cx):
        htab(cx, 0, cx.st).set_empty(cx.st)

    def ensures(self, cx):
        o, n = htab(cx), htab(cx, 0, cx.st)
        return n.base() + [('no nodes', eq(n.n, 0)), ('the table itself is not changed', And(eq(n.B, o.B), eq(n.c, o.c), eq(n.len, o.len), real(n.mlf) == real(o.mlf), real(n.gf) == real(o.gf), eq(n.nr, o.nr)))]


class Clear(HC):
    mut = True

    def post(self, cx, o, n):
        return [('empty', eq(n.n, 0)), ('as many buckets as before', eq(n.c, o.c))]


for _t in (TABLE,) + WRAPS:
    CONTRACTS.append(type('HT_clear', (Clear,), {'key': _t + '::clear'}))


@contract
class DropT(HC):
    key = '<%s as Drop>::drop' % TABLE
    mut = True

    def post_footprint(self, cx):
        return FP()

    def ensures(self, cx):
        return []


class NewC(Contract):
    pure = True

    def ensures(self, cx):
        n = res_tab(cx)
        return n.inv() + [('empty', eq(n.n, 0)), ('nothing is allocated yet', eq(n.c, 1))]

    def post_footprint(self, cx):
        return res_tab(cx).fp()


for _t in (TABLE,) + WRAPS:
    for _k in (_t + '::new_in', _t + '::new', '<%s as Default>::default' % _t):
        CONTRACTS.append(type('HT_new', (NewC,), {'key': _k}))


# ---------------------------------------------------------------- inserting
def grow_panics(o):
    return Or(gt(add(o.n, 1), MAXB), And(gt(add(o.n, 1), o.c), gt(mul(o.c, 2), MAXB)))


def growth(o, n):
    return [('it grows only if it must', Imp(ne(n.c, o.c), Or(eq(o.c, 1), gt(add(o.n, 1), o.c))))]


@contract
class InsertImpl(HC):
    key = TABLE + '::insert_impl'
    mut = True
    grown = True

    def requires(self, cx):
        o, q, k = htab(cx), cx.args[1], cx.args[2]
        return HC.requires(self, cx) + [('the bucket of the key', And(eq(q.obj, o.B), eq(q.idx, REM(HASH(k), o.c)), tuple(q.path) == ())), ('no element has the key', absent(o, k))]

    def may_panic(self, cx):
        return grow_panics(htab(cx))

    def setup(self, cx):
        # the bucket is a cell of the array
        o = htab(cx)
        k = cx.args[2]
        i = REM(HASH(k), o.c)
        cx.st.pc.append(z3.And(0 <= i, i < I(o.c)))

    def results(self, cx):
        x = cx.extra['x'] = fresh_int('new')
        cx.st.ghost['cur'] = x
        return [(cx.st, Ptr(x, 0, htab(cx).nty))]

    def witness(self, cx):
        x = cx.res.obj
        n = htab(cx, 0, cx.st)
        n.many = True                   # as it has grown
        n.insert_head(cx.st, x, REM(HASH(cx.args[2]), n.c))

    def post(self, cx, o, n):
        x = cx.res.obj if isinstance(cx.res, Ptr) else 0
        return [('one more', eq(n.n, add(o.n, 1))), ('the new node is returned', And(node_ref(cx, cx.res, n, x, ()), n.is_node(x), Not(o.is_node(x)))), ('it holds the key and the value', And(eq(n.key(x), cx.args[2]), val_eq(n.val(x), cx.args[3])))] + \
            same_elements(n, o, new=x) + growth(o, n)


class Insert(Search):
    mut = True
    grown = True
    pure = False
    is_set = False

    def may_panic(self, cx):
        return grow_panics(htab(cx))

    def value(self, cx):
        return S([]) if self.is_set else cx.args[2]

    def results(self, cx):
        if self.is_set:
            x = cx.extra['x'] = fresh_int('found')
            a, b = cx.st, cx.st.copy()
            a.ghost['cur'] = b.ghost['cur'] = x
            return [(a, True), (b, False)]
        return self.two(cx, lambda st, x: cx.ex.fresh(st, htab(cx).vty, 'was'))

    def post(self, cx, o, n):
        r, k, v, x = cx.res, cx.args[1], self.value(cx), self.found(cx)
        known, new = (Not(r), r) if self.is_set else (eq(r.d, 1), eq(r.d, 0))
        out = []
        if known is not False:
            y = [('an element has the key', has(o, x, k)), ('it has the new value', val_eq(n.val(x), v)), ('as many as before', And(eq(n.n, o.n), eq(n.c, o.c)))] + same_elements(n, o, but=x)
            if not self.is_set and 1 in r.vs:
                y.append(('the old value is returned', val_eq(r.vs[1][0], o.val(x))))
            out += [('known key: ' + a, Imp(known, g)) for a, g in y]
        if new is not False:
            y = [('no element has the key', absent(o, k)), ('one more', eq(n.n, add(o.n, 1))), ('an element with the key and the value', And(n.is_node(x), Not(o.is_node(x)), eq(n.key(x), k), val_eq(n.val(x), v)))] + \
                same_elements(n, o, new=x) + growth(o, n)
            out += [('new key: ' + a, Imp(new, g)) for a, g in y]
        return out


for _k, _s in ((TABLE, False), (WRAPS[0], False), (WRAPS[1], True)):
    CONTRACTS.append(type('HT_insert', (Insert,), {'key': _k + '::insert', 'is_set': _s}))


class Remove(Search):
    mut = True
    pure = False
    parts = 'kv'

    def results(self, cx):
        t = htab(cx)

        def item(st, x):
            f = lambda ty: cx.ex.fresh(st, ty, 'was')
            return S([f(t.kty), f(t.vty)]) if self.parts == 'kv' else f(t.kty) if self.parts == 'k' else f(t.vty)
        out = self.two(cx, item)
        out[0][0].ghost['gone'] = cx.extra['x']
        return out

    def gone(self, cx):
        if cx.caller:
            return cx.extra['x']
        x = cx.st.ghost.get('gone')
        if x is None:
            fr = cx.st.ghost.get('freed')
            if not fr:
                raise LostAnchor('lost anchor: the node that is removed')
            x = fr[-1]
        return x

    def witness(self, cx):
        if 1 in cx.res.vs and cx.st.ghost.get('gone') is None and cx.st.ghost.get('freed'):
            t = htab(cx, 0, cx.st)
            t.many = True               # as there is a node
            t.remove_at(cx.st, self.gone(cx))

    def hints(self, cx):
        if 1 not in cx.res.vs or cx.res.d == 0:
            return []
        o, n, x = htab(cx), htab(cx, 0, cx.st), self.gone(cx)
        return [Imp(eq(cx.res.d, 1), g) for _, g in same_elements(n, o, gone=x)]

    def post(self, cx, o, n):
        r, k = cx.res, self.keyval(cx)
        out = [('as many buckets', eq(n.c, o.c))]
        if 1 in r.vs and r.d != 0:
            x = self.gone(cx)
            v = r.vs[1][0]
            vs = {'kv': lambda: val_eq(v, S([o.key(x), o.val(x)])), 'k': lambda: val_eq(v, o.key(x)), 'v': lambda: val_eq(v, o.val(x))}[self.parts]()
            y = [('an element has the key', has(o, x, k)), ('it is returned', vs), ('one fewer', eq(n.n, sub(o.n, 1)))] + same_elements(n, o, gone=x)
            out += [('found: ' + a, Imp(eq(r.d, 1), g)) for a, g in y]
        y = [('no element has the key', absent(o, k)), ('as many as before', eq(n.n, o.n))] + same_elements(n, o)
        out += [('not found: ' + a, Imp(eq(r.d, 0), g)) for a, g in y]
        return out


for _k, _p in ((TABLE + '::remove_entry', 'kv'), (TABLE + '::remove', 'v'), (WRAPS[0] + '::remove_entry', 'kv'), (WRAPS[0] + '::remove', 'v'), (WRAPS[1] + '::remove', 'k')):
    CONTRACTS.append(type('HT_remove', (Remove,), {'key': _k, 'parts': _p}))


# ---------------------------------------------------------------- entries
ENTRY, VACANT = 'internal::hash_table::entry::Entry', 'internal::hash_table::entry::VacantEntry'


def vacant_fields(p, ety):
    """names, types and where they are, of the vacant variant"""
    d = p.types[p.strip(ety)]
    if d.get('n') != ENTRY or [v['name'] for v in d['variants']] != ['Occupied', 'Vacant']:
        raise LostAnchor('lost anchor: Entry::{Occupied, Vacant}')
    vt = p.strip(d['variants'][1]['fields'][0][1])
    fs = p.types[vt]['variants'][0]['fields']
    if p.types[vt].get('n') != VACANT or {f[0] for f in fs} != {'table', 'target_bucket', 'key'}:
        raise LostAnchor('lost anchor: VacantEntry')
    return vt, [(f[0], f[1]) for f in fs]


def unwrap_entry(p, ty, v=None):
    ty = p.strip(ty)
    while p.types[ty].get('n') == 'hash_map::entry::Entry':
        ty = p.strip(p.fields(ty)[0])
        v = v.f[0] if v is not None else None
    return ty, v


class EntryC(Search):
    key = TABLE + '::entry'

    def results(self, cx):
        t = htab(cx)
        x = cx.extra['x'] = fresh_int('found')
        k = cx.args[1]
        ety, _ = unwrap_entry(cx.p, cx.destty)
        vt, fs = vacant_fields(cx.p, ety)
        vac = {'table': cx.args[0], 'target_bucket': Ptr(t.B, REM(HASH(k), t.c), t.pty), 'key': k}
        out = []
        for d, vs in ((0, (Ptr(x, 0, t.nty),)), (1, (S([vac[n] for n, _ in fs]),))):
            st = cx.st.copy()
            st.ghost['cur'] = x
            r = En(d, {d: vs})
            ty = cx.p.strip(cx.destty)
            while ty != ety:
                r, ty = S([r]), cx.p.strip(cx.p.fields(ty)[0])
            out.append((st, r))
        return out

    def post(self, cx, o, n):
        k = cx.args[1]
        ety, r = unwrap_entry(cx.p, cx.destty, cx.res)
        vt, fs = vacant_fields(cx.p, ety)
        out = [('vacant only if no element has the key', Imp(eq(r.d, 1), absent(o, k)))]
        if 0 in r.vs:
            q = r.vs[0][0]
            x = q.obj if isinstance(q, Ptr) else 0
            out += [('occupied only if an element has the key', Imp(eq(r.d, 0), has(o, x, k))), ('that element', Imp(eq(r.d, 0), node_ref(cx, q, o, x, ())))]
        if 1 in r.vs:
            v = dict(zip([f[0] for f in fs], r.vs[1][0].f))
            m, a, b = v['table'], cx.args[0], v['target_bucket']
            same = isinstance(m, LRef) and isinstance(a, LRef) and m.root == a.root
            bucket = And(eq(b.obj, o.B), eq(b.idx, REM(HASH(k), o.c)), tuple(b.path) == ()) if isinstance(b, Ptr) else False
            out += [('the bucket of the key', Imp(eq(r.d, 1), bucket)), ('of this table', same), ('the key is kept', Imp(eq(r.d, 1), eq(v['key'], k)))]
        return out


CONTRACTS.append(type('HT_entry', (EntryC,), {'key': TABLE + '::entry'}))
CONTRACTS.append(type('HM_entry', (EntryC,), {'key': WRAPS[0] + '::entry'}))


class EntryOf(HC):
    """what is done with an entry: of an element, or of none (and then with its place in the table)"""
    inline = True
    pure = False

    def variants(self):
        return ['occupied', 'vacant']

    def setup(self, cx):
        ex, p, st = cx.ex, cx.p, cx.st
        ety, _ = unwrap_entry(p, cx.argtys[0])
        vt, fs = vacant_fields(p, ety)
        tys = dict(fs)
        tty = p.strip(p.pointee(tys['table']))
        root = ('arg', 't')
        st.store[root] = ex.fresh(st, tty, 't')
        cx.extra['tty'] = tty
        t = HTab(ex, st, st.store[root], tty)
        if self.variant == 'occupied':
            x = cx.extra['x'] = fresh_int('x')
            r = En(0, {0: (Ptr(x, 0, t.nty),)})
        else:
            k = cx.extra['k'] = ex.fresh(st, t.kty, 'k')
            i = REM(HASH(k), t.c)
            st.pc.append(z3.And(0 <= i, i < I(t.c)))
            vac = {'table': LRef(root), 'target_bucket': Ptr(t.B, i, t.pty), 'key': k}
            r = En(1, {1: (S([vac[n] for n, _ in fs]),)})
        ty = cx.argtys[0]
        while p.strip(ty) != ety:
            r, ty = S([r]), p.fields(p.strip(ty))[0]
        cx.args[0] = r

    def tab(self, cx, st):
        return HTab(cx.ex, st, st.store[('arg', 't')], cx.extra['tty'])

    def requires(self, cx):
        cx.st.pc.extend(key_axioms())
        t = self.tab(cx, cx.old)
        return t.inv() + ([('an element', t.is_node(cx.extra['x']))] if self.variant == 'occupied' else [('no element has the key', absent(t, cx.extra['k']))])

    def footprint(self, cx):
        return self.tab(cx, cx.old).fp()

    def post_footprint(self, cx):
        return self.tab(cx, cx.st).fp()

    def calls(self, cx):
        return cx.st.ghost.get('called', ())

    def ensures(self, cx):
        o, n = self.tab(cx, cx.old), self.tab(cx, cx.st)
        return n.inv() + (self.occupied(cx, o, n, cx.extra['x']) if self.variant == 'occupied' else self.vacant(cx, o, n, cx.extra['k']))

    def may_panic(self, cx):
        return grow_panics(self.tab(cx, cx.old)) if self.variant == 'vacant' and self.adds else False

    adds = True


class OrInsert(EntryOf):
    run = False

    def occupied(self, cx, o, n, x):
        return [('the value of that element is returned', node_ref(cx, cx.res, n, x, n.vp)), ('nothing is run', len(self.calls(cx)) == 0), ('as many as before', And(eq(n.n, o.n), eq(n.c, o.c)))] + same_elements(n, o)

    def vacant(self, cx, o, n, k):
        x = cx.res.obj if isinstance(cx.res, Ptr) else 0
        if self.run:
            made = len(self.calls(cx)) == 1
            v = self.calls(cx)[0][2] if made else None
        else:
            made, v = len(self.calls(cx)) == 0, cx.args[1]
        return [('the value is made once', made), ('one more', eq(n.n, add(o.n, 1))), ('the value of the new element is returned', And(node_ref(cx, cx.res, n, x, n.vp), n.is_node(x), Not(o.is_node(x)))),
                ('it has the key', eq(n.key(x), k)), ('and the value', made and val_eq(n.val(x), v))] + same_elements(n, o, new=x) + growth(o, n)


class AndModify(EntryOf):
    adds = False

    def same_entry(self, cx):
        ety, r = unwrap_entry(cx.p, cx.destty, cx.res)
        _, a = unwrap_entry(cx.p, cx.argtys[0], cx.args[0])
        d = a.d
        return And(eq(r.d, d), *[val_eq(x, y) if not isinstance(x, (Ptr, LRef)) else And(type(x) is type(y), eq(x.obj, y.obj), eq(x.idx, y.idx)) if isinstance(x, Ptr) and isinstance(y, Ptr) else isinstance(y, LRef) and x.root == y.root
                                 for x, y in zip(flat(a.vs[d]), flat(r.vs.get(d, ())))], len(flat(a.vs[d])) == len(flat(r.vs.get(d, ()))))

    def occupied(self, cx, o, n, x):
        cs = self.calls(cx)
        q = cs[0][1].f[0] if len(cs) == 1 else None
        return [('the function is run once, on the value', q is not None and node_ref(cx, q, n, x, n.vp)), ('the same entry', self.same_entry(cx)), ('as many as before', And(eq(n.n, o.n), eq(n.c, o.c)))] + same_elements(n, o, but=x)

    def vacant(self, cx, o, n, k):
        return [('nothing is run', len(self.calls(cx)) == 0), ('the same entry', self.same_entry(cx)), ('as many as before', And(eq(n.n, o.n), eq(n.c, o.c)))] + same_elements(n, o)


def flat(vs):
    out = []
    for v in vs:
        out += flat(v.f) if isinstance(v, S) else [v]
    return out


for _t in (ENTRY, 'hash_map::entry::Entry'):
    for _n, _c, _d in (('or_insert', OrInsert, {}), ('or_insert_with', OrInsert, {'run': True}), ('and_modify', AndModify, {})):
        CONTRACTS.append(type('HE_' + _n, (_c,), dict({'key': '%s::%s' % (_t, _n)}, **_d)))


# ---------------------------------------------------------------- iterators
class RIter(Tab):
    """an iterator: the buckets from j on are left, and before them the nodes from x on of bucket j - 1"""

    def __init__(self, ex, st, val, ty):
        p = ex.p
        ty = p.strip(ty)
        while p.types[ty].get('n') in ITERS:
            val, ty = val.f[0], p.strip(p.fields(ty)[0])
        if p.types[ty].get('n') != RAW:
            raise LostAnchor('lost anchor: %s is no iterator of a hash table' % p.s(ty))
        it, _ = field(ex, ty, val, 'bucket_iter', 0)
        if not isinstance(it, It) or it.kind != 'sliter' or it.ptr.path or not is_node_ty(p, p.strip(it.ptr.base)):
            raise LostAnchor('lost anchor: an iterator over the buckets')
        node, nt = field(ex, ty, val, 'node_ptr', 1)
        self.it, self.x = it, node.obj
        self.j = add(it.ptr.idx, it.lo)
        Tab.__init__(self, ex, st, it.ptr.obj, add(it.ptr.idx, it.hi), p.strip(p.pointee(nt)))

    def p(self):
        """the number of the next node"""
        return If(eq(self.x, 0), self.n, self.pos(self.x))

    def at(self):
        return rep([('the buckets to come', And(le(0, self.j), le(self.j, self.c))),
                    ('at a node of the bucket, or at the end', If(eq(self.x, 0), eq(self.first(self.j), self.n), And(self.is_node(self.x), eq(self.bkt(self.x), sub(self.j, 1)))))])

    def inv(self):
        return self.shape() + self.at()

    def same(self, o):
        return And(eq(self.B, o.B), eq(self.c, o.c), eq(self.j, o.j), eq(self.x, o.x))


class Skipping(Contract):
    """buckets that are empty are skipped"""

    def invariant(self, lc):
        it0 = moving_it(lc)
        if it0 is None and lc.mod is not None:
            raise LostAnchor('lost anchor: no buckets are passed at the loop of ' + lc.fn['key'])

        def inv(lc):
            it = moving_it(lc)
            if it is None:
                return []
            old = bucket_it(lc, it.ptr.obj, lc.entry)
            t = Tab(lc.ex, lc.st, it.ptr.obj, self.many_buckets(lc, it), lc.p.strip(lc.p.pointee(it.ptr.base)))
            if old is None:
                raise LostAnchor('lost anchor: the buckets at the loop of ' + lc.fn['key'])
            j, j0 = add(it.ptr.idx, it.lo), add(old.ptr.idx, old.lo)
            return [('the same buckets', And(eq(it.ptr.obj, old.ptr.obj), eq(it.ptr.idx, old.ptr.idx), eq(it.hi, old.hi), le(j0, j), le(it.lo, it.hi))),
                    ('buckets that are skipped are empty', eq(t.first(j), t.first(j0)))]
        return inv

    def many_buckets(self, lc, it):
        return add(it.ptr.idx, it.hi)


@contract
class RawNew(Skipping):
    key = RAW + '::new'
    inline = True
    pure = True

    def tab(self, cx):
        a = cx.args[0]
        return Tab(cx.ex, cx.old, a.ptr.obj, a.len, cx.p.pointee(a.ptr.base))

    def requires(self, cx):
        return [('all buckets', eq(cx.args[0].ptr.idx, 0))] + self.tab(cx).shape()

    def ensures(self, cx):
        t, n = self.tab(cx), RIter(cx.ex, cx.st, cx.res, cx.destty)
        return n.inv() + [('the same table', And(eq(n.B, t.B), eq(n.c, t.c))), ('at the first element', eq(n.p(), 0))]


class IterC(Skipping):
    """iter and iter_mut of a table"""
    pure = True

    def requires(self, cx):
        return htab(cx).inv()

    def mods(self, cx):
        return []

    def ensures(self, cx):
        o, n = htab(cx), RIter(cx.ex, cx.st, cx.res, cx.destty)
        return n.inv() + [('the same table', And(eq(n.B, o.B), eq(n.c, o.c))), ('at the first element', eq(n.p(), 0))]


for _t in (TABLE,) + WRAPS:
    for _k in ('iter', 'iter_mut'):
        if (_t, _k) != (WRAPS[1], 'iter_mut'):
            CONTRACTS.append(type('HT_' + _k, (IterC,), {'key': '%s::%s' % (_t, _k)}))


class NextC(Skipping):
    pure = True
    parts = 'kv'

    def it(self, cx, st=None):
        st = cx.old if st is None else st
        return RIter(cx.ex, st, cx.val(0, st), cx.valty(0))

    def requires(self, cx):
        return self.it(cx).inv()

    def results(self, cx):
        o = self.it(cx)
        a, b = cx.ex.fork(cx.st, eq(o.x, 0))
        ks, vs = Ptr(o.x, 0, o.nty, o.kp), Ptr(o.x, 0, o.nty, o.vp)
        return ([(a, NONE)] if a is not None else []) + ([(b, some(S([ks, vs]) if self.parts == 'kv' else ks))] if b is not None else [])

    def ensures(self, cx):
        o, n, r = self.it(cx), self.it(cx, cx.st), cx.res
        out = n.inv() + [('the same table', And(eq(n.B, o.B), eq(n.c, o.c))), ('it ends exactly after the last element', eq(eq(r.d, 0), eq(o.p(), o.n))),
                         ('one step', eq(n.p(), If(eq(o.p(), o.n), o.n, add(o.p(), 1))))]
        if 1 in r.vs:
            v = r.vs[1][0]
            vs = list(v.f) if self.parts == 'kv' else [v]
            ps = (o.kp, o.vp) if self.parts == 'kv' else (o.kp,)
            out.append(('the next element is given', Imp(eq(r.d, 1), And([node_ref(cx, a, o, o.node(o.p()), b) for a, b in zip(vs, ps)]))))
        return out


for _t in (RAW,) + ITERS:
    CONTRACTS.append(type('HI_next', (NextC,), {'key': '<%s as Iterator>::next' % _t, 'parts': 'k' if _t == ITERS[2] else 'kv'}))


class CloneIt(NextC):
    def ensures(self, cx):
        o, n = self.it(cx), RIter(cx.ex, cx.st, cx.res, cx.destty)
        return n.inv() + [('at the same element', n.same(o))]

    def results(self, cx):
        return Contract.results(self, cx)


for _t in (RAW,) + ITERS[:2]:
    CONTRACTS.append(type('HI_clone', (CloneIt,), {'key': '<%s as Clone>::clone' % _t}))


def compat(ex, ty, v):
    """the node and the bucket of a C++ iterator"""
    node, nt = field(ex, ty, v, 'node_ptr', 0)
    b, bt = field(ex, ty, v, 'bucket_ptr', 1)
    return node, b, ex.p.strip(ex.p.pointee(nt))


class IntoCompat(CloneIt):
    def ensures(self, cx):
        o = self.it(cx)
        tys = cx.p.types[cx.p.strip(cx.destty)]['elems']
        (a, b, _), (c, d, _) = [compat(cx.ex, t, v) for t, v in zip(tys, cx.res.f)]
        return [('the first one is at the next element', And(eq(a.obj, o.x), eq(b.obj, o.B), eq(b.idx, o.j))), ('the second one is at the end', And(eq(c.obj, 0), eq(d.obj, o.B), eq(d.idx, o.c)))]


for _k in (RAW + '::into_compat', RAW + '::into_compat_mut', ITERS[0] + '::into_compat', ITERS[1] + '::into_compat', ITERS[1] + '::into_compat_mut', ITERS[2] + '::into_compat'):
    CONTRACTS.append(type('HI_into', (IntoCompat,), {'key': _k}))


class FromCompat(Contract):
    pure = True

    def parts(self, cx):
        a, b, nty = compat(cx.ex, cx.argtys[0], cx.args[0])
        c, d, _ = compat(cx.ex, cx.argtys[1], cx.args[1])
        return a, b, d, Tab(cx.ex, cx.old, b.obj, d.idx, nty)

    def requires(self, cx):
        a, b, d, t = self.parts(cx)
        return [('of one table', eq(d.obj, b.obj)), ('in order', And(le(0, b.idx), le(b.idx, d.idx)))] + t.shape() + \
            [('at a node of the bucket, or at the end', If(eq(a.obj, 0), eq(t.first(b.idx), t.n), And(t.is_node(a.obj), eq(t.bkt(a.obj), sub(b.idx, 1)))))]

    def ensures(self, cx):
        a, b, d, t = self.parts(cx)
        n = RIter(cx.ex, cx.st, cx.res, cx.destty)
        return n.inv() + [('at the same element', And(eq(n.B, t.B), eq(n.c, t.c), eq(n.j, b.idx), eq(n.x, a.obj)))]


for _k in (RAW + '::from_compat', RAW + '::from_compat_mut', ITERS[0] + '::from_compat', ITERS[0] + '::from_compat_mut', ITERS[1] + '::from_compat', ITERS[2] + '::from_compat'):
    CONTRACTS.append(type('HI_from', (FromCompat,), {'key': _k}))


# ---------------------------------------------------------------- from iterators
def local_tab(lc):
    for j, n, ty, v in lc.all_locals():
        t = lc.p.strip(ty)
        if lc.p.types[t].get('n') == TABLE and isinstance(v, S):
            return HTab(lc.ex, lc.st, v, t)
    raise LostAnchor('lost anchor: no table at the loop of ' + lc.fn['key'])


class FromIter(Contract):
    """a table made of a finite sequence of items"""
    bounded = 'which items become elements is beyond the solvers; the shape of the table, the blocks and the number of elements are proved'
    inline = True
    uf_rem = True
    is_set = False

    def param_value(self, ex, st, n, name):
        if name == 'a0':
            s = serial()
            ln = z3.Int('itern!%d' % s)
            st.pc.append(z3.And(ln >= 0, ln < 2 ** 63))
            return It('param', id=s, pos=0, n=ln)

    def may_panic(self, cx):
        return True

    def requires(self, cx):
        it = cx.args[0]
        if not isinstance(it, It) or it.kind != 'param':
            raise Unsupported('iterator argument')
        cx.st.pc.extend(key_axioms(True))
        return []

    def rel(self, cx, n, cnt):
        return [('no more elements than items', le(n.n, cnt))]

    def owned(self, lc):
        return local_tab(lc).fp()

    def invariant(self, lc):
        cx = lc.ex.cx0
        from .vector_map import position
        local_tab(lc), position(lc)

        def inv(lc):
            n = local_tab(lc)
            k, it = position(lc)
            return n.inv() + self.rel(cx, n, k) + [('progress', And(le(0, k), le(k, cx.args[0].n))), ('the array is ours', Imp(gt(n.c, 1), Not(cx.ex.alive(cx.old, n.B)))),
                 ('nodes are ours', forall_at(lambda o: Imp(n.is_node(o), Not(cx.ex.alive(cx.old, o))), lambda o: [cx.ex.alive(cx.old, o), n.pos(o)]))]
        return inv

    def ensures(self, cx):
        n = res_tab(cx)
        return n.inv() + self.rel(cx, n, cx.args[0].n)

    def post_footprint(self, cx):
        return res_tab(cx).fp()


for _k, _s in (('<%s as FromIterator<(K, V)>>::from_iter' % TABLE, False), ('<%s as FromIterator<(K, V)>>::from_iter' % WRAPS[0], False), ('<%s as FromIterator<K>>::from_iter' % WRAPS[1], True)):
    CONTRACTS.append(type('HT_from_iter', (FromIter,), {'key': _k, 'is_set': _s}))
