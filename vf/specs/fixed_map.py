"""Fixed maps: a map over a pool of nodes of its own. The operations are those of the map (specs/rb_tree.py), whose contracts
are for every allocator; where the nodes come from is the contract of the pool (specs/fixed_pool.py). What is left is that the
map begins empty and that its pool, of either kind, is made of exactly the nodes of the fixed map."""
from .util import *
from .rb_tree import Tree
from .fixed_pool import mem_of
from .small import note
from ..models import model, UNIT
from ..ex import NOMODEL

FM = 'fixed_map::FixedMapImpl'
CONTRACTS = []


@model('fixed_pool::PoolAllocator::init')
def pool_init(ex, st, c):
    if ex.p.k(c.targs[0]) != 'param':
        return NOMODEL
    q, k = mem_of(c.args[1])
    ex.prove(st, And(gt(q.obj, 0), ex.alive(st, q.obj)), 'the memory of the pool is there', c.line)
    note(st, 'init', q, k, tuple(c.args[0].path) if isinstance(c.args[0], LRef) else None)
    return UNIT


class Parts:
    """where the map and the nodes of a fixed map are"""

    def __init__(self, ex, ty):
        ty = ex.p.strip(ty)
        d = ex.p.types[ty]
        if d.get('n') != FM:
            raise LostAnchor('lost anchor: %s is no fixed map' % d['s'])
        self.fs = fs = [ex.p.strip(f[1]) for f in d['variants'][0]['fields']]
        li = [i for i, t in enumerate(fs) if ex.p.types[t].get('n') == 'map::Map']
        bi = [i for i, t in enumerate(fs) if ex.p.k(t) == 'array']
        if len(li) != 1 or len(bi) != 1:
            raise LostAnchor('lost anchor: map and nodes of ' + d['s'])
        self.li, self.bi = li[0], bi[0]
        self.mty, self.bty = fs[self.li], fs[self.bi]


def holds(ex, ty):
    d = ex.p.types[ex.p.strip(ty)]
    return ex.p.strip(d['args'][0]) if d.get('n', '').endswith('::MaybeUninit') else ex.p.strip(ty)


class NewFM(InPlace):
    key = FM + '::new'

    def ensures(self, cx):
        ex, st = cx.ex, cx.st
        v, ty = self.built(cx)
        p = Parts(ex, ty)
        t = Tree(ex, st, v.f[p.li], p.mty)
        buf = v.f[p.bi]
        if not isinstance(buf, Box_):
            raise LostAnchor('lost anchor: nodes of a fixed map')
        N, nty = ex.arrlen(p.bty), ex.p.strip(ex.p.types[p.bty]['to'])
        out = t.inv() + [('empty', And(eq(t.n, 0), eq(t.begin, 0), eq(t.end, 0), eq(t.root, 0)))]
        out.append(('its nodes are nodes of the map', holds(ex, nty) == ex.p.strip(t.nty)))
        r = [x for x in st.ghost.get('raw', ()) if x[0] == 'init']
        out.append(('its pool is given memory once', len(r) == 1))
        if len(r) == 1:
            q, k = r[0][1:3]
            out.append(('which is that of its own nodes', And(eq(q.obj, buf.obj), eq(q.idx, 0), eq(k, ex.nlmul(N, ex.size_of(st, nty))))))
        return out


class DerefM(Contract):
    inline = True
    pure = True

    def ensures(self, cx):
        r, a = cx.res, cx.args[0]
        p = Parts(cx.ex, cx.valty(0))
        return unchanged(cx) + [('its map', isinstance(r, LRef) and r.root == a.root and tuple(r.path) == tuple(a.path) + (p.li,))]


CONTRACTS.append(NewFM)
for _k in ('<%s as Deref>::deref', '<%s as DerefMut>::deref_mut'):
    CONTRACTS.append(type('DerefM_', (DerefM,), {'key': _k % FM}))
