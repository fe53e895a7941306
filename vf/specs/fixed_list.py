"""Fixed lists: a list over a pool of nodes of its own. The operations are those of the list (specs/lists.py), whose contracts
are for every allocator; where the nodes come from is the contract of the pool (specs/fixed_pool.py). What is left is that the
pool is made of exactly the nodes of the fixed list."""
from .util import *
from .lists import Lst, NAMED
from .fixed_pool import OVER

FL = 'fixed_list::FixedList'
CONTRACTS = []


def contract(cls):
    CONTRACTS.append(cls)
    return cls


class Parts:
    """where the list and the nodes of a fixed list are"""

    def __init__(self, ex, ty):
        ty = ex.p.strip(ty)
        d = ex.p.types[ty]
        if d.get('n') != FL:
            raise LostAnchor('lost anchor: %s is no fixed list' % d['s'])
        self.fs = fs = [ex.p.strip(f[1]) for f in d['variants'][0]['fields']]
        li = [i for i, t in enumerate(fs) if ex.p.types[t].get('n') == NAMED]
        bi = [i for i, t in enumerate(fs) if ex.p.k(t) == 'array']
        if len(li) != 1 or len(bi) != 1:
            raise LostAnchor('lost anchor: list and nodes of ' + d['s'])
        self.li, self.bi = li[0], bi[0]
        self.lty, self.bty = fs[self.li], fs[self.bi]


class NewFL(InPlace):
    def witness(self, cx):
        v, ty = self.built(cx)
        p = Parts(cx.ex, ty)
        n = Lst(cx.ex, cx.st, v.f[p.li], p.lty)
        n.set(cx.st, lambda k: 0, lambda b: -1, 0)

    def ensures(self, cx):
        ex, st = cx.ex, cx.st
        v, ty = self.built(cx)
        p = Parts(ex, ty)
        n = Lst(ex, st, v.f[p.li], p.lty)
        buf = v.f[p.bi]
        if not isinstance(buf, Box_):
            raise LostAnchor('lost anchor: nodes of a fixed list')
        N, nty = ex.arrlen(p.bty), ex.p.strip(ex.p.types[p.bty]['to'])
        out = n.inv() + [('empty', eq(n.n, 0))]
        r = [x for x in st.ghost.get('raw', ()) if x[0] == 'init']
        out.append(('its pool is given memory once', len(r) == 1))
        if len(r) == 1:
            q, k = r[0][1:]
            out.append(('which is that of its own nodes', And(eq(q.obj, buf.obj), eq(q.idx, 0), eq(k, ex.nlmul(N, ex.size_of(st, nty))))))
        al, aty = field(ex, p.lty, v.f[p.li], 'allocator', 2)
        aty = ex.p.strip(aty)
        if ex.p.types[aty].get('n') != OVER:
            raise LostAnchor('lost anchor: allocator of a fixed list')
        if cx.args:
            out.append(('the overflow allocator is the one given', val_eq(S([field(ex, aty, al, 'overflow_allocator', 1)[0]]), S([cx.args[0]]))))
        return out


for _n in ('new_in', 'new_with_default_overflow_allocator'):
    CONTRACTS.append(type('NewFL_', (NewFL,), {'key': FL + '::' + _n}))


class DerefL(Contract):
    inline = True
    pure = True

    def ensures(self, cx):
        r, a = cx.res, cx.args[0]
        p = Parts(cx.ex, cx.valty(0))
        return unchanged(cx) + [('its list', isinstance(r, LRef) and r.root == a.root and tuple(r.path) == tuple(a.path) + (p.li,))]


for _k in ('<%s as Deref>::deref', '<%s as DerefMut>::deref_mut'):
    CONTRACTS.append(type('DerefL_', (DerefL,), {'key': _k % FL}))
