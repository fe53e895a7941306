"""The registry of contracts, and the engine's hooks into the specifications."""
import z3
from .core import *
from .core import I, B
from .models import M, NOMODEL, uf, some, NONE
from .contracts import Contract, LostAnchor
from .ex import PARENTCOLOR

INTPTR = {}


class Spec:
    def __init__(self, prog):
        self.prog = prog
        self.contracts = {}
        self.debug = False
        self.cur = None
        self.extra_models = {}
        self.statics = {}

    def add(self, con):
        self.contracts[con.key] = con

    def contract(self, key):
        return self.contracts.get(key)

    def model(self, c):
        m = self.extra_models.get(c.path) or self.extra_models.get(c.key) or M.get(c.path)
        return m

    # ---- hooks
    def fresh_param(self, ex, st, ty, n, name):
        pv = getattr(ex.__dict__.get('con'), 'param_value', None)
        if pv is not None:
            v = pv(ex, st, n, name)
            if v is not None:
                return v
        if n in ITER_PARAMS and self.is_iter_param(ex, n):
            s = serial()
            ln = z3.Int('itern!%d' % s)
            st.pc.append(ln >= 0)
            st.pc.append(ln < 2 ** 63)
            return It('param', id=s, pos=0, n=ln)
        return fresh_int('%s_%s' % (name, n))

    def is_iter_param(self, ex, n):
        return True

    def iter_item(self, ex, st, it, pos, ty):
        """the item of a caller's iterator at a position: an uninterpreted function per leaf"""
        return self.seq_value(ex, st, 'ITEM%s' % it.id, pos, ty)

    def seq_value(self, ex, st, name, pos, ty, path=()):
        p = ex.p
        ty = p.strip(ty)
        d = p.types[ty]
        if d['k'] == 'tuple':
            return S([self.seq_value(ex, st, name, pos, t, path + (i,)) for i, t in enumerate(d['elems'])])
        if d['k'] in ('param', 'int', 'char'):
            v = uf(name + ''.join('.%d' % x for x in path), 1, 'int')(I(pos))
            if d['k'] != 'param':
                ex.in_range(st, v, ty)
            return v
        if d['k'] == 'ref' and not p.is_fat(d['to']):
            f = uf(name + ''.join('.%d' % x for x in path) + '#o', 1, 'int')
            i = 0 if ex.single(d['to']) else uf(name + ''.join('.%d' % x for x in path) + '#i', 1, 'int')(I(pos))
            return Ptr(f(I(pos)), i, p.strip(d['to']))
        return ex.fresh(st, ty, 'item')

    def fresh_adt(self, ex, st, ty, name):
        n = ex.p.types[ty]['n']
        if n == 'core::slice::iter::Iter' or n == 'core::slice::iter::IterMut':
            et = ex.p.strip(ex.p.types[ty]['args'][0])
            a, b, o, i = (fresh_int(name + x) for x in ('_lo', '_hi', '_so', '_si'))
            there = o != 0 if ex.p.k(et) == 'ptr' else o > 0       # a table of pointers may be a static one
            st.pc.append(z3.And(0 <= a, a <= b, there, i >= 0, B(ex.alive(st, o)), i + b <= I(ex.blen(st, o))))
            return It('sliter', ptr=Ptr(o, i, et), lo=a, hi=b)
        return None

    def cast_ptr(self, ex, q, cur, t):
        if isinstance(q.obj, int) and -1000 < q.obj <= -10 and not q.path and ex.p.k(cur) == 'int' and ex.p.bits(cur) == 64 and ex.p.k(t) == 'ptr':
            return Ptr(q.obj, q.idx, t)          # a static array of words as one of pointers
        return None

    def aggregate(self, ex, st, ty, xs):
        return None

    def intptr(self, b):
        """an address that is no block's: dangling pointers, constants"""
        if b not in INTPTR:
            INTPTR[b] = -1000 - len(INTPTR)
        return INTPTR[b]

    def static_obj(self, ex, st, name):
        if name not in self.statics:
            self.statics[name] = -10 - len(self.statics)
        return self.statics[name]

    def const_table(self, ex, st, vals):
        f = z3.Function('TABLE%d' % len(vals), z3.IntSort(), z3.IntSort())
        ex.tables = getattr(ex, 'tables', {})
        ex.tables[str(f)] = (f, vals)
        # strictly increasing table: the facts a search over it needs
        if all(a < b for a, b in zip(vals, vals[1:])):
            i, j = z3.Ints('ti tj')
            st.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < len(vals)), f(i) < f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
        elif all(a <= b for a, b in zip(vals, vals[1:])):
            i, j = z3.Ints('ti tj')
            st.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < len(vals)), f(i) <= f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
        st.pc.append(f(0) == vals[0])
        st.pc.append(f(len(vals) - 1) == vals[-1])
        k = z3.Int('tk')
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < len(vals)), z3.And(f(k) >= min(vals), f(k) <= max(vals))), patterns=[f(k)]))
        return lambda i: f(I(i))

    def flat_div(self, ex, st, x, y):
        """division by a variable: the quotient is the number of multiples that fit"""
        q = uf('DIV', 2, 'int')(I(x), I(y))
        m = self.flat_mul(ex, q, y)
        st.pc.append(z3.Implies(I(y) > 0, z3.And(q >= 0, m >= 0, m <= I(x), I(x) < m + I(y))))
        st.pc.append(uf('MULTIPLE', 2, 'bool')(I(y), m))
        return q

    def flat_mul(self, ex, x, y):
        if z3.is_const(x) and str(x).startswith('SZ_'):
            x, y = y, x
        return uf('MUL', 2, 'int')(I(x), I(y))

    def ptr_cmp(self, ex, st, op, x, y):
        if ex.flat():
            return {'Lt': lt, 'Le': le, 'Gt': gt, 'Ge': ge}[op](x.obj, y.obj)
        ex.prove(st, eq(x.obj, y.obj), 'compared pointers are into one block', ex.curline)
        return {'Lt': lt, 'Le': le, 'Gt': gt, 'Ge': ge}[op](x.idx, y.idx)

    def bitop(self, ex, st, op, x, y, ty):
        n = ex.p.bits(ty)
        if ex.flat() and op == 'BitAnd' and not isinstance(x, int) and not isinstance(y, int):
            for a, b in ((x, y), (y, x)):
                for al in self.alignments(ex):
                    # an alignment is a power of two: its mask takes the remainder
                    rem = uf('REMAINDER', 2, 'int')(al, I(a))
                    if ex.entails(st, eq(b, sub(al, 1))):
                        st.pc.append(z3.And(0 <= rem, rem < al, z3.Implies(z3.And(0 <= I(a), I(a) < al), rem == I(a)), (rem == 0) == uf('MULTIPLE', 2, 'bool')(al, I(a))))
                        if ex.entails(st, eq(a, al)):
                            return 0
                        return rem
                    if ex.entails(st, eq(b, 2 ** n - al)):
                        st.pc.append(z3.And(0 <= rem, rem < al, rem <= I(a), uf('MULTIPLE', 2, 'bool')(al, I(a) - rem)))
                        return I(a) - rem
        if op == 'BitAnd':
            for a, b in ((x, y), (y, x)):
                if isinstance(b, int) and (b & (b + 1)) == 0:
                    return I(a) % (b + 1)
                if isinstance(b, int) and b > 0 and b < 2 ** n:
                    low = 2 ** n - b           # the mask clears the low bits
                    if (low & (low - 1)) == 0:
                        return I(a) - I(a) % low
        if op == 'BitOr':
            for a, b in ((x, y), (y, x)):
                for k in (2, 8, 1 << 16, 1 << 32):
                    if ex.entails(st, And(eq(I(a) % k, 0), le(0, b), lt(b, k))):
                        return add(a, b)
        if op in ('Shl', 'ShlUnchecked') and isinstance(y, int):
            return ex.wrap(mul(x, 1 << y), ty)
        if op in ('Shr', 'ShrUnchecked') and isinstance(y, int) and not ex.p.signed(ty):
            return I(x) / (1 << y)
        if op == 'BitXor':
            f = uf('XOR', 2, 'int')
            v = f(I(x), I(y))
            st.pc.append(z3.And(v >= 0, v < 2 ** n))
            return v
        r = z3.BV2Int({'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'Shl': lambda a, b: a << b, 'Shr': lambda a, b: z3.LShR(a, b)}[op.replace('Unchecked', '')](
            z3.Int2BV(I(x), n), z3.Int2BV(I(y), n)))
        return r

    def cast_lref(self, ex, st, v, fr, to):
        return None

    def alignments(self, ex):
        return list(ex.__dict__.get('aligns', {}).values())

    def int_to_ptr(self, ex, st, v, to):
        if ex.flat():
            return Ptr(v, 0, ex.p.strip(to))
        if ex.single(to):
            return Ptr(uf('NODE', 1, 'int')(I(v)), 0, ex.p.strip(to))
        return None

    def ptr_to_int(self, ex, st, v):
        if ex.flat():
            return v.obj
        if ex.raw_pc():
            return uf('ADDR', 1, 'int')(I(v.obj))
        return None

    def loop_invariant(self, ex, lc):
        inv = ex.con.invariant(lc)
        if inv is None:
            return None

        def full(lc):
            out = list(inv(lc))
            fp = ex.con.owned(lc)
            if fp is not None:
                st, e = lc.st, ex.entry
                out.append(('no block is lost', forall(lambda o: Imp(And(gt(o, 0), ge(ex.bty(st, o), 0), ex.alive(st, o), Or(ex.fp0(o), Not(ex.alive(e, o)))), fp(o)))))
            return out
        return full

    def unroll(self, ex, lc):
        n = ex.con.unroll(lc)
        return 8 if n is None else n

    def havoc_it(self, ex, st, old):
        if old.kind in ('sliter', 'arriter'):
            lo, hi = fresh_int('lo'), fresh_int('hi')
            st.pc.append(z3.And(lo >= I(old.lo), lo <= hi, hi <= I(old.hi)))
            return old.but(lo=lo, hi=hi)
        if old.kind == 'param':
            pos = fresh_int('pos')
            st.pc.append(z3.And(pos >= I(old.pos), pos <= old.n))
            return old.but(pos=pos)
        if old.kind == 'pc':
            return It('pc', o=fresh_int('pco'), c=fresh_bool('pcc'))
        if old.kind == 'opaque':
            return old
        raise Unsupported('library value %s changes in a loop or call' % old.kind)

    def pointer_alternatives(self, ex, ty, old):
        """a pointer to a link: the link is a cell of an array, or in a node"""
        p = ex.p
        t = p.strip(ty)
        if not isinstance(old, Ptr) or p.k(t) not in ('ptr', 'ref') or p.is_fat(p.pointee(t)):
            return None
        to = p.strip(p.pointee(t))
        if p.k(to) != 'ptr' or p.is_fat(p.pointee(to)) or not ex.single(p.pointee(to)):
            return None
        nty = p.strip(p.pointee(to))
        return [(to, (), False)] + [(nty, (i,), True) for i, f in enumerate(p.fields(nty)) if p.strip(f) == to]


ITER_PARAMS = ('I', 'It', 'Iter', '<I as core::iter::traits::collect::IntoIterator>::IntoIter')
