"""Symbolic execution of MIR with contracts: generates and discharges the obligations of one function."""
import time
import z3
from .core import *
from .core import I, B
from .prog import Prog, INTS

BOXED = ('list::node::ListNodeBase',)
SINGLE = ('fixed_pool::Link', 'list::node::ListNodeBase', 'list::node::ListNode', 'internal::hash_table::node::Node',
          'internal::rb_tree::node::Node')
MAXSTEPS = 60000


class Diverge(Exception):
    pass


class Loc:
    __slots__ = ('kind', 'a', 'b')

    def __init__(self, kind, a, b=None):
        self.kind, self.a, self.b = kind, a, b


class Call:
    __slots__ = ('f', 'path', 'key', 'args', 'argtys', 'destty', 'targs', 'line', 'fnrec', 'dest', 'to', 'provided')


class Push:
    """model result: continue by running another function with these argument values"""

    def __init__(self, fn, args, post=None):
        self.fn, self.args, self.post = fn, args, post


class Multi:
    def __init__(self, alts):
        self.alts = alts


DIVERGE = object()
NOMODEL = object()


class Obligation:
    __slots__ = ('name', 'line', 'status', 'backend', 'time', 'model', 'kind', 'detail', 'fn', 'size')


class Failure(Exception):
    pass


class Ex:
    def __init__(self, prog, spec, timeout=8000):
        self.p = prog
        self.spec = spec
        self.timeout = timeout
        self.obls = []
        self.discover = 0
        self.uid = 0
        self.consts = {}
        self.cname = None
        self.loop_ord = {}
        self.steps = 0
        self.trusted = set()
        self.used_contracts = set()
        self.inlined = set()
        self.solver_time = 0.0
        self.feas_cache = {}
        self.range_seen = set()
        self.nocontract = set()
        self.modelled = set()
        self.fresh_ids = set()
        self.keep = []
        self.stack_objs = []
        self.curline = None
        self.t_end = None
        self.lost = 0.0

    # ------------------------------------------------------------------ solving
    def _solve(self, pc, goal, timeout):
        s = z3.Solver()
        s.set('timeout', timeout)
        for f in pc:
            s.add(f)
        s.add(z3.Not(B(goal)))
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.solver_time += dt
        return s, r, dt

    def prove(self, st, goal, name, line=None, kind='safety'):
        if goal is True or self.discover:
            if goal is not True and goal is not False and self.discover:
                pass
            if goal is True and not self.discover:
                self.record(name, line, 'proved', 'folding', 0.0, kind)
            return True
        g = goal if isinstance(goal, bool) else z3.simplify(goal)
        if not isinstance(g, bool) and z3.is_true(g):
            self.record(name, line, 'proved', 'simplifier', 0.0, kind)
            return True
        if goal is False:
            goal = z3.BoolVal(False)
        if self.t_end and time.time() > self.t_end:
            raise Unsupported('out of time')
        s, r, dt = self._solve(st.pc, goal, min(self.timeout, 2500))
        backend = 'z3'
        if r == z3.unknown:
            t = time.time()
            alt = self.second_opinion(st.pc, goal, s)
            if alt is not None:
                r, backend = alt
            if r != z3.unsat:
                self.lost += time.time() - t
        if r == z3.unsat:
            self.record(name, line, 'proved', backend, dt, kind)
            st.pc.append(goal)
            return True
        o = self.record(name, line, 'failed' if r == z3.sat else 'unknown', backend, dt, kind)
        try:
            o.model = s.model() if r == z3.sat else None
        except z3.Z3Exception:
            o.model = None
        o.detail = self.explain(st, goal, s, r)
        if self.spec.debug:
            print('   !!', o.status, name, 'line', line, 'path', st.path[-6:])
            print('      ', str(z3.simplify(goal))[:600])
        if kind in ('panic', 'safety', 'memory', 'pre'):      # the others say nothing about what runs next
            st.pc.append(goal)
        return False

    def second_opinion(self, pc, goal, s):
        # other z3 configurations first, then cvc5. Where something is lost already, the rest is tried less hard
        hurry = self.lost > 100 or any(o.status == 'failed' for o in self.obls)
        for seed, ms in ((0, 3000),) if hurry else ((0, min(self.timeout, 5000)), (7, min(self.timeout, 5000)), (23, self.timeout)):
            s2 = z3.Solver()
            s2.set('timeout', ms)
            s2.set('smt.mbqi', False)
            if seed:
                s2.set('smt.random_seed', seed)
                s2.set('smt.arith.solver', 2 if seed == 7 else 6)
            for f in pc:
                s2.add(f)
            s2.add(z3.Not(B(goal)))
            t = time.time()
            r = s2.check()
            self.solver_time += time.time() - t
            if r == z3.unsat:
                return r, 'z3 (no mbqi)'
        if self.timeout > 2500:
            s.set('timeout', min(self.timeout, 6000) if hurry else self.timeout)
            t = time.time()
            r = s.check()
            self.solver_time += time.time() - t
            if r != z3.unknown:
                return r, 'z3'
        r = cvc5_check(s2, 3000 if hurry else self.timeout)
        if r == 'unsat':
            return z3.unsat, 'cvc5'
        if r == 'sat':
            return z3.sat, 'cvc5'
        return None

    def explain(self, st, goal, s, r):
        d = {'path': [str(x) for x in st.path[-12:]], 'goal': str(goal)[:2000], 'result': str(r)}
        try:
            if r == z3.sat:
                d['model'] = str(s.model())[:3000]
            else:
                d['reason'] = s.reason_unknown()
        except z3.Z3Exception:
            pass
        return d

    def record(self, name, line, status, backend, dt, kind):
        o = Obligation()
        o.name, o.line, o.status, o.backend, o.time, o.kind = name, line, status, backend, dt, kind
        o.model = None
        o.detail = None
        o.fn = self.cname
        o.size = 0
        self.obls.append(o)
        return o

    def feasible(self, st, extra=None):
        """May this path be taken? Quantified facts are ignored (so this only prunes)."""
        if self.discover:
            return True
        s = z3.Solver()
        s.set('timeout', 1000)
        for f in st.pc:
            if not z3.is_quantifier(f) and not has_quant(f):
                s.add(f)
        if extra is not None:
            s.add(B(extra))
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        return r != z3.unsat

    def assume(self, st, c):
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        st.pc.append(c)

    # ------------------------------------------------------------------ types and heaps
    def heap(self, st, key, sort='int'):
        h = st.heaps.get(key)
        if h is None:
            h = self.base0(key, sort)
            for ep in st.epochs:
                h = self.epoch_wrap(ep, key, h, sort)
            st.heaps[key] = h
        return h

    def epoch_wrap(self, ep, key, h, sort):
        nb = ep['bases'].get(key)
        if nb is None:
            nb = ep['bases'][key] = base_heap(key, sort)
        if key == 'ALIVE' and ep.get('post_alive') is not None:
            pa = ep['post_alive']
            return Heap(key, h, 'fun', lambda prev, o, i: If(ep['cond'](o), pa(o), prev(o, i)))
        return Heap(key, h, 'fun', lambda prev, o, i: If(ep['cond'](o), nb.read(o, i), prev(o, i)))

    def havoc_heaps(self, st, fp, post_alive=None):
        """A call may have changed every block in its footprint and every block that was not allocated."""
        old = st.copy()
        fr = self.__dict__.get('fp0')
        if fr is not None and not self.discover:
            o = z3.Int('o!%d' % serial())
            s2 = st.copy()
            self.assume(s2, And(o > 0, fp(o)))
            self.prove(s2, Or(fr(o), Not(self.alive(self.entry, o))), 'callee stays within the footprint', None, 'frame')
        ep = {'cond': lambda o: And(ne(o, 0), Or(fp(o), Not(self.alive(old, o)))), 'bases': {}, 'post_alive': post_alive}
        for key in list(st.heaps):
            st.heaps[key] = self.epoch_wrap(ep, key, st.heaps[key], self.heap_sort(key))
            st.log.append(('H', key, None))
        st.epochs = st.epochs + (ep,)
        st.log.append(('E', None, None))

    def settle_ghosts(self, st, o, prefix='G:'):
        """Right after a call: if block o is certainly in its reach, its ghosts are read without the case distinction."""
        ep = st.epochs[-1]
        if not self.entails(st, ep['cond'](o)):
            return False
        for key, h in list(st.heaps.items()):
            nb = ep['bases'].get(key)
            if key.startswith(prefix) and nb is not None:
                st.heaps[key] = Heap(key, h, 'obj', (o, lambda i, nb=nb: nb.read(o, i)))
        return True

    def guard_write(self, st, o, unless=False):
        """Every write stays within the footprint of the contract or in blocks allocated since."""
        if self.discover or self.__dict__.get('fp0') is None:
            return
        k = o if isinstance(o, int) else o.get_id()
        if k in self.fresh_ids:
            return
        done = st.ghost.get('wok', frozenset())
        if k in done:
            return
        if unless is not False:
            if unless is not True:
                self.prove(st, Or(unless, self.fp0(o), Not(self.alive(self.entry, o))), 'write within the footprint', self.curline, 'frame')
            return
        self.prove(st, Or(self.fp0(o), Not(self.alive(self.entry, o))), 'write within the footprint', self.curline, 'frame')
        st.ghost['wok'] = done | {k}
        self.keep.append(o)

    def check_leaks(self, st, post, line):
        if self.discover:
            return
        if not self.con.check_leaks:
            return
        o = z3.Int('lk!%d' % serial())
        s2 = st.copy()
        self.assume(s2, And(o > 0, Or(self.fp0(o), Not(self.alive(self.entry, o)))))
        self.assume(s2, ge(self.bty(s2, o), 0))
        self.prove(s2, Imp(self.alive(s2, o), post(o)), 'no block is leaked', line, 'leak')
        s2 = st.copy()
        self.assume(s2, And(o > 0, post(o)))
        self.prove(s2, self.alive(s2, o), 'no owned block is freed', line, 'leak')
        for g in post.each(lambda o: Or(self.fp0(o), Not(self.alive(self.entry, o)))):
            self.prove(st, g, 'nothing foreign is taken over', line, 'leak')

    def peek(self, st, ref, ty):
        """the value behind a reference, without any obligation"""
        if isinstance(ref, Ptr):
            q = self.view(st, ref, ty)
            return self.read_leafs(st, q.obj, q.idx, q.base, tuple(q.path), self.p.strip(ty))
        return self.load(st, self.loc_of(ref), ty)

    def initial(self, st, ty, i, con):
        """an arbitrary argument of a type"""
        p = self.p
        d = p.types[ty]
        name = 'a%s' % i
        if d['k'] == 'ref':
            to = p.strip(d['to'])
            td = p.types[to]
            if p.is_fat(to):
                v = self.fresh(st, ty, name)
                q = v.ptr
                st.pc.append(z3.And(q.obj != 0 if p.k(p.strip(q.base)) == "ptr" else q.obj > 0, q.idx >= 0))
                if self.flat():
                    return v
                st.pc.append(B(self.alive(st, q.obj)))
                st.pc.append(I(q.idx) + v.len <= I(self.blen(st, q.obj)))
                for key in self.init_keys(q.base):
                    self.assume(st, forall(lambda k: Imp(And(le(q.idx, k), lt(k, add(q.idx, v.len))),
                                                         self.hread(st, key, q.obj, k, 'bool'))))
                return v
            if td['k'] == 'param' or con.heap_arg(i) or self.single(to):
                v = self.fresh(st, ty, name)
                st.pc.append(z3.And(v.obj > 0, v.idx >= 0) if not isinstance(v.idx, int) else v.obj > 0)
                st.pc.append(B(self.alive(st, v.obj)))
                st.pc.append(B(lt(v.idx, self.blen(st, v.obj))))
                for key in self.init_keys(to):
                    self.assume(st, self.hread(st, key, v.obj, v.idx, 'bool'))
                return v
            root = ('arg', i)
            if td['k'] in ('ref', 'ptr'):
                st.store[root] = self.initial(st, to, str(i) + '_', con)
            else:
                st.store[root] = self.fresh(st, to, name)
            return LRef(root)
        if p.is_adt(ty, MOVEREF):               # the only reference to a value of its own
            st.store[('arg', i)] = self.fresh(st, p.strip(d['args'][-1]), name)
            return LRef(('arg', i))
        return self.fresh(st, ty, name)

    def havoc_place(self, st, ref, ty):
        p = self.p
        if isinstance(ref, LRef):
            old = self.get_in(st, st.store[ref.root], ref.path)
            new = self.havoc_val(st, old, p.strip(ty))
            st.log.append(('L', ref.root, ref.path, ty))
            st.store[ref.root] = self.set_in(st.store[ref.root], ref.path, new) if ref.path else new
        elif isinstance(ref, Ptr):
            q = self.view(st, ref, ty)
            for pa, lty in self.leaves(ty):
                v = self.fresh(st, lty, 'hv')
                key = self.canon(q.base, tuple(q.path) + pa)
                if isinstance(v, Ptr):
                    self.hwrite(st, key + '#o', q.obj, q.idx, v.obj)
                    if not isinstance(v.idx, int):
                        self.hwrite(st, key + '#i', q.obj, q.idx, v.idx)
                elif isinstance(v, It):
                    self.hwrite(st, key + '#o', q.obj, q.idx, v.o)
                    self.hwrite(st, key + '#c', q.obj, q.idx, v.c, 'bool')
                else:
                    self.hwrite(st, key, q.obj, q.idx, v, self.leafsort(lty))
        else:
            raise Unsupported('havoc of %r' % (ref,))

    def havoc_val(self, st, old, ty):
        p = self.p
        if isinstance(old, Box_):
            return old
        if isinstance(old, It):
            return self.spec.havoc_it(self, st, old)
        d = p.types[p.strip(ty)]
        if isinstance(old, S) and d['k'] in ('adt', 'tuple', 'closure') and (d['k'] != 'adt' or d['kind'] == 'struct'):
            fs = p.fields(p.strip(ty))
            if len(fs) == len(old.f):
                return S([self.havoc_val(st, o, ft) for o, ft in zip(old.f, fs)])
        if isinstance(old, (LRef,)) or self.has_lref(old):
            return old
        return self.fresh(st, ty, 'hv')

    def settle(self, st, old, v):
        """A value with blocks of its own (a list sentinel, an array) is moved: the place it comes to rest
        in has its own address, so its contents move to another block."""
        if isinstance(v, Box_):
            if isinstance(v.obj, int):
                return v
            if isinstance(old, Box_):
                if eq(old.obj, v.obj) is True:
                    return v
                dst = old.obj
            else:
                dst = self.alloc(st, v.base, v.len, 'mv', box=True)
                self.stack_objs.append(dst)
            for pa, lty in self.leaves(v.base):
                key = self.canon(v.base, pa)
                ks = [key + '#o', key + '#i'] if self.p.k(lty) in ('ptr', 'ref') else [key]
                for k in ks:
                    sort = self.leafsort(lty)
                    h = self.heap(st, k, sort)
                    self.hobj(st, k, dst, (lambda h: lambda i: h.read(v.obj, i))(h), sort)
                if self.p.k(lty) == 'param':
                    ik = self.init_key(v.base, pa)
                    h = self.heap(st, ik, 'bool')
                    self.hobj(st, ik, dst, (lambda h: lambda i: h.read(v.obj, i))(h), 'bool')
                    self.hobj(st, ik, v.obj, lambda i: False, 'bool')
            return Box_(dst, v.base, v.len)
        if isinstance(v, S) and any(self.has_box(x) for x in v.f):
            of = old.f if isinstance(old, S) and len(old.f) == len(v.f) else [UNINIT] * len(v.f)
            return S([self.settle(st, o, x) for o, x in zip(of, v.f)])
        if isinstance(v, En) and self.has_box(v):
            return En(v.d, {k: tuple(self.settle(st, UNINIT, x) for x in fs) for k, fs in v.vs.items()})
        return v

    def has_box(self, v):
        if isinstance(v, Box_):
            return True
        if isinstance(v, S):
            return any(self.has_box(x) for x in v.f)
        if isinstance(v, En):
            return any(self.has_box(x) for fs in v.vs.values() for x in fs)
        return False

    def base0(self, key, sort):
        """The heap at function entry: the same function in every state."""
        m = self.__dict__.setdefault('_base0', {})
        if key not in m:
            f = z3.Function('H_' + key, z3.IntSort(), z3.IntSort(), SORTS[sort])
            m[key] = Heap(key, None, 'base', f)
            m[key].ser = 0
        return m[key]

    def hread(self, st, key, o, i=0, sort='int'):
        return self.heap(st, key, sort).read(o, i)

    def hwrite(self, st, key, o, i, v, sort='int'):
        self.guard_write(st, o, eq(o, 0) if key.startswith('G:') else False)     # ghosts of no object at all
        h = self.heap(st, key, sort)
        st.heaps[key] = Heap(key, h, 'cell', (o, i, v))
        st.log.append(('H', key, o))

    def hupd(self, st, key, o, cond, val, sort='int', unless=False):
        self.guard_write(st, o, unless)
        h = self.heap(st, key, sort)
        st.heaps[key] = Heap(key, h, 'range', (o, cond, val))
        st.log.append(('H', key, o))

    def hobj(self, st, key, o, f, sort='int'):
        self.guard_write(st, o, eq(o, 0) if key.startswith('G:') else False)     # ghosts of no object at all
        h = self.heap(st, key, sort)
        st.heaps[key] = Heap(key, h, 'obj', (o, f))
        st.log.append(('H', key, o))

    def hfun(self, st, key, f, sort='int'):
        h = self.heap(st, key, sort)
        st.heaps[key] = Heap(key, h, 'fun', f)
        st.log.append(('H', key, None))

    def alive(self, st, o):
        return self.hread(st, 'ALIVE', o, 0, 'bool')

    def blen(self, st, o):
        return self.hread(st, 'BLEN', o, 0)

    def bty(self, st, o):
        return self.hread(st, 'BTY', o, 0)

    def tycode(self, t):
        t = self.p.strip(t)
        m = self.__dict__.setdefault('_tycode', {})
        return m.setdefault(self.p.s(t), 1000 + len(m))

    def new_obj(self, st, name='o'):
        o = fresh_int(name)
        self.fresh_ids.add(o.get_id())
        self.keep.append(o)
        self.assume(st, o > 0)
        self.assume(st, Not(self.alive(st, o)))
        return o

    def alloc(self, st, ty, n, name='blk', box=False):
        """A fresh live block of n elements of type ty."""
        o = self.new_obj(st, name)
        self.hwrite(st, 'ALIVE', o, 0, True, 'bool')
        self.hwrite(st, 'BLEN', o, 0, n)
        self.hwrite(st, 'BTY', o, 0, -1 if box else self.tycode(ty))
        for key in self.init_keys(ty):
            self.hobj(st, key, o, lambda i: False, 'bool')
        return o

    def canon(self, base, path):
        """heap key of a leaf: from the innermost struct that is shared between views"""
        p = self.p
        t = p.strip(base)
        start, rest = t, []
        for x in path:
            t = p.strip(t)
            if p.k(t) == 'adt' and p.types[t]['n'] in BOXED:
                start, rest = t, []
            d = p.types[t]
            if d['k'] == 'adt' and d['kind'] == 'enum':
                raise Unsupported('enum leaf in memory')
            t = p.fields(t)[x]
            rest.append(x)
        return p.s(start) + ''.join('.%s' % x for x in rest)

    def leaves(self, t, path=()):
        """[(path, type)] of the scalar parts of a type"""
        p = self.p
        t = p.strip(t)
        d = p.types[t]
        k = d['k']
        if k in ('tuple', 'closure'):
            r = []
            for i, e in enumerate(d['elems']):
                r += self.leaves(e, path + (i,))
            return r
        if k == 'adt':
            if d['n'] == 'core::marker::PhantomData':
                return []
            if d['n'] == PARENTCOLOR:
                return [(path, t)]
            if d['kind'] == 'struct':
                r = []
                for i, (n, e) in enumerate(d['variants'][0]['fields']):
                    r += self.leaves(e, path + (i,))
                return r
            if d['kind'] == 'enum':
                return [(path, t)]
            raise Unsupported('leaves of ' + d['s'])
        return [(path, t)]

    def param_leaves(self, t):
        return [(pa, ty) for pa, ty in self.leaves(t) if self.p.k(ty) == 'param']

    def init_key(self, base, path):
        return 'I:' + self.canon(base, path)

    def init_keys(self, t):
        return [self.init_key(t, pa) for pa, _ in self.param_leaves(t)]

    def leafsort(self, ty):
        k = self.p.k(ty)
        if k == 'bool':
            return 'bool'
        if k == 'float':
            return 'real'
        return 'int'

    # ------------------------------------------------------------------ fresh values
    def in_range(self, st, v, ty):
        if isinstance(v, (int, bool)):
            return
        lo, hi = self.p.range(ty)
        k = (v.get_id(), lo, hi)
        self.range_seen.add(k)
        st.pc.append(z3.And(v >= lo, v <= hi))
        if self.p.k(self.p.strip(ty)) == 'char':
            st.pc.append(z3.Or(v < 0xD800, v > 0xDFFF))

    def fresh(self, st, ty, name='v', depth=0):
        p = self.p
        ty = p.strip(ty)
        d = p.types[ty]
        k = d['k']
        if k in ('int', 'char'):
            v = fresh_int(name)
            self.in_range(st, v, ty)
            return v
        if k == 'bool':
            return fresh_bool(name)
        if k == 'float':
            return fresh_real(name)
        if k == 'param':
            return self.spec.fresh_param(self, st, ty, d['n'], name)
        if k in ('ptr', 'ref'):
            to = d['to']
            if p.is_fat(to):
                n = fresh_int(name + '_len')
                self.in_range(st, n, self.usize())
                self.assume(st, n < 2 ** 63)
                et = p.types[to]['to'] if p.k(to) == 'slice' else self.u8()
                return Fat(Ptr(fresh_int(name + '_o'), 0 if self.flat() else fresh_int(name + '_i'), p.strip(et)), n)
            o = fresh_int(name + '_o')
            if p.k(p.strip(to)) != 'ptr':
                st.pc.append(o >= 0)    # a table of pointers may be a static one
            i = 0 if self.single(to) or self.flat() else fresh_int(name + '_i')
            if not isinstance(i, int):
                st.pc.append(z3.Implies(o == 0, i == 0))
            return Ptr(o, i, p.strip(to))
        if k in ('tuple', 'closure'):
            return S([self.fresh(st, e, '%s_%d' % (name, i), depth + 1) for i, e in enumerate(d['elems'])])
        if k == 'array':
            self.array_facts(st, ty)
            return Box_(self.fresh_box(st, d['to'], self.arrlen(ty), name), p.strip(d['to']), self.arrlen(ty))
        if k == 'fndef':
            return FnV(ty)
        if k == 'never':
            return UNINIT
        if k == 'adt':
            if d['n'] == 'core::marker::PhantomData':
                return S([])
            if d['n'] == PARENTCOLOR and not self.raw_pc():
                return It('pc', o=fresh_int(name + '_po'), c=fresh_bool(name + '_pc'))
            h = self.spec.fresh_adt(self, st, ty, name)
            if h is not None:
                return h
            if d['kind'] == 'struct':
                if d['n'] in BOXED:
                    o = self.fresh_box(st, ty, 1, name)
                    return Box_(o, ty)
                return S([self.fresh(st, ft, '%s_%s' % (name, fn), depth + 1) for fn, ft in d['variants'][0]['fields']])
            if d['kind'] == 'enum':
                vs = d['variants']
                disc = fresh_int(name + '_d')
                st.pc.append(z3.Or([disc == v['discr'] for v in vs]))
                return En(disc, {i: tuple(self.fresh(st, ft, '%s_%s%s' % (name, v['name'], fn), depth + 1)
                                          for fn, ft in v['fields']) for i, v in enumerate(vs)})
        raise Unsupported('fresh value of type ' + d['s'])

    def fresh_box(self, st, ty, n, name):
        o = fresh_int(name + '_box')
        st.pc.append(o > 0)
        st.pc.append(B(self.alive(st, o)))
        self.assume(st, eq(self.blen(st, o), n))
        self.assume(st, lt(self.bty(st, o), 0))
        self.stack_objs.append(o)
        return o

    def arrlen(self, ty):
        n = self.p.types[ty]['len']
        if isinstance(n, int):
            return n
        v = z3.Int('const_' + n)
        return v

    def array_facts(self, st, ty):
        """no type is larger than isize::MAX bytes"""
        n = self.arrlen(ty)
        if not isinstance(n, int) and not self.flat():
            from .models import max_elems
            et = self.p.strip(self.p.types[ty]['to'])
            self.assume(st, And(le(0, n), le(n, max_elems(self, st, et)), le(self.nlmul(n, self.size_of(st, et)), 2 ** 63 - 1)))

    def usize(self):
        return self.tyid('usize', {'k': 'int', 'n': 'usize', 's': 'usize'})

    def u8(self):
        return self.tyid('u8', {'k': 'int', 'n': 'u8', 's': 'u8'})

    def unit(self):
        return self.tyid('()', {'k': 'tuple', 'elems': [], 's': '()'})

    def tyid(self, s, d):
        s = self.p.of_closure(s, d)
        if s not in self.p.bystr:
            self.p.types.append(d)
            self.p.bystr[s] = len(self.p.types) - 1
        return self.p.bystr[s]

    def ptr_to(self, t, kind='ptr', mut=True):
        s = ('*mut ' if kind == 'ptr' else '&mut ') + self.p.s(t)
        return self.tyid(s, {'k': kind, 'to': t, 'mut': mut, 's': s})

    def option_of(self, t):
        s = 'core::option::Option<%s>' % self.p.s(t)
        return self.tyid(s, {'k': 'adt', 'n': 'core::option::Option', 'kind': 'enum', 'args': [t], 's': s, 'variants': [
            {'name': 'None', 'discr': 0, 'fields': []}, {'name': 'Some', 'discr': 1, 'fields': [['0', t]]}]})

    def single(self, t):
        d = self.p.types[self.p.strip(t)]
        return d['k'] == 'adt' and d['n'] in SINGLE

    def size_of(self, st, t):
        """size in bytes: known for machine types, a positive unknown per type otherwise"""
        p = self.p
        t = p.strip(t)
        d = p.types[t]
        if d['k'] in ('int', 'char'):
            return p.bits(t) // 8
        if d['k'] == 'bool':
            return 1
        if d['k'] == 'float':
            return 4 if d['n'] == 'f32' else 8
        if d['k'] in ('ptr', 'ref'):
            return 16 if p.is_fat(d['to']) else 8
        if d['k'] == 'tuple' and not d['elems']:
            return 0
        if d['k'] == 'adt' and d['n'] == 'core::marker::PhantomData':
            return 0
        if d['k'] == 'array' and not self.flat():
            self.array_facts(st, t)
            return self.nlmul(self.arrlen(t), self.size_of(st, d['to']))
        v = z3.Int('SZ_' + p.s(t))
        st.pc.append(z3.And(v >= 1, v < 2 ** 63))
        # a struct is at least as large as each of its fields
        if d['k'] == 'adt' and d['kind'] == 'struct':
            for _, ft in d['variants'][0]['fields']:
                fd = p.types[p.strip(ft)]
                if fd['k'] in ('ptr', 'ref', 'int') or (fd['k'] == 'adt' and fd['n'] in BOXED):
                    st.pc.append(v >= I(self.size_of(st, ft)) if not (fd['k'] == 'adt') else v >= 16)
        return v

    def align_of(self, st, t):
        p = self.p
        t = p.strip(t)
        d = p.types[t]
        if d['k'] in ('int', 'char', 'bool', 'float', 'ptr', 'ref'):
            return min(self.size_of(st, t), 16 if d['k'] == 'int' else 8)
        v = z3.Int('AL_' + p.s(t))
        self.__dict__.setdefault('aligns', {})[p.s(t)] = v
        sz = self.size_of(st, t)
        st.pc.append(z3.And(v >= 1, v <= I(sz), I(sz) % v == 0))
        return v

    # ------------------------------------------------------------------ memory access
    def check_access(self, st, ptr, line, what):
        if self.discover:
            return
        if ptr.obj is None:
            raise Unsupported('access through an erased pointer')
        inside = lt(ptr.idx, self.blen(st, ptr.obj))
        if ptr.base == self.u8():
            inside = Or([inside] + [And(eq(ptr.idx, self.blen(st, ptr.obj)), eq(z3.Function('FROM', z3.IntSort(), z3.IntSort())(I(ptr.obj)), c)) for c in self.roomy()])
        self.prove(st, And(self.alive(st, ptr.obj), le(0, ptr.idx), inside),
                   what + ' in bounds of a live block', line)

    def roomy(self):
        """the allocators that leave room for one more byte after a block"""
        if '_roomy' not in self.__dict__:
            self._roomy = [self.tycode(i) for i, d in enumerate(self.p.types) if d.get('n') == 'string::null_terminator_allocator::NullTerminatorAllocator']
        return self._roomy

    def read_heap(self, st, ptr, ty, line=None, check=True):
        if check:
            self.check_access(st, ptr, line, 'read')
        return self.read_leafs(st, ptr.obj, ptr.idx, ptr.base, tuple(ptr.path), self.p.strip(ty))

    def read_leafs(self, st, o, i, base, path, ty):
        p = self.p
        ty = p.strip(ty)
        d = p.types[ty]
        k = d['k']
        if k in ('int', 'char'):
            v = self.hread(st, self.canon(base, path), o, i)
            self.in_range(st, v, ty)
            return v
        if k == 'param':
            return self.hread(st, self.canon(base, path), o, i)
        if k == 'bool':
            return self.hread(st, self.canon(base, path), o, i, 'bool')
        if k == 'float':
            return self.hread(st, self.canon(base, path), o, i, 'real')
        if k in ('ptr', 'ref'):
            if p.is_fat(d['to']):
                raise Unsupported('slice pointer in memory')
            key = self.canon(base, path)
            vo = self.hread(st, key + '#o', o, i)
            vi = 0 if self.single(d['to']) else self.hread(st, key + '#i', o, i)
            return Ptr(vo, vi, p.strip(d['to']))
        if k in ('tuple', 'closure'):
            return S([self.read_leafs(st, o, i, base, path + (j,), e) for j, e in enumerate(d['elems'])])
        if k == 'adt':
            if d['n'] == 'core::marker::PhantomData':
                return S([])
            if d['n'] == PARENTCOLOR:
                key = self.canon(base, path)
                return It('pc', o=self.hread(st, key + '#o', o, i), c=self.hread(st, key + '#c', o, i, 'bool'))
            if d['kind'] == 'struct':
                return S([self.read_leafs(st, o, i, base, path + (j,), ft) for j, (fn, ft) in enumerate(d['variants'][0]['fields'])])
        raise Unsupported('read of type %s from memory' % d['s'])

    def read_leafs_raw(self, st, o, i, base, path, ty):
        """for contracts: the same without range facts (the index may be a bound variable)"""
        p = self.p
        ty = p.strip(ty)
        d = p.types[ty]
        k = d['k']
        if k in ('int', 'char', 'param'):
            return self.hread(st, self.canon(base, path), o, i)
        if k == 'bool':
            return self.hread(st, self.canon(base, path), o, i, 'bool')
        if k in ('ptr', 'ref'):
            key = self.canon(base, path)
            return Ptr(self.hread(st, key + '#o', o, i), 0 if self.single(d['to']) else self.hread(st, key + '#i', o, i), p.strip(d['to']))
        if k in ('tuple', 'closure'):
            return S([self.read_leafs_raw(st, o, i, base, path + (j,), e) for j, e in enumerate(d['elems'])])
        if k == 'adt':
            if d['n'] == 'core::marker::PhantomData':
                return S([])
            if d['kind'] == 'struct':
                return S([self.read_leafs_raw(st, o, i, base, path + (j,), ft) for j, (fn, ft) in enumerate(d['variants'][0]['fields'])])
        raise Unsupported('element of type ' + d['s'])

    def write_heap(self, st, ptr, ty, val, line=None, check=True):
        if check:
            self.check_access(st, ptr, line, 'write')
        self.write_leafs(st, ptr.obj, ptr.idx, ptr.base, tuple(ptr.path), self.p.strip(ty), val, line)

    def write_leafs(self, st, o, i, base, path, ty, v, line=None):
        p = self.p
        ty = p.strip(ty)
        d = p.types[ty]
        k = d['k']
        if v is UNINIT:
            if k == 'param':
                return
            for pa, lt_ in self.leaves(ty):
                if p.k(lt_) != 'param':
                    fv = self.fresh(st, lt_, 'uninit')
                    self.write_leafs(st, o, i, base, path + pa, lt_, fv, line)
            return
        if k in ('int', 'char'):
            if isinstance(v, Addr):
                raise Unsupported('address stored as an integer')
            self.hwrite(st, self.canon(base, path), o, i, v)
        elif k == 'param':
            self.hwrite(st, self.canon(base, path), o, i, v)
            self.set_init(st, o, i, base, path, line)
        elif k == 'bool':
            self.hwrite(st, self.canon(base, path), o, i, v, 'bool')
        elif k == 'float':
            self.hwrite(st, self.canon(base, path), o, i, v, 'real')
        elif k in ('ptr', 'ref'):
            if not isinstance(v, Ptr) or (v.path and not (self.cpath(v) == () and self.typ_of(v) == p.strip(d['to']))):
                raise Unsupported('an interior or stack pointer is stored in memory')
            key = self.canon(base, path)
            self.hwrite(st, key + '#o', o, i, v.obj)
            if self.single(d['to']):
                self.prove(st, eq(v.idx, 0), 'node pointer points to the start of its node', line)
            else:
                self.hwrite(st, key + '#i', o, i, v.idx)
        elif k in ('tuple', 'closure'):
            for j, e in enumerate(d['elems']):
                self.write_leafs(st, o, i, base, path + (j,), e, v.f[j], line)
        elif k == 'adt':
            if d['n'] == 'core::marker::PhantomData':
                return
            if d['n'] == PARENTCOLOR:
                key = self.canon(base, path)
                self.hwrite(st, key + '#o', o, i, v.o)
                self.hwrite(st, key + '#c', o, i, v.c, 'bool')
                return
            if d['kind'] == 'struct':
                if isinstance(v, Box_):
                    v = self.read_leafs(st, v.obj, 0, v.base, (), ty)
                for j, (fn, ft) in enumerate(d['variants'][0]['fields']):
                    self.write_leafs(st, o, i, base, path + (j,), ft, v.f[j], line)
            else:
                raise Unsupported('write of type %s to memory' % d['s'])
        else:
            raise Unsupported('write of type %s to memory' % d['s'])

    def is_init(self, st, o, i, base, path):
        return self.hread(st, self.init_key(base, path), o, i, 'bool')

    def set_init(self, st, o, i, base, path, line):
        key = self.init_key(base, path)
        self.prove(st, Not(self.hread(st, key, o, i, 'bool')), 'no element is overwritten without being dropped', line, 'ownership')
        self.hwrite(st, key, o, i, True, 'bool')

    def take_init(self, st, ptr, ty, line, what):
        """the value at ptr is moved out (or dropped): it must be there, and is gone afterwards"""
        for pa, lty in self.param_leaves(ty):
            key = self.init_key(ptr.base, tuple(ptr.path) + pa)
            self.prove(st, self.hread(st, key, ptr.obj, ptr.idx, 'bool'), what, line, 'ownership')
            self.hwrite(st, key, ptr.obj, ptr.idx, False, 'bool')

    def require_init(self, st, ptr, ty, line, what):
        for pa, lty in self.param_leaves(ty):
            key = self.init_key(ptr.base, tuple(ptr.path) + pa)
            self.prove(st, self.hread(st, key, ptr.obj, ptr.idx, 'bool'), what, line, 'ownership')

    # generic load/store through a Loc
    def get_in(self, st, v, path):
        for x in path:
            if v is UNINIT:
                return UNINIT
            if isinstance(v, Box_):
                raise Unsupported('path through box')
            if isinstance(x, tuple):       # ('v', variant)
                if not isinstance(v, En):
                    raise Unsupported('downcast of ' + repr(v)[:60])
                if x[1] not in v.vs:
                    raise Diverge()
                v = S(v.vs[x[1]])
            else:
                if isinstance(v, S):
                    if x >= len(v.f):
                        raise Unsupported('field of ' + repr(v)[:60])
                    v = v.f[x]
                elif isinstance(v, It) and ('_%d' % x) in v.f:
                    v = v.f['_%d' % x]
                else:
                    raise Unsupported('field %s of %r' % (x, v))
        return v

    def set_in(self, v, path, new, ty=None):
        if not path:
            return new
        x = path[0]
        if isinstance(x, tuple):
            if v is UNINIT:
                raise Unsupported('partial enum initialisation')
            vs = dict(v.vs)
            vs[x[1]] = self.set_in(S(vs[x[1]]), path[1:], new).f
            return En(v.d, vs)
        if isinstance(v, S):
            f = list(v.f)
            while len(f) <= x:
                f.append(UNINIT)
            f[x] = self.set_in(f[x], path[1:], new)
            return S(f)
        if isinstance(v, It) and ('_%d' % x) in v.f:
            return v.but(**{'_%d' % x: self.set_in(v.f['_%d' % x], path[1:], new)})
        if v is UNINIT:
            f = [UNINIT] * (x + 1)
            f[x] = self.set_in(UNINIT, path[1:], new)
            return S(f)
        raise Unsupported('set field of %r' % (v,))

    def load(self, st, loc, ty, line=None):
        if loc.kind == 'L':
            if loc.a not in st.store:
                return UNINIT
            return self.get_in(st, st.store[loc.a], loc.b)
        if loc.kind == 'H':
            return self.read_heap(st, loc.a, ty, line)
        if loc.kind == 'V':
            return loc.a
        raise Unsupported('load of an unsized place')

    def store(self, st, loc, ty, val, line=None):
        if loc.kind == 'L':
            st.log.append(('L', loc.a, loc.b, ty))
            if self.has_box(val):
                old = st.store.get(loc.a, UNINIT)
                if old is not UNINIT:
                    try:
                        old = self.get_in(st, old, loc.b)
                    except (Unsupported, Diverge):
                        old = UNINIT
                val = self.settle(st, old, val)
            if not loc.b:
                st.store[loc.a] = val
            else:
                st.store[loc.a] = self.set_in(st.store.get(loc.a, UNINIT), loc.b, val)
        elif loc.kind == 'H':
            self.write_heap(st, loc.a, ty, val, line)
        else:
            raise Unsupported('store to an unsized place')

    def loc_of(self, v):
        if isinstance(v, LRef):
            return Loc('L', v.root, v.path)
        if isinstance(v, Ptr):
            return Loc('H', v)
        if isinstance(v, Fat):
            return Loc('F', v)
        if isinstance(v, It) and v.kind == 'valref':
            return Loc('V', v.v)
        raise Unsupported('dereference of %r' % (v,))

    def deref(self, st, ref, ty, line=None):
        return self.load(st, self.loc_of(ref), ty, line)

    def ref_to(self, st, loc, ty=None):
        """the pointer that denotes a place"""
        if loc.kind == 'L':
            v = st.store.get(loc.a)
            if v is not None:
                w = self.get_in(st, v, loc.b)
                if isinstance(w, Box_) and not (ty is not None and self.p.k(ty) == 'array'):
                    return Ptr(w.obj, 0, w.base)
            return LRef(loc.a, loc.b)
        if loc.kind in ('H', 'F'):
            return loc.a
        if loc.kind == 'V':
            return It('valref', v=loc.a)
        raise Unsupported('address of place')

    # ------------------------------------------------------------------ places and operands
    def place(self, st, fr, pl):
        """-> (Loc, type)"""
        p = self.p
        loc = Loc('L', (fr.uid, pl['l']), ())
        ty = fr.fn['locals'][pl['l']][0]
        variant = 0
        for e in pl['pr']:
            k = e['p']
            if k == 'deref':
                v = self.load(st, loc, ty)
                if v is UNINIT:
                    raise Unsupported('dereference of an uninitialised local')
                loc = self.loc_of(v)
                ty = p.pointee(ty)
                variant = 0
                if loc.kind == 'H':
                    loc = Loc('H', self.view(st, loc.a, ty))
            elif k == 'field':
                if loc.kind == 'L':
                    root = st.store.get(loc.a, UNINIT)
                    w = self.get_in(st, root, loc.b) if root is not UNINIT else UNINIT
                    if isinstance(w, Box_):
                        loc = Loc('H', Ptr(w.obj, 0, w.base, (e['i'],)))
                    elif p.types[ty]['k'] == 'adt' and p.types[ty]['n'] in self.p_transparent():
                        pass
                    else:
                        loc = Loc('L', loc.a, loc.b + (e['i'],))
                elif loc.kind == 'H':
                    q = loc.a
                    if not (p.types[ty]['k'] == 'adt' and p.types[ty]['n'] in self.p_transparent()):
                        loc = Loc('H', Ptr(q.obj, q.idx, q.base, tuple(q.path) + (e['i'],)))
                elif loc.kind == 'V':
                    loc = Loc('V', self.get_in(st, loc.a, (e['i'],)))
                else:
                    raise Unsupported('field of an unsized place')
                ty = e['ty']
                variant = 0
            elif k == 'downcast':
                if loc.kind == 'L':
                    loc = Loc('L', loc.a, loc.b + (('v', e['v']),))
                else:
                    raise Unsupported('downcast in memory')
                variant = e['v']
            elif k in ('index', 'cindex'):
                if k == 'index':
                    ix = st.store[(fr.uid, e['l'])]
                else:
                    if e['from_end']:
                        raise Unsupported('index from end')
                    ix = e['i']
                if loc.kind == 'F':
                    q = loc.a.ptr
                    if isinstance(q, LRef):
                        raise Unsupported('index of a stack slice')
                    loc = Loc('H', Ptr(q.obj, add(q.idx, ix), q.base, q.path))
                    ty = p.types[ty]['to']
                elif loc.kind == 'L':
                    w = self.load(st, loc, ty)
                    if not isinstance(w, Box_):
                        raise Unsupported('index of %r' % (w,))
                    loc = Loc('H', Ptr(w.obj, ix, w.base))
                    ty = p.types[ty]['to']
                else:
                    raise Unsupported('index in memory')
            else:
                raise Unsupported('projection ' + str(e))
        return loc, ty

    def p_transparent(self):
        from .prog import TRANSPARENT
        return TRANSPARENT

    def view(self, st, q, ty):
        """a heap pointer dereferenced as type ty: move between a struct and its first field"""
        p = self.p
        t = p.strip(ty)
        if not isinstance(q, Ptr) or p.k(t) == 'array':
            return q
        cur = self.typ_of(q)
        if cur == t or cur is None:
            return q
        return self.cast_ptr(q, t)

    def typ_of(self, q):
        try:
            return self.p.strip(self.p.ty_at(q.base, q.path))
        except Unsupported:
            return None

    def opaque(self, t):
        d = self.p.types[t]
        return (d['k'] == 'tuple' and not d['elems']) or d['s'] in ('core::ffi::c_void', 'std::ffi::c_void', 'libc::c_void') \
            or d['k'] == 'adt' and d['n'].endswith('::c_void')

    def cast_ptr(self, q, t):
        p = self.p
        t = p.strip(t)
        if self.flat():
            return Ptr(q.obj, q.idx, t)
        if self.opaque(t):
            return q
        cur = self.typ_of(q)
        if cur == t:
            return q
        if cur is None:
            return q
        if self.opaque(cur):
            return Ptr(q.obj, q.idx, t)
        r = self.spec.cast_ptr(self, q, cur, t)
        if r is not None:
            return r
        if p.s(cur) == p.s(t):
            return Ptr(q.obj, q.idx, t) if not q.path else q
        # to the struct whose first field this is
        if not q.path:
            d = p.types[t]
            if d['k'] == 'adt' and d['kind'] == 'struct' and d['variants'][0]['fields'] and \
                    p.strip(d['variants'][0]['fields'][0][1]) == cur:
                return Ptr(q.obj, q.idx, t)
            d = p.types[cur]
            if d['k'] == 'adt' and d['kind'] == 'struct' and d['variants'][0]['fields'] and \
                    p.strip(d['variants'][0]['fields'][0][1]) == t:
                return Ptr(q.obj, q.idx, t) if p.types[t].get('n') in BOXED else Ptr(q.obj, q.idx, q.base, (0,))
        elif q.path[-1] == 0 and all(x == 0 for x in q.path) and p.strip(q.base) == t:
            return Ptr(q.obj, q.idx, q.base)
        if p.k(cur) in ('ptr', 'ref') and p.k(t) in ('ptr', 'ref'):
            # *mut *mut A as *const *const A
            return q if p.strip(p.pointee(cur)) == p.strip(p.pointee(t)) else self._badcast(cur, t)
        if p.k(t) == 'int' and p.bits(t) == 8 and not q.path and p.k(cur) == 'adt':
            return It('bytesof', ptr=q)         # memory seen as bytes: it can be handed on, not looked at
        return self._badcast(cur, t)

    def _badcast(self, cur, t):
        raise Unsupported('pointer cast from %s to %s' % (self.p.s(cur), self.p.s(t)))

    def operand(self, st, fr, op):
        o = op['o']
        if o in ('copy', 'move'):
            loc, ty = self.place(st, fr, op['p'])
            v = self.load(st, loc, ty)
            if o == 'move' and loc.kind == 'L' and not loc.b and (self.p.k(ty) in ('adt', 'array', 'closure') and isinstance(v, (S, En, Box_)) or isinstance(v, It)):
                st.store[loc.a] = UNINIT
                st.log.append(('L', loc.a, (), ty))
            return v
        if o == 'const':
            return self.const(st, fr, op)
        raise Unsupported('operand ' + str(op)[:100])

    def const(self, st, fr, op):
        p = self.p
        ty = op['ty']
        d = p.types[ty]
        k = d['k']
        key = op.get('uneval')
        if key is not None and k == 'bool' and key.startswith(('std::mem::needs_drop', 'core::mem::needs_drop')):
            return True          # a value of the parameter type may need dropping
        if key is not None and key in self.consts:
            return self.consts[key]
        if 'tyconst' in op:
            if 'bits' in op:
                return int(op['bits'])
            v = z3.Int('const_' + op['tyconst'])
            st.pc.append(z3.And(v >= 0, v < 2 ** 63))
            return v
        if 'bits' in op:
            b = int(op['bits'])
            if k == 'bool':
                return b != 0
            if k in ('int', 'char'):
                n = p.bits(ty)
                if p.signed(ty) and b >= 1 << (n - 1):
                    b -= 1 << n
                return b
            if k == 'float':
                import struct
                x = struct.unpack('<f', struct.pack('<I', b))[0] if d['n'] == 'f32' else struct.unpack('<d', struct.pack('<Q', b))[0]
                from fractions import Fraction
                if x != x or x in (float('inf'), float('-inf')):
                    raise Unsupported('float constant')
                return z3.RealVal(Fraction(x))
            if k in ('ptr', 'ref'):
                if b == 0:
                    return Ptr(0, 0, p.strip(d['to']))
                return Ptr(self.spec.intptr(b), 0, p.strip(d['to']))
            if k == 'adt':
                return self.const_adt(ty, b)
            raise Unsupported('constant ' + op['d'])
        if k == 'fndef':
            return FnV(ty)
        if key is not None and key in p.roots and not op.get('promoted'):
            con = self.spec.contract(key)
            if con is not None:
                self.used_contracts.add(key)
                return con.value(self, st, op.get('uargs') or [])
            body = p.fn(key)['body']
            if len(body) == 1 and body[0]['t']['k'] == 'return' and len(body[0]['s']) == 1:
                s = body[0]['s'][0][1]
                if s.get('s') == 'assign' and s['p']['l'] == 0 and not s['p']['pr'] and s['r']['r'] == 'use' and s['r']['x']['o'] == 'const':
                    return self.const(st, fr, s['r']['x'])
        if 'zst' in op:
            return self.zst(ty)
        if k in ('ptr', 'ref'):
            to = d['to']
            if 'slicelen' in op or p.is_fat(to):
                n = op.get('slicelen', 0)
                et = p.types[to]['to'] if p.k(to) == 'slice' else self.u8()
                return Fat(Ptr(self.spec.intptr('str' + op['d'][:40]), 0, p.strip(et)), n)
            m = op.get('mem') or {}
            if 'static' in m:
                self.static_facts(st, m, to)
                return Ptr(self.spec.static_obj(self, st, m['static']), 0, p.strip(p.types[to]['to'] if p.k(to) == 'array' else to))
            if p.k(to) == 'array' and 'bytes' in m:
                return self.const_array_ref(st, to, m['bytes'])
            if p.k(to) == 'array' and self.arrlen(to) == 0:
                return Ptr(self.spec.intptr('empty'), 0, p.strip(p.types[to]['to']))
            if 'bytes' in m and p.k(to) in ('int', 'bool', 'char'):
                b = int.from_bytes(bytes(m['bytes']), 'little')
                return It('valref', v=(b != 0) if p.k(to) == 'bool' else b)
            if 'bytes' in m and p.k(to) == 'adt':
                return It('valref', v=self.const_adt(to, int.from_bytes(bytes(m['bytes']), 'little'), len(m['bytes'])))
            raise Unsupported('constant reference ' + op['d'][:80])
        if k == 'array':
            m = op.get('mem') or {}
            if 'bytes' in m:
                r = self.const_array_ref(st, ty, m['bytes'])
                return Box_(r.obj, r.base, self.arrlen(ty))
        if p.is_adt(ty, 'core::mem::maybe_uninit::MaybeUninit'):
            return UNINIT                  # whatever it is, nothing can be taken out of it
        raise Unsupported('constant ' + op['d'][:80])

    def static_facts(self, st, m, to):
        """an immutable static array of words: a block that is always there, with the contents of its initialiser"""
        p = self.p
        if 'bytes' not in m or p.k(to) != 'array':
            return
        et = p.strip(p.types[to]['to'])
        if p.k(et) != 'int' or p.signed(et):
            return
        w = p.bits(et) // 8
        o = self.spec.static_obj(self, st, m['static'])
        vals = [int.from_bytes(bytes(m['bytes'][i * w:(i + 1) * w]), 'little') for i in range(len(m['bytes']) // w)]
        self.assume(st, And(self.alive(st, o), eq(self.blen(st, o), len(vals)), lt(self.bty(st, o), 0)))
        for i, v in enumerate(vals):
            self.assume(st, eq(self.hread(st, self.canon(et, ()), o, i), v))
        if w == 8:                     # seen as an array of pointers
            for t, d in enumerate(p.types):
                if d['k'] == 'ptr' and not p.is_fat(d['to']) and self.single(d['to']):
                    for i, v in enumerate(vals):
                        self.assume(st, eq(self.hread(st, self.canon(t, ()) + '#o', o, i), self.spec.intptr(v) if v else 0))

    def const_array_ref(self, st, ty, by):
        """A constant array: a block of its own with known contents."""
        p = self.p
        et = p.strip(p.types[ty]['to'])
        n = self.arrlen(ty)
        if n == 0:
            return Ptr(self.spec.intptr('empty'), 0, et)
        if p.k(et) not in ('int',):
            raise Unsupported('constant array of ' + p.s(et))
        w = p.bits(et) // 8
        vals = [int.from_bytes(bytes(by[i * w:(i + 1) * w]), 'little') for i in range(n)]
        o = self.alloc(st, et, n, 'carr', box=True)
        self.stack_objs.append(o)
        if n <= 16:
            for i, v in enumerate(vals):
                self.hwrite(st, self.canon(et, ()), o, i, v)
        else:
            f = self.spec.const_table(self, st, vals)
            self.hobj(st, self.canon(et, ()), o, f)
        return Ptr(o, 0, et)

    def const_adt(self, ty, b, width=1):
        p = self.p
        d = p.types[ty]
        if d['kind'] == 'enum' and all(not v['fields'] for v in d['variants']):
            for i, v in enumerate(d['variants']):
                if (v['discr'] - b) % 256 ** width == 0:
                    return En(v['discr'], {i: ()})
        fs = [f for v in d['variants'] for f in v['fields']]
        if d['kind'] == 'struct' and len(fs) == 1 and p.k(fs[0][1]) == 'int':
            return S([b])
        raise Unsupported('constant of type ' + d['s'])

    def zst(self, ty):
        p = self.p
        d = p.types[ty]
        if d['k'] in ('tuple', 'closure'):
            return S([self.zst(e) for e in d['elems']])
        if d['k'] == 'fndef':
            return FnV(ty)
        if d['k'] == 'adt' and d['kind'] == 'struct':
            return S([self.zst(f[1]) for f in d['variants'][0]['fields']])
        if d['k'] == 'array':
            return Box_(self.spec.intptr('empty'), p.strip(d['to']), 0)
        if d['k'] == 'adt' and d['kind'] == 'enum':
            vs = [(i, v) for i, v in enumerate(d['variants'])]
            if len(vs) >= 1 and not vs[0][1]['fields']:
                return En(vs[0][1]['discr'], {0: ()})
        raise Unsupported('zero sized constant of type ' + d['s'])

    # ------------------------------------------------------------------ rvalues
    def wrap(self, v, ty):
        """mathematical integer -> machine integer of type ty (wrapping)"""
        lo, hi = self.p.range(ty)
        n = hi - lo + 1
        if isinstance(v, int):
            return (v - lo) % n + lo
        if lo == 0:
            return z3.If(z3.And(v >= 0, v <= hi), v, v % n)
        return z3.If(z3.And(v >= lo, v <= hi), v, (v - lo) % n + lo)

    def binop(self, st, op, x, y, ty, line):
        p = self.p
        d = p.types[ty]
        k = d['k']
        if k in ('ptr', 'ref') or isinstance(x, (Ptr, LRef, Fat)) or isinstance(y, (Ptr, LRef, Fat)):
            if op in ('Eq', 'Ne'):
                c = self.ptr_eq(st, x, y)
                return c if op == 'Eq' else Not(c)
            if op in ('Lt', 'Le', 'Gt', 'Ge') and isinstance(x, Ptr) and isinstance(y, Ptr):
                return self.spec.ptr_cmp(self, st, op, x, y)
            if op == 'Offset':
                if self.flat():
                    return Ptr(add(x.obj, self.nlmul(y, self.size_of(st, x.base))), 0, x.base)
                return Ptr(x.obj, add(x.idx, y), x.base, x.path)
            raise Unsupported('pointer operation ' + op)
        if isinstance(x, Addr) or isinstance(y, Addr):
            return self.addr_op(st, op, x, y, ty, line)
        if k == 'float':
            return self.float_op(op, x, y)
        if k == 'bool':
            f = {'Eq': eq, 'Ne': ne, 'BitAnd': And, 'BitOr': Or, 'BitXor': ne}.get(op)
            if f:
                return f(x, y)
            if op in ('Lt', 'Le', 'Gt', 'Ge'):
                return {'Lt': And(Not(x), y), 'Le': Imp(x, y), 'Gt': And(x, Not(y)), 'Ge': Imp(y, x)}[op]
            raise Unsupported('bool ' + op)
        if k not in ('int', 'char'):
            if d['k'] == 'adt':
                pass
            raise Unsupported('operation %s on %s' % (op, d['s']))
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return {'Eq': eq, 'Ne': ne, 'Lt': lt, 'Le': le, 'Gt': gt, 'Ge': ge}[op](x, y)
        if op in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked', 'Mul', 'MulUnchecked'):
            v = {'A': add, 'S': sub, 'M': self.nlmul}[op[0]](x, y)
            if op.endswith('Unchecked'):
                lo, hi = p.range(ty)
                self.prove(st, And(le(lo, v), le(v, hi)), 'no overflow in unchecked arithmetic', line)
                return v
            return self.wrap(v, ty)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            v = {'A': add, 'S': sub, 'M': self.nlmul}[op[0]](x, y)
            lo, hi = p.range(ty)
            return S([v, Or(lt(v, lo), gt(v, hi))])
        if op in ('Div', 'Rem'):
            if isinstance(x, int) and isinstance(y, int) and y != 0:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q if op == 'Div' else x - q * y
            if not p.signed(ty):
                if self.flat() and not isinstance(y, int):
                    q = self.spec.flat_div(self, st, x, y)
                    return q if op == 'Div' else sub(x, self.nlmul(q, y))
                if op == 'Rem' and not isinstance(y, int) and getattr(self.__dict__.get('con'), 'uf_rem', False):
                    return self.remainder(st, x, y)
                return I(x) / I(y) if op == 'Div' else I(x) % I(y)
            # truncating division
            xx, yy = I(x), I(y)
            q = z3.If(xx >= 0, xx / yy, -((-xx) / yy))
            return q if op == 'Div' else xx - q * yy
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            return self.bitop(st, op, x, y, ty)
        if op == 'Cmp':
            d_ = If(lt(x, y), 255, If(eq(x, y), 0, 1))
            return En(d_, {0: (), 1: (), 2: ()})
        raise Unsupported('operation ' + op)

    def remainder(self, st, x, y):
        """the remainder of a division by a variable: only its range matters"""
        r = z3.Function('REM', z3.IntSort(), z3.IntSort(), z3.IntSort())(I(x), I(y))
        st.pc.append(z3.Implies(I(y) > 0, z3.And(0 <= r, r < I(y))))
        return r

    def nlmul(self, x, y):
        if self.flat() and not isinstance(x, int) and not isinstance(y, int):
            return self.spec.flat_mul(self, x, y)
        return mul(x, y)

    def bitop(self, st, op, x, y, ty):
        if isinstance(x, int) and isinstance(y, int):
            lo, hi = self.p.range(ty)
            m = hi - lo
            if op == 'BitAnd':
                return x & y
            if op == 'BitOr':
                return x | y
            if op == 'BitXor':
                return x ^ y
            if op in ('Shl', 'ShlUnchecked'):
                return (x << y) & m
            return x >> y
        return self.spec.bitop(self, st, op, x, y, ty)

    def float_op(self, op, x, y):
        x = z3.RealVal(x) if isinstance(x, int) else x
        y = z3.RealVal(y) if isinstance(y, int) else y
        if op == 'Add':
            return x + y
        if op == 'Sub':
            return x - y
        if op == 'Mul':
            return x * y
        if op == 'Div':
            return x / y
        r = {'Eq': lambda: x == y, 'Ne': lambda: x != y, 'Lt': lambda: x < y, 'Le': lambda: x <= y, 'Gt': lambda: x > y, 'Ge': lambda: x >= y}.get(op)
        if r is None:
            raise Unsupported('float ' + op)
        return fold(z3.simplify(r()))

    def addr_op(self, st, op, x, y, ty, line):
        if isinstance(x, Addr) and isinstance(y, Addr):
            if op in ('Sub', 'SubWithOverflow', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                if op in ('Eq', 'Ne') and x.off == 0 and y.off == 0 and isinstance(x.off, int) and isinstance(y.off, int):
                    v = self.ptr_eq(st, x.ptr, y.ptr)
                    return v if op == 'Eq' else Not(v)
                same = And(eq(x.ptr.obj, y.ptr.obj))
                self.prove(st, same, 'addresses of the same block are subtracted or compared', line)
                sz = self.size_of(st, x.ptr.base)
                a = add(self.nlmul(x.ptr.idx, sz), x.off)
                b = add(self.nlmul(y.ptr.idx, sz), y.off)
                v = sub(a, b)
                if op == 'Sub':
                    return self.wrap(v, ty)
                if op == 'SubWithOverflow':
                    return S([v, lt(v, 0)])
                return {'Eq': eq, 'Ne': ne, 'Lt': lt, 'Le': le, 'Gt': gt, 'Ge': ge}[op](a, b)
            raise Unsupported('address arithmetic ' + op)
        a, n = (x, y) if isinstance(x, Addr) else (y, x)
        if op in ('Add', 'AddWithOverflow'):
            r = Addr(a.ptr, add(a.off, n))
            return S([r, False]) if op != 'Add' else r
        if op in ('Sub', 'SubWithOverflow') and isinstance(x, Addr):
            r = Addr(a.ptr, sub(a.off, n))
            return S([r, False]) if op != 'Sub' else r
        raise Unsupported('address arithmetic ' + op)

    def ptr_eq(self, st, x, y):
        if isinstance(x, Fat):
            x = x.ptr
        if isinstance(y, Fat):
            y = y.ptr
        if isinstance(x, LRef) and isinstance(y, LRef):
            return x.root == y.root and x.path == y.path
        if isinstance(x, LRef) or isinstance(y, LRef):
            q = y if isinstance(x, LRef) else x
            if isinstance(q, Ptr):
                return False
            raise Unsupported('comparison of %r and %r' % (x, y))
        if isinstance(x, It) or isinstance(y, It):
            raise Unsupported('comparison of %r and %r' % (x, y))
        if self.flat():
            return eq(x.obj, y.obj)
        px, py = self.cpath(x), self.cpath(y)
        if px != py:
            # different parts of a block, or null
            return And(eq(x.obj, 0), eq(y.obj, 0))
        return And(eq(x.obj, y.obj), eq(x.idx, y.idx))

    def cpath(self, q):
        path = list(q.path)
        while path and path[-1] == 0:
            path.pop()
        return tuple(path)

    def rvalue(self, st, fr, r, line, destty):
        p = self.p
        k = r['r']
        if k == 'use':
            v = self.operand(st, fr, r['x'])
            return v
        if k in ('ref', 'rawptr'):
            loc, ty = self.place(st, fr, r['p'])
            return self.ref_to(st, loc, ty)
        if k == 'cast':
            return self.cast(st, self.operand(st, fr, r['x']), r['c'], r['from'], r['ty'], line)
        if k == 'bin':
            x, y = self.operand(st, fr, r['x']), self.operand(st, fr, r['y'])
            return self.binop(st, r['op'], x, y, r['ty'], line)
        if k == 'un':
            x = self.operand(st, fr, r['x'])
            if r['op'] == 'Not':
                if p.k(r['ty']) == 'bool':
                    return Not(x)
                lo, hi = p.range(r['ty'])
                if lo == 0:
                    return sub(hi, x)
                return sub(-1, x)
            if r['op'] == 'Neg':
                if p.k(r['ty']) == 'float':
                    return -x
                return self.wrap(sub(0, x), r['ty'])
            if r['op'] == 'PtrMetadata':
                if isinstance(x, Fat):
                    return x.len
                raise Unsupported('metadata of %r' % (x,))
            raise Unsupported('unary ' + r['op'])
        if k == 'discr':
            loc, ty = self.place(st, fr, r['p'])
            v = self.load(st, loc, ty)
            if isinstance(v, En):
                return v.d
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'agg':
            xs = [self.operand(st, fr, x) for x in r['xs']]
            return self.aggregate(st, r['ty'], r['kind'], r['v'], xs, r.get('ufield'))
        if k == 'repeat':
            n = self.arrlen(r['ty'])
            x = self.operand(st, fr, r['x'])
            et = p.strip(p.types[r['ty']]['to'])
            if isinstance(n, int) and n <= 16:
                o = self.alloc(st, et, n, 'arr', box=True)
                self.stack_objs.append(o)
                for i in range(n):
                    self.write_leafs(st, o, i, et, (), et, x)
                return Box_(o, et, n)
            if x is UNINIT:
                self.array_facts(st, r['ty'])
                o = self.alloc(st, et, n, 'uninit', box=True)
                self.stack_objs.append(o)
                return Box_(o, et, n)
            raise Unsupported('array repeat')
        raise Unsupported('rvalue ' + str(r)[:120])

    def aggregate(self, st, ty, kind, v, xs, ufield=None):
        p = self.p
        d = p.types[ty]
        if kind in ('tuple', 'closure'):
            return S(xs)
        if kind == 'adt':
            if d['n'] in self.p_transparent():
                x = xs[0]
                return UNINIT if isinstance(x, S) and not x.f and ufield == 0 else x
            if d['kind'] == 'enum':
                return En(d['variants'][v]['discr'], {v: tuple(xs)})
            if d['kind'] == 'union':
                raise Unsupported('union ' + d['s'])
            if d['n'] in BOXED:
                o = self.alloc(st, ty, 1, 'box', box=True)
                self.stack_objs.append(o)
                for j, (fn, ft) in enumerate(d['variants'][0]['fields']):
                    self.write_leafs(st, o, 0, ty, (j,), ft, xs[j])
                return Box_(o, ty)
            r = self.spec.aggregate(self, st, ty, xs)
            return S(xs) if r is None else r
        if kind == 'array':
            et = p.strip(d['to'])
            o = self.alloc(st, et, len(xs), 'arr', box=True)
            self.stack_objs.append(o)
            for i, x in enumerate(xs):
                self.write_leafs(st, o, i, et, (), et, x)
            return Box_(o, et, len(xs))
        if kind == 'rawptr':
            if len(xs) == 2 and p.is_fat(p.pointee(ty)):
                return Fat(xs[0], xs[1])
            return xs[0]
        raise Unsupported('aggregate ' + kind)

    def cast(self, st, v, c, fr, to, line):
        p = self.p
        td, fd = p.types[to], p.types[fr]
        if td['k'] in ('ptr', 'ref'):
            if isinstance(v, (LRef, Fat, It)):
                if c.startswith('PointerCoercion(Unsize') and isinstance(v, LRef):
                    w = self.load(st, self.loc_of(v), None)
                    if isinstance(w, Box_):
                        return Fat(Ptr(w.obj, 0, w.base), w.len)
                    raise Unsupported('unsize of %r' % (w,))
                if isinstance(v, Fat) and not p.is_fat(td['to']):
                    return self.retype(v.ptr, td['to'])
                if isinstance(v, LRef):
                    # a reference to a boxed value
                    w = st.store.get(v.root)
                    if w is not None:
                        w = self.get_in(st, w, v.path)
                        if isinstance(w, Box_):
                            return self.retype(Ptr(w.obj, 0, w.base), td['to'])
                    return self.spec.cast_lref(self, st, v, fr, to) or v
                return v
            if isinstance(v, Ptr):
                if c.startswith('PointerCoercion(Unsize'):
                    ft = p.pointee(fr)
                    if p.k(ft) == 'array':
                        return Fat(Ptr(v.obj, v.idx, p.strip(p.types[ft]['to'])), self.arrlen(ft))
                    raise Unsupported('unsize ' + p.s(fr))
                return self.retype(v, td['to'])
            if isinstance(v, Addr):
                return self.addr_to_ptr(st, v, td['to'], line)
            if isinstance(v, int):
                if v == 0:
                    return Ptr(0, 0, p.strip(td['to']))
                return Ptr(self.spec.intptr(v), 0, p.strip(td['to']))
            if fd['k'] == 'int':
                r = self.spec.int_to_ptr(self, st, v, td['to'])
                if r is not None:
                    return r
            if isinstance(v, FnV):
                return v
            raise Unsupported('cast of %r to %s' % (v, td['s']))
        if fd['k'] in ('ptr', 'ref') and td['k'] == 'int':
            if isinstance(v, Ptr):
                r = self.spec.ptr_to_int(self, st, v)
                return r if r is not None else Addr(v, 0)
            raise Unsupported('address of %r' % (v,))
        if isinstance(v, Addr):
            return v
        if td['k'] in ('int', 'char') and fd['k'] in ('int', 'char'):
            lo, hi = p.range(to)
            flo, fhi = p.range(fr)
            if flo >= lo and fhi <= hi:
                return v
            return self.wrap(v, to)
        if td['k'] in ('int', 'char') and fd['k'] == 'bool':
            return If(v, 1, 0)
        if td['k'] == 'float' and fd['k'] == 'int':
            return z3.ToReal(I(v))
        if td['k'] == 'float' and fd['k'] == 'float':
            return v
        if td['k'] == 'int' and fd['k'] == 'float':
            # `as` saturates
            lo, hi = p.range(to)
            t = z3.ToInt(v)          # floor
            t = z3.If(z3.Or(v >= 0, z3.ToReal(t) == v), t, t + 1)
            return z3.If(t < lo, z3.IntVal(lo), z3.If(t > hi, z3.IntVal(hi), t))
        if fd['k'] == 'adt' and fd['kind'] == 'enum' and isinstance(v, En):
            return v.d
        if c.startswith('Transmute') or td['k'] == fd['k']:
            if c.startswith('PointerCoercion'):
                return v
            if p.strip(fr) == p.strip(to):
                return v
            if isinstance(v, Ptr):
                return v
        raise Unsupported('cast %s from %s to %s' % (c, fd['s'], td['s']))

    def retype(self, q, to):
        p = self.p
        if isinstance(q, LRef):
            return q
        to = p.strip(to)
        if p.k(to) == 'array':
            to = p.strip(p.types[to]['to'])
        if p.is_fat(to):
            return q
        return self.cast_ptr(q, to)

    def addr_to_ptr(self, st, a, to, line):
        p = self.p
        q = a.ptr
        to = p.strip(to)
        if isinstance(a.off, int) and a.off == 0:
            return self.cast_ptr(q, to)
        sz = self.size_of(st, to)
        n = fresh_int('elems')
        cur = self.typ_of(q)
        if cur is not None and p.strip(cur) != to and not self.opaque(cur):
            raise Unsupported('address arithmetic across types')
        # the byte offset must be a whole number of elements
        k = self.divide_exact(st, a.off, sz)
        if k is None:
            self.prove(st, exists(lambda e: eq(I(a.off), mul(e, sz))), 'address is that of an element', line)
            self.assume(st, eq(I(a.off), mul(n, sz)))
            k = n
        return Ptr(q.obj, add(q.idx, k), to)

    def divide_exact(self, st, off, sz):
        if isinstance(off, int) and isinstance(sz, int):
            return off // sz if off % sz == 0 else None
        if isinstance(sz, int):
            return None
        e = z3.simplify(I(off))
        # n * SZ, possibly wrapped in the machine-range conditional
        for cand in (off, e):
            if z3.is_mul(cand) and cand.num_args() == 2:
                if cand.arg(1).eq(sz):
                    return fold(cand.arg(0))
                if cand.arg(0).eq(sz):
                    return fold(cand.arg(1))
        # (a*SZ) - (b*SZ) and the like: polynomial in SZ
        try:
            q = z3.simplify(z3.substitute(I(off), (sz, z3.IntVal(1))))
            s = z3.Solver()
            s.set('timeout', 2000)
            for f in st.pc:
                if not has_quant(f):
                    s.add(f)
            s.add(I(off) != q * sz)
            if s.check() == z3.unsat:
                return fold(q)
        except z3.Z3Exception:
            pass
        return None

    # ------------------------------------------------------------------ running
    def new_uid(self):
        self.uid += 1
        return self.uid

    def push(self, st, fn, args, dest=None, ret_to=None, post=None):
        """Start running fn with the given argument values in st."""
        if fn['body'] is None:
            raise Unsupported('no body for ' + fn['path'])
        if len(st.frames) > 40:
            raise Unsupported('inlining too deep')
        if sum(1 for f in st.frames if f.fn is fn) >= 2:
            raise Unsupported('recursion without a contract: ' + fn['key'])
        uid = self.new_uid()
        fr = Frame(uid, fn, dest, ret_to, post)
        for i, a in enumerate(args):
            st.store[(uid, i + 1)] = self.settle(st, UNINIT, a) if self.has_box(a) else a
        st.frames.append(fr)
        if fn.get('krate'):
            self.inlined.add(fn['key'] if fn['krate'] == 'eastl_rs' else fn['krate'] + ': ' + fn['path'])
        return uid

    def run(self, st0, on_return):
        """Explore every path from st0 until the frame stack is as at the start; call on_return(st, value)."""
        work = [st0]
        while work:
            st = work.pop()
            try:
                while True:
                    self.steps += 1
                    if self.t_end and time.time() > self.t_end:
                        raise Unsupported('out of time')
                    if self.steps > MAXSTEPS:
                        raise Unsupported('too many steps')
                    nxt = self.step(st, on_return)
                    if nxt is None:
                        break
                    if nxt is st:
                        continue
                    # a fork
                    if not nxt:
                        break
                    st = nxt[0]
                    work.extend(nxt[1:])
            except Diverge:
                continue

    def step(self, st, on_return):
        """Run one basic block. -> st (go on), None (path ended), or a list of states."""
        fr = st.frames[-1]
        h = self.enter_block(st, fr)
        if h is not None:
            return h if h != 'stop' else None
        blk = fr.fn['body'][fr.block]
        for line, s in blk['s']:
            self.curline = line
            self.stmt(st, fr, s, line)
        return self.term(st, fr, blk['t'], blk['line'], on_return)

    def goto(self, st, b):
        st.frames[-1].block = b
        return st

    def stmt(self, st, fr, s, line):
        k = s['s']
        if k == 'assign':
            loc, ty = self.place_w(st, fr, s['p'])
            v = self.rvalue(st, fr, s['r'], line, ty)
            self.store(st, loc, ty, v, line)
        elif k == 'assume':
            pass
        elif k == 'setdiscr':
            raise Unsupported('set discriminant')
        else:
            raise Unsupported('statement ' + str(s)[:100])

    def place_w(self, st, fr, pl):
        return self.place(st, fr, pl)

    def term(self, st, fr, t, line, on_return):
        k = t['k']
        if k == 'goto':
            return self.goto(st, t['to'])
        if k == 'return':
            return self.do_return(st, fr, on_return)
        if k == 'switch':
            return self.switch(st, fr, t)
        if k == 'assert':
            return self.do_assert(st, fr, t, line)
        if k == 'call':
            return self.do_call(st, fr, t, line)
        if k == 'drop':
            return self.do_drop(st, fr, t, line)
        if k == 'unreachable':
            # reachable only by undefined behaviour or an impossible enum value
            if not self.discover and self.feasible(st):
                self.prove(st, False, 'unreachable code is not reached', line)
            return None
        if k == 'cleanup':
            return None
        raise Unsupported('terminator ' + str(t)[:100])

    def do_return(self, st, fr, on_return):
        v = st.store.get((fr.uid, 0), UNINIT)
        if v is UNINIT:
            rty = fr.fn['locals'][0][0]
            if self.p.k(rty) == 'tuple' and not self.p.types[rty]['elems']:
                v = S([])
        st.frames.pop()
        st.loops = tuple(l for l in st.loops if l[0] != fr.uid)
        if fr.dest is None and fr.post is None:
            on_return(st, v)
            return None
        if fr.post is not None:
            v = fr.post(st, v)
            if v is DIVERGE:
                return None
        if fr.dest is not None:
            loc, ty = fr.dest
            self.store(st, loc, ty, v)
        # free the callee's locals
        u = fr.uid
        for k2 in [k2 for k2 in st.store if k2[0] == u]:
            if not self.keep_root(st, k2):
                del st.store[k2]
        if fr.ret_to is None:
            return None
        if fr.ret_to == 'same':
            return st
        return self.goto(st, fr.ret_to)

    def keep_root(self, st, root):
        return True

    def switch(self, st, fr, t):
        x = self.operand(st, fr, t['x'])
        isb = self.p.k(t['ty']) == 'bool'
        outs = []
        rest = []
        for val, b in t['cases']:
            val = int(val)
            if isb:
                c = Not(x) if val == 0 else x
            else:
                if self.p.signed(t['ty']) and val >= 1 << (self.p.bits(t['ty']) - 1):
                    val -= 1 << self.p.bits(t['ty'])
                c = eq(x, val)
            outs.append((c, b))
            rest.append(Not(c))
        outs.append((And(rest), t['otherwise']))
        live = [(c, b) for c, b in outs if c is not False]
        for c, b in live:
            if c is True:
                return self.goto(st, b)
        res = []
        for c, b in live:
            if not self.feasible(st, c):
                continue
            s2 = st.copy()
            self.assume(s2, c)
            s2.path = st.path + ((fr.fn['key'].rsplit('::', 1)[-1], fr.block, b),)
            self.goto(s2, b)
            self.refine_enum(s2, fr, t, c, b)
            res.append(s2)
        return res

    def refine_enum(self, st, fr, t, c, b):
        pass

    def do_assert(self, st, fr, t, line):
        x = self.operand(st, fr, t['x'])
        c = x if t['exp'] else Not(x)
        self.panic_check(st, Not(c), 'no panic: ' + t['msg'], line)
        self.assume(st, c)
        if c is False:
            return None
        return self.goto(st, t['to'])

    def panic_check(self, st, cond, name, line):
        """cond = the panic happens. Allowed only where the contract allows it."""
        if self.discover:
            return
        if cond is False:
            self.record(name, line, 'proved', 'folding', 0.0, 'panic')
            return
        ok = self.panic_ok(st)
        self.prove(st, Or(Not(cond), ok), name, line, 'panic')

    def panic_ok(self, st):
        return self.cur_panic(st) if getattr(self, 'cur_panic', None) else False

    # ------------------------------------------------------------------ drop
    def do_drop(self, st, fr, t, line):
        loc, ty = self.place(st, fr, t['p'])
        res = self.drop_place(st, loc, ty, line, t.get('dropfn') if t.get('needs') else None, t['to'])
        if res is None:
            return self.goto(st, t['to'])
        return res

    def find_drop(self, ty):
        d = self.p.types[ty]
        if d['k'] != 'adt':
            return None
        key = '<%s as Drop>::drop' % d['n']
        if key not in self.p.bykey:
            return None
        f = self.p.find_instance(key, d['args']) or self.p.find_instance(key)
        return f

    def drop_items(self, st, loc, ty):
        """[(loc, ty, fn or None)] in drop order: user Drop impls and parameter-typed parts"""
        p = self.p
        while p.is_adt(ty, 'core::pin::Pin'):
            ty = p.types[ty]['args'][0]
        ty = p.strip(ty) if not (p.k(ty) == 'adt' and p.types[ty]['n'] in self.p_transparent()) else None
        if ty is None:
            return []
        d = p.types[ty]
        k = d['k']
        out = []
        if p.is_adt(ty, MOVEREF):
            v = self.load(st, loc, ty)
            if v is UNINIT:
                return []
            self.trusted.add('dropping a MoveRef drops the value it refers to')
            return self.drop_items(st, self.loc_of(v), d['args'][-1])
        if k == 'param':
            return [(loc, ty, None)]
        if k in ('tuple', 'closure'):
            if loc.kind == 'L' and st.store.get(loc.a, UNINIT) is UNINIT:
                return []
            for i, e in enumerate(d['elems']):
                out += self.drop_items(st, self.sub_loc(st, loc, i), e)
            return out
        if k == 'adt':
            if d['n'] == 'core::marker::PhantomData':
                return []
            if loc.kind == 'L':
                v = self.load(st, loc, ty)
                if isinstance(v, It):
                    return [(loc, ty, None)] if v.kind == 'arriter' else []
                if v is UNINIT:
                    return []
            f = self.find_drop(ty)
            if f is not None:
                out.append((loc, ty, f))
            if d['kind'] == 'struct':
                for i, (fn, ft) in enumerate(d['variants'][0]['fields']):
                    out += self.drop_items(st, self.sub_loc(st, loc, i), ft)
            elif d['kind'] == 'enum':
                if loc.kind != 'L':
                    raise Unsupported('drop of enum in memory')
                v = self.load(st, loc, ty)
                for vi, fs in v.vs.items():
                    for i, (fn, ft) in enumerate(d['variants'][vi]['fields']):
                        sub_items = self.drop_items(st, Loc('L', loc.a, loc.b + (('v', vi), i)), ft)
                        for l2, t2, f2 in sub_items:
                            if f2 is not None and len(v.vs) > 1 and not eq(v.d, d['variants'][vi]['discr']) is True:
                                raise Unsupported('drop of an enum that may own something')
                        out += sub_items
            return out
        if k == 'array':
            e = p.types[d['to']]
            return [] if e['k'] == 'adt' and e['n'] in self.p_transparent() else [(loc, ty, None)]
        return []

    def sub_loc(self, st, loc, i):
        if loc.kind == 'L':
            v = self.get_in(st, st.store.get(loc.a, UNINIT), loc.b) if loc.a in st.store else UNINIT
            if isinstance(v, Box_):
                return Loc('H', Ptr(v.obj, 0, v.base, (i,)))
            return Loc('L', loc.a, loc.b + (i,))
        q = loc.a
        return Loc('H', Ptr(q.obj, q.idx, q.base, tuple(q.path) + (i,)))

    def drop_place(self, st, loc, ty, line, dropfn, to):
        items = self.drop_items(st, loc, ty)
        calls = []
        for l2, t2, f in items:
            if f is not None:
                calls.append((l2, t2, f))
            elif l2.kind == 'H':
                self.check_access(st, l2.a, line, 'drop')
                self.take_init(st, l2.a, t2, line, 'a value is dropped only if it is there')
            elif self.p.k(t2) == 'array':
                self.drop_array(st, l2, t2, line)
            elif self.p.k(t2) == 'adt':
                v = self.load(st, l2, t2)
                self.drop_range(st, v.box.obj, v.box.base, v.lo, v.hi, line)
        if not calls:
            return None
        if len(calls) > 1:
            raise Unsupported('drop with several Drop impls')
        l2, t2, f = calls[0]
        ref = self.ref_to(st, l2, t2)
        return self.invoke(st, f, [ref], None, to, line)

    def drop_array(self, st, loc, ty, line):
        v = self.load(st, loc, ty)
        if not isinstance(v, Box_):
            return
        self.drop_range(st, v.obj, v.base, 0, v.len, line)

    def drop_range(self, st, o, base, lo, hi, line):
        """every element in lo..hi of a block is dropped"""
        for key in self.init_keys(base):
            h = self.heap(st, key, 'bool')
            self.prove(st, forall(lambda k: Imp(And(le(lo, k), lt(k, hi)), h.read(o, k))), 'every dropped element is there', line, 'ownership')
            self.hobj(st, key, o, lambda i: If(And(le(lo, i), lt(i, hi)), False, h.read(o, i)), 'bool')

    # ------------------------------------------------------------------ calls
    def do_call(self, st, fr, t, line):
        args = [self.operand(st, fr, a) for a in t['args']]
        loc, dty = self.place(st, fr, t['dest'])
        if 'f' not in t:
            raise Unsupported('indirect call')
        c = Call()
        c.f = t['f']
        c.path = t['f']['path']
        c.key = t['f']['key']
        c.args, c.argtys = args, t['argtys']
        c.destty, c.targs, c.line = dty, t['f']['args'], line
        c.dest, c.to = (loc, dty), t['to']
        fid = t['f'].get('fn')
        c.fnrec = self.p.fns[fid] if fid is not None else None
        c.provided = None
        if t['f'].get('provided_on_param'):
            # an implementor may override it; core's iterator methods are assumed to do what they document
            if (t['f'].get('trait') or '').startswith('core::iter::'):
                c.provided = c.fnrec
            c.fnrec = None
        return self.dispatch(st, c)

    def dispatch(self, st, c):
        self.trusted_note = None
        # 1. a contract
        if c.fnrec is not None:
            con = self.spec.contract(c.fnrec['key'])
            if con is not None and not con.inline and c.fnrec['key'] not in self.nocontract:
                return self.apply_contract(st, con, c)
        # 2. a model of a library or trait function
        m = self.spec.model(c)
        if m is not None:
            r = m(self, st, c)
            if r is not NOMODEL:
                self.modelled.add(c.path)
                return self.finish(st, c, r)
        # 3. its own MIR
        if c.fnrec is not None and c.fnrec['body'] is not None:
            args = self.untuple(c.fnrec, c.args)
            self.push(st, c.fnrec, args, c.dest, c.to)
            return st
        f = getattr(c, 'provided', None)
        if f is not None and f['body'] is not None:
            self.modelled.add(c.path)
            self.push(st, f, self.untuple(f, c.args), c.dest, c.to)
            return st
        raise Unsupported('call of ' + c.path + ' on ' + ', '.join(self.p.s(t)[:80] for t in c.argtys) + ' (' + (c.fnrec['key'] if c.fnrec else 'unresolved') + ')')

    def untuple(self, fn, args):
        return args

    def finish(self, st, c, r):
        if r is DIVERGE:
            return None
        if isinstance(r, Push):
            self.push(st, r.fn, r.args, c.dest, c.to, r.post)
            return st
        if isinstance(r, Multi):
            out = []
            for s2, v in r.alts:
                if v is DIVERGE:
                    continue
                if isinstance(v, Push):
                    self.push(s2, v.fn, v.args, c.dest, c.to, v.post)
                    out.append(s2)
                    continue
                self.store(s2, c.dest[0], c.dest[1], v, c.line)
                if c.to is None:
                    continue
                out.append(self.goto(s2, c.to))
            return out
        if isinstance(r, list):      # already stepped states
            return r
        self.store(st, c.dest[0], c.dest[1], r, c.line)
        if c.to is None:
            return None
        return self.goto(st, c.to)

    def fork(self, st, cond):
        """-> (state where cond, state where not cond); either may be None"""
        if cond is True:
            return st, None
        if cond is False:
            return None, st
        a = b = None
        if self.feasible(st, cond):
            a = st.copy()
            self.assume(a, cond)
            a.path = st.path + ('+',)
        if self.feasible(st, Not(cond)):
            b = st.copy()
            self.assume(b, Not(cond))
            b.path = st.path + ('-',)
        return a, b

    def invoke(self, st, fn, args, dest, to, line):
        """call of a known function (drop glue, closures)"""
        con = self.spec.contract(fn['key'])
        if con is not None and not con.inline and fn['key'] not in self.nocontract:
            c = Call()
            c.f = {'path': fn['path'], 'key': fn['key'], 'args': fn['args']}
            c.path, c.key, c.args = fn['path'], fn['key'], args
            c.argtys = [fn['locals'][i + 1][0] for i in range(fn['argc'])]
            c.destty = fn['locals'][0][0]
            c.targs, c.line, c.fnrec = fn['args'], line, fn
            c.dest = dest or (Loc('L', (st.frames[-1].uid, 'sink'), ()), c.destty)
            c.to = to
            return self.apply_contract(st, con, c)
        self.push(st, fn, args, dest or (Loc('L', (st.frames[-1].uid, 'sink'), ()), fn['locals'][0][0]), to)
        return st

    def flat(self):
        """are pointers plain addresses in the function under proof? then every place that is read or written is a block of its own"""
        return getattr(self.__dict__.get('con'), 'flat', False)

    def raw_pc(self):
        return getattr(self.__dict__.get('con'), 'raw_pc', False)

    def entails(self, st, g, timeout=2000):
        """a quick check that a quantifier-free fact follows from the quantifier-free path condition"""
        if isinstance(g, bool):
            return g
        s = z3.Solver()
        s.set('timeout', timeout)
        for f in st.pc:
            if not has_quant(f):
                s.add(f)
        s.add(z3.Not(g))
        t = time.time()
        r = s.check() == z3.unsat
        self.solver_time += time.time() - t
        return r

    def call_closure(self, st, f, fv, fty, args, c):
        """a call through Fn* of a closure whose body is known: run the body on its environment"""
        d = self.p.types[fty]
        fn = self.p.find_instance(d['n'], d['args']) or self.p.find_instance(d['n'])
        if fn is None:
            raise Unsupported('no body for the closure ' + d['n'])
        env = fv
        if self.p.k(fn['locals'][1][0]) == 'ref':
            if isinstance(f, (LRef, Ptr)):
                env = f
            else:
                root = ('env', self.new_uid())
                st.store[root] = fv
                env = LRef(root)
        xs = list(args.f) if isinstance(args, S) else [args]
        return Push(fn, [env] + xs)

    def call_fndef(self, st, d, args, c):
        xs = list(args.f) if isinstance(args, S) else [args]
        c2 = Call()
        fn = None
        for f in self.p.bykey.get(d['n'], []):
            if f['args'] == d['args'] and f['body'] is not None:
                fn = f
        c2.f = {'path': d['n'], 'key': d['n'], 'args': d['args']}
        c2.path = c2.key = d['n']
        c2.args = xs
        c2.fnrec = fn
        c2.destty, c2.targs, c2.line, c2.dest, c2.to = c.destty, d['args'], c.line, c.dest, c.to
        if fn is not None:
            c2.path = fn['path']
            c2.argtys = [fn['locals'][i + 1][0] for i in range(fn['argc'])]
        else:
            c2.argtys = [None] * len(xs)
        r = self.dispatch(st, c2)
        return [] if r is None else r if isinstance(r, list) else [r]

    # ------------------------------------------------------------------ contracts at call sites
    def limited(self, v, ty):
        """Take over a caller's iterator is such an iterator"""
        if isinstance(v, S) and self.p.types[self.p.strip(ty)].get('n') == 'core::iter::adapters::take::Take':
            it = self.limited(v.f[0], self.p.fields(self.p.strip(ty))[0])
            if isinstance(it, It) and it.kind == 'param':
                return it.but(n=If(lt(add(it.pos, v.f[1]), it.n), add(it.pos, v.f[1]), it.n))
        return v

    def apply_contract(self, st, con, c):
        from .contracts import Ctx
        self.used_contracts.add(con.key)
        c.args = [self.limited(a, t) for a, t in zip(c.args, c.argtys)]
        old = st.copy()
        cx = Ctx(self, con, old, st, c.args, c.argtys, c.destty, c.targs, caller=True)
        pres = con.requires(cx)
        for name, g in pres:
            self.prove(st, g, '%s: precondition %s' % (short(con.key), name), c.line, 'pre')
        pk = con.may_panic(cx)
        if pk is not False:
            self.panic_check(st, pk, 'no panic in ' + short(con.key), c.line)
            if pk is not True:
                self.assume(st, Not(pk))       # it returned
        cx.old = st.copy()
        cx.havoc(st)
        outs = con.results(cx)       # normally one; may fork into cases with a more precise value shape
        res = []
        if not con.pure and outs:
            pf = con.post_footprint(cx.with_state(outs[0][0].copy(), outs[0][1]))
            pre = con.footprint(cx)
            cx.later.append(pf)
            for s2, v in outs:
                for g in pf.each(lambda o: Or(pre(o), Not(self.alive(cx.old, o)))):
                    self.assume(s2, g)
        for s2, v in outs:
            cx2 = cx.with_state(s2, v)
            for name, g in con.ensures(cx2):
                self.assume(s2, g)
            con.after(cx2)
            for name, g in con.axioms(cx2):
                self.assume(s2, g)
            if len(outs) > 1 and not self.feasible(s2):
                continue
            self.store(s2, c.dest[0], c.dest[1], cx2.res, c.line)
            if c.to is not None:
                res.append(self.goto(s2, c.to))
        if len(res) == 1 and res[0] is st:
            return st
        return res

    # ------------------------------------------------------------------ loops
    def enter_block(self, st, fr):
        """Loop bookkeeping at block entry. None: just run the block."""
        loops = self.p.loops(fr.fn)
        b = fr.block
        # leaving loops
        if st.loops and st.loops[-1][0] == fr.uid:
            keep = []
            for l in st.loops:
                if l[0] == fr.uid and b not in l[2]:
                    continue
                keep.append(l)
            if len(keep) != len(st.loops):
                gone = [l for l in st.loops if l not in keep]
                st.loops = tuple(keep)
                for l in gone:
                    if l[4] is not None and self.discover and l[4].get('stop_on_exit'):
                        return 'stop'
        if b not in loops:
            return None
        for l in st.loops:
            if l[0] == fr.uid and l[1] == b:
                return self.back_edge(st, fr, l)
        return self.loop_entry(st, fr, b, loops[b])

    def back_edge(self, st, fr, l):
        info = l[4]
        if info.get('fresh'):        # just havoced: run the body
            info2 = dict(info)
            info2['fresh'] = False
            st.loops = tuple((x[0], x[1], x[2], x[3], info2) if x is l else x for x in st.loops)
            return None
        if info['mode'] == 'unroll':
            n = info['n'] + 1
            if n > info['max']:
                raise Unsupported('loop without an invariant exceeds %d iterations in %s' % (info['max'], fr.fn['key']))
            i2 = dict(info)
            i2['n'] = n
            st.loops = tuple((x[0], x[1], x[2], x[3], i2) if x is l else x for x in st.loops)
            return None
        if info['mode'] == 'discover':
            if info.get('lc') is not None:
                self.con.loop_ghost(info['lc'].at(st), info['lc'].at(info['head']))
            info['logs'].append((list(st.log), st))
            return 'stop'
        lc = info['lc'].at(st)
        self.con.loop_ghost(lc, info['lc'].at(info['head']))
        for name, g in info['inv'](lc):
            self.prove(st, g, 'loop invariant kept: ' + name, info['line'], 'invariant')
        var = info.get('variant')
        if var is not None:
            pass
        return 'stop'

    def loop_entry(self, st, fr, b, blocks):
        from .contracts import LoopCtx
        line = fr.fn['body'][b]['line']
        chain = tuple(f.fn['key'] for f in st.frames)
        lk = (chain, b)
        if lk not in self.loop_ord:
            self.loop_ord[lk] = len(self.loop_ord)
        lc = LoopCtx(self, st.copy(), st, fr.fn, self.loop_ord[lk], chain, blocks)
        inv = self.spec.loop_invariant(self, lc)
        if inv is None:
            mx = self.spec.unroll(self, lc)
            st.loops = st.loops + ((fr.uid, b, blocks, None, {'mode': 'unroll', 'n': 0, 'max': mx, 'line': line}),)
            return None
        # 1. what does the loop change?
        self.con.loop_ghost(lc, None)
        base_ser = serial()
        mod = self.discover_mods(st, fr, b, blocks, base_ser, lc)
        # 2. the invariant holds on entry
        lc.mod = mod
        inv = self.spec.loop_invariant(self, lc)       # now that it is known what moves
        for name, g in inv(lc.at(st)):
            self.prove(st, g, 'loop invariant on entry: ' + name, line, 'invariant')
        # 3. an arbitrary iteration
        outs = []
        for s2 in self.havoc_loop(st, mod):
            lc2 = lc.at(s2)
            lc2.assuming = True
            for name, g in inv(lc2):
                self.assume(s2, g)
            if not self.discover and not self.feasible(s2):
                continue
            s2.loops = s2.loops + ((fr.uid, b, blocks, None,
                                    {'mode': 'inv', 'inv': inv, 'lc': lc, 'line': line, 'fresh': True, 'head': s2.copy()}),)
            s2.path = s2.path + ('loop',)
            outs.append(s2)
        return outs

    def discover_mods(self, st, fr, b, blocks, base_ser, lc=None):
        """Run the body without proving anything until the set of changed places is stable."""
        locs, heaps, moved = {}, {}, {}
        for rnd in range(10):
            before = (len(locs), sum(len(v) if v is not None else 1000 for v in heaps.values()) + len(heaps),
                      sum(len(v) for v in moved.values()))
            for s2 in self.havoc_loop(st, (locs, heaps, moved)):
                start = {k: self.get_in(s2, s2.store[k[0]], k[1]) for k in locs if s2.store.get(k[0], UNINIT) is not UNINIT}
                info = {'mode': 'discover', 'logs': [], 'fresh': True, 'line': 0, 'stop_on_exit': True, 'head': s2.copy(), 'lc': None}
                if lc is not None:
                    info['lc'] = lc.at(s2)
                    info['lc'].mod = (dict(locs), heaps, moved)
                s2.log = []
                s2.loops = ((fr.uid, b, blocks, None, info),)
                depth = len(s2.frames)
                self.discover += 1
                alllogs = info['logs']
                try:
                    self.run_discover(s2, alllogs, depth, fr.uid, blocks)
                finally:
                    self.discover -= 1
                for log, fin in alllogs:
                    for k, v in start.items():
                        if isinstance(v, It) and fin.store.get(k[0], UNINIT) is not UNINIT:
                            w = self.get_in(fin, fin.store[k[0]], k[1])
                            if isinstance(w, It) and w.kind == v.kind:
                                ch = moved.setdefault(k, set())
                                for x in v.f:
                                    if w.f.get(x) is not v.f[x] and not (not isinstance(v.f[x], (Ptr, Box_, S, En, It, type(None))) and eq(w.f[x], v.f[x]) is True):
                                        ch.add(x)
                    for e in log:
                        if e[0] == 'L':
                            root, path, ty = e[1], e[2], e[3]
                            if root not in st.store:
                                continue
                            self.add_loc(locs, root, path, ty)
                        elif e[0] == 'E':
                            heaps['#epoch'] = None
                        else:
                            key, o = e[1], e[2]
                            if o is None:
                                heaps[key] = None
                            elif max_serial(o) >= base_ser and o.get_id() not in self.fresh_ids:
                                heaps[key] = None
                            elif heaps.get(key, ()) is not None:
                                s = heaps.setdefault(key, [])
                                if max_serial(o) >= base_ser:
                                    o = 'fresh'
                                if not any(x is o or (not isinstance(x, str) and not isinstance(o, str) and eq(x, o) is True) for x in s):
                                    s.append(o)
            after = (len(locs), sum(len(v) if v is not None else 1000 for v in heaps.values()) + len(heaps),
                     sum(len(v) for v in moved.values()))
            if before == after:
                break
        else:
            raise Unsupported('loop effects do not stabilise')
        return (locs, heaps, moved)

    def run_discover(self, s0, logs, depth, uid, blocks):
        work = [s0]
        n = 0
        while work:
            st = work.pop()
            try:
                while True:
                    n += 1
                    if n > 4000:
                        raise Unsupported('loop body too large')
                    self.steps += 1
                    if len(st.frames) < depth:
                        logs.append((list(st.log), st))
                        break
                    nxt = self.step(st, lambda s, v: None)
                    if nxt is None:
                        logs.append((list(st.log), st))
                        break
                    if nxt is st:
                        continue
                    if not nxt:
                        break
                    st = nxt[0]
                    work.extend(nxt[1:])
            except Diverge:
                logs.append((list(st.log), st))
                continue

    def add_loc(self, locs, root, path, ty):
        for (r, p2) in list(locs):
            if r == root and path[:len(p2)] == p2:
                return
            if r == root and p2[:len(path)] == path:
                del locs[(r, p2)]
        locs[(root, path)] = ty

    def havoc_loop(self, st, mod):
        locs, heaps, moved = mod
        outs = [st.copy()]
        for s in outs:
            old = s.copy()
            for key, objs in heaps.items():
                if key == '#epoch':
                    continue
                sort = self.heap_sort(key)
                nb = base_heap(key, sort)
                h = self.heap(s, key, sort)
                fp0 = self.__dict__.get('fp0')
                if objs is None:
                    if fp0 is None:
                        s.heaps[key] = nb
                    else:
                        # the frame of the whole function holds at every write
                        s.heaps[key] = Heap(key, h, 'fun', (lambda nb: lambda prev, o, i: If(
                            Or(fp0(o), Not(self.alive(self.entry, o))), nb.read(o, i), prev(o, i)))(nb))
                    s.log.append(('H', key, None))
                else:
                    if any(isinstance(x, str) for x in objs):
                        s.heaps[key] = Heap(key, h, 'fun', (lambda nb: lambda prev, o, i: If(
                            And(Not(self.alive(old, o)), ne(o, 0)), nb.read(o, i), prev(o, i)))(nb))
                        s.log.append(('H', key, None))
                    for o in objs:
                        if isinstance(o, str):
                            continue
                        s.heaps[key] = Heap(key, s.heaps[key], 'obj', (o, (lambda nb, o: lambda i: nb.read(o, i))(nb, o)))
                        s.log.append(('H', key, o))
            for b in self.stack_objs:
                for key, sort in (('ALIVE', 'bool'), ('BLEN', 'int'), ('BTY', 'int')):
                    if key in heaps:
                        s.heaps[key] = Heap(key, s.heaps[key], 'obj', (b, (lambda h, b: lambda i: h.read(b, 0))(self.heap(old, key, sort), b)))
            if '#epoch' in heaps:
                fp0 = self.fp0
                s.epochs = s.epochs + ({'cond': lambda o: And(ne(o, 0), Or(fp0(o), Not(self.alive(self.entry, o)))),
                                        'bases': {}, 'post_alive': None},)
                s.log.append(('E', None, None))
        for (root, path), ty in locs.items():
            nouts = []
            for s in outs:
                old = self.get_in(s, s.store[root], path) if s.store.get(root, UNINIT) is not UNINIT else UNINIT
                if old is UNINIT:
                    # assigned inside the loop before it is used
                    s.store[root] = self.set_in(s.store.get(root, UNINIT), path, UNINIT) if path else UNINIT
                    nouts.append(s)
                    continue
                for s3, v in self.havoc_value(s, old, ty):
                    if isinstance(v, It) and (root, path) in moved:
                        # parts of a library iterator that the body never changes
                        v = v.but(**{x: old.f[x] for x in old.f if x not in moved[(root, path)]})
                    s3.store[root] = self.set_in(s3.store[root], path, v)
                    s3.log.append(('L', root, path, ty))
                    nouts.append(s3)
            outs = nouts
        return outs

    def heap_sort(self, key):
        if key == 'ALIVE' or key.startswith('I:') or key.endswith('#c'):
            return 'bool'
        k = self.p.bystr.get(key)
        b = self.__dict__.get('_base0', {}).get(key)
        if b is not None:
            rs = b.a.range()
            return 'bool' if rs == z3.BoolSort() else 'real' if rs == z3.RealSort() else 'int'
        return 'int'

    def havoc_value(self, st, old, ty):
        """[(state, fresh value)]"""
        if isinstance(old, It):
            return [(st, self.spec.havoc_it(self, st, old))]
        alts = self.spec.pointer_alternatives(self, ty, old)
        if alts:
            outs = []
            for (base, path, single) in alts:
                s2 = st.copy()
                o = fresh_int('slot_o')
                s2.pc.append(o >= 0)
                i = 0 if single else fresh_int('slot_i')
                outs.append((s2, Ptr(o, i, base, path)))
            return outs
        if isinstance(old, LRef):
            raise Unsupported('a stack reference changes in a loop')
        if isinstance(old, (En, S)) and self.has_lref(old):
            raise Unsupported('a value holding a stack reference changes in a loop')
        if isinstance(old, (Box_, S)) and self.has_box(old):
            return [(st, self.havoc_val(st, old, ty))]      # the place keeps its address
        return [(st, self.fresh(st, ty, 'lp'))]

    def has_lref(self, v):
        if isinstance(v, LRef):
            return True
        if isinstance(v, S):
            return any(self.has_lref(x) for x in v.f)
        if isinstance(v, En):
            return any(self.has_lref(x) for fs in v.vs.values() for x in fs)
        return False


PARENTCOLOR = 'internal::rb_tree::node::ParentColor'
MOVEREF = 'moveit::move_ref::MoveRef'


def short(key):
    return key


_q = {}


def has_quant(e):
    k = e.get_id()
    r = _q.get(k)
    if r is not None:
        return r[0]
    if z3.is_quantifier(e):
        r = True
    else:
        r = any(has_quant(c) for c in e.children())
    _q[k] = (r, e)
    return r


def cvc5_check(solver, timeout):
    import subprocess
    import tempfile
    import os
    txt = solver.to_smt2()
    txt = '(set-logic ALL)\n' + txt
    try:
        r = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % timeout, '-'], input=txt, capture_output=True,
                           text=True, timeout=timeout / 1000 + 5)
        out = r.stdout.strip().split('\n')[0] if r.stdout else ''
        return out
    except Exception:
        return 'unknown'
