"""The dumped MIR: types, functions, control-flow facts."""
import json, re
from .core import Unsupported

USIZE = ('usize', 'u64')
INTS = {'u8': (0, 8), 'u16': (0, 16), 'u32': (0, 32), 'u64': (0, 64), 'u128': (0, 128), 'usize': (0, 64),
        'i8': (1, 8), 'i16': (1, 16), 'i32': (1, 32), 'i64': (1, 64), 'i128': (1, 128), 'isize': (1, 64)}
TRANSPARENT = ('core::pin::Pin', 'core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop',
               'core::mem::maybe_dangling::MaybeDangling')


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types, self.fns, self.all = d['types'], d['fns'], d['all']
        self.roots = {}
        for r in d['roots']:
            self.roots.setdefault(r['key'], r['fn'])
        self.bykey = {}
        for i, f in enumerate(self.fns):
            f['id'] = i
            self.bykey.setdefault(f['key'], []).append(f)
        self._loops, self._deep = {}, {}
        self.bystr = {self.of_closure(t['s'], t): i for i, t in enumerate(self.types)}
        self.extra = {}

    # ---- types
    def k(self, t):
        return self.types[t]['k']

    def s(self, t):
        return self.types[t]['s']

    def is_adt(self, t, name):
        d = self.types[t]
        return d['k'] == 'adt' and d['n'] == name

    def strip(self, t):
        """See through MaybeUninit / ManuallyDrop."""
        while self.types[t]['k'] == 'adt' and self.types[t]['n'] in TRANSPARENT:
            t = self.types[t]['args'][0]
        return t

    def pointee(self, t):
        d = self.types[t]
        if d['k'] in ('ptr', 'ref'):
            return d['to']
        raise Unsupported('pointee of ' + d['s'])

    def range(self, t):
        d = self.types[t]
        if d['k'] == 'char':
            return (0, 0x10FFFF)
        s, n = INTS[d['n']]
        return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)

    def bits(self, t):
        d = self.types[t]
        if d['k'] == 'char':
            return 32
        if d['k'] == 'bool':
            return 8
        return INTS[d['n']][1]

    def signed(self, t):
        d = self.types[t]
        return d['k'] == 'int' and INTS[d['n']][0] == 1

    def is_fat(self, t):
        """is this pointee unsized?"""
        return self.types[t]['k'] in ('slice', 'str') or self.types[t]['s'] == 'core::ffi::c_str::CStr'

    def fields(self, t, v=0):
        d = self.types[t]
        if d['k'] in ('tuple', 'closure'):
            return list(d['elems'])
        if d['k'] == 'adt':
            return [f[1] for f in d['variants'][v]['fields']]
        raise Unsupported('fields of ' + d['s'])

    def field_index(self, t, name, v=0):
        for i, f in enumerate(self.types[t]['variants'][v]['fields']):
            if f[0] == name:
                return i
        raise Unsupported('lost anchor: field %s of %s' % (name, self.s(t)))

    def ty_at(self, t, path):
        for p in path:
            t = self.strip(t)
            d = self.types[t]
            if d['k'] == 'adt' and d['kind'] == 'enum':
                raise Unsupported('path into enum in memory')
            t = self.fields(t)[p]
        return t

    # ---- functions
    def fn(self, key):
        if key in self.roots:
            return self.fns[self.roots[key]]
        raise Unsupported('lost anchor: no function ' + key)

    def deep(self, t):
        """a type as text, without lifetimes, with the type arguments of closures"""
        if not isinstance(t, int):
            return str(t)
        if t not in self._deep:
            self._deep[t] = self.deep_text(self.types[t])
        return self._deep[t]

    def deep_text(self, d):
        k, at = d['k'], lambda xs: ', '.join(self.deep(x) for x in xs)
        if k in ('closure', 'adt') and d.get('args') is not None:
            return d['n'] + '<' + at(d['args']) + '>'
        if k in ('ref', 'ptr', 'slice', 'array') and 'to' in d:
            return '%s %s %s %s' % (k, d.get('mut', ''), self.deep(d['to']), d.get('len', ''))
        if k == 'tuple':
            return '(' + at(d['elems']) + ')'
        return re.sub(r"'\w+,? ?", '', d['s'])

    def of_closure(self, s, d):
        """how types are told apart: closures with other type arguments have the same name"""
        return self.deep_text(d) if '{closure@' in s else s

    def plain(self, args):
        return [self.deep(a) for a in args]

    def find_instance(self, key, args=None):
        """the function with these type arguments; without any, the only one there is"""
        fs = [f for f in self.bykey.get(key, []) if f['body'] is not None]
        if args is not None:
            for f in fs:
                if f['args'] == args:
                    return f
            want = self.plain(args)
            for f in fs:
                if self.plain(f['args']) == want:
                    return f
            return None
        return fs[0] if fs and len({tuple(self.plain(f['args'])) for f in fs}) == 1 else None

    # ---- loops
    def loops(self, f):
        """header -> set of blocks, for the natural loops of a body (cleanup blocks left out)."""
        fid = f['id']
        if fid in self._loops:
            return self._loops[fid]
        body = f['body']
        n = len(body)
        succ = [[] for _ in range(n)]
        for i, b in enumerate(body):
            t = b['t']
            k = t['k']
            if k == 'switch':
                succ[i] = [c[1] for c in t['cases']] + [t['otherwise']]
            elif t.get('to') is not None:
                succ[i] = [t['to']]
        # dominators (iterative)
        pred = [[] for _ in range(n)]
        order, seen = [], set()

        def dfs(s):
            stack = [(s, iter(succ[s]))]
            seen.add(s)
            while stack:
                u, it = stack[-1]
                for v in it:
                    if v not in seen:
                        seen.add(v)
                        stack.append((v, iter(succ[v])))
                        break
                else:
                    order.append(u)
                    stack.pop()
        dfs(0)
        order.reverse()
        for u in order:
            for v in succ[u]:
                pred[v].append(u)
        allb = set(order)
        dom = {u: set(allb) for u in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for u in order:
                if u == 0:
                    continue
                ps = [dom[p] for p in pred[u] if p in dom]
                nd = set.intersection(*ps) | {u} if ps else {u}
                if nd != dom[u]:
                    dom[u] = nd
                    ch = True
        res = {}
        for u in order:
            for v in succ[u]:
                if v in dom[u]:
                    blk = {v, u}
                    st = [u]
                    while st:
                        x = st.pop()
                        if x == v:
                            continue
                        for p in pred[x]:
                            if p not in blk:
                                blk.add(p)
                                st.append(p)
                    res.setdefault(v, set()).update(blk)
        self._loops[fid] = res
        return res
