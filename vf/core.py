"""Terms, values, heaps and states of the symbolic executor."""
import z3
from itertools import count

_ids = count(1)


def serial():
    return next(_ids)


class Unsupported(Exception):
    """A construct outside the verifier's reach: the function is left undecided, never alarmed."""


# ---------------------------------------------------------------- terms (python constants are folded)
def I(x):
    if isinstance(x, bool):
        raise TypeError('bool where an int is expected')
    return z3.IntVal(x) if isinstance(x, int) else x


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def fold(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    r = I(a) + I(b)
    # (x + c1) + c2
    if isinstance(b, int) and z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
        return add(a.arg(0), a.arg(1).as_long() + b)
    return r


def sub(a, b):
    if isinstance(b, int):
        return add(a, -b)
    if not isinstance(a, int) and a.eq(b):
        return 0
    return I(a) - I(b)


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) and a in (0, 1):
        return 0 if a == 0 else b
    if isinstance(b, int) and b in (0, 1):
        return 0 if b == 0 else a
    return I(a) * I(b)


def eq(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    if not isinstance(a, (int, bool)) and not isinstance(b, (int, bool)):
        if a.eq(b):
            return True
        return fold(a == b)
    if isinstance(a, bool) or isinstance(b, bool):
        if a is True:
            return b
        if b is True:
            return a
        if a is False:
            return Not(b)
        return Not(a)
    x, c = (a, b) if isinstance(b, int) else (b, a)
    if z3.is_int_value(x):
        return x.as_long() == c
    return x == c


def ne(a, b):
    return Not(eq(a, b))


def lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return fold(I(a) < I(b))


def le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return True
    return fold(I(a) <= I(b))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Imp(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return Not(a)
    return z3.Implies(a, b)


def Iff(a, b):
    return eq(a, b)


def If(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) or isinstance(b, bool):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return Not(c)
        a, b = B(a), B(b)
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if z3.is_bool(a) or z3.is_bool(b):
        return z3.If(c, B(a), B(b))
    a = a if not isinstance(a, int) else I(a)
    b = b if not isinstance(b, int) else I(b)
    if a.eq(b):
        return fold(a)
    return z3.If(c, a, b)


def fresh_int(name='v'):
    return z3.Int('%s!%d' % (name, serial()))


def fresh_bool(name='b'):
    return z3.Bool('%s!%d' % (name, serial()))


def fresh_real(name='r'):
    return z3.Real('%s!%d' % (name, serial()))


def pattern_ok(e, top=True):
    """may z3 match on this term? only function applications, no logical connectives or conditionals"""
    if z3.is_quantifier(e) or z3.is_var(e):
        return not z3.is_quantifier(e)
    k = e.decl().kind()
    if top and (k != z3.Z3_OP_UNINTERPRETED or e.num_args() == 0):
        return False
    if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        return False
    return all(pattern_ok(c, False) for c in e.children())


def forall(f, n=1, pats=None, name='k'):
    """forall ints. f gets n bound variables; pats(vars) -> list of patterns (or multi-patterns)."""
    vs = [z3.Int('%s!%d' % (name, serial())) for _ in range(n)]
    body = f(*vs)
    if body is True:
        return True
    if body is False:
        return False
    ps = []
    if pats:
        for p in pats(*vs):
            q = list(p) if isinstance(p, (list, tuple)) else [p]
            if all(isinstance(x, z3.ExprRef) and pattern_ok(x) for x in q):
                ps.append(z3.MultiPattern(*q))
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)


def exists(f, n=1, name='e'):
    vs = [z3.Int('%s!%d' % (name, serial())) for _ in range(n)]
    body = f(*vs)
    if isinstance(body, bool):
        return body
    return z3.Exists(vs, body)


def max_serial(e, memo={}):
    """The largest serial number of a constant in a term: how recent its newest constant is."""
    if isinstance(e, (int, bool)):
        return 0
    k = e.get_id()
    if k in memo:
        return memo[k][0]
    if z3.is_quantifier(e):
        r = max_serial(e.body())
    elif z3.is_app(e):
        nm = e.decl().name()
        r = 0
        if '!' in nm:
            try:
                r = int(nm.rsplit('!', 1)[1])
            except ValueError:
                r = 0
        for c in e.children():
            r = max(r, max_serial(c))
    else:
        r = 0
    memo[k] = (r, e)
    return r


# ---------------------------------------------------------------- values
class V:
    __slots__ = ()


class Uninit(V):
    def __repr__(self):
        return 'UNINIT'


UNINIT = Uninit()


class Ptr(V):
    """A thin pointer or reference into the heap: element `idx` of block `obj`, seen as type `base`
    (a type id), narrowed to the sub-place `path` (field indices)."""
    __slots__ = ('obj', 'idx', 'base', 'path')

    def __init__(self, obj, idx, base, path=()):
        self.obj, self.idx, self.base, self.path = obj, idx, base, path

    def __repr__(self):
        return 'Ptr(%s,%s,%s%s)' % (self.obj, self.idx, self.base, ''.join('.%s' % p for p in self.path))


class LRef(V):
    """A pointer or reference to (a part of) a local variable of some frame."""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def __repr__(self):
        return 'LRef(%s,%s)' % (self.root, self.path)


class Fat(V):
    """A slice or str pointer."""
    __slots__ = ('ptr', 'len')

    def __init__(self, ptr, len):
        self.ptr, self.len = ptr, len

    def __repr__(self):
        return 'Fat(%s,%s)' % (self.ptr, self.len)


class S(V):
    """A struct, tuple or closure value."""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = tuple(f)

    def __repr__(self):
        return 'S(%s)' % ', '.join(map(str, self.f))


class En(V):
    """An enum value: discriminant (python int or term) and the fields of the variants it may be."""
    __slots__ = ('d', 'vs')

    def __init__(self, d, vs):
        self.d, self.vs = d, vs

    def __repr__(self):
        return 'En(%s,%s)' % (self.d, self.vs)


class Box_(V):
    """A struct or array that lives in the heap because its address is taken for keeps
    (list sentinels, arrays, tree anchors): the block's id."""
    __slots__ = ('obj', 'base', 'len')

    def __init__(self, obj, base, len=1):
        self.obj, self.base, self.len = obj, base, len

    def __repr__(self):
        return 'Box(%s,%s,%s)' % (self.obj, self.base, self.len)


class It(V):
    """A modelled iterator or other library value: kind and named fields (values or terms)."""
    __slots__ = ('kind', 'f')

    def __init__(self, kind, **f):
        self.kind, self.f = kind, f

    def __getattr__(self, n):
        try:
            return self.f[n]
        except KeyError:
            raise AttributeError(n)

    def but(self, **f):
        g = dict(self.f)
        g.update(f)
        return It(self.kind, **g)

    def __repr__(self):
        return 'It(%s,%s)' % (self.kind, self.f)


class Addr(V):
    """A pointer cast to an integer: the pointer it came from plus a number of bytes."""
    __slots__ = ('ptr', 'off')

    def __init__(self, ptr, off):
        self.ptr, self.off = ptr, off

    def __repr__(self):
        return 'Addr(%s,%s)' % (self.ptr, self.off)


class FnV(V):
    """A function item or a zero sized value of function type (type id)."""
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty

    def __repr__(self):
        return 'FnV(%s)' % self.ty


NULLOBJ = 0


# ---------------------------------------------------------------- heaps
class Heap:
    """(obj, idx) -> term, as a base function plus a chain of updates, resolved when read."""
    __slots__ = ('prev', 'kind', 'a', 'memo', 'key', 'ser')

    def __init__(self, key, prev, kind, a):
        self.key, self.prev, self.kind, self.a = key, prev, kind, a
        self.memo = {}
        self.ser = serial()

    def read(self, o, i):
        k = (o if isinstance(o, int) else ('t', o.get_id()), i if isinstance(i, int) else ('t', i.get_id()))
        r = self.memo.get(k)
        if r is not None:
            return r[0]
        r = self._read(o, i)
        self.memo[k] = (r, o, i)
        return r

    def _read(self, o, i):
        if self.kind == 'base':
            return self.a(I(o), I(i))
        if self.kind == 'const':
            return self.a
        if self.kind == 'cell':
            oo, ii, v = self.a
            c = And(eq(o, oo), eq(i, ii))
            if c is True:
                return v
            p = self.prev.read(o, i)
            return If(c, v, p)
        if self.kind == 'obj':          # whole block replaced: a(i)
            oo, f = self.a
            c = eq(o, oo)
            if c is True:
                return f(i)
            p = self.prev.read(o, i)
            if c is False:
                return p
            return If(c, f(i), p)
        if self.kind == 'range':        # cond(i) -> val(i) in block oo
            oo, cond, val = self.a
            c = And(eq(o, oo), cond(i))
            if c is True:
                return val(i)
            p = self.prev.read(o, i)
            if c is False:
                return p
            return If(c, val(i), p)
        if self.kind == 'fun':          # arbitrary: f(prev_read, o, i)
            return self.a(self.prev.read, o, i)
        raise AssertionError(self.kind)


SORTS = {'int': z3.IntSort(), 'bool': z3.BoolSort(), 'real': z3.RealSort()}


def base_heap(key, sort, name=None):
    f = z3.Function('%s!%d' % (name or ('H_' + key), serial()), z3.IntSort(), z3.IntSort(), SORTS[sort])
    return Heap(key, None, 'base', f)


class State:
    __slots__ = ('store', 'heaps', 'pc', 'frames', 'ghost', 'loops', 'path', 'log', 'epochs')

    def __init__(self):
        self.store = {}
        self.heaps = {}
        self.pc = []
        self.frames = []
        self.ghost = {}
        self.loops = ()
        self.path = ()
        self.log = []
        self.epochs = ()

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.heaps = dict(self.heaps)
        s.pc = list(self.pc)
        s.frames = [f.copy() for f in self.frames]
        s.ghost = dict(self.ghost)
        s.loops = self.loops
        s.path = self.path
        s.log = list(self.log)
        s.epochs = self.epochs
        return s


class Frame:
    __slots__ = ('uid', 'fn', 'block', 'dest', 'ret_to', 'post', 'depth')

    def __init__(self, uid, fn, dest, ret_to, post=None):
        self.uid, self.fn, self.block, self.dest, self.ret_to, self.post = uid, fn, 0, dest, ret_to, post

    def copy(self):
        f = Frame(self.uid, self.fn, self.dest, self.ret_to, self.post)
        f.block = self.block
        return f


class FP:
    """A set of blocks: some named ones (where a condition holds), and families given by a predicate.
    A family is (pred, terms) with terms(k) the block of its k-th member, valid when cond(k)."""

    def __init__(self, objs=(), fams=()):
        self.objs = list(objs)          # [term]
        self.fams = list(fams)          # [(pred: o -> formula, member: k -> term, cond: k -> formula)]

    def __call__(self, o):
        return Or([And(eq(o, x), ne(o, 0)) for x in self.objs] + [f[0](o) for f in self.fams])

    def __add__(self, other):
        return FP(self.objs + other.objs, self.fams + other.fams)

    def each(self, prop):
        """prop holds of every member: [formula]"""
        out = [Or(eq(x, 0), prop(x)) for x in self.objs]
        for pred, member, cond in self.fams:
            out.append(forall(lambda k: Imp(cond(k), prop(member(k)))))
        return out
