"""Shared helpers for specifications."""
import z3
from ..core import *
from ..core import I, B
from ..contracts import Contract, LostAnchor
from ..models import max_elems, clone_fun, uf, some, NONE, made_by, tail_kept, tail_def


def field(ex, ty, val, name, pos):
    """a field by its name, or by its position if it was renamed"""
    d = ex.p.types[ty]
    fs = d['variants'][0]['fields']
    for i, f in enumerate(fs):
        if f[0] == name:
            return val.f[i], f[1]
    if pos < len(fs):
        return val.f[pos], fs[pos][1]
    raise LostAnchor('lost anchor: field %s of %s' % (name, d['s']))


def leaf_terms(v):
    """scalars of a value, in leaf order"""
    if isinstance(v, S):
        out = []
        for x in v.f:
            out += leaf_terms(x)
        return out
    if isinstance(v, Ptr):
        return [v.obj, v.idx]
    if isinstance(v, Box_):
        return [v.obj]
    if v is UNINIT:
        raise Unsupported('uninitialised value in a contract')
    if isinstance(v, It) and v.kind == 'pc':
        return [y for k in sorted(v.f) for y in leaf_terms(v.f[k])]
    if isinstance(v, It):
        raise Unsupported('a modelled value in a contract: ' + v.kind)
    return [v]


def val_eq(a, b):
    return And([eq(x, y) for x, y in zip(leaf_terms(a), leaf_terms(b))])


def clone_of(ex, ty, v):
    p = ex.p
    ty = p.strip(ty)
    d = p.types[ty]
    if d['k'] == 'param':
        return clone_fun(ex, d['n'])(I(v))
    if isinstance(v, S):
        fs = p.fields(ty)
        return S([clone_of(ex, t, x) for t, x in zip(fs, v.f)])
    return v


class Seq:
    """the elements of a block of type ety: values, and which of them are there"""

    def __init__(self, ex, st, obj, ety, off=0, path=()):
        self.ex, self.st, self.obj, self.ety, self.off, self.path = ex, st, obj, ex.p.strip(ety), off, path
        self.pl = ex.param_leaves(self.ety)
        self.lv = ex.leaves(self.ety)

    def at(self, k):
        return self.ex.read_leafs_raw(self.st, self.obj, add(k, self.off), self.ety, self.path, self.ety)

    def init(self, k):
        return And([self.ex.hread(self.st, self.ex.init_key(self.ety, self.path + pa), self.obj, add(k, self.off), 'bool') for pa, _ in self.pl])

    def uninit(self, k):
        return And([Not(self.ex.hread(self.st, self.ex.init_key(self.ety, self.path + pa), self.obj, add(k, self.off), 'bool')) for pa, _ in self.pl])

    def all_init(self, lo, hi):
        return self.rng(lo, hi, self.init)

    def all_uninit(self, lo, hi):
        return self.rng(lo, hi, self.uninit)

    def rng(self, lo, hi, f):
        if not self.pl and f in (self.init, self.uninit):
            return True
        return forall(lambda k: Imp(And(le(lo, k), lt(k, hi)), f(k)))


def same(a, b, lo, hi, shift=0):
    """a[k] == b[k + shift] for lo <= k < hi"""
    return forall(lambda k: Imp(And(le(lo, k), lt(k, hi)), val_eq(a.at(k), b.at(add(k, shift)))))


def unchanged(cx, i=0):
    """a function that takes &mut to give access changes nothing itself"""
    d = cx.p.types[cx.argtys[i]]
    if d['k'] != 'ref' or not d.get('mut') or i not in cx.con.mods(cx):
        return []
    return [('rep: it is not changed itself', val_eq(cx.val(i, cx.st), cx.val(i, cx.old)))]


def nothing(cx):
    return FP()


def rep(xs):
    """the clauses of a representation invariant"""
    return [('rep: ' + n, g) for n, g in xs]


# Existential statements: the solver is told which witnesses to try. An assumed one marks its witness with NEAR,
# a goal tries every term marked with TRY; NEAR(m) marks m and m + 1. Both predicates are true of every integer.
NEAR = z3.Function('NEAR', z3.IntSort(), z3.BoolSort())
TRY = z3.Function('TRY', z3.IntSort(), z3.BoolSort())


def near_axioms():
    m = z3.Int('nm')
    return [z3.ForAll([m], z3.Implies(NEAR(m), z3.And(TRY(m), TRY(m + 1))), patterns=[NEAR(m)])]


def some_index(f, goal):
    m = z3.Int('w!%d' % serial())
    if goal:
        return z3.Not(z3.ForAll([m], z3.Not(B(f(m))), patterns=[TRY(m)]))
    return z3.Exists([m], z3.And(NEAR(m), B(f(m))))


def base_apps(e, v, out=None, seen=None):
    """the uninterpreted applications in a term that have v as an argument"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if not isinstance(e, z3.ExprRef) or e.get_id() in seen or z3.is_quantifier(e):
        return out
    seen.add(e.get_id())
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(c.eq(v) for c in e.children()):
        out.append(e)
    for c in e.children():
        base_apps(c, v, out, seen)
    return out


def forall_at(f, trig):
    """forall k, instantiated at every k for which one of the heap reads in trig(k) is met"""
    def pats(k):
        ts = trig(k)
        out = []
        for t in ts if isinstance(ts, (list, tuple)) else [ts]:
            out += base_apps(t, k)
        return out
    return forall(f, 1, pats)


class InPlace(Contract):
    """returns a description of how to build a value in place: the postcondition is about the value once it is built"""
    inline = True

    def built(self, cx):
        """the value and its type"""
        return cx.res, cx.extra['ty']

    def then(self, cx, st, val):
        ex = cx.ex
        if not isinstance(val, It) or val.kind != 'new':
            raise Unsupported('a value built in place by an unknown recipe')
        cx.extra['ty'] = val.ty
        root = ('place', ex.new_uid())
        st.store[root] = ex.settle(st, UNINIT, val.v)

        def result(s, _):
            return s.store[root]
        if val.f['f'] is None:
            return None, [], result
        d = ex.p.types[val.fty]
        fn = (ex.p.find_instance(d['n'], d['args']) or ex.p.find_instance(d['n'])) if d['k'] == 'closure' else None
        if fn is None:
            raise Unsupported('a value built in place by ' + d['s'])
        return fn, [val.f['f'], LRef(root)], result
