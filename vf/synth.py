"""Iterator methods that core specialises per iterator, as the loops their documentation defines them by."""
from .core import Unsupported
from .ex import Push, NOMODEL

_next = [0]


def P(l, *pr):
    return {'l': l, 'pr': list(pr)}


def mv(l, *pr):
    return {'o': 'move', 'p': P(l, *pr)}


def cp(l, *pr):
    return {'o': 'copy', 'p': P(l, *pr)}


def assign(l, r):
    return [0, {'s': 'assign', 'p': P(l), 'r': r}]


class Builder:
    def __init__(self, ex, name, locals_):
        self.ex, self.name, self.locals = ex, name, locals_
        self.body = []

    def block(self, stmts, term):
        self.body.append({'s': stmts, 't': term, 'line': 0})

    def fn(self, argc, key):
        p = self.ex.p
        f = {'key': 'synth::' + self.name, 'path': 'synth::' + self.name, 'krate': None, 'args': [], 'argc': argc, 'locals': [[t, None] for t in self.locals],
             'body': self.body, 'id': len(p.fns), 'file': None, 'line': 0}
        p.fns.append(f)
        p.extra[key] = f
        return f


def method(ex, trait, name, ty):
    """the function record of <ty as trait>::name, if it has MIR of its own"""
    d = ex.p.types[ty]
    if d['k'] == 'adt':
        for key in ('<%s as %s>::%s' % (d['n'], trait.rsplit('::', 1)[-1], name),):
            f = ex.p.find_instance(key, d['args']) or ex.p.find_instance(key)
            if f is not None:
                return ex.p.fns.index(f) if 'id' not in f else f['id']
    return None


def call(ex, path, args, argtys, dest, to, targs, fn=None):
    return {'k': 'call', 'args': args, 'argtys': argtys, 'dest': P(dest), 'to': to, 'f': {'path': path, 'key': path, 'args': targs, 'fn': fn}}


def ref(ex, t, mut=True):
    s = ('&mut ' if mut else '&') + ex.p.s(t)
    return ex.tyid(s, {'k': 'ref', 'to': t, 'mut': mut, 's': s})


def tup(ex, ts):
    s = '(' + ', '.join(ex.p.s(t) for t in ts) + (',)' if len(ts) == 1 else ')')
    return ex.tyid(s, {'k': 'tuple', 'elems': list(ts), 's': s})


NEXTP = 'core::iter::traits::iterator::Iterator::next'
CALL = 'core::ops::function::FnMut::call_mut'


def closure_params(ex, fty):
    d = ex.p.types[fty]
    while d['k'] == 'ref':
        d = ex.p.types[d['to']]
    if d['k'] == 'closure':
        f = ex.p.find_instance(d['n'], d['args']) or ex.p.find_instance(d['n'])
        if f is not None:
            return [l[0] for l in f['locals'][2:1 + f['argc']]], f['locals'][0][0]
    raise Unsupported('iterator method with ' + d['s'])


def for_each(ex, st, c):
    ity, fty = c.argtys
    key = ('for_each', ity, fty)
    fn = ex.p.extra.get(key)
    if fn is None:
        (item,), _ = closure_params(ex, fty)
        unit, us = ex.unit(), ex.usize()
        b = Builder(ex, 'for_each', [unit, ity, fty, ex.option_of(item), ref(ex, ity), us, item, ref(ex, fty), tup(ex, [item]), unit])
        b.block([assign(4, {'r': 'ref', 'p': P(1)})], call(ex, NEXTP, [mv(4)], [ref(ex, ity)], 3, 1, [ity], method(ex, 'Iterator', 'next', ity)))
        b.block([assign(5, {'r': 'discr', 'p': P(3)})], {'k': 'switch', 'x': mv(5), 'ty': us, 'cases': [['0', 3]], 'otherwise': 2})
        b.block([assign(6, {'r': 'use', 'x': mv(3, {'p': 'downcast', 'v': 1}, {'p': 'field', 'i': 0, 'ty': item})}),
                 assign(7, {'r': 'ref', 'p': P(2)}), assign(8, {'r': 'agg', 'kind': 'tuple', 'v': 0, 'ty': tup(ex, [item]), 'xs': [mv(6)]})],
                call(ex, CALL, [mv(7), mv(8)], [ref(ex, fty), tup(ex, [item])], 9, 0, [fty]))
        b.block([], {'k': 'drop', 'p': P(1), 'to': 4, 'needs': True, 'dropfn': None})
        b.block([], {'k': 'return'})
        fn = b.fn(2, key)
    return Push(fn, c.args)


def fold(ex, st, c):
    ity, aty, fty = c.argtys
    key = ('fold', ity, fty)
    fn = ex.p.extra.get(key)
    if fn is None:
        (acc, item), _ = closure_params(ex, fty)
        us = ex.usize()
        b = Builder(ex, 'fold', [acc, ity, acc, fty, ex.option_of(item), ref(ex, ity), us, item, ref(ex, fty), tup(ex, [acc, item])])
        b.block([assign(5, {'r': 'ref', 'p': P(1)})], call(ex, NEXTP, [mv(5)], [ref(ex, ity)], 4, 1, [ity], method(ex, 'Iterator', 'next', ity)))
        b.block([assign(6, {'r': 'discr', 'p': P(4)})], {'k': 'switch', 'x': mv(6), 'ty': us, 'cases': [['0', 3]], 'otherwise': 2})
        b.block([assign(7, {'r': 'use', 'x': mv(4, {'p': 'downcast', 'v': 1}, {'p': 'field', 'i': 0, 'ty': item})}),
                 assign(8, {'r': 'ref', 'p': P(3)}), assign(9, {'r': 'agg', 'kind': 'tuple', 'v': 0, 'ty': tup(ex, [acc, item]), 'xs': [mv(2), mv(7)]})],
                call(ex, CALL, [mv(8), mv(9)], [ref(ex, fty), tup(ex, [acc, item])], 2, 0, [fty]))
        b.block([assign(0, {'r': 'use', 'x': mv(2)})], {'k': 'drop', 'p': P(1), 'to': 4, 'needs': True, 'dropfn': None})
        b.block([], {'k': 'return'})
        fn = b.fn(3, key)
    return Push(fn, c.args)


def search(ex, st, c, kind):
    """find and find_map of iterators that have their own"""
    rty, fty = c.argtys
    ity = ex.p.pointee(rty)
    key = (kind, ity, fty)
    fn = ex.p.extra.get(key)
    if fn is None:
        (par,), out = closure_params(ex, fty)
        us = ex.usize()
        item = ex.p.pointee(par) if kind == 'find' else par
        opt = ex.option_of(item)
        b = Builder(ex, kind, [c.destty, rty, fty, opt, us, item, par, ref(ex, fty), tup(ex, [par]), out])
        b.block([], call(ex, NEXTP, [cp(1)], [rty], 3, 1, [ity], method(ex, 'Iterator', 'next', ity)))
        b.block([assign(4, {'r': 'discr', 'p': P(3)})], {'k': 'switch', 'x': mv(4), 'ty': us, 'cases': [['0', 5]], 'otherwise': 2})
        b.block([assign(5, {'r': 'use', 'x': mv(3, {'p': 'downcast', 'v': 1}, {'p': 'field', 'i': 0, 'ty': item})}),
                 assign(6, {'r': 'ref', 'p': P(5)} if kind == 'find' else {'r': 'use', 'x': mv(5)}),
                 assign(7, {'r': 'ref', 'p': P(2)}), assign(8, {'r': 'agg', 'kind': 'tuple', 'v': 0, 'ty': tup(ex, [par]), 'xs': [mv(6)]})],
                call(ex, CALL, [mv(7), mv(8)], [ref(ex, fty), tup(ex, [par])], 9, 3, [fty]))
        if kind == 'find':
            b.block([], {'k': 'switch', 'x': cp(9), 'ty': out, 'cases': [['0', 0]], 'otherwise': 4})
            b.block([assign(0, {'r': 'agg', 'kind': 'adt', 'v': 1, 'ty': c.destty, 'xs': [mv(5)]})], {'k': 'return'})
        else:
            b.block([assign(4, {'r': 'discr', 'p': P(9)})], {'k': 'switch', 'x': mv(4), 'ty': us, 'cases': [['0', 0]], 'otherwise': 4})
            b.block([assign(0, {'r': 'use', 'x': mv(9)})], {'k': 'return'})
        b.block([assign(0, {'r': 'agg', 'kind': 'adt', 'v': 0, 'ty': c.destty, 'xs': []})], {'k': 'return'})
        fn = b.fn(2, key)
    return Push(fn, c.args)
