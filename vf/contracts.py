"""Contracts, their evaluation contexts, and the verification of one function."""
import time
import z3
from .core import *
from .core import I, B
from . import ex as exm


class LostAnchor(Unsupported):
    pass


class Ctx:
    """Where a contract is evaluated: argument values, the state before and the state after."""

    def __init__(self, ex, con, old, st, args, argtys, destty, targs, caller=False, res=None):
        self.ex, self.con, self.old, self.st = ex, con, old, st
        self.args, self.argtys, self.destty, self.targs = args, [None if t is None else ex.p.strip(t) for t in argtys], destty, targs
        self.caller, self.res = caller, res
        self.extra = {}

    def with_state(self, st, res):
        c = Ctx(self.ex, self.con, self.old, st, self.args, self.argtys, self.destty, self.targs, self.caller, res)
        c.extra = self.extra
        return c

    @property
    def p(self):
        return self.ex.p

    def val(self, i, st=None):
        """the value an argument refers to (references are followed), in a state (default: before)"""
        st = self.old if st is None else st
        a = self.args[i]
        ty = self.argtys[i]
        if self.p.k(ty) in ('ref', 'ptr'):
            to = self.p.pointee(ty)
            if self.p.is_fat(to):
                return a
            return self.ex.peek(st, a, to)
        return a

    def valty(self, i):
        ty = self.argtys[i]
        return self.p.strip(self.p.pointee(ty)) if self.p.k(ty) in ('ref', 'ptr') else self.p.strip(ty)

    def havoc(self, st):
        ex = self.ex
        for i in self.con.mods(self):
            to = self.p.pointee(self.argtys[i])
            ex.havoc_place(st, self.args[i], to)
        if not self.con.pure:
            self.later = []
            ex.havoc_heaps(st, self.con.footprint(self), lambda o: self.later[0](o))


class Contract:
    key = None
    inline = False
    pure = False          # touches no heap
    check_leaks = True

    def heap_arg(self, i):
        return False

    bounded = None

    def mods(self, cx):
        """indices of the arguments whose target is changed: by default every &mut of a struct"""
        out = []
        for i, t in enumerate(cx.argtys):
            d = cx.p.types[t]
            if d['k'] == 'ref' and d.get('mut') and not cx.p.is_fat(d['to']) and cx.p.k(d['to']) != 'param':
                out.append(i)
        return out

    def requires(self, cx):
        return []

    def may_panic(self, cx):
        return False

    def footprint(self, cx):
        """o -> may the function write to, free or take over block o (state before)?"""
        return FP()

    def post_footprint(self, cx):
        """o -> is block o (from the footprint, or allocated since) left alive (state after)?"""
        return FP()

    def results(self, cx):
        ex = cx.ex
        return [(cx.st, ex.fresh(cx.st, cx.destty, 'ret'))]

    def ensures(self, cx):
        return []

    def axioms(self, cx):
        return []

    def after(self, cx):
        """effects on the state that are not formulas (refining the shape of a value)"""

    def setup(self, cx):
        """extra preparation of the initial state when this function itself is verified"""

    def invariant(self, lc):
        """the invariant of a loop met while verifying this function: lc -> [(name, formula)], or None"""
        return None

    def owned(self, lc):
        """in a loop that allocates or frees: the blocks that are owned at its head (FP), all others are gone"""
        return None

    def loop_ghost(self, lc, head):
        """ghost updates before a loop is entered (head is None) and at the end of an iteration that began in head"""

    def unroll(self, lc):
        return None

    def variants(self):
        """constants the function is verified for, one proof each"""
        return [None]

    def then(self, cx, st, val):
        """what is run on the result before the postcondition is looked at: (fn, args, result of it -> value), or None"""
        return None

    def witness(self, cx):
        """ghost updates at the end of the function under proof: the witnesses of its postcondition"""

    def hints(self, cx):
        """[formula] proved lemmas about the final state, tried before the postconditions"""
        return []


class LoopCtx:
    def __init__(self, ex, entry, st, fn, ordinal, chain, blocks):
        self.ex, self.entry, self.st, self.fn, self.ordinal, self.chain, self.blocks = ex, entry, st, fn, ordinal, chain, blocks
        self.uid = st.frames[-1].uid
        self.mod = None
        self.assuming = False

    def at(self, st):
        l = LoopCtx(self.ex, self.entry, st, self.fn, self.ordinal, self.chain, self.blocks)
        l.uid = self.uid
        l.mod = self.mod
        return l

    @property
    def p(self):
        return self.ex.p

    def locals(self):
        """[(index, name, type, value)] of the loop's own frame"""
        out = []
        for j, l in enumerate(self.fn['locals']):
            v = self.st.store.get((self.uid, j))
            if v is not None and v is not UNINIT:
                out.append((j, l[1] if len(l) > 1 else None, l[0], v))
        return out

    def iters(self, kind=None):
        return [v for _, _, _, v in self.moving() if isinstance(v, It) and (kind is None or v.kind == kind)]

    def moving(self):
        """those of all_locals that the loop changes"""
        return self.all_locals({root for root, path in self.mod[0]} if self.mod is not None else None)

    def all_locals(self, only=None):
        """locals of every frame on the stack, innermost first"""
        out = []
        for fr in reversed(self.st.frames):
            for j, l in enumerate(fr.fn['locals']):
                v = self.st.store.get((fr.uid, j))
                if v is not None and v is not UNINIT and (only is None or (fr.uid, j) in only):
                    out.append((j, l[1] if len(l) > 1 else None, l[0], v))
        return out

    def named(self, *names):
        for _, n, t, v in self.locals():
            if n in names:
                return v
        raise LostAnchor('lost anchor: no local ' + '/'.join(names) + ' at the loop of ' + self.fn['key'])


class FnResult:
    def __init__(self, key):
        self.key = key
        self.status = None
        self.reason = None
        self.obls = []
        self.time = 0.0
        self.solver = 0.0
        self.paths = 0
        self.trusted = set()
        self.used = set()
        self.inlined = set()
        self.line = None
        self.file = None

    def failed(self):
        return [o for o in self.obls if o.status != 'proved']


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return eq(a, b) if not isinstance(a, V) and not isinstance(b, V) else False
    if isinstance(a, S):
        return And([same_value(x, y) for x, y in zip(a.f, b.f)]) if len(a.f) == len(b.f) else False
    if isinstance(a, En):
        return And([eq(a.d, b.d)] + [Imp(eq(a.d, d), And([same_value(x, y) for x, y in zip(a.vs[d], b.vs[d])]) if d in a.vs and d in b.vs else False) for d in set(a.vs) | set(b.vs)])
    if isinstance(a, It):
        return And([same_value(a.f[k], b.f[k]) for k in a.f]) if a.kind == b.kind and set(a.f) == set(b.f) else False
    if isinstance(a, Ptr):
        return And(eq(a.obj, b.obj), eq(a.idx, b.idx)) if tuple(a.path) == tuple(b.path) else False
    if isinstance(a, Fat):
        return And(same_value(a.ptr, b.ptr), eq(a.len, b.len))
    if isinstance(a, Box_):
        return eq(a.obj, b.obj)
    if isinstance(a, LRef):
        return a.root == b.root and tuple(a.path) == tuple(b.path)
    return eq(a, b)


def verify(prog, spec, key, timeout=8000, variant=None, budget=None):
    """Verify one function against its contract."""
    con = spec.contract(key)
    res = FnResult(key)
    t0 = time.time()
    ex = exm.Ex(prog, spec, timeout)
    ex.cname = key
    ex.t_end = time.time() + budget if budget else None
    try:
        fn = prog.fn(key)
        res.line = fn.get('line')
        res.file = fn.get('file')
        if variant is not None:
            con.variant = variant
        st = State()
        if fn['body'] is None:
            raise Unsupported('no body for ' + key)
        argtys = [prog.strip(fn['locals'][i + 1][0]) for i in range(fn['argc'])]
        args = []
        ex.con = con
        for i, ty in enumerate(argtys):
            args.append(ex.initial(st, ty, i, con))
        cx = Ctx(ex, con, st, st, args, argtys, fn['locals'][0][0], fn['args'])
        con.setup(cx)
        for name, g in con.requires(cx):
            ex.assume(st, g)
        ex.entry = st.copy()
        cx.old = ex.entry
        ex.con, ex.cx0 = con, cx
        ex.cur_panic = lambda s: con.may_panic(cx)
        ex.fp0 = con.footprint(cx)
        # the precondition must be satisfiable, or everything holds vacuously
        v = z3.Solver()
        v.set('timeout', 3000)
        v.set('mbqi', False)
        for f in st.pc:
            v.add(f)
        if v.check() == z3.unsat:
            o = ex.record('the precondition is satisfiable', fn.get('line'), 'failed', 'z3', 0.0, 'vacuity')
        ends = []

        def on_return(s, val):
            nxt = con.then(cx, s, val)
            if nxt is None:
                return at_end(s, val)
            if nxt[0] is None:
                return at_end(s, nxt[2](s, None))
            s.frames = []
            ex.push(s, nxt[0], nxt[1])
            ex.run(s, lambda s2, v2: at_end(s2, nxt[2](s2, v2)))

        def at_end(s, val):
            if True not in ends:
                v = z3.Solver()
                v.set('timeout', 1000)
                v.set('mbqi', False)
                for f in s.pc:
                    v.add(f)
                ends.append(v.check() != z3.unsat)
            c2 = cx.with_state(s, val)
            con.after(c2)
            con.witness(c2)
            for g in con.hints(c2):
                ex.prove(s, g, 'lemma', fn.get('line'), 'lemma')
            for name, g in con.ensures(c2):
                ex.prove(s, g, 'postcondition: ' + name, fn.get('line'), 'post')
            mods = con.mods(cx)
            for i, ty in enumerate(argtys):
                if isinstance(args[i], LRef) and prog.types[ty].get("mut") and i not in mods and not key.endswith("Drop>::drop"):
                    ex.prove(s, same_value(cx.val(i, s), cx.val(i, cx.old)), 'what argument %d refers to is not changed' % (i + 1), fn.get('line'), 'frame')
            ex.check_leaks(s, con.post_footprint(c2), fn.get('line'))

        top = st
        ex.push(top, fn, args)
        ex.run(top, on_return)
        res.paths = len(ends)
        if True not in ends and not getattr(con, 'diverges', False):
            ex.record('some path returns', fn.get('line'), 'failed', 'none', 0.0, 'vacuity')
        bad = [o for o in ex.obls if o.status != 'proved']
        res.status = 'proved' if not bad else 'failed'
    except LostAnchor as e:
        res.status, res.reason = 'undecided', str(e)
    except Unsupported as e:
        res.status, res.reason = 'undecided', str(e)
    except RecursionError:
        res.status, res.reason = 'undecided', 'term too deep'
    except z3.Z3Exception as e:
        if spec.debug:
            import traceback
            traceback.print_exc()
        res.status, res.reason = 'undecided', 'solver: %s' % e
    # a failure found before the engine gave up still counts
    if res.status == 'undecided' and any(o.status == 'failed' for o in ex.obls):
        res.status = 'failed'
    res.obls = ex.obls
    res.time = time.time() - t0
    res.solver = ex.solver_time
    res.modelled = ex.modelled
    res.trusted, res.used, res.inlined = ex.trusted, ex.used_contracts, ex.inlined
    return res
