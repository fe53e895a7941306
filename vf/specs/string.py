"""String: a vector of bytes whose allocator leaves a null character after every block (see NullTerminatorAllocator)."""
from .util import *
from .vector import Vec, SliceArg
from ..models import model, set_at, get_at, both_ways, nxt, nxtb, sl_next, NOMODEL, Multi, M
from ..core import *
from ..core import I, B

NULLTERM = 'string::null_terminator_allocator::NullTerminatorAllocator'

# AT(i): a byte position the solver may look at. SH(i) marks i and the positions around it.
AT = z3.Function('AT', z3.IntSort(), z3.BoolSort())
SH = z3.Function('SH', z3.IntSort(), z3.BoolSort())


def at_axioms():
    i = z3.Int('ati')
    return [z3.ForAll([i], z3.Implies(SH(i), z3.And([AT(i + k) for k in range(-4, 5)])), patterns=[SH(i)])]


def cont(b):
    return And(le(128, b), lt(b, 192))


def widths(b):
    return [lt(b, 128), And(le(0xC2, b), lt(b, 0xE0)), And(le(0xE0, b), lt(b, 0xF0)), And(le(0xF0, b), lt(b, 0xF5))]


def char_at(rd, i, n):
    """for each width: the bytes from i on are one character of that width, inside the text"""
    b = [rd(add(i, k)) for k in range(4)]
    w = widths(b[0])
    second = [None, cont(b[1]),
              And(cont(b[1]), Imp(eq(b[0], 0xE0), le(0xA0, b[1])), Imp(eq(b[0], 0xED), le(b[1], 0x9F))),
              And(cont(b[1]), Imp(eq(b[0], 0xF0), le(0x90, b[1])), Imp(eq(b[0], 0xF4), le(b[1], 0x8F)))]
    out = [And(w[0], le(add(i, 1), n))]
    for k in (1, 2, 3):
        out.append(And([w[k], le(add(i, k + 1), n), second[k]] + [cont(b[j]) for j in range(2, k + 1)]))
    return out


def covered(rd, i):
    """a continuation byte belongs to a character that starts before it"""
    b = [rd(sub(i, k)) for k in range(4)]
    w = [widths(x) for x in b]
    return Or(And(le(1, i), Or(w[1][1], w[1][2], w[1][3])),
              And(le(2, i), cont(b[1]), Or(w[2][2], w[2][3])),
              And(le(3, i), cont(b[1]), cont(b[2]), w[3][3]))


def byte_ok(rd, i, n):
    b = rd(i)
    return And(le(0, b), lt(b, 256), If(cont(b), covered(rd, i), Or(char_at(rd, i, n))))


def valid(rd, n, goal):
    """the bytes rd(0) .. rd(n - 1) are UTF-8"""
    i = z3.Int('u!%d' % serial())
    body = B(Imp(And(le(0, i), lt(i, n)), byte_ok(rd, i, n)))
    if goal:
        return z3.ForAll([i], z3.Implies(SH(i), body), patterns=[SH(i)])
    return z3.ForAll([i], body, patterns=[AT(i)])


def decode(rd, i, w):
    b = [rd(add(i, k)) for k in range(w)]
    if w == 1:
        return b[0]
    v = sub(b[0], {2: 0xC0, 3: 0xE0, 4: 0xF0}[w])
    for x in b[1:]:
        v = add(mul(v, 64), sub(x, 128))
    return v


LIMITS = (0x80, 0x800, 0x10000, 0x110000)


def width_is(c, w):
    return And(le(LIMITS[w - 2] if w > 1 else 0, c), lt(c, LIMITS[w - 1]))


def width(c):
    return If(lt(c, 0x80), 1, If(lt(c, 0x800), 2, If(lt(c, 0x10000), 3, 4)))


def encoded(c, w):
    """the bytes of a character of that width"""
    c = I(c)
    if w == 1:
        return [c]
    out = []
    for k in range(w - 1):
        out.insert(0, 128 + c % 64)
        c = c / 64
    return [c + {2: 0xC0, 3: 0xE0, 4: 0xF0}[w]] + out


def is_enc(rd, i, c):
    """the bytes from i on are character c"""
    return And([Imp(width_is(c, w), And([eq(rd(add(i, k)), e) for k, e in enumerate(encoded(c, w))])) for w in (1, 2, 3, 4)])


def reader(ex, st, fat):
    key = ex.canon(ex.u8(), ())
    q = fat.ptr
    return lambda i: ex.hread(st, key, q.obj, add(q.idx, i))


def boundary(rd, n, i):
    return Or(eq(i, 0), eq(i, n), And(lt(i, n), Not(cont(rd(i)))))


# ---------------------------------------------------------------- str, as its documentation has it
def is_str(ex, ty):
    return ex.p.s(ex.p.strip(ty)) == 'str'


@model('core::str::converts::from_utf8_unchecked', 'core::str::converts::from_utf8_unchecked_mut')
def utf8_unchecked(ex, st, c):
    f = c.args[0]
    for a in at_axioms():
        ex.assume(st, a)
    ex.prove(st, valid(reader(ex, st, f), f.len, True), 'viewed as text, the bytes are UTF-8', c.line, 'post')
    ex.assume(st, valid(reader(ex, st, f), f.len, False))
    return f


@model('core::str::<impl str>::is_char_boundary')
def is_char_boundary(ex, st, c):
    f, i = c.args
    if not isinstance(f, Fat):
        return NOMODEL
    st.pc.append(AT(I(i)))
    return boundary(reader(ex, st, f), f.len, i)


@model('core::str::<impl str>::get', 'core::str::<impl str>::get_mut')
def str_get(ex, st, c):
    f, r = c.args
    n = ex.p.types[ex.p.strip(c.argtys[1])].get('n', '')
    rd = reader(ex, st, f)
    if n == 'core::ops::range::RangeFrom':
        lo, hi = r.f[0], f.len
    elif n == 'core::ops::range::RangeTo':
        lo, hi = 0, r.f[0]
    elif n == 'core::ops::range::Range':
        lo, hi = r.f
    else:
        return NOMODEL
    st.pc.append(z3.And(AT(I(lo)), AT(I(hi))))
    ok = And(le(lo, hi), boundary(rd, f.len, lo), boundary(rd, f.len, hi))
    return both_ways(ex, st, ok, lambda s: some(part(f, lo, hi)), lambda s: NONE)


def part(f, lo, hi):
    return Fat(Ptr(f.ptr.obj, add(f.ptr.idx, lo), f.ptr.base, f.ptr.path), sub(hi, lo))


@model('core::str::<impl str>::chars')
def chars(ex, st, c):
    return It('chars', fat=c.args[0], lo=0, hi=c.args[0].len)


@model('core::str::<impl str>::bytes')
def bytes_(ex, st, c):
    f = c.args[0]
    return It('bytes8', fat=f, lo=0, hi=f.len)


@model('core::iter::traits::iterator::Iterator::enumerate')
def enumerate_(ex, st, c):
    return It('enum8', fat=c.args[0].fat, lo=c.args[0].lo, hi=c.args[0].hi, k=0) if isinstance(c.args[0], It) and c.args[0].kind == 'bytes8' else NOMODEL


@nxt('bytes8')
def bytes_next(ex, st, c, ref, v):
    def yes(s):
        set_at(ex, s, ref, v.but(lo=add(v.lo, 1)), ex.p.pointee(c.argtys[0]))
        x = reader(ex, s, v.fat)(v.lo)
        ex.in_range(s, x, ex.u8())
        return some(x)
    return both_ways(ex, st, lt(v.lo, v.hi), yes, lambda s: NONE)


@nxtb('bytes8')
def bytes_next_back(ex, st, c, ref, v):
    def yes(s):
        set_at(ex, s, ref, v.but(hi=sub(v.hi, 1)), ex.p.pointee(c.argtys[0]))
        x = reader(ex, s, v.fat)(sub(v.hi, 1))
        ex.in_range(s, x, ex.u8())
        return some(x)
    return both_ways(ex, st, lt(v.lo, v.hi), yes, lambda s: NONE)


@nxt('enum8')
def enum_next(ex, st, c, ref, v):
    def yes(s):
        set_at(ex, s, ref, v.but(lo=add(v.lo, 1), k=add(v.k, 1)), ex.p.pointee(c.argtys[0]))
        x = reader(ex, s, v.fat)(v.lo)
        ex.in_range(s, x, ex.u8())
        return some(S([v.k, x]))
    return both_ways(ex, st, lt(v.lo, v.hi), yes, lambda s: NONE)


def char_cases(ex, st, c, ref, v, back):
    rd = reader(ex, st, v.fat)
    none, any_ = ex.fork(st, le(v.hi, v.lo))
    out = [(none, NONE)] if none is not None else []
    if any_ is not None:
        last = sub(v.hi, 1) if back else v.lo
        any_.pc.append(z3.And([AT(I(add(last, k))) for k in (0, -1, -2, -3)]))
        cases = []
        for w in (1, 2, 3, 4):
            i = sub(v.hi, w) if back else v.lo
            cases.append(And(le(v.lo, i), char_at(rd, i, v.hi)[w - 1]))
        ex.prove(any_, Or(cases), 'the text is UTF-8 where a character is taken', c.line, 'post')
        for w in (1, 2, 3, 4):
            s = any_.copy()
            ex.assume(s, cases[w - 1])
            if not ex.feasible(s):
                continue
            i = sub(v.hi, w) if back else v.lo
            code = fresh_int('char')
            s.pc.append(z3.And(code == I(decode(rd, i, w)), B(width_is(code, w))))
            s.pc.append(B(is_enc(rd, i, code)))
            set_at(ex, s, ref, v.but(hi=i) if back else v.but(lo=add(v.lo, w)), ex.p.pointee(c.argtys[0]))
            out.append((s, some(code)))
    return Multi(out)


@nxt('chars')
def chars_next(ex, st, c, ref, v):
    return char_cases(ex, st, c, ref, v, False)


@nxtb('chars')
def chars_next_back(ex, st, c, ref, v):
    return char_cases(ex, st, c, ref, v, True)


@model('core::str::iter::Chars::<\'a>::as_str')
def chars_as_str(ex, st, c):
    v = get_at(ex, st, c.args[0])
    return part(v.fat, v.lo, v.hi)


@model('core::char::methods::<impl char>::len_utf8')
def len_utf8(ex, st, c):
    x = c.args[0]
    alts = []
    for w in (1, 2, 3, 4):
        s = st.copy()
        ex.assume(s, width_is(x, w))
        if ex.feasible(s):
            alts.append((s, w))
    return Multi(alts)


@model('core::char::methods::<impl char>::encode_utf8')
def encode_utf8(ex, st, c):
    x, f = c.args
    alts = []
    for w in (1, 2, 3, 4):
        s = st.copy()
        ex.assume(s, width_is(x, w))
        if not ex.feasible(s):
            continue
        ex.panic_check(s, lt(f.len, w), 'no panic: the buffer is large enough for the character', c.line)
        for k, e in enumerate(encoded(x, w)):
            e2 = fresh_int('byte')
            s.pc.append(z3.And(e2 == I(e), e2 >= 0, e2 < 256))
            ex.write_heap(s, Ptr(f.ptr.obj, add(f.ptr.idx, k), ex.u8()), ex.u8(), e2, c.line)
        alts.append((s, Fat(f.ptr, w)))
    return Multi(alts)


def as_text(ex, v):
    """what AsRef<str> gives for a value"""
    if isinstance(v, Fat):
        return v
    o, i, n = (uf('ASREF' + x, 1, 'int')(I(v)) for x in '#in')
    return Fat(Ptr(o, i, ex.u8()), n)


@model('core::convert::AsRef::as_ref')
def as_ref(ex, st, c):
    k = ex.p.k(ex.p.strip(ex.p.pointee(c.argtys[0])))
    if k == 'param' and is_str(ex, ex.p.pointee(c.destty)):
        return as_text(ex, ex.load(st, ex.loc_of(c.args[0]), ex.p.pointee(c.argtys[0])))
    if k == 'ref' and is_str(ex, ex.p.pointee(ex.p.pointee(c.argtys[0]))):
        return ex.load(st, ex.loc_of(c.args[0]), ex.p.pointee(c.argtys[0]))
    return NOMODEL


_slice_eq = M['core::cmp::PartialEq::eq']


@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def str_eq(ex, st, c):
    ty = ex.p.strip(ex.p.pointee(c.argtys[0]))
    a, b = c.args
    s = ex.p.s(ty)
    if s in ('&str', '&[u8]', '&mut str'):
        a = ex.load(st, ex.loc_of(a), ty)
        b = ex.load(st, ex.loc_of(b), ty)
        s = 'str'
    if s not in ('str', '[u8]') or not isinstance(a, Fat) or not isinstance(b, Fat):
        return _slice_eq(ex, st, c)
    ra, rb = reader(ex, st, a), reader(ex, st, b)
    r = fresh_bool('streq')
    st.pc.append(z3.Implies(r, B(same_text(ra, a.len, rb, b.len))))
    k = fresh_int('diff')
    st.pc.append(z3.Implies(z3.Not(r), z3.Or(B(ne(a.len, b.len)), z3.And(k >= 0, k < I(a.len), I(ra(k)) != I(rb(k))))))
    return Not(r) if c.path.endswith('ne') else r


def same_text(ra, na, rb, nb):
    return And(eq(na, nb), forall(lambda k: Imp(And(le(0, k), lt(k, na)), eq(ra(k), rb(k)))))


def branch_model(ex, st, c):
    v = c.args[0]
    d = ex.p.types[ex.p.strip(c.argtys[0])]
    if not isinstance(v, En) or d.get('n') != 'core::option::Option':
        return NOMODEL
    # ControlFlow::Continue(x) is variant 0, Break(residual) is variant 1
    out = []
    yes, no = ex.fork(st, eq(v.d, 1))
    if yes is not None and 1 in v.vs:
        out.append((yes, En(0, {0: [v.vs[1][0]]})))
    if no is not None:
        out.append((no, En(1, {1: [NONE]})))
    return Multi(out)


M['core::ops::try_trait::Try::branch'] = branch_model


@model('core::ops::try_trait::FromResidual::from_residual')
def from_residual(ex, st, c):
    return NONE if ex.p.types[ex.p.strip(c.destty)].get('n') == 'core::option::Option' else NOMODEL


# ---------------------------------------------------------------- String
class Str(Vec):
    def __init__(self, ex, st, val, ty):
        ty = ex.p.strip(ty)
        if ex.p.types[ty].get('n') != 'string::String':
            raise LostAnchor('lost anchor: %s is no String' % ex.p.s(ty))
        v, vt = field(ex, ty, val, 'vec', 0)
        Vec.__init__(self, ex, st, v, vt)
        if ex.p.types[self.aty].get('n') != NULLTERM:
            raise LostAnchor('lost anchor: the allocator of a string leaves a null character')

    def rd(self, i):
        return self.ex.hread(self.st, self.ex.canon(self.ety, ()), self.obj, i)

    def terminated(self):
        return Imp(ne(self.obj, 0), eq(self.rd(self.len), 0))

    def inv(self, goal=False, term=True):
        out = Vec.inv(self)
        if term:
            out = out + [('the text is followed by a null character', self.terminated())]
        return out + [('the text is UTF-8', valid(self.rd, self.len, goal))]


def strv(cx, i=0, st=None):
    st = cx.old if st is None else st
    return Str(cx.ex, st, cx.val(i, st), cx.valty(i))


def resstr(cx):
    return Str(cx.ex, cx.st, cx.res, cx.destty)


def room_axiom(ex):
    """the cell after a block of a string's allocator starts as a null character: proved for NullTerminatorAllocator under P27"""
    out = []
    o = z3.Int('ro')
    for t, d in enumerate(ex.p.types):
        if d.get('n') == NULLTERM:
            for k, v in tail_of(ex, o):
                out.append(z3.ForAll([o], z3.Implies(made_by(o) == ex.tycode(t), v == 0), patterns=[made_by(o)]))
    return out


def tail_of(ex, o):
    from ..models import tail
    return tail(ex, o, ex.u8())


class SC(Contract):
    """on &self / &mut self of a string"""
    mut = False
    term = True

    def setup(self, cx):
        cx.st.pc.extend(at_axioms() + room_axiom(cx.ex))

    def axioms(self, cx):
        return [('', a) for a in at_axioms() + room_axiom(cx.ex)]

    def requires(self, cx):
        return strv(cx).inv(cx.caller, self.term)

    def footprint(self, cx):
        return strv(cx).fp() if self.mut else FP()

    def post_footprint(self, cx):
        return strv(cx, 0, cx.st).fp() if self.mut else FP()

    def post(self, cx, o, n):
        return []

    def ensures(self, cx):
        o = strv(cx)
        if self.mut:
            n = strv(cx, 0, cx.st)
            # the relation to the text before comes first: that the new one is UTF-8 follows from it
            inv = n.inv(not cx.caller)
            return inv[:-1] + self.post(cx, o, n) + inv[-1:]
        return self.post(cx, o, o)


CONTRACTS = []


def contract(cls):
    CONTRACTS.append(cls)
    return cls


class Num(SC):
    pure = True
    inline = True

    def post(self, cx, o, n):
        return [('result', eq(cx.res, self.result(o)))]


for _n, _f in (('len', lambda o: o.len), ('capacity', lambda o: o.cap), ('is_empty', lambda o: eq(o.len, 0)), ('is_full', lambda o: eq(o.len, o.cap))):
    CONTRACTS.append(type('Str_' + _n, (Num,), {'key': 'string::String::' + _n, 'result': (lambda f: lambda self, o: f(o))(_f)}))


class View(SC):
    inline = True
    pure = True

    def post(self, cx, o, n):
        r = cx.res
        return [('as long as the text', eq(r.len, o.len)), ('it is the text', Imp(lt(0, o.len), And(eq(r.ptr.obj, o.obj), eq(r.ptr.idx, 0))))]


for _k in ('string::String::as_bytes', 'string::String::as_str', '<string::String as AsRef<[u8]>>::as_ref', '<string::String as AsRef<str>>::as_ref', '<string::String as Deref>::deref', '<string::String as DerefMut>::deref_mut'):
    CONTRACTS.append(type('View_', (View,), {'key': _k}))


class NewStr(SC):
    pure = True

    def requires(self, cx):
        return []

    def ensures(self, cx):
        n = resstr(cx)
        return n.inv(not cx.caller) + [('empty', And(eq(n.obj, 0), eq(n.len, 0), eq(n.cap, 0)))]

    def post_footprint(self, cx):
        return resstr(cx).fp()


for _k in ('string::String::new', 'string::String::new_in', '<string::String as Default>::default'):
    CONTRACTS.append(type('NewStr_', (NewStr,), {'key': _k}))


@contract
class WithCapacity(NewStr):
    key = 'string::String::with_capacity'
    pure = False

    def may_panic(self, cx):
        return gt(cx.args[0], max_elems(cx.ex, cx.old, cx.ex.u8()))

    def ensures(self, cx):
        n = resstr(cx)
        return n.inv(not cx.caller) + [('empty', eq(n.len, 0)), ('capacity', eq(n.cap, cx.args[0]))]


class Text:
    """a text argument: &str, or a value that is viewed as text"""

    def __init__(self, cx, i):
        self.fat = as_text(cx.ex, cx.args[i])
        self.len, self.obj = self.fat.len, self.fat.ptr.obj
        self.rd = reader(cx.ex, cx.old, self.fat)

    def req(self, cx):
        ex, st, f = cx.ex, cx.old, self.fat
        return [('the text is readable UTF-8', And(le(0, f.len), lt(f.len, 2 ** 63), gt(f.ptr.obj, 0), le(0, f.ptr.idx), Imp(lt(0, f.len), And(ex.alive(st, f.ptr.obj), le(add(f.ptr.idx, f.len), ex.blen(st, f.ptr.obj)))))),
                ('the text is UTF-8', valid(self.rd, f.len, cx.caller))]


def is_text(n, t):
    return [('as long as the text', eq(n.len, t.len)), ('the bytes of the text', forall(lambda i: Imp(And(le(0, i), lt(i, t.len)), eq(n.rd(i), t.rd(i)))))]


@contract
class Assign(SC):
    key = 'string::String::assign'
    mut = True

    def requires(self, cx):
        t = Text(cx, 1)
        return SC.requires(self, cx) + t.req(cx) + [('the text is not its own', Or(eq(t.len, 0), ne(t.obj, strv(cx).obj)))]

    def may_panic(self, cx):
        return gt(add(strv(cx).cap, add(Text(cx, 1).len, 1)), max_elems(cx.ex, cx.old, cx.ex.u8()))

    def post(self, cx, o, n):
        return is_text(n, Text(cx, 1))


class FromText(NewStr):
    pure = False
    i = 0

    def requires(self, cx):
        return Text(cx, self.i).req(cx)

    def may_panic(self, cx):
        return ge(Text(cx, self.i).len, max_elems(cx.ex, cx.old, cx.ex.u8()))

    def ensures(self, cx):
        n = resstr(cx)
        inv = n.inv(not cx.caller)
        return inv[:-1] + is_text(n, Text(cx, self.i)) + inv[-1:]


for _k in ('string::String::from_in', '<string::String as From<&str>>::from'):
    CONTRACTS.append(type('FromText_', (FromText,), {'key': _k}))


@contract
class FromStr(FromText):
    key = '<string::String as FromStr>::from_str'

    def then(self, cx, st, val):
        # Ok(string): look at the string
        cx.extra['ok'] = val
        return None

    def val(self, cx):
        r = cx.res
        if not isinstance(r, En) or 0 not in r.vs:
            raise LostAnchor('from_str is Ok')
        return Str(cx.ex, cx.st, r.vs[0][0], cx.p.types[cx.p.strip(cx.destty)]['args'][0])

    def results(self, cx):
        return [(cx.st, En(0, {0: [cx.ex.fresh(cx.st, cx.p.types[cx.p.strip(cx.destty)]['args'][0], 'ret')]}))]

    def ensures(self, cx):
        n = self.val(cx)
        inv = n.inv(not cx.caller)
        return [('Ok', eq(cx.res.d, 0))] + inv[:-1] + is_text(n, Text(cx, 0)) + inv[-1:]

    def post_footprint(self, cx):
        return self.val(cx).fp()


@contract
class CloneS(SC):
    key = '<string::String as Clone>::clone'

    def may_panic(self, cx):
        return gt(strv(cx).len, max_elems(cx.ex, cx.old, cx.ex.u8()))

    def ensures(self, cx):
        o, n = strv(cx), resstr(cx)
        inv = n.inv(not cx.caller)
        return inv[:-1] + is_text(n, o) + inv[-1:]

    def post_footprint(self, cx):
        return resstr(cx).fp()


@contract
class EqS(SC):
    key = '<string::String as PartialEq<string::String<A>>>::eq'
    pure = True

    def requires(self, cx):
        return strv(cx).inv(cx.caller) + strv(cx, 1).inv(cx.caller)

    def ensures(self, cx):
        a, b = strv(cx), strv(cx, 1)
        return [('equal exactly if the texts are', eq(cx.res, same_text(a.rd, a.len, b.rd, b.len)))]


@contract
class Reserve(SC):
    key = 'string::String::reserve'
    mut = True
    term = True

    def may_panic(self, cx):
        return gt(add(strv(cx).cap, add(cx.args[1], 1)), max_elems(cx.ex, cx.old, cx.ex.u8()))

    def post(self, cx, o, n):
        return [('room for as much more', le(add(o.cap, cx.args[1]), n.cap))] + is_text(n, o)


@contract
class Terminate(SC):
    key = 'string::String::null_terminate'
    mut = True
    term = False
    inline = True

    def requires(self, cx):
        return strv(cx).inv(cx.caller, False)

    def post(self, cx, o, n):
        return is_text(n, o) + [('capacity kept', And(eq(n.cap, o.cap), eq(n.obj, o.obj)))]


def kept(n, o, lo, hi, shift=0):
    return forall(lambda k: Imp(And(le(lo, k), lt(k, hi)), eq(n.rd(k), o.rd(add(k, shift)))))


def marks(xs):
    return z3.And([SH(I(x)) for x in xs])


@contract
class Insert(SC):
    key = 'string::String::insert'
    mut = True

    def at(self, cx):
        return cx.args[1]

    def char(self, cx):
        return cx.args[2]

    def may_panic(self, cx):
        o = strv(cx)
        return Or(Not(boundary(o.rd, o.len, self.at(cx))), gt(add(mul(8, o.cap), 8), max_elems(cx.ex, cx.old, cx.ex.u8())))

    def post(self, cx, o, n):
        i, c = self.at(cx), self.char(cx)
        w = width(c)
        return [('longer by that character', eq(n.len, add(o.len, w))), ('the text before is kept', kept(n, o, 0, i)),
                ('the text after moves up', kept(n, o, add(i, w), n.len, sub(0, w))), ('the character is there', is_enc(n.rd, i, c))]

    def setup(self, cx):
        SC.setup(self, cx)
        cx.st.pc.append(SH(I(self.at(cx))))


@contract
class Push(Insert):
    key = 'string::String::push'

    def at(self, cx):
        return strv(cx).len

    def char(self, cx):
        return cx.args[1]


class TakeChar(SC):
    mut = True

    def results(self, cx):
        a, b = cx.ex.fork(cx.st, self.some(cx, strv(cx)))
        out = []
        if a is not None:
            out.append((a, some(cx.ex.fresh(a, cx.p.types[cx.destty]['args'][0], 'char'))))
        if b is not None:
            out.append((b, NONE))
        return out

    def post(self, cx, o, n):
        r = cx.res
        c = self.some(cx, o)
        out = [('Some exactly when there is one', eq(eq(r.d, 1), c))]
        if 1 in r.vs:
            x = r.vs[1][0]
            w = width(x)
            i = self.at(cx, o, n)
            out += [('shorter by that character', Imp(c, eq(n.len, sub(o.len, w)))), ('it is the character that was there', Imp(c, is_enc(o.rd, i, x))),
                    ('the text before is kept', Imp(c, kept(n, o, 0, i))), ('the text after moves down', Imp(c, kept(n, o, i, n.len, w)))]
        return out + [('otherwise unchanged', Imp(Not(c), And([g for _, g in is_text(n, o)])))]


@contract
class Pop(TakeChar):
    key = 'string::String::pop'

    def some(self, cx, o):
        return lt(0, o.len)

    def at(self, cx, o, n):
        return n.len


@contract
class Remove(TakeChar):
    key = 'string::String::remove'

    def some(self, cx, o):
        i = cx.args[1]
        return And(lt(i, o.len), boundary(o.rd, o.len, i))

    def at(self, cx, o, n):
        return cx.args[1]

    def setup(self, cx):
        SC.setup(self, cx)
        cx.st.pc.append(SH(I(cx.args[1])))
