"""The properties: which functions carry them, which obligations decide them, which executions cross-check them."""
import re


NOTE = ('Every function listed in the evidence is proved against its contract for all inputs, element types and allocators, from the MIR of the current source. '
        'Trusted: rustc up to MIR, the MIR-to-formula translation in vf and its models of library functions, z3 and cvc5, and that element and allocator code behaves. '
        'A function the verifier cannot follow after a change is reported as undecided and only executed, which is not counted as proof.')

NA = {
    'P28': 'a statement about which client programs type-check (lifetimes, Send and Sync); contracts on function bodies speak about executions and cannot express it',
    'P29': 'the verifier ends a path at a panic: what unwinding does to a half-changed container would need contracts for exceptional exits of every callee, which vf does not have',
}


class Prop:
    def __init__(self, cat, pats, suites, kinds, files=(), level='proof', assumptions=(), skip=(), note=''):
        self.cat, self.pats, self.suites, self.kinds = cat, pats, suites, kinds
        self.files, self.level, self.assumptions, self.skip = tuple(files), level, list(assumptions), skip
        self.note = note or NOTE

    def functions(self, spec):
        out = []
        for p in self.pats:
            for k in spec.contracts:
                if re.fullmatch(p, k) and k not in out and not any(re.fullmatch(s, k) for s in self.skip):
                    out.append(k)
        return out


def sem(o):
    return o['kind'] not in ('leak', 'ownership', 'frame')


def mem(o):
    return o['kind'] != 'post' or 'rep: ' in o['name']


def nul(o):
    return mem(o) or 'null character' in o['name']


def place(o):
    return o['kind'] not in ('leak', 'ownership', 'frame') and (o['kind'] != 'post' or re.search('rep: |bucket|end marker|load factor|resize|grows|at the earliest|factors', o['name']))


RELEVANT = {'place': place, 'sem': sem, 'mem': mem, 'all': lambda o: True, 'text': lambda o: sem(o) and 'null character' not in o['name'], 'nul': nul}

STR = r'(<)?string::String\b.*'
NULLTERM = r'<string::null_terminator_allocator::.*'
LIST = r'(<)?list::.*'
DEQ = r'(<)?deque::.*'
DEQI = r'(<)?deque::iter::.*|deque::Deque::(iter|iter_mut|iter_mut_unchecked|into_iter).*'
QUEUE = r'(<)?queue::.*'
HT = r'(<)?internal::hash_table::.*'
HTI = r'<internal::hash_table::iter::.*|<hash_set::.*Iter.* as .*|internal::hash_table::iter::.*|hash_set::iter::.*|internal::hash_table::HashTable::(iter|iter_mut)|hash_map::HashMap::(iter|iter_mut)|hash_set::HashSet::iter'
HM = r'(<)?hash_map::.*'
HS = r'(<)?hash_set::.*'
VEC = r'(<)?vector::(Vector|into_iter::IntoIter)\b.*'

DEQA = ['the default nth of an iterator is next, that many times', 'elements have a size (zero sized elements are not supported by the code)', 'the array of subarray pointers has fewer than 2^28 entries (its size is a 32 bit number)',
        'Debug goes through the formatting machinery: not proved, only executed']

HTA = ['== of the keys is an equivalence and equal keys have equal hashes; both are the same whenever they are asked', 'hashes and lengths are 32 bit numbers, the remainder of a hash by the number of buckets is a number below it (nothing else about it is used)',
       'floating point numbers (the load factor) are real numbers: no rounding', 'Debug goes through the formatting machinery: not proved, only executed']

RB = r'(<)?(internal::rb_tree::RBTree|map::Map|set::Set)\b.*'
RBI = r'(<)?internal::rb_tree::(iter::.*|node::Node::next.*|RBTree::iter.*)|(map::Map|set::Set)::iter.*'
RBA = ['the comparison is a strict weak order', 'inserting and removing are not implemented in the code: trees come from C++, with parent links up to the tree itself (the words begin, end and parent are read as the first words of a node)',
       'the recursion over a tree ends (a tree is finite): termination is not proved', 'Debug goes through the formatting machinery: not proved']

POOLA = ['an alignment is a power of two and divides the size', 'a free node holds a link (the code checks it in debug builds)', 'the memory given to a pool is at least as long as what aligning its start takes',
         'blocks of the overflow allocator lie outside the memory of the pool']

FVA = ['the operations of a vector, proved for every allocator, hold for one whose first block is the buffer: the buffer counts as a block that came from the allocator of the fixed vector, which is proved to take it back without doing anything',
       'a fixed vector does not move other than by move_new (it is made in place and pinned)', 'dropping a MoveRef drops the value it refers to', 'move_new is given a new place that is uninitialised memory, and leaves the allocator of that memory in the old one (see DESIGN section 3)',
       'Debug goes through the formatting machinery: not proved']
FLA = POOLA + ['the operations of a list, proved for every allocator, hold for one over the pool, whose contracts are proved by address: a node is a slot of the pool or a block of the overflow allocator',
               'a fixed list does not move (it is made in place and pinned)', 'a list has fewer than 2^32 - 1 elements', 'the nightly-only variant (fixed_list/conformant.rs) is not compiled here', 'Debug goes through the formatting machinery: not proved']
FMA = POOLA + ['the operations of a map, proved for every allocator and every tree, hold for one over the pool, whose contracts are proved by address', 'the pool is of either kind: its init is its contract (P22), called through the trait', 'a fixed map does not move (it is made in place and pinned)']

PROPS = {
    'P01': Prop('sem', [VEC], ['vector'], 'Sem', ['src/vector/mod.rs', 'src/vector/into_iter.rs']),
    'P02': Prop('mem', [VEC], ['vector'], 'Mem', ['src/vector/mod.rs', 'src/vector/into_iter.rs']),
    'P04': Prop('text', [STR, VEC], ['string'], 'Sem', ['src/string/mod.rs'],
                assumptions=['AsRef<str> of a caller gives the same text each time', 'library functions on str and char behave as documented (encoding, decoding, boundaries)', 'Debug and Display go through the formatting machinery: not proved, only executed']),
    'P05': Prop('nul', [STR, NULLTERM, VEC], ['string'], 'Iter,Mem', ['src/string/mod.rs', 'src/string/null_terminator_allocator.rs'],
                assumptions=['AsRef<str> of a caller gives the same text each time', 'library functions on str and char behave as documented (encoding, decoding, boundaries)']),
    'P06': Prop('sem', [DEQ], ['deque'], 'Sem', ['src/deque/mod.rs', 'src/util.rs'], skip=[r'(<)?deque::iter::.*'], assumptions=DEQA),
    'P07': Prop('sem', [DEQI], ['deque'], 'Iter', ['src/deque/iter.rs', 'src/deque/mod.rs'], assumptions=DEQA),
    'P08': Prop('mem', [DEQ], ['deque'], 'Mem', ['src/deque/mod.rs', 'src/deque/iter.rs', 'src/util.rs'], assumptions=DEQA),
    'P09': Prop('sem', [QUEUE, DEQ], ['queue', 'deque'], 'Sem,Iter', ['src/queue.rs', 'src/deque/mod.rs'], skip=[r'(<)?deque::iter::.*'], assumptions=DEQA),
    'P10': Prop('sem', [LIST], ['list'], 'Sem,Iter', ['src/list/mod.rs', 'src/list/iter.rs', 'src/list/node.rs'],
                assumptions=['a list has fewer than 2^32 - 1 elements: its length is a 32 bit number, as in C++', 'the head of a list does not move (it is made in place and pinned)']),
    'P11': Prop('mem', [LIST], ['list'], 'Mem', ['src/list/mod.rs', 'src/list/iter.rs', 'src/list/node.rs'],
                assumptions=['a list has fewer than 2^32 - 1 elements: its length is a 32 bit number, as in C++', 'the head of a list does not move (it is made in place and pinned)']),
    'P12': Prop('sem', [HM, HT], ['hash_map'], 'Sem', ['src/hash_map/mod.rs', 'src/internal/hash_table/mod.rs', 'src/internal/hash_table/entry.rs', 'src/hash_map/entry.rs'], skip=[HTI], assumptions=HTA),
    'P13': Prop('sem', [HTI], ['hash_map', 'hash_set'], 'Iter', ['src/internal/hash_table/iter.rs', 'src/hash_set/iter.rs'], assumptions=HTA),
    'P14': Prop('place', [HT, HM, HS], ['hash_map', 'hash_set'], 'Place', ['src/internal/hash_table/mod.rs', 'src/internal/hash_table/rehash_policy.rs'], skip=[HTI], assumptions=HTA),
    'P15': Prop('mem', [HT, HM, HS], ['hash_map', 'hash_set'], 'Mem', ['src/internal/hash_table/mod.rs', 'src/internal/hash_table/entry.rs', 'src/internal/hash_table/iter.rs', 'src/internal/hash_table/node.rs'], assumptions=HTA),
    'P16': Prop('sem', [HS, HT], ['hash_set'], 'Sem', ['src/hash_set/mod.rs', 'src/internal/hash_table/mod.rs'], skip=[HTI, r'(<)?internal::hash_table::entry.*'], assumptions=HTA),
    'P17': Prop('all', [r'(<)?vector_map::.*'], ['vector_map'], 'Sem', ['src/vector_map/mod.rs', 'src/vector_map/entry.rs'],
                assumptions=['the comparison is a strict weak order and == of the keys agrees with it']),
    'P19': Prop('sem', [RB], ['map'], 'Sem', ['src/map/mod.rs', 'src/set/mod.rs', 'src/internal/rb_tree/mod.rs'], skip=[RBI], assumptions=RBA),
    'P20': Prop('sem', [RBI], ['map'], 'Iter', ['src/internal/rb_tree/iter.rs', 'src/internal/rb_tree/node.rs'], assumptions=RBA),
    'P21': Prop('mem', [RB], ['map'], 'Mem', ['src/internal/rb_tree/mod.rs'], skip=[RBI], assumptions=RBA),
    'P22': Prop('all', [r'(<)?fixed_pool::.*'], ['pool'], 'Sem,Mem', ['src/fixed_pool/mod.rs', 'src/fixed_pool/with_overflow.rs'], assumptions=POOLA),
    'P23': Prop('all', [r'(<)?fixed_vector::.*', VEC], ['fixed_vector'], 'Sem,Mem', ['src/fixed_vector/mod.rs', 'src/fixed_vector/allocator.rs', 'src/vector/mod.rs'], assumptions=FVA),
    'P24': Prop('all', [r'(<)?fixed_list::.*', r'(<)?fixed_pool::.*', LIST], ['fixed_list'], 'Sem,Mem', ['src/fixed_list/mod.rs', 'src/fixed_pool/mod.rs', 'src/fixed_pool/with_overflow.rs', 'src/list/mod.rs'], assumptions=FLA),
    'P30': Prop('all', [r'(<)?fixed_map::.*', r'(<)?map::Map.*', r'(<)?internal::rb_tree::RBTree.*(new|default|with_.*)', r'(<)?fixed_pool::.*'], ['map', 'pool'], 'Sem,Mem', ['src/fixed_map/mod.rs', 'src/fixed_pool/mod.rs', 'src/fixed_pool/with_overflow.rs', 'src/map/mod.rs'], assumptions=FMA),
    'P25': Prop('all', [r'<hash::.*', r'hash::.*', r'<compare::.*', r'<equals::.*'], ['hash'], 'Sem', ['src/hash.rs', 'src/compare.rs', 'src/equals.rs'],
                assumptions=['floating point numbers are real numbers: no NaN, infinities or rounding', 'a pointer to characters given to the hash points to a C string']),
    'P26': Prop('all', [r'internal::rb_tree::node::(ParentColor|Node)::_.*', r'internal::rb_tree::node::ParentColor::.*', r'<internal::rb_tree::node::ParentColor as Default>::default'], ['links'], 'Sem', [],
                assumptions=['a node is aligned to at least 8 bytes (it holds pointers)', 'nodes have distinct addresses']),
    'P27': Prop('all', [r'allocator::Allocator::.*', r'<allocator::DefaultAllocator as Allocator>::.*', r'<string::null_terminator_allocator::.*'], ['alloc'], 'Mem', ['src/allocator.rs', 'src/string/null_terminator_allocator.rs'],
                assumptions=['the global allocator returns null or a fresh block of the layout it is asked for']),
}
