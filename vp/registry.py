"""The properties, how each is decided, and what the analysis relies on."""
import json, os, sys, time

ASSUME_ELEM = 'Ord, Eq, Hash and Clone of the element type are lawful (a total order; a clone equals its original)'
ASSUME_MODEL = 'the models in vp/models.py and vp/maps.py of core, alloc and std functions describe them correctly'
ASSUME_RUSTC = 'the MIR exported by the nightly compiler (-Zmir-opt-level=0) means what the source means'


ASSUME_SIZE = 'a buffer has at most isize::MAX slots, which allocation enforces'
RING_EXPL = ('Abstract interpretation of the monomorphic MIR of the buffer operations and everything they call, at an opaque element type. The abstract '
             'buffer has a symbolic number of slots, start and end under linear inequalities (wrapped or not) and its storage is a list of segments '
             '(unused, or consecutive elements of a named source), so straight-line operations are covered for every buffer. Loops over elements are '
             'followed for the number of rounds given in loop_rounds; longer runs of a loop are listed as not followed. In addition each operation is followed '
             'completely on buffers of fixed sizes (about 70 and 130 elements; thorough 300 and 1100), and at an element type without drop glue. Numbers passed by the '
             'caller range up to usize::MAX. The debug and the release build are analysed, and, if the crate holds large size constants, a third program in '
             'which these are made small.')


FIXED = (' In addition operations are followed completely on fixed contents (up to 140 entries; thorough 300). The debug and the release build are analysed, '
         'and, if the crate holds large size constants, a third program in which these are made small.')

MAP_EXPL = ('Abstract interpretation of the monomorphic MIR of the operations of src/counter and everything they call down to the hash map, at an opaque element '
            'type and hasher. A hash map is a finite function with unknown content: looking up a key whose relation to the known keys is open splits on it, and '
            'on whether the map holds the key; iteration visits every present key once in every order. Counts are symbols under linear inequalities. The result '
            'is compared with the specification at an arbitrary element, so all elements are covered. Loops over entries or items are followed for the number '
            'of rounds given in loop_rounds; the maps themselves have any size.' + FIXED)

FOREST_EXPL = ('Abstract interpretation of the monomorphic MIR of the operations of src/disjoint_set and everything they call down to the hash map, at an opaque '
               'element type and hasher. The element table is a finite function with unknown content whose values are distinct node numbers; the node table is an '
               'unknown forest of any size: reading an unknown node splits on whether it is a root or lies below another node of greater rank, and on which known '
               'node that is. Operations are judged by comparing the new forest with the old one, so the result holds for every history by induction. Chains of '
               'links are followed up to the length in chain_length and loops over items for the rounds in loop_rounds; the tables themselves have any size.' + FIXED)


class Spec:
    both = True

    def __init__(self, pid, run, floor, explanation, rule, assumptions, needs=()):
        self.pid = pid
        self.run = run
        self.floor = floor
        self.explanation = explanation
        self.rule = rule
        self.assumptions = assumptions
        self.needs = needs

    programs = False

    def missing(self, prog):
        return ['public operation not found: ' + n for n in self.needs if prog.entry(n) is None]


def get(pid):
    if pid.startswith('I'):
        from . import p_interval as m
        if pid not in m.PROPS:
            return None
        f, floor = m.PROPS[pid]
        return Spec(pid, f, floor,
                    'Abstract interpretation of the monomorphic MIR of the operations of src/interval and everything they call, at an opaque totally '
                    'ordered element type whose values the code can only compare, clone, hash, show and combine. The abstract state holds the order '
                    'relations between values, so the analysis covers every interval and value of every such type; all branches are followed.',
                    m.RULE, [ASSUME_ELEM, ASSUME_MODEL, ASSUME_RUSTC])
    if pid in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11'):
        from . import p_ring as m
        if pid not in m.PROPS:
            return None
        f, floor = m.PROPS[pid]
        return Spec(pid, f, floor, RING_EXPL, m.RULES[pid], [ASSUME_ELEM, ASSUME_MODEL, ASSUME_RUSTC, ASSUME_SIZE])
    if pid[0] in 'KD':
        from . import p_counter, p_dset
        m = p_counter if pid[0] == 'K' else p_dset
        if pid not in m.PROPS:
            return None
        f, floor = m.PROPS[pid]
        return Spec(pid, f, floor, MAP_EXPL if pid[0] == 'K' else FOREST_EXPL, m.RULES[pid], [ASSUME_ELEM, ASSUME_MODEL, ASSUME_RUSTC])
    if pid == 'C12':
        from . import p_types as m
        s = Spec(pid, m.C12, 150,
                    'Client programs are type-checked against the current crate. Each pair differs in one line; the program with the line has to be rejected '
                    'with a borrow, mutability, privacy or auto-trait error and its twin without the line accepted (or, for the auto traits that must hold, both accepted).',
                 'rejected with one of the error codes listed for the witness, while the twin compiles', [ASSUME_RUSTC])
        s.both = False
        s.programs = True
        return s
    if pid == 'H01':
        from . import p_types as m
        s = Spec(pid, m.H01, 20,
                    'Client functions are type-checked against the current crate: each accepts a value of one hash collection type only if its hasher type is the '
                    'documented one. The operations are generic over the hasher type, so they can only use the hasher they are given or the default one of that type.',
                 'the function with the line is accepted (or rejected with a type mismatch, where the hashers have to differ), as is its twin without it', [ASSUME_RUSTC])
        s.both = False
        s.programs = True
        return s
    if pid == 'T01':
        from . import p_types as m
        s = Spec(pid, m.T01, 160,
                    'Generic client functions are type-checked against the current crate, one per operation, at an element type (and hasher) that is only known to have '
                    'the abilities the operation is documented to need: type checking a generic function covers every instance of it.',
                 'the function with the operation is accepted, as is its twin without it', [ASSUME_RUSTC])
        s.both = False
        s.programs = True
        return s
    return None


def no_program(pid, err, tier, seed):
    """The client crate that mentions every public operation does not type-check against /repo."""
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    os.makedirs(os.path.join(root, 'evidence'), exist_ok=True)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
               'coverage': {'explanation': 'nothing analysed: the client crate using the documented operations does not build', 'error': err[-3000:]},
               'wall_s': 0, 'violations': 0}, open(os.path.join(root, 'evidence', pid + '.json'), 'w'))
    print(err[-3000:])
    print('%s: not decided: the client crate that uses the documented operations does not build against this tree' % pid)
    return 0


def notes(pid):
    """(technique, level note) for the manifest"""
    if pid == 'I12':
        return ('abstract interpretation of MIR with unwinding (weak-order domain over the bound values)',
                'One panic at each call out to arithmetic, clone or drop of the bound type, on every path, for every interval over every ordered type. '
                'Comparisons are taken not to panic. Trusts the models of library functions and the MIR export.')
    if pid.startswith('I'):
        return ('abstract interpretation of MIR (weak-order domain over the bound values)',
                'Covers every ordered element type, value and closedness: the analysed code can only compare the values, and all order relations '
                'between them are enumerated on every branch. Trusts the models of library functions and the MIR export; assumes a lawful total order.')
    if pid == 'C12':
        return ('compile-fail witnesses against the current crate (borrow checker, privacy and auto-trait rules)',
                'Each witness is one ill-typed client program next to an accepted twin; safe programs outside the witnessed shapes are covered only '
                'as far as they reduce to them.')
    if pid == 'H01':
        return ('type-identity witnesses checked by the compiler against the current crate',
                'Decides which hasher each collection type uses; that RandomState is keyed at random is the standard library, and that no generic operation '
                'makes up another hasher follows from its type.')
    if pid == 'T01':
        return ('type checking of generic client functions against the current crate (trait bounds and lifetimes)',
                'Decided for every element type and hasher at once, since the functions are generic; covers the listed operations, one function each.')
    if pid == 'C11':
        return ('abstract interpretation of MIR counting library calls and loop rounds',
                'Buffers of every size and position; an operation that must take constant work may not loop or call anything whose work depends on '
                'the size of the buffer.')
    if pid.startswith('C'):
        return ('abstract interpretation of MIR (linear-inequality and array-segmentation domains, trace partitioning)',
                'Buffers of every size, wrapped or not, at an opaque element type. Loops over elements are followed for 3 rounds (quick) or 6 (thorough), '
                'so results of element-wise loops are decided for that many iterations, and completely for fixed sizes up to 130 (1100) slots; straight-line code and bulk library calls have no bound. '
                'Trusts the models of library functions and the MIR export.')
    if pid == 'D05':
        return ('abstract interpretation of MIR (finite-map domain)',
                'Every capacity and hasher; straight-line code, so no bound. Trusts the models of library functions and the MIR export.')
    if pid == 'D07':
        return ('abstract interpretation of MIR (lower bounds of capacities, finite-map and union-forest domains)',
                'Every requested capacity up to 2^48 and collections of every content; constructors and reserve are straight-line code, loops over items '
                'are followed for 4 rounds. Trusts the models of library functions (what a requested capacity guarantees) and the MIR export.')
    if pid in ('K07', 'D08'):
        return ('abstract interpretation of MIR counting library calls and loop rounds',
                'Collections of every content and size; an operation that must take constant work may not loop or call anything whose work depends on the '
                'size of the collection. One operation of a hash map counts as one step.')
    if pid in ('K06', 'D06'):
        return ('abstract interpretation of MIR with unwinding (finite-map and union-forest domains, trace partitioning)',
                'One panic at each call out to code of the caller, on every path; collections of every content. Loops over entries or items are followed for '
                '3 rounds. Trusts the models of library functions (among them what a hash map keeps when a callback panics) and the MIR export.')
    if pid.startswith('K'):
        return ('abstract interpretation of MIR (finite-map domain, linear inequalities over counts, trace partitioning)',
                'Counters of every content at an opaque element and hasher type. Loops over entries or items are followed for 4 rounds (quick) or 5-6 '
                '(thorough) from an unknown content, and completely from fixed contents of up to 140 (300) elements; the result is judged at an arbitrary element. Trusts the models of library functions and the MIR export.')
    if pid.startswith('D'):
        return ('abstract interpretation of MIR (finite-map and union-forest domains, trace partitioning)',
                'Disjoint sets of every size and shape, each operation judged against its effect on an unknown forest (induction over histories). Link chains are '
                'followed for 3-4 links per lookup and loops for 3-5 rounds from an unknown forest, and completely in fixed forests of up to 140 (thorough 300) elements '
                'and chains of 20 (40) links. Trusts the models of library functions and the MIR export.')
    return ('', '')
