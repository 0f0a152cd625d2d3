"""Properties of DisjointSet (D01-D05)."""
import itertools
from contextlib import contextmanager
from .dom import Lin, S, UMAX
from .state import *
from .report import Bad, Undecided
from . import maps as MP
from .maps import ABSENT
from . import seq as Q
from . import p_counter as PC
from .p_counter import leaves, set_at, get_at, hasher, the_map

VA, VB = Atom(('var', 'a')), Atom(('var', 'b'))


class TooDeep(Exception):
    pass


class DG:
    """Abstract disjoint sets: an unknown map from elements to node numbers (injective, onto 0..n) and an unknown
    forest of nodes in which the rank grows strictly towards the root."""

    def __init__(self, ctx, mod='dset', rounds=3, nodes=6, chain=3):
        self.ctx = ctx
        self.mod = mod
        self.eng = ctx.engine(unroll=max(rounds, chain + 1))
        self.eng.max_paths = 60000 if not thorough(ctx) else 400000
        self.nodes = nodes
        self.chain = chain
        self.deep = 0
        self.why = None
        self.fix = None
        self.chains = None
        self.a, self.b = VA, VB
        e = self.eng
        e.map_value = self.map_value
        e.new_node = self.new_node
        try:
            self.find_rep()
        except Undecided as u:
            self.why = str(u)

    # ---- unknown content ----
    def map_value(self, st, base, key):
        if not base.startswith('ids'):
            return st.fresh('count')
        st.n += 1
        v = st.sym('@n%d' % st.n)
        st.need(st.assume_le(v - st.sym('len_' + base) + 1))
        for k, p, w in MP.known(st, base):
            if p and not st.assume_ne(v, w):
                raise Stop()
        return v

    def forest_nodes(self, st, name):
        return st.ghost.get(('fo', name), ())

    def depth_of(self, st, name, idx):
        """Length of the longest known chain leading to idx."""
        d = 0
        for i, v in self.forest_nodes(st, name):
            p = self.parent(v)
            if st.lin.norm(p) == st.lin.norm(idx) and st.lin.norm(i) != st.lin.norm(p):
                d = max(d, 1 + self.depth_of(st, name, i))
        return d

    def parent(self, v):
        return v.fields[self.ipar]

    def rank(self, v):
        return v.fields[self.irank] if self.irank is not None else None

    def rank_range(self, st, rk):
        if self.sizes:
            st.need(st.assume_le(rk - (1 << 30)))
            st.need(st.assume_le(Lin(1) - rk))
        else:
            st.need(st.assume_le(rk - 63))

    def mknode(self, parent, rank):
        f = [None] * self.nfields
        f[self.ipar] = parent
        if self.irank is not None:
            f[self.irank] = rank
        return Agg(0, tuple(f))

    def new_node(self, st, name, idx):
        known = self.forest_nodes(st, name)
        k = len(known)
        # is an unknown parent of a known node this one?
        root = st.choose(('root', name, k), 2, 'node %r is a root' % idx)
        st.n += 1
        rk = st.sym('rank%d' % st.n)
        self.rank_range(st, rk)
        if root:
            v = self.mknode(idx, rk)
        else:
            if self.depth_of(st, name, idx) >= self.chain or k >= self.nodes:
                self.deep += 1
                raise Stop()
            p = st.sym('@p%d' % st.n)
            st.need(st.assume_le(p - st.sym('len_' + name) + 1))
            st.need(st.assume_ne(p, idx))
            v = self.mknode(p, rk)
        for i, w in known:
            if not st.assume_ne(i, idx):
                raise Stop()
        # rank grows towards the root
        for i, w in known:
            if st.lin.norm(self.parent(w)) == st.lin.norm(idx) and not st.assume_le(self.rank(w) - rk + 1):
                raise Stop()
            if not root and st.decide_eq(p - i):
                if not st.assume_le(rk - self.rank(w) + 1):
                    raise Stop()
            if not root and st.lin.norm(self.parent(w)) != st.lin.norm(idx):
                pass
        return v

    # ---- representation ----
    def find_rep(self):
        eng = self.eng
        st = State(eng)

        def one(st, op, args):
            outs = [o for o in eng.call_entry(st, self.mod + '::' + op, args) if o.kind == 'ret']
            outs = [o for o in outs if not o.st.taint]
            if not outs:
                raise Undecided('%s has no understood outcome' % op)
            return outs[0]      # they differ in the capacity of the table only
        o = one(st, 'with_hasher', [hasher('h')])
        ls = list(leaves(o.val))
        ms = [p for p, v in ls if isinstance(v, Obj) and v.kind == 'map']
        vs = [p for p, v in ls if isinstance(v, VecV)]
        if len(ms) != 1 or len(vs) != 1 or len(ls) != 2:
            raise Undecided('the set does not consist of a map and a vector')
        self.pmap, self.pvec = ms[0], vs[0]
        p = Ptr(o.st.alloc(o.val))
        o = one(o.st, 'make_set', [p, VA])
        st = o.st
        st.need(st.assume_rel(VA.term, VB.term, 5))
        o = one(st, 'make_set', [p, VB])
        st = o.st
        val = st.load(p.root)
        m, v = get_at(val, self.pmap), get_at(val, self.pvec)
        ids = [MP.find(eng, st, m, x) for x in (VA, VB)]
        if ids != [Lin(0), Lin(1)] or st.lin.norm(v.len) != Lin(2):
            raise Undecided('elements are not numbered by position')
        arr = st.load(v.root)
        n0, n1 = st.arr_get(arr, Lin(0)), st.arr_get(arr, Lin(1))
        if not (isinstance(n0, Agg) and isinstance(n1, Agg) and len(n0.fields) == 2 and all(isinstance(x, Lin) for x in n0.fields + n1.fields)):
            raise Undecided('a node is not a pair of numbers')
        par = [k for k in range(2) if n0.fields[k] == Lin(0) and n1.fields[k] == Lin(1)]
        rk = [k for k in range(2) if n0.fields[k] == n1.fields[k] == Lin(0)]
        self.sizes = not rk       # each node says how many elements lie below it instead
        rk = rk or [k for k in range(2) if n0.fields[k] == n1.fields[k] == Lin(1)]
        if len(par) != 1 or len(rk) != 1:
            raise Undecided('parent and rank are not recognised in a node')
        self.ipar, self.irank, self.nfields = par[0], rk[0], 2
        self.proto = val

    def pre(self, st, name='F'):
        """Any disjoint set."""
        if self.chains:
            return self.long_chains(st, self.chains, name)
        if self.fix:
            f, self.fix = self.fix, None
            try:
                return self.closed(st, f, name)
            finally:
                self.fix = f
        n = st.sym('len_ids' + name)
        st.need(st.assume_le(n - ((1 << 59) - 1)))
        st.sym('len_' + name)
        st.need(st.assume_eq(st.sym('len_' + name) - n))
        v = set_at(self.proto, self.pmap, Obj('map', ('ids' + name, (), hasher(name), Lin(0))))
        r = st.alloc(Obj('forest', (name, ())))
        return set_at(v, self.pvec, VecV(r, n))

    def closed(self, st, parents, name='F'):
        """The disjoint set whose i-th visited element has node i, with these parents."""
        v = self.pre(st, name)
        n = len(parents)
        st.need(st.assume_eq(st.sym('len_ids' + name) - n))
        if self.eng.kk:
            height = [0] * n
            for i in range(n):
                j, d = i, 0
                while parents[j] != j:
                    j, d = parents[j], d + 1
                    height[j] = max(height[j], d)
            if self.sizes:
                height = [0] * n
                for i in range(n):
                    j = i
                    height[j] += 1
                    while parents[j] != j:
                        j = parents[j]
                        height[j] += 1
            ranks = [Lin(h) for h in height]
            keys = [Atom(('kk', i)) for i in range(n)]
            self.settle(st, name, keys, parents, ranks)
            return v
        ranks = [st.sym('rank_%d' % i) for i in range(n)]
        keys = [Atom(('el', 'E', Lin(i))) for i in range(n)]
        for i, p in enumerate(parents):
            self.rank_range(st, ranks[i])
            if p != i:
                st.need(st.assume_le(ranks[i] - ranks[p] + 1))
            for j in range(i):
                st.need(st.assume_rel(keys[i].term, keys[j].term, 5))
        self.settle(st, name, keys, parents, ranks)
        return v

    def settle(self, st, name, keys, parents, ranks):
        st.ghost[('mb', 'ids' + name)] = tuple((k, True, Lin(i)) for i, k in enumerate(keys))
        st.ghost[('mbc', 'ids' + name)] = True
        st.ghost[('fo', name)] = tuple((Lin(i), self.mknode(Lin(p), ranks[i])) for i, p in enumerate(parents))

    def long_chains(self, st, d, name='F'):
        """A huge set of which two chains of d links are known, with the named elements 0 and 2 at the end and in the
        middle of the first and 1 at the end of the second."""
        self.chains = None
        try:
            v = self.pre(st, name)
        finally:
            self.chains = d
        st.need(st.assume_le(Lin(1 << 50) - st.sym('len_ids' + name)))
        st.ghost[('mb', 'ids' + name)] = tuple((Atom(('kk', k)), True, Lin(i)) for k, i in ((0, 0), (1, 100), (2, d // 2)))
        st.ghost[('fo', name)] = tuple((Lin(c + i), self.mknode(Lin(c + min(i + 1, d)), Lin(i + self.sizes))) for c in (0, 100) for i in range(d + 1))
        return v

    @contextmanager
    def fixed(self, n, forest, order=0):
        """Analyse with n named elements in this forest, following loops to their end, for a limited time."""
        nodes, self.nodes = self.nodes, n + 60
        try:
            with PC.fixed_run(self.ctx, self.eng, n, order):
                self.fix = forest
                yield
        finally:
            self.fix = None
            self.nodes = nodes

    @contextmanager
    def long(self, d, a, b):
        """Analyse lookups of two named elements at the ends of long chains."""
        with self.fixed(8, None):
            self.nodes, self.chains = 4 * d + 8, d
            self.a, self.b = (Atom(('kk', i)) for i in (a, b))
            try:
                yield
            finally:
                self.chains = None
                self.a, self.b = VA, VB

    def parts(self, st, v):
        if isinstance(v, Ptr):
            v = st.load(v.root, v.path)
        try:
            m, w = get_at(v, self.pmap), get_at(v, self.pvec)
        except (AttributeError, IndexError):
            raise Undecided('the set is %s' % type(v).__name__)
        m = the_map(st, m)
        if not isinstance(w, VecV):
            raise Undecided('the node table is %s' % type(w).__name__)
        return m, w

    def run(self, key, op, build, panics='never', st=None):
        st = st or State(self.eng)
        for st in [st]:
            args, env = build(st)
            deep = self.deep
            for o in self.ctx.outs(self.eng, key, self.eng.call_entry(st, self.mod + '::' + op, args), panics=panics):
                yield o, env
            if self.deep != deep:
                self.ctx.bnd[key] = self.ctx.bnd.get(key, 0) + self.deep - deep

    def check(self, key, st, f):
        if key.endswith('/nodes') or self.ctx.prop in ('D01', 'D03', 'D04') and not key.endswith('/elements'):
            self.ctx.check(self.eng, key, st, f)        # not about one element
        else:
            PC.each_key(self, key, st, f)

    # ---- old and new forest ----
    def old_root(self, st, name, i):
        for _ in range(self.nodes + 2):
            i2, v = MP.node(self.eng, st, name, i)
            p = self.parent(v)
            if st.decide_eq(p - i2):
                return i2
            i = p
        raise Stop()

    def table(self, st, w):
        """Writes made to the unknown table, or the known small table: (name, {writes})."""
        f = st.load(w.root)
        if isinstance(f, Obj) and f.kind == 'forest':
            return f.data
        raise Undecided('the node table is %s' % type(f).__name__)

    def new_node_at(self, st, w, i):
        f = st.load(w.root)
        if isinstance(f, Obj) and f.kind == 'forest':
            v = MP.forest_get(self.eng, st, f, i)
        else:
            v = st.arr_get(f, i)
        if not (isinstance(v, Agg) and isinstance(self.parent(v), Lin)):
            raise Undecided('a node is %s' % (v,))
        return v

    def new_root(self, st, w, i, limit=None):
        """Follow the parents in the table as it is now."""
        seen = []
        for _ in range((limit or self.nodes) + 4):
            v = self.new_node_at(st, w, i)
            p = self.parent(v)
            if not st.decide_lt(p, w.len):
                raise Bad('a parent link leaves the table')
            if st.decide_eq(p - i):
                return st.lin.norm(i)
            seen.append(i)
            if any(st.decide_eq(p - s) for s in seen):
                raise Bad('the parent links of the elements form a cycle')
            i = p
        raise Stop()


def start(ctx, **kw):
    g = DG(ctx, **kw)
    if g.why:
        ctx.undecided(ctx.prop + '/representation', 'the representation of DisjointSet is not understood: ' + g.why)
        ctx.absorb(g.eng)
        return None
    ctx.extra['chain_length'] = g.chain
    ctx.extra['loop_rounds'] = g.eng.unroll
    return g


def thorough(ctx):
    return ctx.tier == 'thorough'


def table_check(g, x, w, merged=None):
    """The new table represents the old partition, with the subsets of the two numbers in `merged` joined.
    A number that is not in the old table stands for a new node."""
    name, writes = g.table(x, w)
    n0 = x.sym('len_' + name)

    def old_root(i):
        if not x.decide_lt(i, n0):
            return x.lin.norm(i)        # a new node
        return g.old_root(x, name, i)

    roots = []
    if merged:
        roots = [old_root(i) for i in merged]

    def cls(i):
        r = old_root(i)
        return roots[0] if merged and any(x.decide_eq(r - q) for q in roots) else r

    lost = []
    for i, v in writes:
        if not (isinstance(v, Agg) and isinstance(g.parent(v), Lin)):
            raise Undecided('a node is %s' % (v,))
        p = g.parent(v)
        if not x.decide_lt(p, w.len):
            raise Bad('a parent link leaves the table')
        r = old_root(i)
        if x.decide_eq(p - i):
            if not x.decide_eq(r - i):
                raise Bad('an element below another becomes a representative: its subset is split')
            continue
        if not x.decide_eq(cls(p) - cls(i)):
            raise Bad('an element is linked to a representative of a different subset')
        if x.decide_eq(r - i):
            lost.append(i)
        # no cycle through the changed links
        g.new_root(x, w, i)
    uniq = []
    for r in roots:
        if not any(x.decide_eq(r - u) for u in uniq):
            uniq.append(r)
    if len(lost) != max(len(uniq) - 1, 0):
        raise Bad('%d of %d representatives are linked below another: the subsets %s' % (
            len(lost), len(uniq), 'stay apart' if len(lost) < len(uniq) - 1 else 'have no representative'))


def ids_check(g, x, m, w, added=()):
    """The element table: old elements keep their numbers, new ones have new numbers and nodes."""
    name, writes = g.table(x, w)
    base = 'ids' + name
    a = MP.base_find(g.eng, x, base, PC.G)
    r = MP.find(g.eng, x, m, PC.G)
    hit = any(MP.keq(x, k, PC.G) for k in added)
    if (r is ABSENT) != (a is ABSENT and not hit):
        raise Bad('an element %s' % ('is lost' if r is ABSENT else 'appears that was not added'))
    if r is ABSENT:
        return
    if not isinstance(r, Lin):
        raise Undecided('a number is %s' % type(r).__name__)
    if a is not ABSENT:
        if not x.decide_eq(r - a):
            raise Bad('the number of an element changes')
    else:
        if x.decide_lt(r, x.sym('len_' + name)):
            raise Bad('a new element shares the node of another')
        if not x.decide_lt(r, w.len):
            raise Bad('a new element has no node')
    # as many nodes as elements
    if not x.decide_eq(w.len - MP.length(x, m)):
        raise Bad('the table has %r nodes for %r elements' % (x.lin.norm(w.len), x.lin.norm(MP.length(x, m))))


def new_singletons(g, x, m, w, added):
    """New elements have distinct numbers and are on their own."""
    name, writes = g.table(x, w)
    n0 = x.sym('len_' + name)
    nums = []
    for k in added:
        r = MP.find(g.eng, x, m, k)
        if r is ABSENT or not isinstance(r, Lin):
            raise Bad('an added element has no number')
        if x.decide_lt(r, n0):
            continue
        for k2, r2 in nums:
            if x.decide_eq(r - r2) and not MP.keq(x, k, k2):
                raise Bad('two elements share a node')
        nums.append((k, r))
    return nums


def two(st, g):
    p = Ptr(st.alloc(g.pre(st)))
    return p, Ptr(st.alloc(g.a)), Ptr(st.alloc(g.b))


def node_of(g, x, name, key):
    return MP.base_find(g.eng, x, 'ids' + name, key)


def D01(ctx):
    g = start(ctx, nodes=8 if thorough(ctx) else 6, chain=4 if thorough(ctx) else 3)
    if not g:
        return
    D01_lookups(ctx, g)
    D01_adding(ctx, g, ('make_set', 'extend', 'reserve'))
    large(ctx, g, lambda: D01_lookups(ctx, g), lambda: D01_adding(ctx, g, ('extend',)))
    ctx.absorb(g.eng)


def D01_lookups(ctx, g):
    key = 'D01/in_union'

    def b(st):
        p, a, bb = two(st, g)
        return [p, a, bb], {'p': p}
    for o, env in g.run(key, 'in_union', b):
        def f(x, o=o, env=env):
            ia, ib = (node_of(g, x, 'F', k) for k in (g.a, g.b))
            want = False
            if ia is not ABSENT and ib is not ABSENT:
                want = x.decide_eq(g.old_root(x, 'F', ia) - g.old_root(x, 'F', ib))
            if x.truth(o.val) != want:
                raise Bad('answers %s for elements %s' % (not want, 'of one subset' if want else
                          'of different subsets' if ia is not ABSENT and ib is not ABSENT else 'of which one is not in the collection'))
        g.check(key, o.st, f)

        def h(x, env=env):
            m, w = g.parts(x, env['p'])
            table_check(g, x, w)
        g.check(key + '/partition', o.st, h)

        def i(x, env=env):
            m, w = g.parts(x, env['p'])
            ids_check(g, x, m, w)
        g.check(key + '/elements', o.st, i)
    key = 'D01/union'

    def b(st):
        p = Ptr(st.alloc(g.pre(st)))
        return [p, g.a, g.b], {'p': p}
    for o, env in g.run(key, 'union', b):
        def f(x, env=env):
            m, w = g.parts(x, env['p'])
            ra, rb = (MP.find(g.eng, x, m, k) for k in (g.a, g.b))
            if ra is ABSENT or rb is ABSENT:
                raise Bad('a joined element is not in the collection')
            table_check(g, x, w, (ra, rb))
        g.check(key, o.st, f)


def D01_adding(ctx, g, ops):
    for op in ops:
        key = 'D01/' + op

        def b(st, op=op):
            p = Ptr(st.alloc(g.pre(st)))
            a = {'make_set': lambda: g.a, 'reserve': lambda: st.sym('add'), 'extend': lambda: PC.CG.source(g, st, 'val')}[op]()
            return [p, a], {'p': p}
        for o, env in g.run(key, op, b):
            def f(x, env=env):
                m, w = g.parts(x, env['p'])
                table_check(g, x, w)
            g.check(key, o.st, f)


def star(n):
    return (0,) * n


def groups(n, k):
    return tuple(i % k for i in range(n))


def binomial(n):
    """The tree that joining subsets of equal size gives."""
    return tuple(i & (i - 1) for i in range(n))


def large(ctx, g, lookups=None, adding=None):
    """The same obligations for long chains of links and for loops over many elements."""
    if lookups:
        d = 40 if thorough(ctx) else 20
        for a, b in ((0, 1), (0, 2), (2, 0), (0, 0)):
            with g.long(d, a, b):
                lookups()
        ctx.extra['long_chains'] = '2 chains of %d links' % d
    if adding:
        n = 300 if thorough(ctx) else 140
        with g.fixed(n, groups(n, 3), -1 if thorough(ctx) else 0):
            adding()
        ctx.extra['fixed_contents'] = '%d elements' % n


def D02(ctx):
    g = start(ctx, rounds=5 if thorough(ctx) else 3)
    if not g:
        return

    def b(st):
        p = Ptr(st.alloc(g.pre(st)))
        return [p, Ptr(st.alloc(g.a))], {'p': p}
    key = 'D02/contains'
    for o, env in g.run(key, 'contains', b):
        def f(x, o=o):
            want = node_of(g, x, 'F', g.a) is not ABSENT
            if x.truth(o.val) != want:
                raise Bad('answers %s for an element that is%s in the collection' % (not want, '' if want else ' not'))
        g.check(key, o.st, f)
        same(g, key, o, env)

    def b1(st):
        p = Ptr(st.alloc(g.pre(st)))
        return [p], {'p': p}
    for op in ('len', 'is_empty'):
        key = 'D02/' + op
        for o, env in g.run(key, op, b1):
            def f(x, o=o, op=op):
                n = x.sym('len_idsF')
                if op == 'len':
                    if not x.decide_eq(o.val - n):
                        raise Bad('len is %r for %r elements' % (x.lin.norm(o.val), x.lin.norm(n)))
                elif x.truth(o.val) != x.decide_eq(n):
                    raise Bad('is_empty is wrong for %r elements' % x.lin.norm(n))
            g.check(key, o.st, f)
            same(g, key, o, env)
    key = 'D02/in_union'

    def b2(st):
        p, a, bb = two(st, g)
        return [p, a, bb], {'p': p}
    for o, env in g.run(key, 'in_union', b2):
        same(g, key, o, env)
    D02_adding(ctx, g, ('make_set', 'union', 'extend', 'extend_ref', 'from_iter', 'from_iter_ref'))
    large(ctx, g, None, lambda: D02_adding(ctx, g, ('extend', 'extend_ref', 'from_iter', 'from_iter_ref')))
    key = 'D02/clear'
    for o, env in g.run(key, 'clear', b1):
        def f(x, env=env):
            m, w = g.parts(x, env['p'])
            empty_check(g, x, m, w)
        g.check(key, o.st, f)
    key = 'D02/clone'
    for o, env in g.run(key, 'clone', b1):
        def f(x, o=o):
            m, w = g.parts(x, o.val)
            ids_check(g, x, m, w)
            table_check(g, x, w)
        g.check(key, o.st, f)
        same(g, key, o, env)
    key = 'D02/clone_from'

    def b4(st):
        p, q = Ptr(st.alloc(g.pre(st))), Ptr(st.alloc(g.pre(st, 'H')))
        return [q, p], {'p': p, 'q': q}
    for o, env in g.run(key, 'clone_from', b4):
        def f(x, env=env):
            m, w = g.parts(x, env['q'])
            if g.table(x, w)[0] != 'F' or m.data[0] != 'idsF':
                raise Bad('elements or nodes of the overwritten set are left')
            ids_check(g, x, m, w)
            table_check(g, x, w)
        g.check(key, o.st, f)
        same(g, key, o, env)
    ctx.absorb(g.eng)


def D02_adding(ctx, g, ops):
    for op in ops:
        key = 'D02/' + op
        src = 'from' in op or 'extend' in op

        def b3(st, op=op, src=src):
            if src:
                a = [PC.CG.source(g, st, 'ref' if op.endswith('ref') else 'val')]
            else:
                a = [g.a] if op == 'make_set' else [g.a, g.b]
            if op.startswith('from'):
                return a, {'p': None}
            p = Ptr(st.alloc(g.pre(st)))
            return [p] + a, {'p': p}
        for o, env in g.run(key, op, b3):
            def parts(x, o=o, env=env, op=op, src=src):
                if src:
                    n = PC.taken(x)
                    if not x.decide_eq(x.sym('len_S') - n):
                        raise Bad('not every item of the iterator is added')
                    added = [Atom(('el', 'S', Lin(i))) for i in range(n)]
                else:
                    added = [g.a] if op == 'make_set' else [g.a, g.b]
                return g.parts(x, o.val if env['p'] is None else env['p']) + (added,)

            def f(x, env=env, parts=parts):
                m, w, added = parts(x)
                if env['p'] is not None:
                    ids_check(g, x, m, w, added)
                elif (MP.find(g.eng, x, m, PC.G) is not ABSENT) != any(MP.keq(x, k, PC.G) for k in added):
                    raise Bad('the collection does not hold exactly the given elements')
            g.check(key, o.st, f)

            def h(x, env=env, op=op, parts=parts):
                m, w, added = parts(x)
                if env['p'] is None:
                    fresh_set(g, x, m, w, added)
                    return
                nums = new_singletons(g, x, m, w, added)
                if op == 'union':
                    return
                for k, r in nums:
                    v = g.new_node_at(x, w, r)
                    if not x.decide_eq(g.parent(v) - r):
                        raise Bad('a new element does not start on its own')
            g.check(key + '/nodes', o.st, h)


def empty_check(g, x, m, w):
    if MP.find(g.eng, x, m, PC.G) is not ABSENT:
        raise Bad('an element is still in the collection')
    if not x.decide_eq(MP.length(x, m)):
        raise Bad('the length is not zero')
    if not x.decide_eq(w.len):
        raise Bad('nodes are left behind')


def fresh_set(g, x, m, w, added):
    """A collection made from nothing: exactly the given elements, each on its own."""
    distinct = []
    for k in added:
        if not any(MP.keq(x, k, d) for d in distinct):
            distinct.append(k)
    if not x.decide_eq(MP.length(x, m) - len(distinct)):
        raise Bad('the length is %r for %d distinct elements' % (x.lin.norm(MP.length(x, m)), len(distinct)))
    if not x.decide_eq(w.len - len(distinct)):
        raise Bad('%r nodes for %d distinct elements' % (x.lin.norm(w.len), len(distinct)))
    nums = []
    for k in distinct:
        r = MP.find(g.eng, x, m, k)
        if not isinstance(r, Lin):
            raise Undecided('a number is %s' % type(r).__name__)
        if not x.decide_lt(r, w.len):
            raise Bad('an element has no node')
        if any(x.decide_eq(r - q) for q in nums):
            raise Bad('two elements share a node')
        nums.append(r)
        v = g.new_node_at(x, w, r)
        if not x.decide_eq(g.parent(v) - r):
            raise Bad('a new element does not start on its own')


def same(g, key, o, env):
    def f(x):
        m, w = g.parts(x, env['p'])
        ids_check(g, x, m, w)
    g.check(key + '/unchanged', o.st, f)


def shapes(n):
    """All forests over n numbered nodes, as tuples of parents."""
    def depth(f, i):
        d = 0
        while f[i] != i:
            i = f[i]
            d += 1
            if d > n:
                return None
        return d
    for f in itertools.product(range(n), repeat=n):
        if all(depth(f, i) is not None for i in range(n)):
            yield f


def D03(ctx):
    g = start(ctx, rounds=3, nodes=5 if thorough(ctx) else 4, chain=2)
    if not g:
        return
    into_iter(ctx, g, 'D03/into_iter', lambda st: g.pre(st))
    ctx.absorb(g.eng)
    # deeper trees: every forest over a fixed number of nodes, visited in every order
    n = 5 if thorough(ctx) else 4
    g = start(ctx, rounds=n, nodes=n, chain=n)
    g.eng.map_order_free = True
    count = 0
    for f in shapes(n):
        into_iter(ctx, g, 'D03/forests', lambda st, f=f: g.closed(st, f))
        count += 1
    ctx.extra['forests'] = '%d: all over %d nodes' % (count, n)
    # the other ways of advancing the iterator
    m = 4 if thorough(ctx) else 3
    for f in shapes(m):
        other_ways(ctx, g, 'D03/iterator', lambda st, f=f: g.closed(st, f))
    # many elements
    n = 200 if thorough(ctx) else 140
    big = (tuple(range(n)), star(n), groups(n, 7), binomial(n))
    for f in big:
        for order in (0, -1) if thorough(ctx) else (-1,):
            with g.fixed(n, f, order):
                into_iter(ctx, g, 'D03/large', lambda st: g.pre(st))
                other_ways(ctx, g, 'D03/large/iterator', lambda st: g.pre(st))
    ctx.extra['fixed_contents'] = '%d sets of %d elements' % (len(big), n)
    ctx.absorb(g.eng)


def into_iter(ctx, g, key, pre):

    def b(st):
        p = Ptr(st.alloc(pre(st)))
        return [p], {'p': p}
    for o, env in g.run(key, 'mut_into_iter', b):
        def h(x, env=env):
            onto(g, x)
            m, w = g.parts(x, env['p'])
            table_check(g, x, w)
        g.check(key + '/partition', o.st, h)

        def i(x, env=env):
            m, w = g.parts(x, env['p'])
            ids_check(g, x, m, w)
        g.check(key + '/elements', o.st, i)
        # call next until it returns None
        work = [(o.st, o.val, ())]
        for _ in range(g.eng.unroll + 2):
            nwork = []
            for st, it, groups in work:
                if isinstance(it, Ptr):
                    p = it
                else:
                    st = st.copy()
                    p = Ptr(st.alloc(it))
                for q in ctx.outs(g.eng, key + '/next', g.eng.call_entry(st, g.mod + '::set_iter_next', [p])):
                    v = q.val
                    if not isinstance(v, Agg):
                        ctx.undecided(key + '/next', 'the result of next is %s' % type(v).__name__)
                        continue
                    if v.variant == 0:
                        groups_check(g, key + '/groups', q.st, groups)
                    else:
                        nwork.append((q.st, p, groups + (v.fields[0],)))
            work = nwork
        for st, it, groups in work:
            ctx.bounded(key + '/next')


def other_ways(ctx, g, key, pre):
    """The other ways of advancing the iterator agree with next."""

    def classes(x):
        return [(k, g.old_root(x, 'F', v)) for k, p, v in MP.known(x, 'idsF') if p]

    def count(x):
        roots = []
        for k, r in classes(x):
            if not any(x.decide_eq(r - q) for q in roots):
                roots.append(r)
        return len(roots)

    def whole(x, groups, n):
        """n different groups, each complete."""
        out = members(x, groups)
        cs = classes(x)
        seen = []
        for gr in out:
            if not gr:
                raise Bad('an empty group')
            root = [r for k, r in cs if MP.keq(x, k, gr[0])]
            if not root:
                raise Bad('a listed element is not in the collection')
            if any(x.decide_eq(root[0] - q) for q in seen):
                raise Bad('a subset is listed twice')
            seen.append(root[0])
            want = [k for k, r in cs if x.decide_eq(r - root[0])]
            if len(gr) != len(want) or any(not any(MP.keq(x, k, e) for e in gr) for k in want):
                raise Bad('a group is not a whole subset')
        if len(out) != n:
            raise Bad('%d groups instead of %d' % (len(out), n))

    def drain(st, p, groups):
        """Everything next still yields."""
        work = [(st, groups)]
        while work:
            st, gr = work.pop()
            for q in ctx.outs(g.eng, key + '/next', g.eng.call_entry(st, g.mod + '::set_iter_next', [p])):
                if not isinstance(q.val, Agg):
                    ctx.undecided(key + '/next', 'the result of next is %s' % type(q.val).__name__)
                elif q.val.variant == 0:
                    yield q.st, gr
                else:
                    work.append((q.st, gr + (q.val.fields[0],)))

    def run(op, st, args):
        name = g.mod + '::set_iter_' + op
        if g.eng.prog.entry(name) is None:
            return
        for q in ctx.outs(g.eng, key + '/' + op, g.eng.call_entry(st, name, args)):
            yield q

    def opt(q):
        if not isinstance(q.val, Agg):
            raise Undecided('the result is %s' % type(q.val).__name__)
        return (q.val.fields[0],) if q.val.variant else ()

    def b(st):
        p = Ptr(st.alloc(pre(st)))
        return [p], {'p': p}
    for o, env in g.run(key, 'mut_into_iter', b):
        for q in run('count', o.st, [o.val]):
            def f(x):
                if not isinstance(q.val, Lin):
                    raise Undecided('the count is %s' % type(q.val).__name__)
                if not x.decide_eq(q.val - count(x)):
                    raise Bad('count is %r for %d subsets' % (x.lin.norm(q.val), count(x)))
            g.check(key + '/count', q.st, f)
        for q in run('last', o.st, [o.val]):
            g.check(key + '/last', q.st, lambda x: whole(x, opt(q), min(count(x), 1)))
        for q in run('fold', o.st, [o.val]):
            def f(x):
                if not isinstance(q.val, VecV) or not q.val.len.const:
                    raise Undecided('the listing is %s' % type(q.val).__name__)
                whole(x, tuple(x.load(q.val.root, (('i', Lin(i)),)) for i in range(q.val.len.c)), count(x))
            g.check(key + '/fold', q.st, f)
        st = o.st.copy()
        p = Ptr(st.alloc(o.val))
        for q in run('hint', st, [p]):
            def f(x):
                v = q.val
                if not (isinstance(v, Agg) and len(v.fields) == 2 and isinstance(v.fields[0], Lin) and isinstance(v.fields[1], Agg)):
                    raise Undecided('the hint is %s' % type(v).__name__)
                c = count(x)
                if not x.decide_le(v.fields[0] - c):
                    raise Bad('size_hint promises %r of %d subsets' % (x.lin.norm(v.fields[0]), c))
                if v.fields[1].variant and not x.decide_le(Lin(c) - v.fields[1].fields[0]):
                    raise Bad('size_hint allows no more than %r of %d subsets' % (x.lin.norm(v.fields[1].fields[0]), c))
            g.check(key + '/hint', q.st, f)
        for n in (0, 1):
            for q in run('nth', st, [p, Lin(n)]):
                if not isinstance(q.val, Agg):
                    ctx.undecided(key + '/nth', 'the result is %s' % type(q.val).__name__)
                    continue

                def f(x):
                    if bool(q.val.variant) != (count(x) > n):
                        raise Bad('nth(%d) is %s with %d subsets' % (n, 'some' if q.val.variant else 'none', count(x)))
                g.check(key + '/nth', q.st, f)
                if q.val.variant:
                    for st2, gr in drain(q.st, p, opt(q)):
                        g.check(key + '/nth', st2, lambda x: whole(x, gr, count(x) - n))


def onto(g, x):
    """Every node belongs to an element: once all elements are known, every known node is one of theirs."""
    if not x.ghost.get(('mbc', 'idsF')):
        return
    ids = [v for k, p, v in MP.known(x, 'idsF') if p]
    for i, v in g.forest_nodes(x, 'F'):
        if not any(x.decide_eq(i - d) for d in ids):
            raise Stop()


def members(x, groups):
    out = []
    for gr in groups:
        if isinstance(gr, Obj) and gr.kind == 'vinto':
            root, lo, hi = gr.data[:3]
            n = x.lin.norm(hi - lo)
            if not n.const:
                raise Undecided('a group of unknown size')
            arr = x.load(root)
            out.append([MP.keyval(x, x.arr_get(arr, lo + i)) for i in range(n.c)])
        else:
            raise Undecided('a group is %s' % type(gr).__name__)
    return out


def groups_check(g, key, st, groups):
    def f(x):
        if not x.ghost.get(('mbc', 'idsF')):
            if node_of(g, x, 'F', PC.G) is not ABSENT and x.ghost.get(('mb', 'idsF'))[-1][0] == PC.G:
                raise Bad('not every element is listed')
        onto(g, x)
        out = members(x, groups)
        elems = [(k, v) for k, p, v in MP.known(x, 'idsF') if p]
        where = {}
        for gi, gr in enumerate(out):
            if not gr:
                raise Bad('an empty group')
            for e in gr:
                hit = [k for k, (kk, v) in enumerate(elems) if MP.keq(x, kk, e)]
                if not hit:
                    raise Bad('a listed element is not in the collection')
                if hit[0] in where:
                    raise Bad('an element is listed twice')
                where[hit[0]] = gi
        if len(where) != len(elems):
            raise Bad('an element is not listed')
        roots = [g.old_root(x, 'F', v) for k, v in elems]
        onto(g, x)
        for a in range(len(elems)):
            for b in range(a):
                if (where[a] == where[b]) != x.decide_eq(roots[a] - roots[b]):
                    raise Bad('two elements of %s subset are listed in %s' % (('one', 'different groups') if where[a] != where[b] else ('different', 'one group')))
    g.check(key, st, f)


def D04(ctx):
    g = start(ctx, nodes=8 if thorough(ctx) else 6, chain=4 if thorough(ctx) else 3)
    if not g:
        return

    def ranks(x, env, merged):
        m, w = g.parts(x, env['p'])
        name, writes = g.table(x, w)
        n0 = x.sym('len_' + name)
        eq_rank = None
        if merged:
            ms = [MP.find(g.eng, x, m, k) for k in (g.a, g.b)]
            if any(not isinstance(i, Lin) for i in ms):
                raise Bad('a joined element is not in the collection')
            rs = [g.old_root(x, name, i) if x.decide_lt(i, n0) else x.lin.norm(i) for i in ms]
            if not x.decide_eq(rs[0] - rs[1]):
                eq_rank = rs

        def was(i):
            return g.rank(MP.node(g.eng, x, name, i)[1]) if x.decide_lt(i, n0) else Lin(int(g.sizes))
        for i, v in writes:
            old = MP.node(g.eng, x, name, i)[1] if x.decide_lt(i, n0) else None
            p, r = g.parent(v), g.rank(v)
            if old is None:
                r0 = Lin(int(g.sizes))
            else:
                r0 = g.rank(old)
            if not x.decide_le(r0 - r):
                raise Bad('the rank of a node falls below that of its children')
            if not x.decide_eq(p - i):
                q = g.new_node_at(x, w, p)
                if g.sizes and eq_rank and old is not None and x.decide_eq(g.parent(old) - i) and x.decide_lt(was(q0 := g.new_root(x, w, p)), r):
                    raise Bad('a subset of %r elements is linked below one of %r' % (x.lin.norm(r), x.lin.norm(was(q0))))
                if not x.decide_lt(r, g.rank(q)):
                    raise Bad('a node of rank %r is linked below one of rank %r' % (x.lin.norm(r), x.lin.norm(g.rank(q))))
            # the rank only grows when two roots of equal rank are joined, by one
            if not x.decide_eq(r - r0):
                ok = False
                if g.sizes:
                    if not eq_rank or not any(x.decide_eq(i - e) for e in eq_rank) or not x.decide_eq(was(eq_rank[0]) + was(eq_rank[1]) - r):
                        raise Bad('the size of a subset is taken for %r, was %r' % (x.lin.norm(r), x.lin.norm(r0)))
                    continue
                if eq_rank and any(x.decide_eq(i - e) for e in eq_rank):
                    ro = [g.rank(MP.node(g.eng, x, name, e)[1]) if x.decide_lt(e, n0) else Lin(0) for e in eq_rank]
                    ok = x.decide_eq(ro[0] - ro[1]) and x.decide_eq(r - r0 - 1)
                    # a subset of two nodes may have rank 1 whatever the ranks were
                if not ok:
                    raise Bad('a rank grows from %r to %r without two subsets of that rank being joined' % (x.lin.norm(r0), x.lin.norm(r)))

    def nearer(x, env, elems):
        """Looked-up elements are linked nearer to their representative."""
        m, w = g.parts(x, env['p'])
        name, writes = g.table(x, w)
        n0 = x.sym('len_' + name)
        ids = [MP.base_find(g.eng, x, 'ids' + name, k) for k in elems]
        if any(i is ABSENT for i in ids):
            return
        if len(ids) == 2 and x.decide_eq(ids[0] - ids[1]):
            return
        for i in ids:
            p0 = g.parent(MP.node(g.eng, x, name, i)[1])
            if x.decide_eq(p0 - i) or x.decide_eq(g.old_root(x, name, i) - p0):
                continue
            p1 = g.parent(g.new_node_at(x, w, i))
            if x.decide_eq(p1 - p0):
                raise Bad('an element %s is looked up without being linked nearer to its representative' % 'several links away')
    def lookups():
        for op in ('in_union', 'union'):
            key = 'D04/' + op

            def b(st, op=op):
                p, a, bb = two(st, g)
                return ([p, a, bb] if op == 'in_union' else [p, g.a, g.b]), {'p': p}
            for o, env in g.run(key, op, b):
                g.check(key + '/ranks', o.st, lambda x, env=env, op=op: ranks(x, env, op == 'union'))
                g.check(key + '/compression', o.st, lambda x, env=env: nearer(x, env, (g.a, g.b)))

    def adding(ops):
        for op in ops:
            key = 'D04/' + op

            def b(st, op=op):
                p = Ptr(st.alloc(g.pre(st)))
                return [p, g.a if op == 'make_set' else PC.CG.source(g, st, 'val')], {'p': p}
            for o, env in g.run(key, op, b):
                g.check(key + '/ranks', o.st, lambda x, env=env: ranks(x, env, False))

    lookups()
    adding(('make_set', 'extend'))
    large(ctx, g, lookups, lambda: adding(('extend',)))
    ctx.absorb(g.eng)


def D05(ctx):
    for mod in ('counter', 'dset'):
        g = PC.CG(ctx) if mod == 'counter' else DG(ctx)
        if g.why:
            ctx.undecided('D05/%s/representation' % mod, g.why)
            ctx.absorb(g.eng)
            continue
        for op in ('new', 'default', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher', 'fast_new'):
            key = 'D05/%s/%s' % (mod, op)

            def b(st, op=op):
                a = []
                if 'capacity' in op:
                    n = st.sym('cap')
                    st.need(st.assume_le(n - ((1 << 48) - 1)))
                    a.append(n)
                if 'hasher' in op:
                    a.append(hasher('h'))
                return a, {}
            for o, env in g.run(key, op, b):
                def f(x, o=o, op=op, g=g, mod=mod):
                    if mod == 'counter':
                        m = g.mapval(x, o.val)
                    else:
                        m, w = g.parts(x, o.val)
                        if not x.decide_eq(w.len):
                            raise Bad('a new collection has nodes')
                    if MP.find(g.eng, x, m, PC.G) is not ABSENT:
                        raise Bad('a new collection has an element')
                    if not x.decide_eq(MP.length(x, m)):
                        raise Bad('a new collection has a length')
                    if 'hasher' in op and m.data[2] != hasher('h'):
                        raise Bad('the collection does not use the given hasher')
                g.check(key, o.st, f)
        ctx.absorb(g.eng)
    g = DG(ctx)
    if g.why:
        return
    key = 'D05/dset/reserve'

    def b(st):
        p = Ptr(st.alloc(g.pre(st)))
        return [p, st.sym('add')], {'p': p}
    for o, env in g.run(key, 'reserve', b):
        def f(x, env=env):
            m, w = g.parts(x, env['p'])
            ids_check(g, x, m, w)
            table_check(g, x, w)
            if m.data[2] != hasher('F'):
                raise Bad('the hasher changes')
        g.check(key, o.st, f)
    ctx.absorb(g.eng)


def D06(ctx):
    g = start(ctx)
    if not g:
        return
    g.eng.user_panics = True

    def set_of(st):
        return Ptr(st.alloc(g.pre(st)))

    def builder(op):
        def b(st):
            p = set_of(st)
            if op.startswith('extend'):
                a = [PC.CG.source(g, st, 'ref' if op.endswith('ref') else 'val')]
            else:
                a = {'make_set': lambda: [g.a], 'union': lambda: [g.a, g.b], 'contains': lambda: [Ptr(st.alloc(g.a))],
                     'in_union': lambda: [Ptr(st.alloc(g.a)), Ptr(st.alloc(g.b))]}.get(op, lambda: [])()
            return [p] + a, {'p': p}
        return b

    def judge(op):
        def f(x, env, hit):
            m, w = g.parts(x, env['p'])
            if op.startswith('extend'):
                new = [Atom(('el', 'S', Lin(i))) for i in range(PC.taken(x))]
            else:
                new = {'make_set': [g.a], 'union': [g.a, g.b]}.get(op, [])
            n = MP.length(x, m)
            if not x.decide_eq(w.len - n):
                raise Bad('a panic in %s leaves %r nodes for %r elements' % (hit, x.lin.norm(w.len), x.lin.norm(n)))
            r = MP.find(g.eng, x, m, PC.G)
            if x.decide_eq(n):
                if r is not ABSENT:
                    raise Bad('an element of an empty set')
                if op == 'clear':
                    return
            held = node_of(g, x, 'F', PC.G)
            if held is not ABSENT and (r is ABSENT or not x.decide_eq(r - held)):
                raise Bad('a panic in %s %s an element' % (hit, 'loses' if r is ABSENT else 'moves'))
            if held is ABSENT and r is not ABSENT:
                if not any(MP.keq(x, k, PC.G) for k in new):
                    raise Bad('a panic in %s leaves an element that was not added' % hit)
                if not isinstance(r, Lin):
                    raise Undecided('a number is %s' % type(r).__name__)
                if x.decide_lt(r, x.sym('len_F')) or not x.decide_lt(r, w.len):
                    raise Bad('a panic in %s leaves an element without a node of its own' % hit)
            ids = [MP.find(g.eng, x, m, k) for k in new]
            for i in range(len(ids)):
                for j in range(i):
                    if ids[i] is not ABSENT and ids[j] is not ABSENT and x.decide_eq(ids[i] - ids[j]) and not MP.keq(x, new[i], new[j]):
                        raise Bad('two elements share a node')
            if op == 'union' and all(i is not ABSENT for i in ids):
                try:
                    table_check(g, x, w, tuple(ids))
                    return
                except Bad:
                    pass
            table_check(g, x, w)
        return f
    for op in ('make_set', 'union', 'contains', 'in_union', 'extend', 'extend_ref', 'clear', 'clone'):
        PC.user_panics(g, 'D06/' + op, op, builder(op), judge(op))
    ctx.absorb(g.eng)


# ------------------------------------------------------------------ room asked for
def room(x, caps, n, what):
    """One of these lower bounds of a capacity reaches n."""
    if not any(x.decide_le(n - c) for c in caps):
        raise Bad('%s has room for %s only, not for %r' % (what, ', '.join(repr(x.lin.norm(c)) for c in caps) or 'nothing', x.lin.norm(n)))


def vec_caps(x, w):
    f = x.load(w.root)
    if isinstance(f, Obj) and f.kind == 'forest':
        return x.ghost.get(('vcap', w.root), ()) + (w.len,)
    return (f.len,)


def D07(ctx):
    small = (1 << 48) - 1
    for mod in ('counter', 'dset'):
        g = PC.CG(ctx) if mod == 'counter' else DG(ctx)
        if g.why:
            ctx.undecided('D07/%s/representation' % mod, g.why)
            ctx.absorb(g.eng)
            continue
        g.eng.map_caps = True

        def parts(x, v, g=g, mod=mod):
            m, w = (g.mapval(x, v), None) if mod == 'counter' else g.parts(x, v)
            if m.data[0] is None:
                raise Undecided('the room of the map is not known')
            return m, w
        for op in ('with_capacity', 'with_capacity_and_hasher'):
            key = 'D07/%s/%s' % (mod, op)

            def b(st, op=op):
                n = st.sym('cap')
                st.need(st.assume_le(n - small))
                return [n] + ([hasher('h')] if 'hasher' in op else []), {'n': n}
            for o, env in g.run(key, op, b):
                def f(x, o=o, env=env):
                    n = env['n']
                    m, w = parts(x, o.val)
                    room(x, x.ghost.get(('mcap', m.data[0]), ()), n, 'the map')
                    if w is not None:
                        room(x, vec_caps(x, w), n, 'the node table')
                    if x.decide_eq(n):
                        for r in x.ghost.get(('mreq', m.data[0]), ()):
                            if not x.decide_eq(r):
                                raise Bad('room for %r entries is allocated for a capacity of zero' % x.lin.norm(r))
                        if w is not None and not x.decide_eq(vec_caps(x, w)[0]):
                            raise Bad('a node table is allocated for a capacity of zero')
                g.check(key, o.st, f)

        def pre(st, g=g, mod=mod):
            """Any collection with room for R elements."""
            v = g.pre(st, 'A') if mod == 'counter' else g.pre(st)
            r = st.sym('room')
            st.need(st.assume_le(r - small))
            if mod == 'counter':
                m, w = g.mapval(st, v), None
            else:
                m, w = g.parts(st, v)
                st.ghost[('vcap', w.root)] = (r,)
            st.ghost[('mcap', m.data[0])] = (r,)
            n = MP.length(st, m)
            st.need(st.assume_le(n - r))
            return Ptr(st.alloc(v)), r, n
        ops = ('push', 'extend', 'extend_ref', 'add_assign', 'add_assign_ref', 'sub_assign_ref', 'most_common') if mod == 'counter' else \
            ('reserve', 'make_set', 'union', 'contains', 'in_union', 'extend', 'extend_ref')
        g.eng.unroll = min(g.eng.unroll, 4)
        for op in ops:
            key = 'D07/%s/%s' % (mod, op)

            def b(st, op=op, g=g):
                p, r, n = pre(st)
                if op == 'reserve':
                    k = st.sym('add')
                    st.need(st.assume_le(k - small))
                    return [p, k], {'p': p, 'r': r, 'n': n + k}
                env = {'p': p, 'r': r, 'n': None}
                if op.startswith('extend'):
                    a = [PC.CG.source(g, st, 'ref' if op.endswith('ref') else 'val')]
                elif '_assign' in op:
                    q = g.pre(st, 'B')
                    a = [Ptr(st.alloc(q)) if op.endswith('ref') else q]
                elif op == 'most_common':
                    a = []
                elif op == 'push':
                    a = [VA]
                else:
                    a = {'make_set': lambda: [g.a], 'union': lambda: [g.a, g.b], 'contains': lambda: [Ptr(st.alloc(g.a))],
                         'in_union': lambda: [Ptr(st.alloc(g.a)), Ptr(st.alloc(g.b))]}[op]()
                return [p] + a, env
            for o, env in g.run(key, op, b, panics=lambda *a: None):
                def f(x, env=env):
                    m, w = parts(x, env['p'])
                    for n in (env['r'], env['n']):
                        if n is None:
                            continue
                        room(x, x.ghost.get(('mcap', m.data[0]), ()) + (MP.length(x, m),), n, 'the map')
                        if w is not None:
                            room(x, vec_caps(x, w), n, 'the node table')
                g.ctx.check(g.eng, key, o.st, f)
        ctx.absorb(g.eng)


# ------------------------------------------------------------------ work
STEPS = 8
WHOLE = ('clone', 'clone_from', 'shrink_to_fit', 'shrink_to', 'drain', 'clear', 'to_vec', 'to_owned', 'reverse', 'remove', 'insert', 'retain', 'truncate',
         'contains', 'concat', 'rotate_left', 'rotate_right', 'fill', 'copy_from_slice', 'copy_within', 'split_off', 'append', 'dedup', 'into_boxed_slice',
         'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'try_reserve', 'extend_from_within')


def work_hook(eng, st, c):
    """Record calls of library functions which handle a whole collection."""
    n = c.name
    short = n.rsplit('::', 1)[-1]
    if short not in WHOLE or not c.args or c.f.get('crate', '') in ('advanced_collections', 'witness') or 'advanced_collections' in n:
        return
    v = c.args[0]
    if isinstance(v, Ptr) and v.len is None:
        try:
            v = st.load(v.root, v.path)
        except Viol:
            return
    if isinstance(v, Ptr) and v.len is not None or isinstance(v, VecV):
        k = v.len
    elif isinstance(v, Obj) and v.kind == 'map':
        if short in ('remove', 'insert', 'contains'):
            return
        k = MP.length(st, v)
    else:
        return
    st.ghost['work'] = st.ghost.get('work', ()) + ((n, k, st.where()),)


def constant_work(ctx, g, op, build):
    """The operation takes a bounded number of steps whatever the size of the collection."""
    key = '%s/%s' % (ctx.prop, op)
    st = State(g.eng)
    args, env = build(st)
    for o in g.eng.call_entry(st, g.mod + '::' + op, args):
        if o.kind == 'cut':
            fn = g.eng.prog.fns[o.st.fn]['def'] if o.st.fn is not None else '?'
            ctx.path_bad(key, o.st, 'the loop in %s can run more than %d times: its length depends on the size of the collection' % (fn, STEPS), o.st.where())
        elif o.kind == 'ret':
            def f(x):
                for what, n, where in x.ghost.get('work', ()):
                    if not x.decide_le(n - STEPS):
                        raise Bad('%s handles %r elements at %s' % (what, x.lin.norm(n), where))
            ctx.check(g.eng, key, o.st, f)


def few(g, st, kind, n=2):
    s = PC.CG.source(g, st, kind)
    st.need(st.assume_eq(st.sym('len_S') - n))
    return s


def work_engine(g):
    g.eng.unroll = STEPS
    g.eng.cost_hook = work_hook
    g.ctx.extra['loop_rounds'] = STEPS


def D08(ctx):
    g = start(ctx)
    if not g:
        return
    work_engine(g)
    for op in ('make_set', 'union', 'contains', 'in_union', 'len', 'is_empty', 'extend', 'extend_ref'):
        def b(st, op=op):
            p = Ptr(st.alloc(g.pre(st)))
            st.need(st.assume_le(Lin(1 << 20) - st.sym('len_idsF')))
            a = {'make_set': lambda: [g.a], 'union': lambda: [g.a, g.b], 'contains': lambda: [Ptr(st.alloc(g.a))],
                 'in_union': lambda: [Ptr(st.alloc(g.a)), Ptr(st.alloc(g.b))],
                 'extend': lambda: [few(g, st, 'val')], 'extend_ref': lambda: [few(g, st, 'ref')]}.get(op, lambda: [])()
            return [p] + a, {}
        constant_work(ctx, g, op, b)
    ctx.absorb(g.eng)


RULES = {
    'D07': 'on every exit of a constructor given a capacity n, the map and the node table have room for n, and for n = 0 none was asked for; after reserve(k) both have room for the length plus k; no other operation gives up room (lower bounds of the capacities are tracked through all library calls that set them)',
    'D08': 'with arbitrarily many elements in the set, no loop runs more than %d times (climbs of known chains are shorter) and no library call that handles a whole collection is given one of unbounded length; in extend: with two items' % STEPS,
    'D06': 'on every path on which a call of the caller (the iterator, cloning, hashing, comparing or dropping an element) panics, once: as many nodes as elements, every old element keeps its number (unless the set is emptied), a new one is one of those given and has a node of its own, and the links represent the old partition (or, for union, the joined one); nothing else panics while unwinding',
    'D01': 'in_union answers true exactly if both elements have nodes with the same root in the old forest; every parent link written stays within its old subset (or the two joined ones), no representative is lost but one of the two joined ones, no link splits a subset or closes a cycle; numbers of elements do not change',
    'D02': 'for an arbitrary element g: in the element table after the operation exactly if it was before or was added; its number changes only if it was not there, to a fresh one with a node of its own; the length follows; clear leaves no element and no node',
    'D03': 'the groups yielded by next contain every element of the map exactly once, two of them together exactly if their nodes have the same root; no group is empty; the forest represents the same partition as before',
    'D04': 'every link written leads to a node of greater rank; ranks never fall and grow by one only at a root joined with a root of equal rank; so a tree with a root of rank r has 2^r elements and depth at most r; an element two or more links below its representative is relinked when looked up',
    'D05': 'the map (and node table) in the result is empty at an arbitrary element, has length zero and carries the given hash builder',
}
PROPS = {'D01': (D01, 6), 'D02': (D02, 15), 'D03': (D03, 3), 'D04': (D04, 5), 'D05': (D05, 13), 'D06': (D06, 7), 'D07': (D07, 15), 'D08': (D08, 8)}
