"""Properties of Counter (K01-K05), and of the constructors of both hash based collections (D05)."""
import time
from contextlib import contextmanager
from .dom import Lin, S, UMAX
from .state import *
from .report import Bad, Undecided
from . import maps as MP
from .maps import ABSENT
from . import seq as Q

G = Atom(('var', 'g'))
V0 = Atom(('var', 'v'))


def leaves(v, path=()):
    """Paths to everything in a value that is not structure."""
    if isinstance(v, Agg):
        for k, x in enumerate(v.fields):
            yield from leaves(x, path + (('f', k),))
    else:
        yield path, v


def set_at(v, path, x):
    if not path:
        return x
    f = list(v.fields)
    f[path[0][1]] = set_at(f[path[0][1]], path[1:], x)
    return Agg(v.variant, tuple(f))


def get_at(v, path):
    for p in path:
        v = v.fields[p[1]]
    return v


def hasher(name):
    return Agg(0, (S('hasher ' + name),))


def the_map(st, p):
    """The map behind a pointer or in a value."""
    m = p
    if isinstance(p, Ptr):
        m = st.load(p.root, p.path)
    if not (isinstance(m, Obj) and m.kind == 'map'):
        raise Undecided('the contents are %s' % type(m).__name__)
    return m


def show(st, v):
    return 'absent' if v is ABSENT else repr(st.lin.norm(v)) if isinstance(v, Lin) else str(v)


class CG:
    def __init__(self, ctx, mod='counter'):
        self.ctx = ctx
        self.mod = mod
        self.eng = ctx.engine(unroll=rounds(ctx))
        self.eng.count_limit = True
        self.eng.max_paths = 20000
        self.why = None
        self.path = None
        self.fix = None
        try:
            self.find_rep()
        except Undecided as u:
            self.why = str(u)

    def find_rep(self):
        st = State(self.eng)
        outs = [o for o in self.eng.call_entry(st, self.mod + '::with_hasher', [hasher('h')]) if o.kind == 'ret']
        outs = [o for o in outs if not o.st.taint]
        if not outs:
            raise Undecided('with_hasher has no understood outcome')
        ls = list(leaves(outs[0].val))
        ms = [p for p, v in ls if isinstance(v, Obj) and v.kind == 'map']
        if len(ms) != 1 or len(ls) != 1:
            raise Undecided('the counter is not just a map')
        self.path = ms[0]
        self.proto = outs[0].val

    @contextmanager
    def fixed(self, n, order=0, same=False):
        """Analyse with fixed contents of n named keys, following loops to their end, for a limited time."""
        with fixed_run(self.ctx, self.eng, n, order):
            self.fix = (n, same)
            try:
                yield
            finally:
                self.fix = None

    def known_map(self, st, name):
        """A map of any content, or, in a run with fixed contents, of named keys."""
        ln = st.sym('len_' + name)
        if self.fix:
            n, same = self.fix
            second = name == 'B' and not same
            counts = [1, 2, 3, 4, 5, 1 << 8, 1 << 33, (1 << 32) + 1]
            if self.ctx.prop in ('K03', 'K04', 'K05'):
                counts += [1 << 63, UMAX, UMAX - 1]
            off, mul, mod = (n // 2, 3, len(counts) - 1) if second else (0, 1, len(counts))
            st.need(st.assume_eq(ln - n))
            st.ghost[('mb', name)] = tuple((Atom(('kk', i + off)), True, Lin(counts[i * mul % mod])) for i in range(n))
            st.ghost[('mbc', name)] = True
        return Obj('map', (name, (), hasher(name), Lin(0)))

    def pre(self, st, name):
        """The value of any counter, its content called `name`."""
        self.known_map(st, name)
        return set_at(self.proto, self.path, Obj('map', (name, (), hasher(name), Lin(0))))

    def mapval(self, st, v):
        """The map in a counter (value or pointer)."""
        if isinstance(v, Ptr):
            v = st.load(v.root, v.path)
        try:
            m = get_at(v, self.path)
        except (AttributeError, IndexError):
            raise Undecided('the counter is %s' % type(v).__name__)
        return the_map(st, m)

    def source(self, st, kind, name='S'):
        n = st.sym('len_' + name)
        if self.eng.kk:
            st.need(st.assume_eq(n - (self.eng.kk + 40)))
        if kind == 'ref':
            st.cells[('srcarr', name)] = Arr((Seg(Lin(0), n, Atom(('el', name, Q.SI))),), n)
        return Obj('src', (name, kind))

    def run(self, key, op, build, panics='never'):
        """Returning paths of an operation: (out, environment)."""
        st = State(self.eng)
        args, env = build(st)
        for o in self.ctx.outs(self.eng, key, self.eng.call_entry(st, self.mod + '::' + op, args), panics=(lambda o: panics(o, env)) if callable(panics) else panics):
            yield o, env

    def check(self, key, st, f):
        each_key(self, key, st, f)

    def base(self, st, name, key):
        return MP.base_find(self.eng, st, name, key)

    def look(self, st, m, key):
        return MP.find(self.eng, st, m, key)


@contextmanager
def fixed_run(ctx, eng, n, order=0):
    un, mo = eng.unroll, eng.map_order_free
    eng.unroll, eng.fixed_sizes, eng.kk, eng.fixed_order = 20000, True, n + 20, order
    eng.deadline = time.time() + (150 if ctx.tier == 'thorough' else 25)
    try:
        yield
        if eng.late():
            ctx.bounded('fixed contents: time limit')
    finally:
        eng.unroll, eng.fixed_sizes, eng.kk, eng.deadline, eng.map_order_free = un, False, 0, None, mo


def each_key(g, key, st, f):
    """Check f at an arbitrary key: at every named key and one more in a run with fixed contents."""
    global G
    if not g.eng.kk or key.endswith('/order'):
        g.ctx.check(g.eng, key, st, f)
        return
    old = G
    try:
        for i in list(range(g.eng.kk + g.eng.kk // 2)) + [999999]:
            G = Atom(('kk', i))
            g.ctx.check(g.eng, key, st, f)
    finally:
        G = old


def sizes(ctx):
    if ctx.prop == 'K04':
        return ((140, -1),) if ctx.tier == 'thorough' else ((70, 0),)
    return ((140, 0), (300, -1)) if ctx.tier == 'thorough' else ((140, 0),)


def rounds(ctx):
    """Rounds of a loop that are followed."""
    if ctx.tier == 'thorough':
        return 6 if ctx.prop in ('K02', 'K03', 'K05') else 5
    return 4


def start(ctx):
    g = CG(ctx)
    if g.why:
        ctx.undecided(ctx.prop + '/representation', 'the representation of Counter is not understood: ' + g.why)
        ctx.absorb(g.eng)
        return None
    ctx.extra['loop_rounds'] = g.eng.unroll
    return g


def everywhere(ctx, ops):
    """The obligations for counters of every content, and again for some fixed contents with no bound on loops."""
    g = start(ctx)
    if not g:
        return
    ops(ctx, g)
    for n, order in sizes(ctx):
        for same in (False, True) if ctx.prop == 'K05' else (False,):
            with g.fixed(n, order, same):
                ops(ctx, g)
        ctx.extra['fixed_contents'] = ['%d keys' % n for n, _ in sizes(ctx)]
    ctx.absorb(g.eng)


def num(v):
    return Lin(0) if v is ABSENT else v


def eq_count(x, got, want, what):
    """The count found equals the count wanted."""
    if not isinstance(num(got), Lin):
        raise Undecided('the count is %s' % type(got).__name__)
    if not x.decide_eq(num(got) - want):
        raise Bad('%s is %s, should be %r' % (what, show(x, got), x.lin.norm(want)))


def taken(x, name='S'):
    n = x.lin.norm(x.ghost.get(('taken', name), Lin(0)))
    if not n.const:
        raise Undecided('unknown number of items taken')
    return n.c


def occurrences(x, key, n, name='S'):
    return sum(1 for i in range(n) if MP.keq(x, Atom(('el', name, Lin(i))), key))


def overflow_ok(g, key, total):
    """A panic is allowed where a count would exceed what usize can hold: total(x) lists the sums wanted."""
    def f(o, env):
        def h(x):
            if x.panic[0] != 'overflow':
                raise Bad('panics (%s) at %s' % (x.panic[1], x.panic[2]))
            for t in total(x, env):
                if not x.decide_le(t - UMAX):
                    return
            raise Bad('arithmetic overflow although every count is representable at %s' % x.panic[2])
        g.check(key + '/overflow', o.st, h)
    return f


def absent_stays(got, present):
    if got is not ABSENT and not present:
        raise Bad('an element that was never added is listed')


def K01(ctx):
    everywhere(ctx, K01_ops)


def K01_ops(ctx, g):
    # push
    def b(st):
        c = Ptr(st.alloc(g.pre(st, 'A')))
        return [c, V0], {'c': c}
    key = 'K01/push'
    tot = lambda x, env: [num(g.base(x, 'A', V0)) + 1]
    for o, env in () if g.fix else g.run(key, 'push', b, overflow_ok(g, key, tot)):
        def f(x, env=env):
            m = g.mapval(x, env['c'])
            hit = MP.keq(x, V0, G)
            a = g.base(x, 'A', G)
            r = g.look(x, m, G)
            eq_count(x, r, num(a) + (1 if hit else 0), 'the count of %s element after push' % ('the' if hit else 'another'))
            if not hit and (r is ABSENT) != (a is ABSENT):
                raise Bad('pushing an element changes whether another is listed')
        g.check(key, o.st, f)
    for op, kind, old in (('from_iter', 'val', False), ('from_iter_ref', 'ref', False), ('extend', 'val', True), ('extend_ref', 'ref', True)):
        key = 'K01/' + op

        def b(st, kind=kind, old=old):
            s = g.source(st, kind)
            if old:
                c = Ptr(st.alloc(g.pre(st, 'A')))
                return [c, s], {'c': c}
            return [s], {'c': None}

        def tot(x, env, old=old):
            if not old:
                return []
            n = taken(x)
            return [v + occurrences(x, k, n) for k, p, v in MP.known(x, 'A') if p]
        for o, env in g.run(key, op, b, overflow_ok(g, key, tot)):
            def f(x, env=env, o=o):
                n = taken(x)
                if not x.decide_eq(x.sym('len_S') - n):
                    raise Bad('not every item of the iterator is counted')
                m = g.mapval(x, env['c'] if env['c'] is not None else o.val)
                k = occurrences(x, G, n)
                a = g.base(x, 'A', G) if env['c'] is not None else ABSENT
                r = g.look(x, m, G)
                eq_count(x, r, num(a) + k, 'the count of an element occurring %d times' % k)
                absent_stays(r, a is not ABSENT or k)
                if a is not ABSENT and r is ABSENT:
                    raise Bad('an element disappears')
            g.check(key, o.st, f)


FORMS = (('%s_assign', True, False), ('%s_assign_ref', True, True), ('%s', False, False), ('%s_ref', False, True))


def binop(g, pre, name, judge, panics):
    for form, assign, ref in FORMS:
        op = form % name
        key = '%s/%s' % (pre, op)

        def b(st, assign=assign, ref=ref):
            a = g.pre(st, 'A')
            bb = g.pre(st, 'B')
            env = {'b': None}
            if assign:
                a = env['a'] = Ptr(st.alloc(a))
            if ref:
                bb = env['b'] = Ptr(st.alloc(bb))
            return [a, bb], env
        for o, env in g.run(key, op, b, panics(g, key)):
            def f(x, o=o, env=env):
                m = g.mapval(x, env.get('a', o.val))
                bv = g.base(x, 'B', G)
                av = g.base(x, 'A', G)
                judge(x, av, bv, g.look(x, m, G))
            g.check(key, o.st, f)
            if env['b'] is not None:
                unchanged(g, key + '/right', o.st, env['b'], 'B')


def unchanged(g, key, st, p, name):
    def f(x):
        m = g.mapval(x, p) if isinstance(p, Ptr) else the_map(x, p)
        same_content(g, x, m, name, 'the operand')
    g.check(key, st, f)


def same_content(g, x, m, name, what):
    b = g.base(x, name, G)
    r = g.look(x, m, G)
    if (b is ABSENT) != (r is ABSENT):
        raise Bad('%s %s an element' % (what, 'gains' if b is ABSENT else 'loses'))
    if b is not ABSENT:
        eq_count(x, r, b, 'the count of an element of ' + what)


def K02(ctx):
    everywhere(ctx, K02_ops)


def K02_ops(ctx, g):

    def judge(x, a, b, r):
        if a is ABSENT and b is ABSENT:
            if r is not ABSENT:
                raise Bad('the sum lists an element of neither side')
            return
        t = num(a) + num(b)
        if not x.decide_le(t - UMAX):
            return      # not representable: nothing is promised
        eq_count(x, r, t, 'the count in the sum')

    def sums(x, env):
        out = []
        for k, p, v in MP.known(x, 'B'):
            if p:
                out.append(v + num(g.base(x, 'A', k)))
        return out
    binop(g, 'K02', 'add', judge, lambda g, key: overflow_ok(g, key, sums))


def K03(ctx):
    everywhere(ctx, K03_ops)


def K03_ops(ctx, g):

    def judge(x, a, b, r):
        if a is ABSENT:
            if r is not ABSENT:
                raise Bad('the difference lists an element absent on the left')
            return
        if b is ABSENT:
            if r is ABSENT:
                raise Bad('an element absent on the right disappears')
            eq_count(x, r, a, 'the count of an element absent on the right')
            return
        if x.decide_le(a - b):
            if r is not ABSENT:
                raise Bad('an element with left count %r and right count %r stays, with count %s' % (x.lin.norm(a), x.lin.norm(b), show(x, r)))
            return
        eq_count(x, r, a - b, 'the count in the difference')
    binop(g, 'K03', 'sub', judge, lambda g, key: 'never')


def listing(g, x, v):
    if not isinstance(v, VecV):
        raise Undecided('the listing is %s' % type(v).__name__)
    n = x.lin.norm(v.len)
    if not n.const:
        raise Undecided('the listing has an unknown length')
    arr = x.load(v.root)
    out = []
    for i in range(n.c):
        e = x.arr_get(arr, Lin(i))
        if not (isinstance(e, Agg) and len(e.fields) == 2):
            raise Undecided('an entry of the listing is %s' % type(e).__name__)
        out.append(e.fields)
    return out


def K04(ctx):
    everywhere(ctx, K04_ops)


def K04_ops(ctx, g):
    for op, ref in (('into_most_common', False), ('most_common', True)):
        key = 'K04/' + op

        def b(st, ref=ref):
            c = g.pre(st, 'A')
            p = None
            if ref:
                c = p = Ptr(st.alloc(c))
            return [c], {'c': p}
        for o, env in g.run(key, op, b):
            def f(x, o=o):
                es = listing(g, x, o.val)
                a = g.base(x, 'A', G)
                hits = [e for e in es if MP.keq(x, e[0], G)]
                if a is ABSENT:
                    if hits:
                        raise Bad('an element that is not in the counter is listed')
                    return
                if len(hits) != 1:
                    raise Bad('an element of the counter is listed %d times' % len(hits))
                eq_count(x, hits[0][1], a, 'the listed count')
            g.check(key, o.st, f)

            def h(x, o=o):
                es = listing(g, x, o.val)
                for p, q in zip(es, es[1:]):
                    if not x.decide_le(q[1] - p[1]):
                        raise Bad('count %r is listed before the larger %r' % (x.lin.norm(p[1]), x.lin.norm(q[1])))
            g.check(key + '/order', o.st, h)
            if env['c'] is not None:
                unchanged(g, key + '/unchanged', o.st, env['c'], 'A')


def K05(ctx):
    everywhere(ctx, K05_ops)


def K05_ops(ctx, g):

    def raw(st, name):
        return g.known_map(st, name)
    # conversions from maps
    for op, ref in (('from_hashmap', False), ('from_map', False), ('from_map_ref', True)):
        key = 'K05/' + op

        def b(st, ref=ref):
            m = raw(st, 'M')
            p = None
            if ref:
                m = p = Ptr(st.alloc(m))
            return [m], {'m': p}
        for o, env in g.run(key, op, b):
            g.check(key, o.st, lambda x, o=o: same_content(g, x, g.mapval(x, o.val), 'M', 'the counter'))
            if env['m'] is not None:
                g.check(key + '/source', o.st, lambda x, env=env: same_content(g, x, the_map(x, env['m']), 'M', 'the source map'))
    # access
    for op in ('into_iter', 'ref_into_iter', 'mut_into_iter'):
        key = 'K05/' + op

        def b(st, op=op):
            c = g.pre(st, 'A')
            p = None
            if op != 'into_iter':
                c = p = Ptr(st.alloc(c))
            return [c], {'c': p}
        for o, env in g.run(key, op, b):
            def f(x, o=o, env=env):
                v = o.val
                while isinstance(v, Agg) and len(v.fields) == 1:
                    v = v.fields[0]
                if not (isinstance(v, Obj) and v.kind == 'miter'):
                    raise Undecided('the iterator is %s' % type(v).__name__)
                iid, src, mode, visited = v.data
                if mode not in ('own', 'ref'):
                    raise Undecided('iteration mode %s' % mode)
                if visited:
                    raise Bad('the iterator has skipped an element')
                same_content(g, x, the_map(x, src), 'A', 'the iteration')
                if env['c'] is not None:
                    if not (isinstance(src, Ptr) and src.root == env['c'].root):
                        raise Bad('the iterator does not refer to the counter')
                    same_content(g, x, g.mapval(x, env['c']), 'A', 'the counter')
            g.check(key, o.st, f)
    for op in ('deref', 'deref_mut'):
        key = 'K05/' + op

        def b(st):
            p = Ptr(st.alloc(g.pre(st, 'A')))
            return [p], {'c': p}
        for o, env in g.run(key, op, b):
            def f(x, o=o, env=env):
                same_content(g, x, the_map(x, o.val), 'A', 'the map')
                if o.val.root != env['c'].root:
                    raise Bad('the map is not the one of the counter')
            g.check(key, o.st, f)
    # use as a hash map: method calls on the counter itself
    for op in () if g.fix else ('get', 'index', 'contains', 'len', 'is_empty', 'insert', 'remove', 'clear'):
        key = 'K05/map_' + op

        def b(st, op=op):
            p = Ptr(st.alloc(g.pre(st, 'A')))
            a = [] if op in ('len', 'is_empty', 'clear') else [V0] if op == 'insert' else [Ptr(st.alloc(V0))]
            return [p] + a + ([st.sym('count')] if op == 'insert' else []), {'c': p}
        absent_ok = (lambda o, env: g.base(o.st, 'A', V0) is ABSENT) if op == 'index' else 'never'
        for o, env in g.run(key, 'map_' + op, b, absent_ok):
            def f(x, o=o, env=env, op=op):
                a = g.base(x, 'A', V0)
                n = x.sym('len_A')
                if op in ('get', 'insert', 'remove'):
                    if not isinstance(o.val, Agg):
                        raise Undecided('%s gives %s' % (op, type(o.val).__name__))
                    if (o.val.variant == 0) != (a is ABSENT):
                        raise Bad('%s of an element that is%s there gives %s' % (op, ' not' if a is ABSENT else '', 'None' if o.val.variant == 0 else 'a count'))
                    if a is not ABSENT:
                        eq_count(x, o.val.fields[0], a, 'the count ' + op + ' gives')
                elif op == 'index':
                    if a is ABSENT:
                        raise Bad('indexing finds an absent element')
                    eq_count(x, o.val, a, 'the count indexing gives')
                elif op == 'contains':
                    if x.truth(o.val) != (a is not ABSENT):
                        raise Bad('contains_key is wrong')
                elif op == 'len':
                    if not x.decide_eq(o.val - n):
                        raise Bad('len() is %r, should be %r' % (x.lin.norm(o.val), x.lin.norm(n)))
                elif op == 'is_empty':
                    if x.truth(o.val) != x.decide_eq(n):
                        raise Bad('is_empty is wrong')
                m = g.mapval(x, env['c'])
                r, was = g.look(x, m, G), g.base(x, 'A', G)
                if op in ('insert', 'remove') and MP.keq(x, V0, G):
                    was = x.sym('count') if op == 'insert' else ABSENT
                elif op == 'clear':
                    was = ABSENT
                if (r is ABSENT) != (was is ABSENT):
                    raise Bad('%s leaves an element %s' % (op, 'out' if r is ABSENT else 'that should not be there'))
                if was is not ABSENT:
                    eq_count(x, r, was, 'a count after ' + op)
            g.check(key, o.st, f)
    # clone and comparison
    key = 'K05/clone'

    def b(st):
        p = Ptr(st.alloc(g.pre(st, 'A')))
        return [p], {'c': p}
    for o, env in g.run(key, 'clone', b):
        g.check(key, o.st, lambda x, o=o: same_content(g, x, g.mapval(x, o.val), 'A', 'the clone'))
        unchanged(g, key + '/original', o.st, env['c'], 'A')
    key = 'K05/clone_from'

    def b(st):
        p, q = Ptr(st.alloc(g.pre(st, 'A'))), Ptr(st.alloc(g.pre(st, 'B')))
        return [q, p], {'c': p, 'q': q}
    for o, env in g.run(key, 'clone_from', b):
        g.check(key, o.st, lambda x, env=env: same_content(g, x, g.mapval(x, env['q']), 'A', 'the counter overwritten with a clone'))
        unchanged(g, key + '/original', o.st, env['c'], 'A')
    for op in ('eq', 'ne'):
        key = 'K05/' + op

        def b(st):
            p, q = Ptr(st.alloc(g.pre(st, 'A'))), Ptr(st.alloc(g.pre(st, 'B')))
            return [p, q], {'a': p, 'b': q}
        for o, env in g.run(key, op, b):
            def f(x, o=o, op=op):
                if x.truth(o.val) == (op == 'eq'):
                    a, b = g.base(x, 'A', G), g.base(x, 'B', G)
                    if (a is ABSENT) != (b is ABSENT):
                        raise Bad('counters that differ in an element count as equal')
                    if a is not ABSENT:
                        eq_count(x, a, b, 'equal counters: a count')
                    return
                # unequal: there has to be a difference
                if not x.decide_eq(x.sym('len_A') - x.sym('len_B')):
                    return
                for n, m in (('A', 'B'), ('B', 'A')):
                    for k, p, v in MP.known(x, n):
                        w = g.base(x, m, k)
                        if p != (w is not ABSENT):
                            return
                        if p and not x.decide_eq(v - w):
                            return
                raise Bad('counters without a difference count as unequal')
            g.check(key, o.st, f)
            unchanged(g, key + '/left', o.st, env['a'], 'A')
            unchanged(g, key + '/right', o.st, env['b'], 'B')


def user_panics(g, key, op, build, judge):
    """Judge what a panic of caller code leaves behind."""
    st = State(g.eng)
    args, env = build(st)
    for o in g.eng.call_entry(st, g.mod + '::' + op, args):
        hit = o.st.ghost.get('upanicked')
        if o.kind == 'panic' and o.st.panic[0] == 'user':
            g.check(key, o.st, lambda x: judge(x, env, hit))
        elif o.kind == 'panic' and hit:
            g.ctx.path_bad(key, o.st, 'another panic (%s) after a panic in %s' % (o.st.panic[1], hit), o.st.panic[2])
        elif o.kind in ('viol', 'abort') and hit:
            g.ctx.path_bad(key, o.st, 'after a panic in %s: %s' % (hit, o.msg[1] if o.msg else 'abort'))
        elif o.kind == 'cut':
            if o.st.taint:
                g.ctx.undecided(key, 'path cut: ' + '; '.join(sorted(o.st.taint))[:200])
            else:
                g.ctx.bounded(key)


def K06(ctx):
    g = start(ctx)
    if not g:
        return
    g.eng.unroll = 3
    g.eng.user_panics = True

    def src(kind):
        def b(st):
            p = Ptr(st.alloc(g.pre(st, 'A')))
            return [p, g.source(st, kind)], {'c': p}
        return b

    def pair(ref):
        def b(st):
            p, q = Ptr(st.alloc(g.pre(st, 'A'))), g.pre(st, 'B')
            env = {'c': p, 'r': None}
            if ref:
                q = env['r'] = Ptr(st.alloc(q))
            return [p, q], env
        return b

    def one(st):
        p = Ptr(st.alloc(g.pre(st, 'A')))
        return [p, V0], {'c': p}

    def settle(x, env, choices, hit):
        """The count of an arbitrary element is one of these."""
        r = g.look(x, g.mapval(x, env['c']), G)
        if r is not ABSENT and not isinstance(r, Lin):
            raise Undecided('the count is %s' % type(r).__name__)
        for c in choices:
            if c is ABSENT or r is ABSENT:
                if c is r:
                    return
            elif x.decide_eq(r - c):
                return
        raise Bad('after a panic in %s the count of an element is %s, should be %s' % (hit, show(x, r), ' or '.join(show(x, c) for c in choices)))

    def added(x, env, hit):
        n = taken(x)
        a = g.base(x, 'A', G)
        settle(x, env, [a if not k else num(a) + k for k in range(occurrences(x, G, n) + 1)], hit)

    def pushed(x, env, hit):
        a = g.base(x, 'A', G)
        settle(x, env, [a] + ([num(a) + 1] if MP.keq(x, V0, G) else []), hit)

    def summed(x, env, hit):
        a, b = g.base(x, 'A', G), g.base(x, 'B', G)
        if b is not ABSENT and not x.decide_le(num(a) + b - UMAX):
            return
        settle(x, env, [a] + ([] if b is ABSENT else [num(a) + b]), hit)

    def reduced(x, env, hit):
        a, b = g.base(x, 'A', G), g.base(x, 'B', G)
        c = [a]
        if a is not ABSENT and b is not ABSENT:
            c.append(ABSENT if x.decide_le(a - b) else a - b)
        settle(x, env, c, hit)

    for op, b, f in (('push', one, pushed), ('extend', src('val'), added), ('extend_ref', src('ref'), added),
                     ('add_assign', pair(False), summed), ('add_assign_ref', pair(True), summed),
                     ('sub_assign', pair(False), reduced), ('sub_assign_ref', pair(True), reduced)):
        def h(x, env, hit, f=f):
            f(x, env, hit)
            if env.get('r') is not None:
                same_content(g, x, g.mapval(x, env['r']), 'B', 'the operand')
        user_panics(g, 'K06/' + op, op, b, h)
    ctx.absorb(g.eng)


def K07(ctx):
    from . import p_dset as PD
    g = start(ctx)
    if not g:
        return
    PD.work_engine(g)
    for op in ('push', 'extend', 'extend_ref', 'deref', 'deref_mut'):
        def b(st, op=op):
            p = Ptr(st.alloc(g.pre(st, 'A')))
            st.need(st.assume_le(Lin(1 << 20) - st.sym('len_A')))
            a = [V0] if op == 'push' else [PD.few(g, st, 'ref' if op.endswith('ref') else 'val')] if op.startswith('extend') else []
            return [p] + a, {}
        PD.constant_work(ctx, g, op, b)
    ctx.absorb(g.eng)


RULES = {
    'K07': 'with arbitrarily many elements in the counter, no loop runs more than 8 times and no library call that handles a whole collection is given one of unbounded length; in extend: with two items',
    'K06': 'on every path on which a call of the caller (the iterator, cloning, hashing or comparing an element) panics, once: for an arbitrary element g the count left behind is the one before, or the one the finished operation gives (for items of an iterator: some of the items taken counted, each at most once); a borrowed right operand is unchanged; nothing else panics while unwinding',
    'K01': 'on every exit, for an arbitrary element g, the count of g in the resulting map is its old count plus the number of occurrences of g consumed, every item of the iterator is consumed, and a panic occurs only where a count exceeds usize',
    'K02': 'on every exit, for an arbitrary element g, count(result, g) = count(A, g) + count(B, g); g is absent if absent in both; a right operand taken by reference is unchanged',
    'K03': 'on every exit, for an arbitrary element g: absent on the left or left <= right gives absent, otherwise left - right; absent on the right gives left; no arithmetic overflow on any path; a right operand taken by reference is unchanged',
    'K04': 'the returned vector lists an arbitrary element g exactly once with its count if the counter holds it and not at all otherwise; adjacent counts do not increase',
    'K05': 'for an arbitrary element g the result (counter, clone, iteration, map) and the source agree on g; equality answers true only if both sides agree on every element and false only if a difference is known',
}
PROPS = {'K01': (K01, 5), 'K02': (K02, 6), 'K03': (K03, 6), 'K04': (K04, 5), 'K05': (K05, 10), 'K06': (K06, 7), 'K07': (K07, 5)}
