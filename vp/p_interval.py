"""Properties of intervals and bounds (I01-I11): weak-order abstract interpretation."""
from .dom import Lin, LT, EQ, GT
from .state import *
from .report import Bad, Undecided

LESS, EQUAL, GREATER = 0, 1, 2
ORDN = {0: 'Less', 1: 'Equal', 2: 'Greater', None: 'None'}


def A(n):
    return Atom(('var', n))


def term(v):
    if isinstance(v, Atom):
        return v.term
    raise Undecided('value is %s' % (type(v).__name__,))


def show_iv(s):
    if s is None:
        return 'empty'
    lo, lc, up, uc = s
    return '%s%s, %s%s' % ('[' if lc else '(', show_term(lo), show_term(up), ']' if uc else ')')


class IV:
    """Runs the operations of the interval module on abstract intervals."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.eng = ctx.engine()

    def state(self):
        return State(self.eng)

    def call(self, key, st, name, args, panics='never'):
        e = name if name.startswith('witness::') else 'interval::' + name
        o = self.eng.call_entry(st, e, args)
        return list(self.ctx.outs(self.eng, key, o, panics))

    def has(self, name):
        return self.eng.prog.entry('interval::' + name) is not None

    # ---- abstract inputs ----
    def make(self, st, n):
        """Every interval: yields (state, value, spec) with spec None or (lo, lc, up, uc) terms/flags."""
        for o in self.eng.call_entry(st, 'interval::new', [A(n + 'l'), Cond('sym', n + 'lc'), A(n + 'u'), Cond('sym', n + 'uc')]):
            if o.kind != 'ret':
                continue
            s = o.st
            # the constructor's contract (I02) selects the inputs it has to accept
            def valid(x, n=n):
                c = x.cmp(('var', n + 'l'), ('var', n + 'u'))
                return c < 0 or (c == 0 and bool(x.choose(n + 'lc', 2)) and bool(x.choose(n + 'uc', 2)))
            for s2, good in self.eng.split(s, valid):
                if good:
                    yield s2, o.val, (('var', n + 'l'), Cond('sym', n + 'lc'), ('var', n + 'u'), Cond('sym', n + 'uc'))
        for o in self.eng.call_entry(st, 'interval::empty', []):
            if o.kind == 'ret':
                yield o.st, o.val, None

    def bound(self, st, n, m):
        """Every lower (m='lo') or upper bound: (state, value, (term, cond))"""
        for o in self.eng.call_entry(st, 'interval::%s::new' % m, [A(n), Cond('sym', n + 'c')]):
            if o.kind == 'ret':
                yield o.st, o.val, (('var', n), Cond('sym', n + 'c'))

    def pairs(self):
        for s, a, sa in self.make(self.state(), 'a'):
            for s2, b, sb in self.make(s, 'b'):
                yield s2, a, sa, b, sb

    # ---- observation through the public accessors ----
    def observe(self, key, st, iv):
        """[(state, spec)] of an interval value."""
        p = Ptr(st.alloc(iv))
        return self.observe_at(key, st, p)

    def observe_at(self, key, st, p):
        res = []
        for o in self.call(key, st, 'bounds', [p]):
            v = o.val
            if not isinstance(v, Agg):
                self.ctx.undecided(key, 'bounds() gives %s' % type(v).__name__)
                continue
            if v.variant == 0:
                res.append((o.st, None))
                continue
            lo, up = v.fields[0].fields
            for a in self.bound_parts(key, o.st, 'lo', lo):
                for b in self.bound_parts(key, a[0], 'up', up):
                    res.append((b[0], (a[1], a[2], b[1], b[2])))
        return res

    def bound_parts(self, key, st, m, p):
        for o in self.call(key, st, m + '::val', [p]):
            v = o.val
            if not isinstance(v, Ptr):
                self.ctx.undecided(key, 'val() gives %s' % type(v).__name__)
                continue
            x = o.st.load(v.root, v.path)
            for q in self.call(key, o.st, m + '::is_closed', [p]):
                if not isinstance(x, Atom):
                    self.ctx.undecided(key, 'bound value is %s' % (x,))
                    continue
                yield q.st, x.term, q.val

    def check(self, key, st, fn):
        self.ctx.check(self.eng, key, st, fn)


# ---- the specification ----
def flags(st, spec):
    if spec is None:
        return None
    return (spec[0], st.truth(spec[1]), spec[2], st.truth(spec[3]))


def lo_cmp(st, a, b):
    c = st.cmp(a[0], b[0])
    if c:
        return c
    x, y = st.truth(a[1]), st.truth(b[1])
    return 0 if x == y else (-1 if x else 1)


def up_cmp(st, a, b):
    c = st.cmp(a[0], b[0])
    if c:
        return c
    x, y = st.truth(a[1]), st.truth(b[1])
    return 0 if x == y else (1 if x else -1)


def same_spec(st, a, b):
    if a is None or b is None:
        return a is b
    return st.same(a[0], b[0]) and st.same(a[2], b[2]) and st.truth(a[1]) == st.truth(b[1]) and st.truth(a[3]) == st.truth(b[3])


def normalize(st, lo, up):
    """Interval of two bounds (value, closed), or None when nothing lies between."""
    c = st.cmp(lo[0], up[0])
    if c > 0 or (c == 0 and not (st.truth(lo[1]) and st.truth(up[1]))):
        return None
    return (lo[0], lo[1], up[0], up[1])


def spec_intersection(st, a, b):
    if a is None or b is None:
        return None
    lo = a[:2] if lo_cmp(st, a[:2], b[:2]) >= 0 else b[:2]
    up = a[2:] if up_cmp(st, a[2:], b[2:]) <= 0 else b[2:]
    return normalize(st, lo, up)


def spec_span(st, a, b):
    if a is None:
        return b
    if b is None:
        return a
    lo = a[:2] if lo_cmp(st, a[:2], b[:2]) <= 0 else b[:2]
    up = a[2:] if up_cmp(st, a[2:], b[2:]) >= 0 else b[2:]
    return lo + up


def gap(st, a, b):
    """Is there a gap between non-empty a and b (in either order)?"""
    for x, y in ((a, b), (b, a)):
        c = st.cmp(x[2], y[0])          # upper end of x against lower end of y
        if c < 0 or (c == 0 and not st.truth(x[3]) and not st.truth(y[1])):
            return True
    return False


def valid_iv(st, s):
    if s is None:
        return
    c = st.cmp(s[0], s[2])
    if c > 0:
        raise Bad('the lower value of the result %s is above its upper value' % show_iv(flags(st, s)))
    if c == 0 and not (st.truth(s[1]) and st.truth(s[3])):
        raise Bad('the result %s has equal values but an open bound' % show_iv(flags(st, s)))


def expect(st, got, want, what='result'):
    if not same_spec(st, got, want):
        raise Bad('%s is %s, should be %s' % (what, show_iv(flags(st, got)), show_iv(flags(st, want))))


def inp(st, *specs):
    return ' for ' + ' and '.join(show_iv(flags(st, s)) for s in specs)


def expect_in(st, got, want, specs, what='result'):
    try:
        expect(st, got, want, what)
    except Bad as b:
        raise Bad(str(b) + inp(st, *specs))


def boolean(st, v, want, what):
    g = st.truth(v)
    if g != want:
        raise Bad('%s gives %s, should be %s' % (what, str(g).lower(), str(want).lower()))


def ordering(st, v):
    if isinstance(v, Agg) and not v.fields and v.variant in (0, 1, 2):
        return v.variant
    raise Undecided('ordering is %s' % (v,))


def opt_ordering(st, v):
    if isinstance(v, Agg):
        if v.variant == 0:
            return None
        return ordering(st, v.fields[0])
    raise Undecided('ordering is %s' % (v,))


OPEN_CLOSE = {'open': (0, 0), 'closed': (1, 1), 'lower_closed': (1, 0), 'upper_closed': (0, 1)}


def ctor_cases(iv):
    """(name, args, lower flag, upper flag) of the checked constructors."""
    st = iv.state()
    yield 'new', st, [A('l'), Cond('sym', 'lc'), A('u'), Cond('sym', 'uc')], Cond('sym', 'lc'), Cond('sym', 'uc')
    for n, (a, b) in OPEN_CLOSE.items():
        yield n, iv.state(), [A('l'), A('u')], Lin(a), Lin(b)
    for s, lo, sl in iv.bound(iv.state(), 'l', 'lo'):
        for s2, up, su in iv.bound(s, 'u', 'up'):
            yield 'from_bounds', s2, [lo, up], sl[1], su[1]


def I02(ctx):
    iv = IV(ctx)
    l, u = ('var', 'l'), ('var', 'u')
    for n, st, args, lc, uc in ctor_cases(iv):
        key = 'I02/' + n

        def bad(s):
            c = s.cmp(l, u)
            return c > 0 or (c == 0 and not (s.truth(lc) and s.truth(uc)))

        def on_panic(o):
            def f(s):
                if not bad(s):
                    raise Bad('panics for the valid arguments %s' % show_iv((l, s.truth(lc), u, s.truth(uc))))
            iv.check(key + '/panic', o.st, f)
        for o in iv.call(key, st, n, args, on_panic):
            for s, got in iv.observe(key, o.st, o.val):
                def f(x):
                    if bad(x):
                        raise Bad('accepts the invalid arguments %s' % show_iv((l, x.truth(lc), u, x.truth(uc))))
                    expect(x, got, (l, lc, u, uc))
                iv.check(key, s, f)
    key = 'I02/single'
    for o in iv.call(key, iv.state(), 'single', [A('l')]):
        for s, got in iv.observe(key, o.st, o.val):
            iv.check(key, s, lambda x: expect(x, got, (l, Lin(1), l, Lin(1))))
    key = 'I02/empty'
    for o in iv.call(key, iv.state(), 'empty', []):
        for s, got in iv.observe(key, o.st, o.val):
            iv.check(key, s, lambda x: expect(x, got, None))
    ctx.absorb(iv.eng)


ARITH = ('add', 'sub', 'mul', 'div')


def I01(ctx):
    iv = IV(ctx)
    ignore = lambda o: None

    def look(key, st, v):
        for s, got in iv.observe(key, st, v):
            iv.check(key, s, lambda x: valid_iv(x, got))

    def look_at(key, st, p):
        for s, got in iv.observe_at(key, st, p):
            iv.check(key, s, lambda x: valid_iv(x, got))
    for n, st, args, lc, uc in ctor_cases(iv):
        for o in iv.call('I01/' + n, st, n, args, ignore):
            look('I01/' + n, o.st, o.val)
    for o in iv.call('I01/single', iv.state(), 'single', [A('l')]):
        look('I01/single', o.st, o.val)
    for s, a, sa, b, sb in iv.pairs():
        for n in ('into_intersection', 'into_span'):
            for o in iv.call('I01/' + n, s, n, [a, b], ignore):
                look('I01/' + n, o.st, o.val)
        for o in iv.call('I01/into_merged', s, 'into_merged', [a, b], ignore):
            if not isinstance(o.val, Agg):
                ctx.undecided('I01/into_merged', 'result is %s' % type(o.val).__name__)
            elif o.val.variant == 0:
                look('I01/into_merged', o.st, o.val.fields[0])
            else:
                for x in o.val.fields[0].fields:
                    look('I01/into_merged/err', o.st, x)
        for n in ('intersection', 'span', 'merge'):
            s1 = s.copy()
            p = Ptr(s1.alloc(a))
            for o in iv.call('I01/' + n, s1, n, [p, b], ignore):
                look_at('I01/' + n, o.st, p)
                if n == 'merge' and isinstance(o.val, Agg) and o.val.variant == 1:
                    look('I01/merge/err', o.st, o.val.fields[0])
        s1 = s.copy()
        p, q = Ptr(s1.alloc(a)), Ptr(s1.alloc(b))
        for o in iv.call('I01/clone_from', s1, 'clone_from', [p, q], ignore):
            look_at('I01/clone_from', o.st, p)
    for s, a, sa in iv.make(iv.state(), 'a'):
        for n in ARITH:
            for o in iv.call('I01/' + n, s, n, [a, A('k')], ignore):
                look('I01/' + n, o.st, o.val)
            s1 = s.copy()
            p = Ptr(s1.alloc(a))
            for o in iv.call('I01/%s_assign' % n, s1, n + '_assign', [p, A('k')], ignore):
                look_at('I01/%s_assign' % n, o.st, p)
        for o in iv.call('I01/neg', s, 'neg', [a], ignore):
            look('I01/neg', o.st, o.val)
        s1 = s.copy()
        p = Ptr(s1.alloc(a))
        for o in iv.call('I01/clone', s1, 'clone', [p], ignore):
            look('I01/clone', o.st, o.val)
    ctx.absorb(iv.eng)


def inside(st, s, v):
    if s is None:
        return False
    c = st.cmp(s[0], v)
    if c > 0 or (c == 0 and not st.truth(s[1])):
        return False
    c = st.cmp(v, s[2])
    return not (c > 0 or (c == 0 and not st.truth(s[3])))


def unchanged(iv, key, st, p, spec, what):
    for s, got in iv.observe_at(key, st, p):
        iv.check(key, s, lambda x: expect(x, got, spec, what))


def I03(ctx):
    iv = IV(ctx)
    v = ('var', 'v')
    for s, a, sa in iv.make(iv.state(), 'a'):
        p, q = Ptr(s.alloc(a)), Ptr(s.alloc(Atom(v)))
        key = 'I03/contains_val/' + ('empty' if sa is None else 'non-empty')
        for o in iv.call(key, s, 'contains_val', [p, q]):
            def f(x):
                try:
                    boolean(x, o.val, inside(x, sa, v), 'contains_val')
                except Bad as b:
                    raise Bad('%s for %s and a value %s' % (b, show_iv(flags(x, sa)), where_val(x, sa, v)))
            iv.check(key, o.st, f)
    for s, a, sa, b, sb in iv.pairs():
        p, q = Ptr(s.alloc(a)), Ptr(s.alloc(b))
        key = 'I03/contains_interval/%s-%s' % ('e' if sa is None else 'n', 'e' if sb is None else 'n')
        for o in iv.call(key, s, 'contains_interval', [p, q]):
            def f(x):
                if sb is None:
                    w = True
                elif sa is None:
                    w = False
                else:
                    w = lo_cmp(x, sa[:2], sb[:2]) <= 0 and up_cmp(x, sb[2:], sa[2:]) <= 0
                try:
                    boolean(x, o.val, w, 'contains_interval')
                except Bad as e:
                    raise Bad(str(e) + inp(x, sa, sb))
            iv.check(key, o.st, f)
    ctx.absorb(iv.eng)


def where_val(st, s, v):
    if s is None:
        return 'v'
    r = []
    for t, n in ((s[0], 'lower'), (s[2], 'upper')):
        m = st.rel(v, t)
        r.append({LT: 'below', EQ: 'equal to', GT: 'above'}.get(m, 'related to') + ' the ' + n + ' value')
    return ' and '.join(r)


def inplace(iv, key, s, n, a, b):
    s = s.copy()
    p = Ptr(s.alloc(a))
    return p, iv.call(key, s, n, [p, b])


def tag(sa, sb):
    return '/%s-%s' % ('e' if sa is None else 'n', 'e' if sb is None else 'n')


def I04(ctx):
    iv = IV(ctx)
    for s, a, sa, b, sb in iv.pairs():
        t = tag(sa, sb)
        key = 'I04/into_intersection' + t
        for o in iv.call(key, s, 'into_intersection', [a, b]):
            for s2, got in iv.observe(key, o.st, o.val):
                iv.check(key, s2, lambda x: expect_in(x, got, spec_intersection(x, sa, sb), (sa, sb)))
        key = 'I04/intersection' + t
        p, outs = inplace(iv, key, s, 'intersection', a, b)
        for o in outs:
            for s2, got in iv.observe_at(key, o.st, p):
                iv.check(key, s2, lambda x: expect_in(x, got, spec_intersection(x, sa, sb), (sa, sb)))
        key = 'I04/intersects' + t
        s1 = s.copy()
        p, q = Ptr(s1.alloc(a)), Ptr(s1.alloc(b))
        for o in iv.call(key, s1, 'intersects', [p, q]):
            def f(x):
                try:
                    boolean(x, o.val, spec_intersection(x, sa, sb) is not None, 'intersects')
                except Bad as e:
                    raise Bad(str(e) + inp(x, sa, sb))
            iv.check(key, o.st, f)
    ctx.absorb(iv.eng)


def I05(ctx):
    iv = IV(ctx)

    def can(x, sa, sb):
        return sa is None or sb is None or not gap(x, sa, sb)
    for s, a, sa, b, sb in iv.pairs():
        t = tag(sa, sb)
        key = 'I05/can_be_merged' + t
        s1 = s.copy()
        p, q = Ptr(s1.alloc(a)), Ptr(s1.alloc(b))
        for o in iv.call(key, s1, 'can_be_merged', [p, q]):
            def f(x):
                try:
                    boolean(x, o.val, can(x, sa, sb), 'can_be_merged')
                except Bad as e:
                    raise Bad(str(e) + inp(x, sa, sb))
            iv.check(key, o.st, f)
        key = 'I05/into_merged' + t
        for o in iv.call(key, s, 'into_merged', [a, b]):
            r = o.val
            if not isinstance(r, Agg):
                ctx.undecided(key, 'result is %s' % type(r).__name__)
                continue

            def g(x):
                if (r.variant == 0) != can(x, sa, sb):
                    raise Bad('into_merged %s' % ('succeeds across a gap' if r.variant == 0 else 'fails although there is no gap') + inp(x, sa, sb))
            iv.check(key, o.st, g)
            if r.variant == 0:
                for s2, got in iv.observe(key, o.st, r.fields[0]):
                    def h(x):
                        if can(x, sa, sb):
                            expect_in(x, got, spec_span(x, sa, sb), (sa, sb))
                    iv.check(key + '/union', s2, h)
            else:
                for k, want in ((0, sa), (1, sb)):
                    for s2, got in iv.observe(key, o.st, r.fields[0].fields[k]):
                        iv.check(key + '/returned', s2, lambda x: expect_in(x, got, want, (sa, sb), 'the returned operand %d' % (k + 1)))
        key = 'I05/merge' + t
        p, outs = inplace(iv, key, s, 'merge', a, b)
        for o in outs:
            r = o.val
            if not isinstance(r, Agg):
                ctx.undecided(key, 'result is %s' % type(r).__name__)
                continue

            def g(x):
                if (r.variant == 0) != can(x, sa, sb):
                    raise Bad('merge %s' % ('succeeds across a gap' if r.variant == 0 else 'fails although there is no gap') + inp(x, sa, sb))
            iv.check(key, o.st, g)
            for s2, got in iv.observe_at(key, o.st, p):
                def h(x):
                    if r.variant == 1:
                        expect_in(x, got, sa, (sa, sb), 'the interval after a failed merge')
                    elif can(x, sa, sb):
                        expect_in(x, got, spec_span(x, sa, sb), (sa, sb))
                iv.check(key + '/self', s2, h)
            if r.variant == 1:
                for s2, got in iv.observe(key, o.st, r.fields[0]):
                    iv.check(key + '/returned', s2, lambda x: expect_in(x, got, sb, (sa, sb), 'the returned operand'))
    # bounds: separated exactly if a gap lies between an upper bound and a lower bound
    for m, om in (('lo', 'up'), ('up', 'lo')):
        for s, a, sa in iv.bound(iv.state(), 'x', m):
            for s2, b, sb in iv.bound(s, 'y', om):
                key = 'I05/%s::is_separated_from' % m
                p, q = Ptr(s2.alloc(a)), Ptr(s2.alloc(b))
                for o in iv.call(key, s2, m + '::is_separated_from', [p, q]):
                    def f(x):
                        lo, up = (sa, sb) if m == 'lo' else (sb, sa)
                        c = x.cmp(up[0], lo[0])
                        w = c < 0 or (c == 0 and not x.truth(lo[1]) and not x.truth(up[1]))
                        boolean(x, o.val, w, 'is_separated_from')
                    iv.check(key, o.st, f)
    ctx.absorb(iv.eng)


def I06(ctx):
    iv = IV(ctx)
    for s, a, sa, b, sb in iv.pairs():
        t = tag(sa, sb)
        key = 'I06/into_span' + t
        for o in iv.call(key, s, 'into_span', [a, b]):
            for s2, got in iv.observe(key, o.st, o.val):
                iv.check(key, s2, lambda x: expect_in(x, got, spec_span(x, sa, sb), (sa, sb)))
        key = 'I06/span' + t
        p, outs = inplace(iv, key, s, 'span', a, b)
        for o in outs:
            for s2, got in iv.observe_at(key, o.st, p):
                iv.check(key, s2, lambda x: expect_in(x, got, spec_span(x, sa, sb), (sa, sb)))
    ctx.absorb(iv.eng)


def rel_ops(x, less, lesseq, greater, greatereq, equal):
    return {'lt': less, 'le': lesseq, 'gt': greater, 'ge': greatereq, 'eq': equal, 'ne': not equal}


def I07(ctx):
    iv = IV(ctx)

    def below(x, a, b):
        c = x.cmp(a[2], b[0])
        return c < 0 or (c == 0 and not (x.truth(a[3]) and x.truth(b[1])))

    def want_iv(x, sa, sb):
        if sa is None or sb is None:
            return rel_ops(x, False, False, False, False, sa is sb)
        return rel_ops(x, below(x, sa, sb), x.cmp(sa[2], sb[0]) <= 0, below(x, sb, sa), x.cmp(sb[2], sa[0]) <= 0, same_spec(x, sa, sb))

    def want_val(x, sa, v):
        if sa is None:
            return rel_ops(x, False, False, False, False, False)
        cu, cl = x.cmp(sa[2], v), x.cmp(sa[0], v)
        return rel_ops(x, cu < 0 or (cu == 0 and not x.truth(sa[3])), cu <= 0, cl > 0 or (cl == 0 and not x.truth(sa[1])), cl >= 0,
                       cu == 0 and cl == 0)

    def run(pre, s, p, q, want, specs, t):
        for n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
            key = 'I07/' + pre + n + t
            for o in iv.call(key, s, pre + n, [p, q]):
                def f(x):
                    try:
                        boolean(x, o.val, want(x)[n], pre + n)
                    except Bad as e:
                        raise Bad(str(e) + inp(x, *specs))
                iv.check(key, o.st, f)
        key = 'I07/' + pre + 'partial_cmp' + t
        for o in iv.call(key, s, pre + 'partial_cmp', [p, q]):
            def f(x):
                w = want(x)
                e = LESS if w['lt'] else GREATER if w['gt'] else EQUAL if w['eq'] else None
                g = opt_ordering(x, o.val)
                if g != e:
                    raise Bad('partial_cmp gives %s, should be %s' % (ORDN[g], ORDN[e]) + inp(x, *specs))
            iv.check(key, o.st, f)
    for s, a, sa, b, sb in iv.pairs():
        p, q = Ptr(s.alloc(a)), Ptr(s.alloc(b))
        run('', s, p, q, lambda x: want_iv(x, sa, sb), (sa, sb), tag(sa, sb))
    v = ('var', 'v')
    for s, a, sa in iv.make(iv.state(), 'a'):
        p, q = Ptr(s.alloc(a)), Ptr(s.alloc(Atom(v)))
        run('v_', s, p, q, lambda x: want_val(x, sa, v), (sa,), '/e' if sa is None else '/n')
    ctx.absorb(iv.eng)


def consistent(op, c):
    return {'lt': c == -1, 'le': c in (-1, 0), 'gt': c == 1, 'ge': c in (0, 1), 'eq': c == 0, 'ne': c != 0}[op]


def I08(ctx):
    iv = IV(ctx)
    OPS = ('lt', 'le', 'gt', 'ge', 'eq', 'ne')
    for m, bcmp in (('lo', lo_cmp), ('up', up_cmp)):
        def sb(x, s):
            t = x.truth(s[1])
            return ('[' if t else '(') + show_term(s[0]) if m == 'lo' else show_term(s[0]) + (']' if t else ')')
        for s, a, sa in iv.bound(iv.state(), 'x', m):
            for s2, b, sb_ in iv.bound(s, 'y', m):
                p, q = Ptr(s2.alloc(a)), Ptr(s2.alloc(b))
                for n in OPS:
                    key = 'I08/%s::%s' % (m, n)
                    for o in iv.call(key, s2, '%s::%s' % (m, n), [p, q]):
                        def f(x):
                            boolean(x, o.val, consistent(n, bcmp(x, sa, sb_)), '%s of %s and %s' % (n, sb(x, sa), sb(x, sb_)))
                        iv.check(key, o.st, f)
                for n in ('cmp', 'partial_cmp'):
                    key = 'I08/%s::%s' % (m, n)
                    for o in iv.call(key, s2, '%s::%s' % (m, n), [p, q]):
                        def f(x):
                            g = ordering(x, o.val) if n == 'cmp' else opt_ordering(x, o.val)
                            w = bcmp(x, sa, sb_) + 1
                            if g != w:
                                raise Bad('%s of %s and %s gives %s, should be %s' % (n, sb(x, sa), sb(x, sb_), ORDN[g], ORDN[w]))
                        iv.check(key, o.st, f)
                for n in ('min', 'max'):
                    key = 'I08/%s::%s' % (m, n)
                    for o in iv.call(key, s2, '%s::%s' % (m, n), [a, b]):
                        r = Ptr(o.st.alloc(o.val))
                        for s3, t, c in iv.bound_parts(key, o.st, m, r):
                            def f(x):
                                k = bcmp(x, sa, sb_)
                                w = sa if (k <= 0) == (n == 'min') or k == 0 else sb_
                                if bcmp(x, (t, c), w) != 0:
                                    raise Bad('%s of %s and %s gives %s' % (n, sb(x, sa), sb(x, sb_), sb(x, (t, c))))
                            iv.check(key, s3, f)
            # against plain values
            v = ('var', 'v')
            p, q = Ptr(s.alloc(a)), Ptr(s.alloc(Atom(v)))

            def pos(x):
                c = x.cmp(sa[0], v)
                if c == 0 and not x.truth(sa[1]):
                    return 1 if m == 'lo' else -1
                return c
            for n in OPS:
                key = 'I08/%s::v_%s' % (m, n)
                for o in iv.call(key, s, '%s::v_%s' % (m, n), [p, q]):
                    iv.check(key, o.st, lambda x: boolean(x, o.val, consistent(n, pos(x)), '%s of %s and the value v (%s)' % (n, sb(x, sa), where_val(x, (sa[0], sa[1], sa[0], sa[1]), v).split(' and ')[0])))
            key = 'I08/%s::v_partial_cmp' % m
            for o in iv.call(key, s, '%s::v_partial_cmp' % m, [p, q]):
                def f(x):
                    g, w = opt_ordering(x, o.val), pos(x) + 1
                    if g != w:
                        raise Bad('partial_cmp of %s and a value gives %s, should be %s' % (sb(x, sa), ORDN[g], ORDN[w]))
                iv.check(key, o.st, f)
    # a lower against an upper bound: never equal; ordered like the values when these differ;
    # otherwise the operators have to be consistent with each other and under swapping
    for s, a, sa in iv.bound(iv.state(), 'x', 'lo'):
        for s2, b, sb_ in iv.bound(s, 'y', 'up'):
            p, q = Ptr(s2.alloc(a)), Ptr(s2.alloc(b))
            paths = [(s2, {})]
            for d, args in (('lo', [p, q]), ('up', [q, p])):
                for n in OPS + ('partial_cmp',):
                    nx = []
                    for st, env in paths:
                        for o in iv.call('I08/mixed/%s::o_%s' % (d, n), st, '%s::o_%s' % (d, n), args):
                            e = dict(env)
                            e[d, n] = o.val
                            nx.append((o.st, e))
                    paths = nx
            for st, env in paths:
                def val(x, d, n):
                    if n == 'partial_cmp':
                        return opt_ordering(x, env[d, n])
                    return x.truth(env[d, n])

                def ev(x):
                    c = x.cmp(sa[0], sb_[0])
                    lc, uc = x.truth(sa[1]), x.truth(sb_[1])
                    r = {k: val(x, *k) for k in env}
                    return c, lc, uc, r
                for s3, (c, lc, uc, r) in iv.eng.split(st, ev):
                    for d, sg in (('lo', 1), ('up', -1)):
                        key = 'I08/mixed/%s::o_eq' % d
                        if r[d, 'eq'] or not r[d, 'ne']:
                            ctx.path_bad(key, s3, 'a lower and an upper bound compare equal (== %s, != %s)' % (r[d, 'eq'], r[d, 'ne']))
                        else:
                            ctx.ok(key)
                        ops = tuple(int(r[d, n]) for n in ('lt', 'le', 'gt', 'ge'))
                        pc = r[d, 'partial_cmp']
                        case = '%s %s %s' % ('[x' if lc else '(x', '<=>'[c + 1], 'y]' if uc else 'y)')
                        if d == 'up':
                            case = '%s %s %s' % ('y]' if uc else 'y)', '>=<'[c + 1], '[x' if lc else '(x')
                        desc = 'lt,le,gt,ge = %d,%d,%d,%d partial_cmp = %s' % (ops + (ORDN[pc],))
                        if c:
                            k = c * sg
                            good = ops == (k < 0, k < 0, k > 0, k > 0) and pc == k + 1
                            key = 'I08/mixed/%s' % case
                        else:
                            # the two can never be equal, so exactly consistent answers are Less or Greater,
                            # or none of the four when they are unordered
                            good = (ops, pc) in (((1, 1, 0, 0), LESS), ((0, 0, 1, 1), GREATER), ((0, 0, 0, 0), None))
                            key = 'I08/mixed/%s: %s' % (case, desc)
                        if good:
                            ctx.ok('I08/mixed/%s' % case)
                        else:
                            ctx.path_bad(key, s3, '%s: %s' % (case, desc))
                    if not c:
                        # swapping the operands
                        good = all(r['lo', n] == r['up', k] for n, k in (('lt', 'gt'), ('gt', 'lt'), ('le', 'ge'), ('ge', 'le'))) and \
                            (r['lo', 'partial_cmp'], r['up', 'partial_cmp']) in ((0, 2), (2, 0), (None, None))
                        case = '%s and %s' % ('[x' if lc else '(x', 'x]' if uc else 'x)')
                        if good:
                            ctx.ok('I08/mixed/swap %s' % case)
                        else:
                            desc = 'lower against upper %s, upper against lower %s' % (ORDN[r['lo', 'partial_cmp']], ORDN[r['up', 'partial_cmp']])
                            bits = ''.join(str(int(r[d, n])) for d in ('lo', 'up') for n in ('lt', 'le', 'gt', 'ge'))
                            ctx.path_bad('I08/mixed/swap %s: %s (%s)' % (case, desc, bits), s3, 'swapping the operands is inconsistent: %s' % desc)
    ctx.absorb(iv.eng)


def image(x, n, t, k):
    xs = (x.okey(t),) + ((x.okey(k),) if k is not None else ())
    return ('app', n) + xs


def I09(ctx):
    iv = IV(ctx)
    k = ('var', 'k')

    def want(x, sa, n, operand):
        if sa is None:
            return None
        lo = (image(x, n, sa[0], operand), sa[1])
        up = (image(x, n, sa[2], operand), sa[3])
        if x.cmp(lo[0], up[0]) > 0:
            lo, up = up, lo
        return normalize(x, lo, up)
    for s, a, sa in iv.make(iv.state(), 'a'):
        t = '/e' if sa is None else '/n'
        for n in ARITH + ('neg',):
            key = 'I09/' + n + t
            operand = None if n == 'neg' else k
            for o in iv.call(key, s, n, [a] + ([Atom(k)] if operand else [])):
                for s2, got in iv.observe(key, o.st, o.val):
                    iv.check(key, s2, lambda x: expect_in(x, got, want(x, sa, n, operand), (sa,)))
            if n == 'neg':
                continue
            key = 'I09/%s_assign' % n + t
            p, outs = inplace(iv, key, s, n + '_assign', a, Atom(k))
            for o in outs:
                for s2, got in iv.observe_at(key, o.st, p):
                    iv.check(key, s2, lambda x: expect_in(x, got, want(x, sa, n + '_assign', k), (sa,)))
    for m in ('lo', 'up'):
        for s, a, sa in iv.bound(iv.state(), 'x', m):
            for n in ARITH:
                key = 'I09/%s::%s' % (m, n)
                for o in iv.call(key, s, '%s::%s' % (m, n), [a, Atom(k)]):
                    r = Ptr(o.st.alloc(o.val))
                    for s2, t, c in iv.bound_parts(key, o.st, m, r):
                        def f(x):
                            if not x.same(t, image(x, n, sa[0], k)) or x.truth(c) != x.truth(sa[1]):
                                raise Bad('%s gives %s %s' % (n, show_term(t), 'closed' if x.truth(c) else 'open'))
                        iv.check(key, s2, f)
                key = 'I09/%s::%s_assign' % (m, n)
                p, outs = inplace(iv, key, s, '%s::%s_assign' % (m, n), a, Atom(k))
                for o in outs:
                    for s2, t, c in iv.bound_parts(key, o.st, m, p):
                        def f(x):
                            if not x.same(t, image(x, n + '_assign', sa[0], k)) or x.truth(c) != x.truth(sa[1]):
                                raise Bad('%s= gives %s %s' % (n, show_term(t), 'closed' if x.truth(c) else 'open'))
                        iv.check(key, s2, f)
    ctx.absorb(iv.eng)


def I10(ctx):
    iv = IV(ctx)
    for s, a, sa in iv.make(iv.state(), 'a'):
        t = '/e' if sa is None else '/n'
        s0 = s
        p = Ptr(s0.alloc(a))

        def one(n, args, f, panics='never'):
            key = 'I10/' + n + t
            for o in iv.call(key, s0, n, args, panics):
                iv.check(key, o.st, lambda x: f(x, o.val))
            return key
        # whole-interval accessors
        key = 'I10/bounds' + t
        for s2, got in iv.observe_at(key, s0, p):
            iv.check(key, s2, lambda x: expect(x, got, sa, 'bounds()'))
        for n, m, k in (('lower', 'lo', 0), ('upper', 'up', 2)):
            key = 'I10/' + n + t
            for o in iv.call(key, s0, n, [p]):
                v = o.val
                if not isinstance(v, Agg):
                    ctx.undecided(key, 'result')
                    continue
                if (v.variant == 0) != (sa is None):
                    ctx.path_bad(key, o.st, '%s() gives %s for %s' % (n, 'None' if v.variant == 0 else 'a bound', 'an empty interval' if sa is None else 'a non-empty interval'))
                    continue
                if sa is None:
                    ctx.ok(key)
                    continue
                for s2, tt, c in iv.bound_parts(key, o.st, m, v.fields[0]):
                    def f(x):
                        if not x.same(tt, sa[k]) or x.truth(c) != x.truth(sa[k + 1]):
                            raise Bad('%s() of %s is %s %s' % (n, show_iv(flags(x, sa)), show_term(tt), 'closed' if x.truth(c) else 'open'))
                    iv.check(key, s2, f)
        one('is_empty', [p], lambda x, v: boolean(x, v, sa is None, 'is_empty'))
        one('is_single', [p], lambda x, v: boolean(x, v, sa is not None and x.same(sa[0], sa[2]), 'is_single'))

        def optbool(k):
            def f(x, v):
                if not isinstance(v, Agg):
                    raise Undecided('result')
                if (v.variant == 0) != (sa is None):
                    raise Bad('gives %s' % ('None' if v.variant == 0 else 'Some'))
                if sa is not None:
                    boolean(x, v.fields[0], x.truth(sa[k]), 'closedness')
            return f
        one('is_lower_closed', [p], optbool(1))
        one('is_upper_closed', [p], optbool(3))
        # taking apart and rebuilding
        key = 'I10/into_tuple' + t
        for o in iv.call(key, s0, 'into_tuple', [a]):
            v = o.val
            if not isinstance(v, Agg):
                ctx.undecided(key, 'result')
                continue

            def f(x):
                if (v.variant == 0) != (sa is None):
                    raise Bad('into_tuple gives %s' % ('None' if v.variant == 0 else 'Some'))
                if sa is not None:
                    l, lc, u, uc = v.fields[0].fields
                    expect(x, (term(l), lc, term(u), uc), sa, 'into_tuple()')
            iv.check(key, o.st, f)
            if v.variant == 1 and sa is not None:
                key2 = 'I10/rebuild from tuple' + t
                for o2 in iv.call(key2, o.st, 'new', list(v.fields[0].fields)):
                    q = Ptr(o2.st.alloc(o2.val))
                    for o3 in iv.call(key2, o2.st, 'eq', [q, p]):
                        iv.check(key2, o3.st, lambda x: boolean(x, o3.val, True, 'comparison of the rebuilt interval with the original'))
        key = 'I10/into_bounds' + t
        for o in iv.call(key, s0, 'into_bounds', [a]):
            v = o.val
            if not isinstance(v, Agg):
                ctx.undecided(key, 'result')
                continue
            if (v.variant == 0) != (sa is None):
                ctx.path_bad(key, o.st, 'into_bounds gives %s' % ('None' if v.variant == 0 else 'Some'))
                continue
            if sa is None:
                ctx.ok(key)
                continue
            lo, up = v.fields[0].fields
            s1 = o.st
            pl, pu = Ptr(s1.alloc(lo)), Ptr(s1.alloc(up))
            for s2, t1, c1 in iv.bound_parts(key, s1, 'lo', pl):
                for s3, t2, c2 in iv.bound_parts(key, s2, 'up', pu):
                    iv.check(key, s3, lambda x: expect(x, (t1, c1, t2, c2), sa, 'into_bounds()'))
            key2 = 'I10/rebuild from bounds' + t
            for o2 in iv.call(key2, o.st, 'from_bounds', [lo, up]):
                q = Ptr(o2.st.alloc(o2.val))
                for o3 in iv.call(key2, o2.st, 'eq', [q, p]):
                    iv.check(key2, o3.st, lambda x: boolean(x, o3.val, True, 'comparison of the rebuilt interval with the original'))
        # cloning
        key = 'I10/clone' + t
        for o in iv.call(key, s0, 'clone', [p]):
            for s2, got in iv.observe(key, o.st, o.val):
                iv.check(key, s2, lambda x: expect(x, got, sa, 'the clone'))
            q = Ptr(o.st.alloc(o.val))
            for o3 in iv.call(key, o.st, 'eq', [q, p]):
                iv.check(key, o3.st, lambda x: boolean(x, o3.val, True, 'comparison of a clone with the original'))
            unchanged(iv, key, o.st, p, sa, 'the original after cloning')
        # display
        key = 'I10/display' + t
        s1 = s0.copy()
        s1.events = ()
        fm = Ptr(s1.alloc(Top('formatter')))
        for o in iv.call(key, s1, 'display', [p, fm]):
            def f(x):
                out = []
                for e in x.events:
                    if e[0] != 'out':
                        continue
                    if e[1] == 'str':
                        if out and isinstance(out[-1], bytes):
                            out[-1] += e[2]
                        else:
                            out.append(e[2])
                    else:
                        out.append(e[2])
                if sa is None:
                    if out != ['\u00d8'.encode()]:
                        raise Bad('an empty interval is displayed as %r' % (out,))
                    return
                if len(out) != 5 or not isinstance(out[1], tuple) or not isinstance(out[3], tuple):
                    raise Bad('%s is displayed as %s' % (show_iv(flags(x, sa)), show_out(out)))
                l, u = x.truth(sa[1]), x.truth(sa[3])
                sep = out[2].decode('utf8', 'replace')
                if out[0] != (b'[' if l else b'(') or out[4] != (b']' if u else b')') or sep.strip() != ',' or \
                        not x.same(out[1], sa[0]) or not x.same(out[3], sa[2]):
                    raise Bad('%s is displayed as %s' % (show_iv(flags(x, sa)), show_out(out)))
            iv.check(key, o.st, f)
        # clone_from
        for s2, b, sb in iv.make(s0, 'b'):
            key = 'I10/clone_from' + tag(sa, sb)
            s3 = s2.copy()
            q, r = Ptr(s3.alloc(a)), Ptr(s3.alloc(b))
            for o in iv.call(key, s3, 'clone_from', [q, r]):
                for s4, got in iv.observe_at(key, o.st, q):
                    iv.check(key, s4, lambda x: expect(x, got, sb, 'the interval after clone_from'))
                unchanged(iv, key, o.st, r, sb, 'the source of clone_from')
    for m in ('lo', 'up'):
        for s, a, sa in iv.bound(iv.state(), 'x', m):
            p = Ptr(s.alloc(a))
            key = 'I10/%s accessors' % m

            def chk(x, t, c, what):
                if not x.same(t, sa[0]) or x.truth(c) != x.truth(sa[1]):
                    raise Bad('%s reports %s %s' % (what, show_term(t), 'closed' if x.truth(c) else 'open'))
            for s2, t, c in iv.bound_parts(key, s, m, p):
                iv.check(key, s2, lambda x: chk(x, t, c, 'val/is_closed'))
            key = 'I10/%s::into_tuple' % m
            for o in iv.call(key, s, m + '::into_tuple', [a]):
                if not isinstance(o.val, Agg):
                    ctx.undecided(key, 'result')
                    continue
                iv.check(key, o.st, lambda x: chk(x, term(o.val.fields[0]), o.val.fields[1], 'into_tuple'))
            key = 'I10/%s::clone' % m
            for o in iv.call(key, s, m + '::clone', [p]):
                q = Ptr(o.st.alloc(o.val))
                for s2, t, c in iv.bound_parts(key, o.st, m, q):
                    iv.check(key, s2, lambda x: chk(x, t, c, 'the clone'))
    ctx.absorb(iv.eng)


def show_out(out):
    return ''.join(x.decode('utf8', 'replace') if isinstance(x, bytes) else '{%s}' % show_term(x) for x in out)


def I11(ctx):
    iv = IV(ctx)

    def feed(x, n):
        return [e for e in x.events[n:] if e[0] == 'hash']

    def same_feed(x, fa, fb):
        """The same data: the raw sequences agree event by event."""
        if len(fa) != len(fb):
            raise Bad('equal values feed %d and %d pieces of data to the hasher' % (len(fa), len(fb)))
        for e, f in zip(fa, fb):
            if e[1] != f[1]:
                raise Bad('equal values feed different data to the hasher (%s and %s)' % (e[1:], f[1:]))
            if e[1] == 'val':
                if not x.same(e[2], f[2]):
                    raise Bad('equal values feed different element values to the hasher (%s and %s)' % (show_term(e[2]), show_term(f[2])))
            elif x.norm(e[2]) != x.norm(f[2]):
                a, b = x.norm(e[2]), x.norm(f[2])
                raise Bad('equal values feed different data to the hasher (%s and %s)' % (a, b))

    def run(key, s, p, q, eq, hsh):
        for o in iv.call(key, s, eq, [p, q]):
            for s1, r in iv.eng.split(o.st, lambda x: x.truth(o.val)):
                if not r:
                    ctx.ok(key + '/unequal')
                    continue
                h = Ptr(s1.alloc(Agg(0, (Lin(0),))))
                n0 = len(s1.events)
                for o1 in iv.call(key, s1, hsh, [p, h]):
                    n1 = len(o1.st.events)
                    h2 = Ptr(o1.st.alloc(Agg(0, (Lin(0),))))
                    for o2 in iv.call(key, o1.st, hsh, [q, h2]):
                        ev = o2.st.events
                        fa = [e for e in ev[n0:n1] if e[0] == 'hash']
                        fb = [e for e in ev[n1:] if e[0] == 'hash']
                        iv.check(key, o2.st, lambda x: same_feed(x, fa, fb))
    for s, a, sa, b, sb in iv.pairs():
        p, q = Ptr(s.alloc(a)), Ptr(s.alloc(b))
        run('I11/interval' + tag(sa, sb), s, p, q, 'eq', 'hash')
    for m in ('lo', 'up'):
        for s, a, sa in iv.bound(iv.state(), 'x', m):
            for s2, b, sb in iv.bound(s, 'y', m):
                p, q = Ptr(s2.alloc(a)), Ptr(s2.alloc(b))
                run('I11/' + m, s2, p, q, m + '::eq', m + '::hash')
    ctx.absorb(iv.eng)


def I12(ctx):
    iv = IV(ctx)
    k = ('var', 'k')

    def run(key, s, n, a, b, sa, finished):
        """Every place where a call of the caller panics during an operation in place."""
        s1 = s.copy()
        p = Ptr(s1.alloc(a))
        iv.eng.user_panics = True
        try:
            outs = list(iv.eng.call_entry(s1, 'interval::' + n, [p, b]))
        finally:
            iv.eng.user_panics = False
        for o in outs:
            hit = o.st.ghost.get('upanicked')
            if not hit:
                if o.kind == 'cut':
                    ctx.undecided(key, 'path cut: ' + '; '.join(sorted(o.st.taint))[:200]) if o.st.taint else ctx.bounded(key)
                continue
            if o.kind == 'panic' and o.st.panic[0] == 'user':
                x = o.st.copy()
                x.panic = None
                for s2, got in iv.observe_at(key, x, p):
                    def f(y):
                        try:
                            valid_iv(y, got)
                            if finished and got is not None and not same_spec(y, got, sa) and not same_spec(y, got, finished(y)):
                                raise Bad('a half modified interval %s is left' % show_iv(flags(y, got)))
                        except Bad as e:
                            raise Bad('after a panic in %s of %s: %s%s' % (hit, n, e, inp(y, sa)))
                    iv.check(key, s2, f)
            elif o.kind == 'panic':
                ctx.path_bad(key, o.st, 'another panic (%s) after a panic in %s' % (o.st.panic[1], hit), o.st.panic[2])
            elif o.kind in ('viol', 'abort'):
                ctx.path_bad(key, o.st, 'after a panic in %s: %s' % (hit, o.msg[1] if o.msg else 'abort'))
            elif o.kind == 'cut':
                ctx.undecided(key, 'path cut: ' + '; '.join(sorted(o.st.taint))[:200]) if o.st.taint else ctx.bounded(key)

    def image_of(sa, n):
        def f(x):
            if sa is None:
                return None
            lo = (image(x, n, sa[0], k), sa[1])
            up = (image(x, n, sa[2], k), sa[3])
            if x.cmp(lo[0], up[0]) > 0:
                lo, up = up, lo
            return normalize(x, lo, up)
        return f
    for s, a, sa in iv.make(iv.state(), 'a'):
        t = '/e' if sa is None else '/n'
        for n in ARITH:
            run('I12/%s_assign' % n + t, s, n + '_assign', a, Atom(k), sa, image_of(sa, n + '_assign'))
    for s, a, sa, b, sb in iv.pairs():
        for n in ('intersection', 'span', 'merge'):
            run('I12/' + n + tag(sa, sb), s, n, a, b, sa, None)
        s1 = s.copy()
        run('I12/clone_from' + tag(sa, sb), s1, 'clone_from', a, Ptr(s1.alloc(b)), sa, None)
    ctx.absorb(iv.eng)


RULE = ('weak-order abstract domain over the bound values (every ordering of the values involved), closedness flags enumerated; '
        'each exit state of the analysed operation is compared with the specification')
PROPS = {
    'I01': (I01, 20), 'I02': (I02, 12), 'I03': (I03, 6), 'I04': (I04, 12), 'I05': (I05, 14), 'I06': (I06, 8), 'I07': (I07, 28),
    'I08': (I08, 40), 'I09': (I09, 34), 'I10': (I10, 24), 'I11': (I11, 4), 'I12': (I12, 8),
}
