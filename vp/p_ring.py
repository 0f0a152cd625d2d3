"""Properties of CircularBuffer (C01-C10): linear-inequality and segment domains."""
import time
from contextlib import contextmanager
from .dom import Lin, S
from .state import *
from .report import Bad, Undecided
from . import seq as Q
from .models import has_v, pcmp

SMAX = (1 << 63) - 1
V0 = Atom(('var', 'v'))


class Rep:
    """How the buffer stores its elements (found by looking at the constructor and two pushes)."""

    def __init__(self, ibuf, istart, iend, mode, extra, vec, n, derived=(), const=()):
        self.ibuf, self.istart, self.iend, self.mode, self.extra, self.vec, self.n = ibuf, istart, iend, mode, extra, vec, n
        self.derived, self.const = derived, const     # fields that repeat what the others say; fields without content


# what a redundant field may hold: (elements, slots, capacity, slot one past the last) -> number or (left, right) for left <= right
DERIVED = {
    'the length': lambda n, b, c, e: n,
    'the end': lambda n, b, c, e: e,
    'the capacity': lambda n, b, c, e: c,
    'the number of slots': lambda n, b, c, e: b,
    'the free room': lambda n, b, c, e: c - n,
    'the last slot': lambda n, b, c, e: b - 1,
    'whether it is full': lambda n, b, c, e: (c, n),
    'whether it is empty': lambda n, b, c, e: (n, Lin(0)),
    'whether it is not full': lambda n, b, c, e: (n + 1, c),
    'whether it holds elements': lambda n, b, c, e: (Lin(1), n),
}


class Info:
    def __init__(self, name, n, B, cap):
        self.name, self.n, self.B, self.cap = name, n, B, cap
        self.seq = Q.el(name, Lin(0), n)


class Broken(Exception):
    """The representation invariant does not hold in this state."""


def big_sizes(ctx):
    """Fixed sizes (capacity, first slot, elements) in which loops are followed to their end."""
    r = [{'X': (70, 40, 70), 'Y': (80, 3, 70), 'num': (3, 36, 110), 'src': 70}]
    if ctx.prop != 'C10' or ctx.tier == 'thorough':
        r.append({'X': (140, 0, 130), 'Y': (132, 100, 130), 'num': (0, 129, 131), 'src': 130})
    if ctx.prop != 'C10' and ctx.tier == 'thorough':
        r.append({'X': (300, 290, 270), 'Y': (270, 20, 270), 'num': (0, 17, 290), 'src': 270})
    if ctx.prop not in ('C02', 'C08', 'C10') and ctx.tier == 'thorough':
        r.append({'X': (1100, 600, 1050), 'Y': (1200, 20, 1050), 'num': (0, 17, 1049), 'src': 1050})
    return r


class RG:
    def __init__(self, ctx, unroll=3, panics=False):
        self.ctx = ctx
        self.eng = ctx.engine(unroll=unroll)
        self.eng.track_drops = True
        self.eng.user_panics = panics
        if ctx.tier == 'thorough':
            self.eng.max_paths = 40000
        self.prog = ctx.prog
        self.rep = None
        self.why = None
        self.big = None
        self.bigs = big_sizes(ctx)
        self.big_left = 400 if ctx.tier == 'thorough' else 100     # seconds for them altogether
        self.find_rep()

    @contextmanager
    def fixed(self, big):
        """Analyse with fixed sizes, following loops to their end, for a limited time."""
        eng = self.eng
        un = eng.unroll
        try:
            if big:
                self.big = big
                eng.unroll, eng.fixed_sizes, eng.deadline = 5000, True, time.time() + max(0, min(100 if self.ctx.tier == 'thorough' else 12, self.big_left))
            t = time.time()
            yield
            if big:
                self.big_left -= time.time() - t
            if big and eng.late():
                self.ctx.bounded('fixed sizes: time limit')
        finally:
            eng.unroll, eng.fixed_sizes, eng.deadline = un, False, None
            self.big = None

    # ---- representation ----
    def find_rep(self):
        eng = self.eng
        up = eng.user_panics
        eng.user_panics = False
        try:
            self.rep = self._find_rep()
        except Undecided as u:
            self.why = str(u)
        eng.user_panics = up

    def _ret(self, st, name, args):
        outs = [o for o in self.eng.call_entry(st, 'ring::' + name, args) if o.kind == 'ret']
        outs = [o for o in outs if not o.st.taint]
        if not outs:
            raise Undecided('%s on a small buffer has no understood outcome' % name)
        return outs[0]      # they differ in spare capacity only

    # (capacity, operations); nothing is overwritten here: the plain paths tell the representation. A change that goes wrong only
    # where one end is in a particular slot makes some histories look odd, but not all of them.
    HISTORIES = (((2, '>><><><}<{'), (1, '><><>')), ((2, '}}<<>>{<}{'), (1, '}<}<>')), ((2, '><><><><>'), (1, '><><')), ((2, '}{}{}{}{}'), (1, '}{}{')))

    def _find_rep(self):
        why = None
        for h in self.HISTORIES:
            try:
                return self._learn(h)
            except Undecided as u:
                why = why or u
        raise why

    def _learn(self, histories):
        st = State(self.eng)
        o = self._ret(st, 'with_capacity', [Lin(2)])
        r = o.val
        if not isinstance(r, Agg):
            raise Undecided('the buffer is not a plain structure')
        bufs = [k for k, x in enumerate(r.fields) if isinstance(x, VecV) or (isinstance(x, Ptr) and x.len is not None)]
        nums = [k for k, x in enumerate(r.fields) if isinstance(x, Lin)]
        const = tuple((k, x) for k, x in enumerate(r.fields) if k not in bufs + nums)
        if len(bufs) != 1 or len(nums) < 2 or any(not isinstance(x, Agg) or x.fields for _, x in const):
            raise Undecided('the buffer does not consist of a slice and numbers')
        vec = isinstance(r.fields[bufs[0]], VecV)
        slots = o.st.lin.norm(r.fields[bufs[0]].len)
        if not slots.const or slots.c not in (2, 3):
            raise Undecided('unexpected initial state')
        extra = slots.c - 2
        seen = []       # (elements, slots, first slot, one past the last slot, numbers) after some operations
        for cap, ops in histories:
            st = State(self.eng)
            o = self._ret(st, 'with_capacity', [Lin(cap)])
            p = Ptr(o.st.alloc(o.val))
            n = first = 0
            b = cap + extra
            for op in ' ' + ops:
                if op != ' ':
                    name = {'>': 'push_back', '<': 'pop_front', '}': 'push_front', '{': 'pop_back'}[op]
                    o = self._ret(o.st, name, [p] + ([Atom(('var', 'w%d' % len(seen)))] if name.startswith('push') else []))
                r = o.st.load(p.root)
                x = [o.st.lin.norm(r.fields[k]) if isinstance(r.fields[k], Lin) else None for k in nums]
                if any(v is None or not v.const for v in x) or r.fields[bufs[0]].len != Lin(b):
                    raise Undecided('the numbers of a small buffer are not known')
                if op == '>':
                    first, n = (first + (n == cap)) % b, min(n + 1, cap)
                elif op == '<':
                    first, n = (first + 1) % b, n - 1
                elif op == '}':
                    first, n = (first - 1) % b, min(n + 1, cap)
                elif op == '{':
                    n -= 1
                seen.append((n, b, cap, first, (first + n) % b, tuple(v.c for v in x)))

        def like(f):
            return [k for q, k in enumerate(nums) if all(f(*t[:5]) == t[5][q] for t in seen)]
        starts = like(lambda n, b, c, f, e: f)
        ends = like(lambda n, b, c, f, e: e)
        lens = like(lambda n, b, c, f, e: n)
        if not starts or not ends and not lens:
            raise Undecided('unexpected index movement')
        mode = 'len' if lens and (extra != 1 or not ends) else 'end'
        if mode == 'end' and extra != 1:
            raise Undecided('start and end cannot tell a full from an empty buffer')
        iend = (ends if mode == 'end' else lens)[0]
        derived = []
        for k in nums:
            if k in (starts[0], iend):
                continue
            for what, g in DERIVED.items():
                def same(n, b, c, f, e):
                    v = g(Lin(n), Lin(b), Lin(c), Lin(e))
                    return int(v[0].c <= v[1].c) if isinstance(v, tuple) else v.c
                if k in like(same):
                    derived.append((k, what))
                    break
            else:
                raise Undecided('a number of the buffer is not understood')
        return Rep(bufs[0], starts[0], iend, mode, extra, vec, len(r.fields), tuple(derived), const)

    def redundant(self, st, n, B, end):
        """The values of the fields that repeat what the others say: [(state, {field: value})]."""
        res = [(st, {})]
        for k, what in self.rep.derived:
            new = []
            for x, d in res:
                v = DERIVED[what](n, B, B - self.rep.extra, end)
                if what == 'the end':
                    y = x.copy()
                    if y.assume_eq(end - B):
                        new.append((y, dict(d, **{str(k): Lin(0)})))
                    if not x.assume_le(end - B + 1):
                        continue
                if not isinstance(v, tuple):
                    new.append((x, dict(d, **{str(k): v})))
                    continue
                y = x.copy()
                if x.assume_le(v[0] - v[1]):
                    new.append((x, dict(d, **{str(k): Lin(1)})))
                if y.assume_le(v[1] - v[0] + 1):
                    new.append((y, dict(d, **{str(k): Lin(0)})))
            res = new
        return res

    def pre(self, st, name):
        """Every buffer state (two layouts, symbolic sizes): yields (state, value, Info)."""
        rep = self.rep
        for wrapped in (False, True):
            x = st.copy()
            B = x.sym('B' + name)
            s = x.sym('s' + name)
            e = x.sym('e' + name)
            x.need(x.assume_le(B - SMAX))
            arr_lo = Lin(0)
            if rep.mode == 'end':
                if not (x.assume_le(Lin(1) - B) and x.assume_le(s - B + 1) and x.assume_le(e - B + 1)):
                    continue
                if wrapped:
                    if not x.assume_le(e - s + 1):
                        continue
                    n = B - s + e
                    end = e
                else:
                    if not x.assume_le(s - e):
                        continue
                    n = e - s
                    end = e
            else:
                if rep.extra == 1 and not x.assume_le(Lin(1) - B):
                    continue
                n = e
                if not x.assume_le(n - (B - rep.extra)):
                    continue
                if not (x.assume_le(s - B + 1) or (x.assume_eq(s) and x.assume_eq(B))):
                    continue
                if wrapped:
                    if not x.assume_le(B - s - n + 1):
                        continue
                    end = s + n - B
                else:
                    if not x.assume_le(s + n - B):
                        continue
                    end = s + n
            if self.big:
                # one fixed size, for operations with loops longer than the symbolic runs follow
                c, s0, n0 = self.big[name]
                b0 = c + rep.extra
                e0 = (s0 + n0) % b0 if rep.mode == 'end' else n0
                if not (x.assume_eq(B - b0) and x.assume_eq(s - s0) and x.assume_eq(e - e0)):
                    continue
                B, s, e, n, end = (x.lin.norm(q) for q in (B, s, e, n, end))
            x.trace = x.trace + (('', 'buffer %s: %s' % (name, 'wrapped' if wrapped else 'not wrapped')),)
            if wrapped:
                segs = (Seg(arr_lo, end, Atom(('el', name, Q.SI + B - s))), Seg(end, s, UNINIT), Seg(s, B, Atom(('el', name, Q.SI - s))))
            else:
                segs = (Seg(arr_lo, s, UNINIT), Seg(s, end, Atom(('el', name, Q.SI - s))), Seg(end, B, UNINIT))
            r = x.alloc(Arr(segs, B))
            f = [None] * rep.n
            f[rep.ibuf] = VecV(r, B) if rep.vec else Ptr(r, (), Lin(0), B)
            f[rep.istart] = s
            f[rep.iend] = e
            for k, v in rep.const:
                f[k] = v
            for x, d in self.redundant(x, n, B, end):
                for k, v in d.items():
                    f[int(k)] = v
                yield x, Agg(0, tuple(f)), Info(name, n, B, B - rep.extra)

    def decode(self, st, v):
        """(sequence, capacity) of a buffer value; Broken when the indices are out of range."""
        rep = self.rep
        if not isinstance(v, Agg) or len(v.fields) != rep.n:
            raise Undecided('buffer is %s' % type(v).__name__)
        b, s, e = v.fields[rep.ibuf], v.fields[rep.istart], v.fields[rep.iend]
        if not isinstance(s, Lin) or not isinstance(e, Lin) or not isinstance(b, (Ptr, VecV)):
            raise Undecided('buffer fields are not understood')
        self.check_redundant(st, v, s, e, b.len)
        arr = st.load(b.root, b.path if isinstance(b, Ptr) else ())
        if not isinstance(arr, Arr):
            raise Undecided('buffer contents are %s' % type(arr).__name__)
        off = b.off if isinstance(b, Ptr) else Lin(0)
        B = b.len
        if rep.mode == 'end':
            if not st.decide_lt(s, B) or not st.decide_lt(e, B):
                raise Broken('start = %r, end = %r with %r slots' % (st.lin.norm(s), st.lin.norm(e), st.lin.norm(B)))
            if st.decide_le(s - e):
                segs = st.arr_slice(arr, off + s, off + e)
                return Q.from_segs(segs), B - rep.extra
            return Q.from_segs(st.arr_slice(arr, off + s, off + B)) + Q.from_segs(st.arr_slice(arr, off, off + e)), B - rep.extra
        if not st.decide_le(e - (B - rep.extra)) or (not st.decide_lt(s, B) and not st.decide_eq(B)):
            raise Broken('start = %r, len = %r with %r slots' % (st.lin.norm(s), st.lin.norm(e), st.lin.norm(B)))
        if st.decide_le(s + e - B):
            return Q.from_segs(st.arr_slice(arr, off + s, off + s + e)), B - rep.extra
        return Q.from_segs(st.arr_slice(arr, off + s, off + B)) + Q.from_segs(st.arr_slice(arr, off, off + s + e - B)), B - rep.extra

    def check_redundant(self, st, v, s, e, B):
        rep = self.rep
        if not rep.derived:
            return
        if rep.mode == 'end':
            end = e
            n = e - s if st.decide_le(s - e) else B + e - s
        else:
            n = e
            end = s + n if st.decide_lt(s + n, B) else s + n - B
        for k, what in rep.derived:
            got = v.fields[k]
            want = DERIVED[what](n, B, B - rep.extra, end)
            if isinstance(want, tuple):
                want = Lin(int(st.decide_le(want[0] - want[1])))
            if isinstance(got, Cond):
                got = Lin(int(st.truth(got)))
            if not isinstance(got, Lin):
                raise Undecided('a field of the buffer is %s' % type(got).__name__)
            if not st.decide_eq(got - want):
                raise Broken('the field that holds %s is %r, should be %r' % (what, st.lin.norm(got), st.lin.norm(want)))

    # ---- observation through the public operations ----
    def call(self, st, name, args):
        return self.eng.call_entry(st, 'ring::' + name, args)

    def slice_seq(self, st, p):
        if not isinstance(p, Ptr) or p.len is None:
            raise Undecided('slice is %s' % type(p).__name__)
        arr = st.load(p.root, p.path)
        if not isinstance(arr, Arr):
            raise Undecided('slice contents')
        return Q.from_segs(st.arr_slice(arr, p.off, p.off + p.len))

    def observed(self, st, p, want, cap):
        """Problems visible through len, capacity and indexing: [message or None per path]."""
        res = []
        for o in self.call(st, 'len', [p]):
            if o.kind != 'ret':
                res.append((o.st, 'len %ss' % o.kind))
                continue
            for o2 in self.call(o.st, 'capacity', [p]):
                if o2.kind != 'ret':
                    res.append((o2.st, 'capacity %ss' % o2.kind))
                    continue

                def f(x):
                    if not isinstance(o.val, Lin) or not isinstance(o2.val, Lin):
                        raise Undecided('len')
                    n = Q.length(want)
                    if not x.decide_eq(o.val - n):
                        return 'len() is %r, should be %r' % (x.lin.norm(o.val), x.lin.norm(n))
                    if not x.decide_eq(o2.val - cap):
                        return 'capacity() is %r, should be %r' % (x.lin.norm(o2.val), x.lin.norm(cap))
                    return None
                for x, r in self.eng.split(o2.st, f):
                    if r:
                        res.append((x, r))
                        continue
                    x = x.copy()
                    i = x.fresh('i')
                    if not x.assume_le(i - Q.length(want) + 1):
                        res.append((x, None))
                        continue
                    for o3 in self.call(x, 'index', [p, i]):
                        if o3.kind != 'ret':
                            res.append((o3.st, 'indexing an element %ss (%s)' % (o3.kind, o3.st.panic[1] if o3.st.panic else o3.msg)))
                            continue

                        def g(y):
                            if not isinstance(o3.val, Ptr):
                                raise Undecided('index')
                            try:
                                v = y.load(o3.val.root, o3.val.path)
                            except Viol as e:
                                return 'index gives an invalid reference: %s' % e.msg
                            w = Q.get_at(y, want, i)
                            if v is UNINIT:
                                return 'index %r refers to an unused slot' % y.lin.norm(i)
                            if not isinstance(v, Atom) or not isinstance(w, Atom):
                                raise Undecided('element')
                            if v != w and not Q.terms_equal(y, y.norm_term(v.term), y.norm_term(w.term), Lin(1)):
                                return 'element %r is %s, should be %s' % (y.lin.norm(i), Q.show_piece(y, Lin(1), v), Q.show_piece(y, Lin(1), w))
                            return None
                        res += self.eng.split(o3.st, g)
        return res

    FOLLOW = ('push_back', 'push_front', 'pop_back', 'pop_front')

    def follow_up(self, st, p, want, cap, depth=1):
        """Does a broken representation show in what one more operation does?"""
        for s, r in self.observed(st, p, want, cap):
            if r and not s.taint:
                return s, r
        if depth == 0:
            return None
        for n in self.FOLLOW:
            x = st.copy()
            args = [p] + ([Atom(('var', 'w%d' % depth))] if n.startswith('push') else [])
            for o in self.call(x, n, args):
                if o.st.taint:
                    continue
                if o.kind in ('panic', 'viol', 'abort'):
                    m = o.st.panic[1] if o.kind == 'panic' else o.msg[1] if o.msg else 'abort'
                    return o.st, 'a following %s fails: %s' % (n, m)
                if o.kind != 'ret':
                    continue
                for s2, sp in self.eng.split(o.st, lambda y: SPEC[n](y, want, cap, args[1:])[0]):
                    r = self.follow_up(s2, p, sp, cap, depth - 1)
                    if r:
                        return r[0], 'after a following %s: %s' % (n, r[1])
        return None

    def check_ring(self, key, st, p, want, cap, what='the buffer'):
        """want, cap: functions of the state."""
        self.ctx_check_ring(key, st, p, want, cap, what)

    def ctx_check_ring(self, key, st, p, want, cap, what):
        ctx = self.ctx

        def f(x):
            w, c = want(x), cap(x)
            try:
                got, gc = self.decode(x, x.load(p.root, p.path))
            except Broken as b:
                return ('broken', str(b), w, c)
            except Undecided as u:
                return ('und', str(u))
            except Viol as v:
                return ('bad', '%s: %s' % (v.kind, v.msg), w, c)
            try:
                Q.seq_check(x, got, w, what)
                if not x.decide_eq(gc - c):
                    return ('bad', 'the capacity of %s is %r, should be %r' % (what, x.lin.norm(gc), x.lin.norm(c)), w, c)
            except Bad as b:
                return ('bad', str(b), w, c)
            except Undecided as u:
                return ('und', str(u))
            return ('ok',)
        for x, r in self.eng.split(st, f):
            if r is None:
                ctx.undecided(key, 'check budget')
            elif r[0] == 'ok' and not x.taint:
                ctx.ok(key)
            elif r[0] == 'und':
                ctx.undecided(key, r[1])
            elif x.taint:
                ctx.undecided(key, '; '.join(sorted(x.taint))[:300])
            elif key in ctx.viol:
                ctx.violation(key, r[1])
            else:
                # a violation has to be visible through the public operations
                y = x.copy()
                up = self.eng.user_panics
                self.eng.user_panics = False
                v = self.follow_up(y, p, r[2], r[3], 2 if r[0] == 'broken' else 1)
                self.eng.user_panics = up
                if v:
                    ctx.violation(key, '%s [%s]' % (r[1], v[1]), '', v[0].trace)
                else:
                    ctx.undecided(key, 'state not understood: ' + r[1])

    # ---- ownership ----
    def owner(self, tid, seen=()):
        """Can a value of this type own elements or a buffer?"""
        if has_v(self.eng, tid):
            return True
        t = self.prog.types[tid]
        if t.get('def', '').endswith('::CircularBuffer'):
            return True
        if tid in seen:
            return False
        fs = t['fields'] if t['k'] == 'tuple' else [f[1] for x in t.get('variants', ()) for f in x['fields']]
        return any(self.owner(f, seen + (tid,)) for f in fs)

    def owned(self, st, v, tid, acc):
        """Appends the elements owned by a value of type tid to acc."""
        t = self.prog.types[tid]
        if not self.owner(tid):
            return
        if t['k'] in ('ref', 'ptr'):
            return
        d = t.get('def', '')
        if d == 'witness::opaque::V':
            if v is UNINIT:
                raise Bad('the result contains an uninitialized element')
            acc.append((Lin(1), v))
            return
        if d.endswith('::CircularBuffer'):
            try:
                acc.extend(self.decode(st, v)[0])
            except Broken as b:
                raise Undecided('broken representation: %s' % b)
            return
        if isinstance(v, VecV):
            arr = st.load(v.root)
            acc.extend(Q.from_segs(st.arr_slice(arr, Lin(0), v.len)))
            return
        if t['k'] == 'tuple' and isinstance(v, Agg):
            for x, ft in zip(v.fields, t['fields']):
                self.owned(st, x, ft, acc)
            return
        if t['k'] in ('struct', 'enum') and isinstance(v, Agg):
            for x, f in zip(v.fields, t['variants'][v.variant]['fields']):
                self.owned(st, x, f[1], acc)
            return
        raise Undecided('owner %s' % t['s'])

    # ---- running an operation ----
    def cases(self, op):
        """Abstract inputs of a witness function: yields (state, args, env)."""
        key = self.prog.entry('ring::' + op)
        b = self.prog.fns[key]['body']
        tys = [self.prog.types[b['locals'][i + 1]] for i in range(b['argc'])]
        work = [(State(self.eng), [], {'rings': [], 'sources': {}, 'args': [], 'cells': []})]
        names = iter(())
        for k, t in enumerate(tys):
            nx = []
            s = t['s']
            for st, args, env in work:
                def fork(x, a, **up):
                    e = {q: list(w) if isinstance(w, list) else dict(w) for q, w in env.items()}
                    for q, w in up.items():
                        if isinstance(w, dict):
                            e[q].update(w)
                        else:
                            e[q].append(w)
                    e['args'].append(a)
                    nx.append((x, args + [a], e))
                el = self.prog.types[t['elem']] if t['k'] in ('ref', 'ptr') else t
                d = el.get('def', '')
                if d.endswith('::CircularBuffer'):
                    nm = 'XYZ'[len(env['rings'])]
                    if op.startswith('p_') and env['rings']:
                        # the same buffer on both sides
                        fork(st.copy(), args[0], rings=env['rings'][0])
                    for x, v, info in self.pre(st, nm):
                        if t['k'] == 'ref':
                            p = Ptr(x.alloc(v))
                            fork(x, p, rings=(p, info), sources={(nm,): [(Lin(0), info.n)]})
                        else:
                            fork(x, v, rings=(None, info), sources={(nm,): [(Lin(0), info.n)]})
                elif d.endswith('::Drain') or d.endswith('::IntoIter'):
                    ctor = 'drain' if d.endswith('::Drain') else 'into_iter'
                    for x, v, info in self.pre(st, 'X'):
                        p = Ptr(x.alloc(v)) if ctor == 'drain' else None
                        for o in self.call(x, ctor, [p if p else v]):
                            if o.kind != 'ret' or o.st.taint:
                                continue
                            y = o.st
                            a = o.val
                            if t['k'] == 'ref':
                                a = Ptr(y.alloc(a))
                                fork(y, a, rings=(p, info), cells=(a, t['elem']) if ctor == 'into_iter' else (None, None), sources={('X',): [(Lin(0), info.n)]})
                            else:
                                fork(y, a, rings=(p, info), sources={('X',): [(Lin(0), info.n)]})
                elif d.endswith('fmt::Formatter'):
                    x = st.copy()
                    fork(x, Ptr(x.alloc(Top('formatter'))))
                elif d == 'witness::opaque::V' and t['k'] != 'ref':
                    fork(st.copy(), V0, sources={(('var', 'v'),): [(Lin(0), Lin(1))]})
                elif t['k'] == 'uint':
                    x = st.copy()
                    n = x.sym('abcd'[k])
                    if self.big:
                        for m in self.big['num']:
                            fork(st.copy(), Lin(m))
                        continue
                    fork(x, n)
                elif d in ('witness::opaque::Src', 'witness::opaque::SrcR'):
                    x = st.copy()
                    n = x.sym('len_S')
                    if self.big:
                        x.need(x.assume_eq(n - self.big['src']))
                    x.need(x.assume_le(n - SMAX))
                    if d.endswith('SrcR'):
                        x.cells[('srcarr', 'S')] = Arr((Seg(Lin(0), n, Atom(('el', 'S', Q.SI))),), n)
                        fork(x, Obj('src', ('S', 'ref')))
                    else:
                        fork(x, Obj('src', ('S', 'val')))
                elif d == 'std::vec::Vec':
                    x = st.copy()
                    n, c = x.sym('len_W'), x.sym('cap_W')
                    if self.big:
                        x.need(x.assume_eq(n - self.big['src']))
                    x.need(x.assume_le(n - c) and x.assume_le(c - SMAX))
                    r = x.alloc(Arr((Seg(Lin(0), n, Atom(('el', 'W', Q.SI))), Seg(n, c, UNINIT)), c))
                    fork(x, VecV(r, n), sources={('W',): [(Lin(0), n)]})
                elif '[' in s and s.count('&') >= 1:
                    x = st.copy()
                    n = x.sym('len_W')
                    if self.big:
                        x.need(x.assume_eq(n - self.big['src']))
                    x.need(x.assume_le(n - SMAX))
                    r = x.alloc(Arr((Seg(Lin(0), n, Atom(('el', 'W', Q.SI))),), n))
                    p = Ptr(r, (), Lin(0), n)
                    if s.count('&') == 2:
                        p = Ptr(x.alloc(p))
                    fork(x, p)
                else:
                    raise Undecided('argument type ' + s)
            work = nx
        return work

    def runs(self, op):
        """(out, env) for every path of the operation from every abstract input."""
        if self.prog.entry('ring::' + op) is None:
            self.ctx.undecided('%s/%s' % (self.ctx.prop, op), 'the operation is not offered in the expected form')
            return
        cut = False
        for st, args, env in self.cases(op):
            for o in self.call(st, op, args):
                if o.kind == 'cut' and not o.st.taint:
                    cut = True
                if o.kind == 'panic' and op in SIZED and o.st.lin.le0(Lin(SMAX) - env['args'][-1]) is True:
                    continue    # so many slots cannot be allocated
                yield o, env
        if cut and self.bigs and not self.big and not op.startswith('p_'):
            # loops went past the bound: the same for some fixed sizes, all rounds
            for big in self.bigs:
                with self.fixed(big):
                    for st, args, env in self.cases(op):
                        for o in self.call(st, op, args):
                            yield o, env

    def ret_ty(self, op):
        return self.prog.fns[self.prog.entry('ring::' + op)]['body']['locals'][0]

    def have_want(self, x, o, op, env, result=True, more=()):
        """(owned ranges, expected ranges) at an exit."""
        acc = []
        for p, info in env['rings']:
            if p is not None:
                try:
                    acc.extend(self.decode(x, x.load(p.root, p.path))[0])
                except Broken as b:
                    raise Undecided('broken representation: %s' % b)
        for p, tid in env['cells']:
            if p is not None:
                self.owned(x, x.load(p.root, p.path), tid, acc)
        if o.kind == 'ret' and result:
            self.owned(x, o.val, self.ret_ty(op), acc)
        for v, tid in more:
            self.owned(x, v, tid, acc)
        acc.extend(Q.from_segs(x.ghost.get('drops', ())))
        have = Q.ranges(x, acc)
        want = {k: list(v) for k, v in env['sources'].items()}
        tk = x.ghost.get(('taken', 'S'))
        if tk is not None and ('srcarr', 'S') not in x.cells:
            want[('S',)] = [(Lin(0), tk)]
        cl = Q.ranges(x, Q.from_segs(x.ghost.get('clones', ())))
        for k, v in cl.items():
            want.setdefault(('clone',) + k, []).extend(v)
        return have, want


# ---- specifications: (sequence, returned) after the operation; x is the state ----
def cut(x, s, a, b):
    return Q.cut(x, s, a, b)


def sp_push_back(x, s, cap, a):
    v = a[0]
    if x.decide_eq(cap):
        return (), None
    n = Q.length(s)
    if x.decide_eq(n - cap):
        return cut(x, s, Lin(1), n) + Q.one(v), None
    return s + Q.one(v), None


def sp_push_front(x, s, cap, a):
    v = a[0]
    if x.decide_eq(cap):
        return (), None
    n = Q.length(s)
    if x.decide_eq(n - cap):
        return Q.one(v) + cut(x, s, Lin(0), n - 1), None
    return Q.one(v) + s, None


def sp_pop_front(x, s, cap, a):
    n = Q.length(s)
    if x.decide_eq(n):
        return (), NONE
    return cut(x, s, Lin(1), n), Q.get_at(x, s, Lin(0))


def sp_pop_back(x, s, cap, a):
    n = Q.length(s)
    if x.decide_eq(n):
        return (), NONE
    return cut(x, s, Lin(0), n - 1), Q.get_at(x, s, n - 1)


NONE = 'none'
SPEC = {'push_back': sp_push_back, 'push_front': sp_push_front, 'pop_back': sp_pop_back, 'pop_front': sp_pop_front}


def start(ctx, **kw):
    rg = RG(ctx, **kw)
    if rg.rep is None:
        ctx.undecided(ctx.prop + '/representation', 'the representation of CircularBuffer is not understood: ' + rg.why)
        ctx.absorb(rg.eng)
        return None
    ctx.extra['loop_rounds'] = rg.eng.unroll
    ctx.extra['representation'] = 'slots %s, %s' % ('= capacity + 1' if rg.rep.extra else '= capacity', 'start and end index' if rg.rep.mode == 'end' else 'start index and length')
    return rg


def unroll(ctx):
    return 6 if ctx.tier == 'thorough' else 3


def judge(rg, key, o, panics=None):
    """True for a returning path; other paths are judged here."""
    return any(True for _ in rg.ctx.outs(rg.eng, key, [o], panics or 'never'))


def opt_elem(x, v, want, what):
    if not isinstance(v, Agg):
        raise Undecided('%s is %s' % (what, type(v).__name__))
    if want is NONE:
        if v.variant != 0:
            raise Bad('%s is Some, should be None' % what)
        return
    if v.variant == 0:
        raise Bad('%s is None, should be %s' % (what, Q.show_piece(x, Lin(1), want)))
    Q.seq_check(x, Q.one(v.fields[0]), Q.one(want), what)


def simple(rg, pre, op, spec):
    """An operation on one buffer described by spec(x, seq, cap, args) -> (sequence, returned)."""
    key = '%s/%s' % (pre, op)
    for o, env in rg.runs(op):
        if not judge(rg, key, o):
            continue
        p, info = env['rings'][0]
        a = env['args'][1:]
        if p is not None:
            rg.check_ring(key, o.st, p, lambda x: spec(x, info.seq, info.cap, a)[0], lambda x: info.cap)
        rt = rg.prog.types[rg.ret_ty(op)]
        if rt.get('def') == 'std::option::Option':
            rg.ctx.check(rg.eng, key + '/result', o.st, lambda x: opt_elem(x, o.val, spec(x, info.seq, info.cap, a)[1], 'the result'))


def call_each(rg, key, op, panics=None):
    """Returning paths of an operation: yields (out, env)."""
    for o, env in rg.runs(op):
        if judge(rg, key, o, (lambda oo: panics(oo, env)) if panics else None):
            yield o, env


def keep(rg, key, st, env, which=0):
    """The buffer still holds exactly what it held, with the same capacity."""
    p, info = env['rings'][which]
    if p is not None:
        rg.check_ring(key + '/unchanged', st, p, lambda x: info.seq, lambda x: info.cap)


def untouched(rg, key, st):
    """No element was dropped or cloned."""
    def f(x):
        for w, m in (('drops', 'dropped'), ('clones', 'cloned')):
            s = [g for g in x.ghost.get(w, ()) if not x.decide_le(g.hi - g.lo)]
            if s:
                raise Bad('%s is %s' % (Q.show_seq(x, Q.from_segs(s)), m))
    rg.ctx.check(rg.eng, key + '/untouched', st, f)


def ring_result(rg, key, st, v, want, cap):
    """The returned value is a buffer with the given contents."""
    x = st.copy()
    rg.check_ring(key, x, Ptr(x.alloc(v)), want, cap, 'the result')


def C01(ctx):
    rg = start(ctx, unroll=unroll(ctx))
    if rg:
        simple(rg, 'C01', 'push_back', sp_push_back)
        simple(rg, 'C01', 'push_front', sp_push_front)
        for op in ('extend', 'append', 'pop_back', 'pop_front', 'clear', 'swap', 'reverse', 'linearize', 'len', 'is_full', 'is_empty'):
            key = 'C01/capacity-kept/' + op
            for o, env in rg.runs(op):
                if o.kind == 'ret':
                    def f(x, o=o, env=env):
                        for p, info in env['rings']:
                            try:
                                s, c = rg.decode(x, x.load(p.root, p.path))
                            except Broken as b:
                                raise Undecided('broken representation: %s' % b)
                            if not x.decide_eq(c - info.cap):
                                raise Bad('the capacity changes to %r' % x.lin.norm(c))
                            if not x.decide_le(Q.length(s) - info.cap):
                                raise Bad('more elements than the capacity')
                    ctx.check(rg.eng, key, o.st, f)
        ctx.absorb(rg.eng)


SIZED = ('new', 'with_capacity', 'resize')
ALL_OPS = ('new', 'with_capacity', 'len', 'capacity', 'is_empty', 'is_full', 'resize', 'push_back', 'push_front', 'pop_back', 'pop_front', 'clear',
           'iter', 'iter_mut', 'append', 'drain', 'drain_next', 'drain_drop', 'into_iter', 'into_iter_next', 'into_iter_drop', 'ref_into_iter',
           'mut_into_iter', 'first', 'first_mut', 'last', 'last_mut', 'slices', 'slices_mut', 'linearize', 'swap', 'reverse', 'index', 'index_mut',
           'drop_ring', 'clone', 'clone_from', 'from_iter', 'from_iter_ref', 'from_vec', 'extend', 'extend_ref', 'eq', 'ne', 'eq_slice', 'ne_slice',
           'eq_ref_slice', 'ne_ref_slice', 'partial_cmp', 'cmp', 'lt', 'le', 'gt', 'ge', 'drain_nth', 'drain_count', 'drain_last', 'into_iter_nth',
           'into_iter_count', 'into_iter_last', 'debug')


def C02(ctx):
    rg = start(ctx, unroll=unroll(ctx))
    if not rg:
        return
    for op in ALL_OPS:
        if rg.prog.entry('ring::' + op) is None:
            continue
        key = 'C02/' + op

        def acct(o, env):
            def f(x):
                have, want = rg.have_want(x, o, op, env)
                Q.exactly_once(x, have, want)
            ctx.check(rg.eng, key, o.st, f)
            if rg.rep.derived and o.kind == 'ret' and key not in ctx.viol:
                out_of_step(rg, key, o, op, env)
        for o, env in call_each(rg, key, op, acct):
            acct(o, env)
    ctx.absorb(rg.eng)


def out_of_step(rg, key, o, op, env):
    """An operation that leaves a field out of step with the others: is an element lost or dropped twice later on?"""
    ctx = rg.ctx
    st = o.st.copy()
    rings, val = [p for p, _ in env['rings'] if p is not None], o.val
    if rg.prog.types[rg.ret_ty(op)].get('def', '').endswith('::CircularBuffer'):
        rings.append(Ptr(st.alloc(o.val)))
        val = None

    def broken(x):
        for p in rings:
            try:
                rg.decode(x, x.load(p.root, p.path))
            except Broken as b:
                return p, str(b)
            except Undecided:
                pass
    for x, r in rg.eng.split(st, broken):
        if not r or x.taint:
            continue
        p, msg = r
        for then in ((), ('push_back',), ('push_front',), ('pop_front',), ('push_back', 'push_back')):
            work = [(x.copy(), [])]
            for k, name in enumerate(then):
                new = []
                for y, got in work:
                    w = [Atom(('var', 'w%d' % k))] if name.startswith('push') else []
                    for q in rg.call(y, name, [p] + w):
                        if q.kind == 'ret' and not q.st.taint:
                            new.append((q.st, got + [(q.val, rg.ret_ty(name))]))
                work = new
            for y, got in work:
                for q in rg.call(y, 'drop_ring', [y.load(p.root, p.path)]):
                    if q.kind == 'viol' and not q.st.taint:
                        ctx.violation(key, '%s [%sdropping the buffer: %s]' % (msg, ''.join(t + ', ' for t in then), q.msg[1]), '', q.st.trace)
                    if q.kind != 'ret' or q.st.taint:
                        continue

                    def f(z):
                        gone = dict(env, rings=[(a if a is not p else None, i) for a, i in env['rings']])
                        have, want = rg.have_want(z, o, op, gone, val is not None, got)
                        for k, name in enumerate(then):
                            if name.startswith('push'):
                                want[(('var', 'w%d' % k),)] = [(Lin(0), Lin(1))]
                        try:
                            Q.exactly_once(z, have, want)
                        except Bad as b:
                            raise Bad('%s [after %sdropping the buffer: %s]' % (msg, ''.join(t + ', ' for t in then), b))
                    ctx.check(rg.eng, key, q.st, f)
                    if key in ctx.viol:
                        return


def C03(ctx):
    rg = start(ctx, unroll=unroll(ctx))
    if not rg:
        return
    simple(rg, 'C03', 'pop_front', sp_pop_front)
    simple(rg, 'C03', 'pop_back', sp_pop_back)
    simple(rg, 'C03', 'clear', lambda x, s, cap, a: ((), None))
    # drain: a sequence of next calls, then the drain goes away
    for ctor, nxt, done in (('drain', 'drain_next', 'drain_drop'), ('into_iter', 'into_iter_next', 'into_iter_drop')):
        for big in [None] + rg.bigs:
            with rg.fixed(big):
                draining(rg, ctor, nxt, done, big['X'][2] + 1 if big else 4 if ctx.tier == 'thorough' else 3)
        other_ways(rg, ctor)
    ctx.absorb(rg.eng)


def hint_ok(x, v, n):
    if not isinstance(v, Agg) or not isinstance(v.fields[0], Lin) or not isinstance(v.fields[1], Agg):
        raise Undecided('size_hint is %s' % type(v).__name__)
    lo, hi = v.fields
    if not x.decide_le(lo - n):
        raise Bad('size_hint promises at least %r of %r elements' % (x.lin.norm(lo), x.lin.norm(n)))
    if hi.variant and not x.decide_le(n - hi.fields[0]):
        raise Bad('size_hint promises at most %r of %r elements' % (x.lin.norm(hi.fields[0]), x.lin.norm(n)))


def vec_seq(x, v):
    if not isinstance(v, VecV):
        raise Undecided('the vector is %s' % type(v).__name__)
    return Q.from_segs(x.arr_slice(x.load(v.root), Lin(0), v.len))


def other_ways(rg, ctor):
    """nth, count, last and size_hint of a draining or owning iterator."""
    ctx = rg.ctx
    keeps = ctor == 'drain'

    def has(m):
        return rg.prog.entry('ring::%s_%s' % (ctor, m)) is not None

    def rest(key, o, env, want):
        p, info = env['rings'][0]
        if p is not None and keeps:
            rg.check_ring(key + '/rest', o.st, p, want, lambda x: info.cap)
    for m in ('nth', 'count', 'last', 'size_hint', 'fold'):
        if not has(m):
            continue
        key = 'C03/%s/%s' % (ctor, m)
        for o, env in call_each(rg, key, '%s_%s' % (ctor, m)):
            p, info = env['rings'][0]
            if m == 'nth':
                n = env['args'][1]

                def f(x):
                    opt_elem(x, o.val, Q.get_at(x, info.seq, n) if x.decide_lt(n, info.n) else NONE, 'nth(%r)' % x.lin.norm(n))
                ctx.check(rg.eng, key, o.st, f)
                rest(key, o, env, lambda x: cut(x, info.seq, n + 1, info.n) if x.decide_lt(n, info.n) else ())
                if not o.st.taint and isinstance(env['args'][0], Ptr):
                    for o2 in rg.call(o.st, ctor + '_next', [env['args'][0]]):
                        if judge(rg, key + '/next', o2):
                            ctx.check(rg.eng, key + '/next', o2.st, lambda x: opt_elem(
                                x, o2.val, Q.get_at(x, info.seq, n + 1) if x.decide_lt(n + 1, info.n) else NONE, 'next() after nth(%r)' % x.lin.norm(n)))
            elif m == 'count':
                def f(x):
                    if not isinstance(o.val, Lin):
                        raise Undecided('the count is %s' % type(o.val).__name__)
                    if not x.decide_eq(o.val - info.n):
                        raise Bad('count() is %r, should be %r' % (x.lin.norm(o.val), x.lin.norm(info.n)))
                ctx.check(rg.eng, key, o.st, f)
                rest(key, o, env, lambda x: ())
            elif m == 'fold':
                ctx.check(rg.eng, key, o.st, lambda x: Q.seq_check(x, vec_seq(x, o.val), info.seq, 'the elements given to for_each'))
                rest(key, o, env, lambda x: ())
            elif m == 'last':
                ctx.check(rg.eng, key, o.st, lambda x: opt_elem(x, o.val, NONE if x.decide_eq(info.n) else Q.get_at(x, info.seq, info.n - 1), 'last()'))
                rest(key, o, env, lambda x: ())
            else:
                ctx.check(rg.eng, key, o.st, lambda x: hint_ok(x, o.val, info.n))
                rest(key, o, env, lambda x: info.seq)


def draining(rg, ctor, nxt, done, k):
    """Up to k calls of next, and the iterator dropped after each of them."""
    ctx = rg.ctx
    for st, v, info in rg.pre(State(rg.eng), 'X'):
        p = Ptr(st.alloc(v)) if ctor == 'drain' else None
        key = 'C03/' + ctor
        work = [(o.st, o.val, 0) for o in rg.call(st, ctor, [p or v]) if judge(rg, key, o)]
        for j in range(k + 1):
            nx = []
            for x, it, n in work:
                few = not rg.big or j % 16 == 3
                # dropping the iterator here
                if ctor == 'drain' and few:
                    for o in rg.call(x, done, [it]):
                        if judge(rg, key + '/dropped', o):
                            rg.check_ring(key + '/dropped', o.st, p, lambda y: cut(y, info.seq, Lin(n), info.n), lambda y: info.cap)
                if j == k:
                    continue
                y = x.copy()
                q = Ptr(y.alloc(it))
                for o in rg.call(y, nxt, [q]):
                    if not judge(rg, key + '/next', o):
                        continue

                    def f(z):
                        more = z.decide_lt(Lin(n), info.n)
                        opt_elem(z, o.val, Q.get_at(z, info.seq, Lin(n)) if more else NONE, 'next() number %d' % (n + 1))
                        return more
                    ctx.check(rg.eng, key + '/next', o.st, f)
                    m = n + 1 if isinstance(o.val, Agg) and o.val.variant == 1 else n
                    z = o.st
                    if ctor == 'drain' and few:
                        rg.check_ring(key + '/rest', z, p, lambda y: cut(y, info.seq, Lin(m), info.n), lambda y: info.cap)
                    if not o.st.taint and m <= k:
                        nx.append((z, z.load(q.root), m))
            work = nx


def as_bool(x, v):
    if isinstance(v, (Lin, Cond)):
        return x.truth(v)
    raise Undecided('the answer is %s' % type(v).__name__)


def mark_write(rg, key, st, p, ring, info, i):
    """Writing through the mutable reference p changes exactly element i of the buffer."""
    x = st.copy()
    m = Atom(('var', 'm'))

    def put(y):
        try:
            y.store(p.root, p.path, m)
        except Viol as e:
            return e.msg
        return None
    for y, r in rg.eng.split(x, put):
        if r:
            rg.ctx.path_bad(key, y, r)
        else:
            rg.check_ring(key, y, ring, lambda z: Q.set_at(z, info.seq, i, m), lambda z: info.cap)


def ref_elem(x, v, want, what):
    if not isinstance(v, Ptr):
        raise Undecided('%s is %s' % (what, type(v).__name__))
    Q.seq_check(x, Q.one(x.load(v.root, v.path)), Q.one(want), what)


def walk(rg, key, op, nxt, mut):
    """Stepping through an iterator shows the sequence."""
    for big in [None] + rg.bigs:
        with rg.fixed(big):
            walk1(rg, key, op, nxt, mut, big['X'][2] + 1 if big else unroll(rg.ctx) + 1)


def iter_ways(rg, ctor):
    """nth, count, last, size_hint and next_back of an iterator over references."""
    ctx = rg.ctx

    def opt_ref(x, v, want, what):
        if not isinstance(v, Agg):
            raise Undecided('%s is %s' % (what, type(v).__name__))
        if want is NONE:
            if v.variant:
                raise Bad('%s is Some, should be None' % what)
        elif not v.variant:
            raise Bad('%s is None' % what)
        else:
            ref_elem(x, v.fields[0], want, what)
    for m in ('nth', 'count', 'last', 'size_hint', 'next_back', 'fold', 'rfold'):
        if rg.prog.entry('ring::%s_%s' % (ctor, m)) is None:
            continue
        key = 'C04/%s/%s' % (ctor, m)
        for st, v, info in rg.pre(State(rg.eng), 'X'):
            p = Ptr(st.alloc(v))
            for o in rg.call(st, ctor, [p]):
                if not judge(rg, key, o):
                    continue
                y = o.st
                args = [o.val]
                if m in ('nth', 'size_hint', 'next_back'):
                    args = [Ptr(y.alloc(o.val))]
                if m == 'nth':
                    n = y.sym('b')
                    args.append(n)
                for o2 in rg.call(y, '%s_%s' % (ctor, m), args):
                    if not judge(rg, key, o2):
                        continue
                    val = o2.val
                    if m == 'nth':
                        ctx.check(rg.eng, key, o2.st, lambda x: opt_ref(x, val, Q.get_at(x, info.seq, n) if x.decide_lt(n, info.n) else NONE, 'nth(%r)' % x.lin.norm(n)))
                        for o3 in rg.call(o2.st, ctor + '_next', [args[0]]):
                            if judge(rg, key + '/next', o3):
                                ctx.check(rg.eng, key + '/next', o3.st, lambda x: opt_ref(
                                    x, o3.val, Q.get_at(x, info.seq, n + 1) if x.decide_lt(n + 1, info.n) else NONE, 'next() after nth'))
                    elif m == 'count':
                        def f(x):
                            if not isinstance(val, Lin):
                                raise Undecided('the count is %s' % type(val).__name__)
                            if not x.decide_eq(val - info.n):
                                raise Bad('count() is %r, should be %r' % (x.lin.norm(val), x.lin.norm(info.n)))
                        ctx.check(rg.eng, key, o2.st, f)
                    elif m == 'last':
                        ctx.check(rg.eng, key, o2.st, lambda x: opt_ref(x, val, NONE if x.decide_eq(info.n) else Q.get_at(x, info.seq, info.n - 1), 'last()'))
                    elif m == 'size_hint':
                        ctx.check(rg.eng, key, o2.st, lambda x: hint_ok(x, val, info.n))
                    elif m == 'fold':
                        ctx.check(rg.eng, key, o2.st, lambda x: Q.seq_check(x, vec_seq(x, val), Q.clones(info.seq), 'the elements given to for_each'))
                    elif m == 'rfold':
                        ctx.check(rg.eng, key, o2.st, lambda x: Q.seq_check(x, vec_seq(x, val), Q.clones(Q.rev(info.seq)), 'the elements given to rev().for_each'))
                    else:
                        ctx.check(rg.eng, key, o2.st, lambda x: opt_ref(x, val, NONE if x.decide_eq(info.n) else Q.get_at(x, info.seq, info.n - 1), 'next_back()'))
                        for k, at in (('next_back', lambda: info.n - 2), ('next', lambda: Lin(0))):
                            for o3 in rg.call(o2.st, '%s_%s' % (ctor, k), [args[0]]):
                                if judge(rg, key + '/then-' + k, o3):
                                    ctx.check(rg.eng, key + '/then-' + k, o3.st, lambda x: opt_ref(
                                        x, o3.val, NONE if x.decide_le(info.n - 1) else Q.get_at(x, info.seq, at()), k + '() after next_back()'))
                    if m != 'size_hint':
                        rg.check_ring(key + '/unchanged', o2.st, p, lambda x: info.seq, lambda x: info.cap)


def walk1(rg, key, op, nxt, mut, k):
    for o, env in call_each(rg, key, op):
        p, info = env['rings'][0]
        keep(rg, key, o.st, env)
        work = [(o.st, o.val)]
        for n in range(k):
            nx = []
            for x, it in work:
                y = x.copy()
                q = Ptr(y.alloc(it))
                for o2 in rg.call(y, nxt, [q]):
                    if not judge(rg, key + '/next', o2):
                        continue

                    def f(z):
                        w = Q.get_at(z, info.seq, Lin(n)) if z.decide_lt(Lin(n), info.n) else NONE
                        if not isinstance(o2.val, Agg):
                            raise Undecided('next gives %s' % type(o2.val).__name__)
                        if w is NONE:
                            if o2.val.variant:
                                raise Bad('the iterator yields more than the %d elements' % n)
                        elif not o2.val.variant:
                            raise Bad('the iterator ends after %d elements' % n)
                        else:
                            ref_elem(z, o2.val.fields[0], w, 'element %d of the iterator' % n)
                    ctx = rg.ctx
                    ctx.check(rg.eng, key + '/next', o2.st, f)
                    if isinstance(o2.val, Agg) and o2.val.variant and not o2.st.taint:
                        if mut and (not rg.big or n % 16 == 3):
                            mark_write(rg, key + '/write', o2.st, o2.val.fields[0], p, info, Lin(n))
                        nx.append((o2.st, o2.st.load(q.root)))
            work = nx
        # the iterator as a whole, when it consists of slices

        def pieces(x, v):
            if isinstance(v, Obj) and v.kind == 'siter':
                root, path, lo, hi = v.data
                return Q.from_segs(x.arr_slice(x.load(root, path), lo, hi))
            if isinstance(v, Agg):
                r = ()
                for f in v.fields:
                    r = r + pieces(x, f)
                return r
            raise Undecided('iterator of another shape')

        def whole(x):
            try:
                Q.seq_check(x, pieces(x, o.val), info.seq, 'the iterator')
            except Bad as b:
                raise Undecided(str(b))
        ctx = rg.ctx
        ctx.check(rg.eng, key + '/whole', o.st, whole)


def C04(ctx):
    rg = start(ctx, unroll=unroll(ctx))
    if not rg:
        return
    eng = rg.eng
    for op, spec in (('len', lambda x, i: i.n), ('capacity', lambda x, i: i.cap)):
        key = 'C04/' + op
        for o, env in call_each(rg, key, op):
            info = env['rings'][0][1]

            def f(x):
                if not isinstance(o.val, Lin):
                    raise Undecided('the answer is %s' % type(o.val).__name__)
                if not x.decide_eq(o.val - spec(x, info)):
                    raise Bad('the answer is %r, should be %r' % (x.lin.norm(o.val), x.lin.norm(spec(x, info))))
            ctx.check(eng, key, o.st, f)
            keep(rg, key, o.st, env)
            untouched(rg, key, o.st)
    for op, spec in (('is_empty', lambda x, i: x.decide_eq(i.n)), ('is_full', lambda x, i: x.decide_eq(i.n - i.cap))):
        key = 'C04/' + op
        for o, env in call_each(rg, key, op):
            info = env['rings'][0][1]

            def f(x):
                a, b = as_bool(x, o.val), spec(x, info)
                if a != b:
                    raise Bad('the answer is %s' % a)
            ctx.check(eng, key, o.st, f)
            keep(rg, key, o.st, env)
            untouched(rg, key, o.st)
    if eng.prog.entry('ring::debug') is not None:
        for o, env in call_each(rg, 'C04/debug', 'debug'):
            keep(rg, 'C04/debug', o.st, env)
            untouched(rg, 'C04/debug', o.st)
    for op in ('first', 'first_mut', 'last', 'last_mut'):
        key = 'C04/' + op
        for o, env in call_each(rg, key, op):
            p, info = env['rings'][0]
            at = (lambda: Lin(0)) if op.startswith('first') else (lambda: info.n - 1)

            def f(x):
                if not isinstance(o.val, Agg):
                    raise Undecided('the answer is %s' % type(o.val).__name__)
                e = x.decide_eq(info.n)
                if e != (o.val.variant == 0):
                    raise Bad('the answer is %s' % ('None' if o.val.variant == 0 else 'Some of an empty buffer'))
                if not e:
                    ref_elem(x, o.val.fields[0], Q.get_at(x, info.seq, at()), 'the element')
            ctx.check(eng, key, o.st, f)
            keep(rg, key, o.st, env)
            untouched(rg, key, o.st)
            if op.endswith('mut') and isinstance(o.val, Agg) and o.val.variant and isinstance(o.val.fields[0], Ptr):
                mark_write(rg, key + '/write', o.st, o.val.fields[0], p, info, at())
    for op in ('index', 'index_mut', 'swap'):
        key = 'C04/' + op

        def oob(o, env):
            info = env['rings'][0][1]

            def f(x):
                if all(x.decide_lt(i, info.n) for i in env['args'][1:]):
                    raise Bad('panics (%s) although the position is below the length' % o.st.panic[1])
            ctx.check(eng, key + '/panic', o.st, f)
            keep(rg, key + '/panic', o.st, env)
            untouched(rg, key + '/panic', o.st)
        for o, env in call_each(rg, key, op, oob):
            p, info = env['rings'][0]

            def f(x):
                for i in env['args'][1:]:
                    if not x.decide_lt(i, info.n):
                        raise Bad('no panic at position %r with %r elements' % (x.lin.norm(i), x.lin.norm(info.n)))
                if op != 'swap':
                    ref_elem(x, o.val, Q.get_at(x, info.seq, env['args'][1]), 'the element')
            ctx.check(eng, key, o.st, f)
            if op != 'swap':
                keep(rg, key, o.st, env)
                untouched(rg, key, o.st)
            if op == 'index_mut' and isinstance(o.val, Ptr):
                mark_write(rg, key + '/write', o.st, o.val, p, info, env['args'][1])
    for op in ('slices', 'slices_mut'):
        key = 'C04/' + op
        for o, env in call_each(rg, key, op):
            p, info = env['rings'][0]

            def f(x):
                if not isinstance(o.val, Agg) or len(o.val.fields) != 2:
                    raise Undecided('the answer is %s' % type(o.val).__name__)
                Q.seq_check(x, rg.slice_seq(x, o.val.fields[0]) + rg.slice_seq(x, o.val.fields[1]), info.seq, 'the two slices together')
            ctx.check(eng, key, o.st, f)
            keep(rg, key, o.st, env)
            untouched(rg, key, o.st)
            if op == 'slices_mut':
                slice_writes(rg, key + '/write', o.st, o.val.fields, p, info)
    walk(rg, 'C04/iter', 'iter', 'iter_next', False)
    walk(rg, 'C04/iter_mut', 'iter_mut', 'iter_mut_next', True)
    walk(rg, 'C04/ref_into_iter', 'ref_into_iter', 'iter_next', False)
    walk(rg, 'C04/mut_into_iter', 'mut_into_iter', 'iter_mut_next', True)
    iter_ways(rg, 'iter')
    iter_ways(rg, 'iter_mut')
    ctx.absorb(eng)


def slice_writes(rg, key, st, slices, ring, info, seq=None):
    """Writing element j of each slice changes exactly that element of the buffer."""
    base = Lin(0)
    for q in slices:
        if not isinstance(q, Ptr) or q.len is None:
            rg.ctx.undecided(key, 'slice of another shape')
            return
        x = st.copy()
        j = x.fresh('j')
        if x.assume_le(j - q.len + 1):
            at = base + j
            e = Ptr(q.root, q.path + (('i', q.off + j),))
            if seq is None:
                mark_write(rg, key, x, e, ring, info, at)
            else:
                i2 = Info(info.name, info.n, info.B, info.cap)
                i2.seq = seq
                mark_write(rg, key, x, e, ring, i2, at)
        base = base + q.len


def C05(ctx):
    rg = start(ctx, unroll=unroll(ctx))
    if not rg:
        return
    key = 'C05/resize'
    for o, env in call_each(rg, key, 'resize'):
        p, info = env['rings'][0]
        n = env['args'][1]

        def want(x):
            k = info.n if x.decide_le(info.n - n) else n
            return cut(x, info.seq, info.n - k, info.n)
        rg.check_ring(key, o.st, p, want, lambda x: n)

        def f(x):
            if x.known(('no drop glue',)):
                return
            dr = Q.ranges(x, Q.from_segs(x.ghost.get('drops', ())))
            k = info.n if x.decide_le(info.n - n) else n
            Q.exactly_once(x, dr, {('X',): [(Lin(0), info.n - k)]})
        ctx.check(rg.eng, key + '/dropped', o.st, f)
    ctx.absorb(rg.eng)


def C06(ctx):
    rg = start(ctx, unroll=unroll(ctx))
    if not rg:
        return
    key = 'C06/linearize'
    for o, env in call_each(rg, key, 'linearize'):
        p, info = env['rings'][0]
        keep(rg, key, o.st, env)
        untouched(rg, key, o.st)
        ctx.check(rg.eng, key, o.st, lambda x: Q.seq_check(x, rg.slice_seq(x, o.val), info.seq, 'the slice'))
        slice_writes(rg, key + '/write', o.st, [o.val], p, info)
    key = 'C06/swap'
    for o, env in call_each(rg, key, 'swap', lambda o, env: None):
        p, info = env['rings'][0]
        a, b = env['args'][1:]
        rg.check_ring(key, o.st, p, lambda x: Q.swap_at(x, info.seq, a, b), lambda x: info.cap)
        untouched(rg, key, o.st)
    key = 'C06/reverse'
    for o, env in call_each(rg, key, 'reverse'):
        p, info = env['rings'][0]
        rg.check_ring(key, o.st, p, lambda x: Q.rev(info.seq), lambda x: info.cap)
        untouched(rg, key, o.st)
    ctx.absorb(rg.eng)


def tail_of(x, s, cap):
    """The last cap elements of s."""
    n = Q.length(s)
    if x.decide_le(n - cap):
        return s
    return cut(x, s, n - cap, n)


def C07(ctx):
    rg = start(ctx, unroll=unroll(ctx))
    if not rg:
        return
    for op in ('new', 'with_capacity'):
        for o, env in call_each(rg, 'C07/' + op, op):
            ring_result(rg, 'C07/' + op, o.st, o.val, lambda x: (), lambda x: env['args'][0])
    for op, nm in (('from_iter', 'S'), ('from_iter_ref', 'S'), ('from_vec', 'W')):
        for o, env in call_each(rg, 'C07/' + op, op):
            n = S('len_' + nm)
            w = Q.el(nm, Lin(0), n)
            if op == 'from_iter_ref':
                w = Q.clones(w)
            ring_result(rg, 'C07/' + op, o.st, o.val, lambda x: w, lambda x: n)
    for op in ('extend', 'extend_ref'):
        for o, env in call_each(rg, 'C07/' + op, op):
            p, info = env['rings'][0]
            w = Q.el('S', Lin(0), S('len_S'))
            if op == 'extend_ref':
                w = Q.clones(w)
            rg.check_ring('C07/' + op, o.st, p, lambda x: tail_of(x, info.seq + w, info.cap), lambda x: info.cap)
    for o, env in call_each(rg, 'C07/append', 'append'):
        (p, a), (q, b) = env['rings']
        rg.check_ring('C07/append', o.st, p, lambda x: tail_of(x, a.seq + b.seq, a.cap), lambda x: a.cap)
        rg.check_ring('C07/append/other', o.st, q, lambda x: (), lambda x: b.cap, 'the other buffer')
    ctx.absorb(rg.eng)


def lex(x, a, b, order, limit):
    """Compare two sequences under the order facts of the path: -1, 0, 1 (order) or equality."""
    na, nb = Q.length(a), Q.length(b)
    if not order and not x.decide_eq(na - nb):
        return 1
    for i in range(limit):
        i = Lin(i)
        ea, eb = not x.decide_lt(i, na), not x.decide_lt(i, nb)
        if ea or eb:
            return int(eb) - int(ea)
        u, v = Q.get_at(x, a, i), Q.get_at(x, b, i)
        if not isinstance(u, Atom) or not isinstance(v, Atom):
            raise Undecided('element')
        if order:
            c = x.cmp(u.term, v.term)
            if c:
                return c
        elif not x.same(u.term, v.term):
            return 1
    raise Undecided('long comparison')


def lexp(x, a, b, order, limit):
    """The same for partially ordered elements: the first pair that is not equal decides, None if incomparable."""
    na, nb = Q.length(a), Q.length(b)
    if not order and not x.decide_eq(na - nb):
        return 1
    for i in range(limit):
        i = Lin(i)
        ea, eb = not x.decide_lt(i, na), not x.decide_lt(i, nb)
        if ea or eb:
            return int(eb) - int(ea)
        u, v = Q.get_at(x, a, i), Q.get_at(x, b, i)
        if not isinstance(u, Atom) or not isinstance(v, Atom):
            raise Undecided('element')
        c = pcmp(x, u.term, v.term)
        if c != 0:
            return c if order or c is None else 1
    raise Undecided('long comparison')


def C08(ctx):
    rg = start(ctx, unroll=unroll(ctx))
    if not rg:
        return
    ops = ('eq', 'ne', 'eq_slice', 'ne_slice', 'eq_ref_slice', 'ne_ref_slice', 'partial_cmp', 'cmp', 'lt', 'le', 'gt', 'ge')
    for op in ops + tuple('p_' + o for o in ops if o != 'cmp'):
        key = 'C08/' + op
        partial = op.startswith('p_')
        if partial and rg.prog.entry('ring::' + op) is None:
            continue
        bop = op[2:] if partial else op
        for o, env in call_each(rg, key, op):
            a = env['rings'][0][1].seq
            b = env['rings'][1][1].seq if len(env['rings']) == 2 else Q.el('W', Lin(0), S('len_W'))
            keep(rg, key, o.st, env)
            if len(env['rings']) == 2:
                keep(rg, key + '/right', o.st, env, 1)
            untouched(rg, key, o.st)

            def f(x):
                order = bop in ('partial_cmp', 'cmp', 'lt', 'le', 'gt', 'ge')
                v = o.val
                cmp = lexp if partial else lex
                if bop in ('partial_cmp', 'cmp'):
                    if not isinstance(v, Agg):
                        raise Undecided('the answer is %s' % type(v).__name__)
                    if bop == 'partial_cmp':
                        v = v.fields[0] if v.variant else None
                    got = v.variant - 1 if v is not None else 2
                    c = cmp(x, a, b, True, 5000 if rg.big else 40)
                    c = 2 if c is None else c
                    if got != c:
                        names = ('Less', 'Equal', 'Greater', 'None')
                        raise Bad('the answer is %s, should be %s' % (names[got + 1], names[c + 1]))
                    return
                got = as_bool(x, v)
                c = cmp(x, a, b, order, 5000 if rg.big else 40)
                w = {'eq': c == 0, 'ne': c != 0, 'lt': c == -1, 'le': c in (-1, 0), 'gt': c == 1, 'ge': c in (0, 1)}[bop[:2]]
                if got != w:
                    raise Bad('the answer is %s, should be %s' % (got, w))
            ctx.check(rg.eng, key, o.st, f)
    ctx.absorb(rg.eng)


def C09(ctx):
    rg = start(ctx, unroll=unroll(ctx))
    if not rg:
        return
    for op in ('clone', 'clone_from'):
        key = 'C09/' + op
        for o, env in call_each(rg, key, op):
            p, info = env['rings'][-1]
            rg.check_ring(key + '/original', o.st, p, lambda x: info.seq, lambda x: info.cap, 'the original')
            if op == 'clone':
                ring_result(rg, key, o.st, o.val, lambda x: Q.clones(info.seq), lambda x: info.cap)
            else:
                q = env['rings'][0][0]
                rg.check_ring(key, o.st, q, lambda x: Q.clones(info.seq), lambda x: info.cap, 'the clone')

            def f(x):
                cl = Q.ranges(x, Q.from_segs(x.ghost.get('clones', ())))
                try:
                    Q.exactly_once(x, cl, {(info.name,): [(Lin(0), info.n)]})
                except Bad as b:
                    raise Bad('not cloned once each: %s' % str(b).split(':')[0])
            ctx.check(rg.eng, key + '/once', o.st, f)
    ctx.absorb(rg.eng)


def sound(rg, key, op, o, env):
    """After a panic in caller code: every remaining element is live and owned once."""
    ctx = rg.ctx

    def f(x):
        try:
            have, want = rg.have_want(x, o, op, env)
        except Undecided as u:
            if 'broken' in str(u):
                return ('broken', str(u))
            return ('und', str(u))
        except Bad as b:
            return ('bad', str(b))
        try:
            Q.at_most_once(x, have)
        except Bad as b:
            return ('bad', str(b))
        return ('ok',)
    what = o.st.ghost.get('upanicked')
    for x, r in rg.eng.split(o.st, f):
        if r is None:
            ctx.undecided(key, 'check budget')
        elif r[0] == 'ok' and not x.taint:
            ctx.ok(key)
        elif r[0] == 'ok':
            ctx.undecided(key, '; '.join(sorted(x.taint))[:300])
        elif r[0] == 'und':
            ctx.undecided(key, r[1])
        elif r[0] == 'bad':
            ctx.path_bad(key, x, 'after a panic in %s: %s' % (what, r[1]))
        else:
            # indices out of range: does using or dropping the buffer fail?
            hit = None
            rg.eng.user_panics = False
            for p, info in env['rings']:
                for nop in ('clear', 'pop_front', 'push_back', 'len', 'index'):
                    y = x.copy()
                    args = [p] + ([Atom(('var', 'w'))] if nop == 'push_back' else [Lin(0)] if nop == 'index' else [])
                    for o2 in rg.call(y, nop, args):
                        if o2.st.taint or hit:
                            continue
                        if o2.kind == 'viol':
                            hit = '%s then fails: %s' % (nop, o2.msg[1])
                        elif o2.kind == 'panic' and nop != 'index':
                            hit = '%s then panics: %s' % (nop, o2.st.panic[1])
            rg.eng.user_panics = True
            if hit:
                ctx.path_bad(key, x, 'after a panic in %s: %s' % (what, hit))
            else:
                ctx.undecided(key, r[1])


def C10(ctx):
    rg = start(ctx, unroll=unroll(ctx), panics=True)
    if not rg:
        return
    for op in ('push_back', 'push_front', 'clear', 'resize', 'append', 'drain_drop', 'into_iter_drop', 'drop_ring', 'clone', 'clone_from', 'from_iter',
               'from_iter_ref', 'from_vec', 'extend', 'extend_ref', 'linearize', 'swap', 'reverse', 'drain_next', 'into_iter_next', 'pop_back', 'pop_front'):
        key = 'C10/' + op
        for o, env in rg.runs(op):
            if o.kind == 'panic' and o.st.panic[0] == 'user':
                sound(rg, key, op, o, env)
            elif o.kind == 'panic':
                if o.st.ghost.get('upanicked'):
                    ctx.path_bad(key, o.st, 'another panic (%s) while unwinding' % (o.st.panic[1],))
            elif o.kind in ('viol', 'abort'):
                if o.st.ghost.get('upanicked'):
                    ctx.path_bad(key, o.st, 'after a panic in %s: %s' % (o.st.ghost['upanicked'], o.msg[1] if o.msg else 'abort'))
            elif o.kind == 'cut':
                if o.st.ghost.get('upanicked') or o.st.taint:
                    judge(rg, key, o)
                else:
                    ctx.bounded(key)
    ctx.absorb(rg.eng)


ALLOCS = ('with_capacity', 'with_capacity_in', 'push', 'reserve', 'reserve_exact', 'try_reserve', 'try_reserve_exact', 'extend_from_slice', 'insert',
          'resize', 'resize_with', 'append', 'to_vec', 'to_owned', 'shrink_to_fit', 'shrink_to', 'into_boxed_slice', 'split_off', 'from_elem',
          'new_uninit_slice', 'new_zeroed_slice', 'collect', 'from_iter', 'extend', 'push_str', 'format', 'to_string')
BULK = ('rotate_left', 'rotate_right', 'reverse', 'fill', 'fill_with', 'copy_from_slice', 'clone_from_slice', 'copy_within', 'swap_with_slice', 'sort',
        'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'contains', 'to_vec', 'concat', 'remove', 'truncate',
        'clear', 'drain', 'retain', 'dedup')


def cost_hook(eng, st, c):
    """Record allocations and calls of library functions whose time grows with their argument."""
    n = c.name
    short = n.rsplit('::', 1)[-1]
    lib = c.f.get('crate', '') not in ('advanced_collections', 'witness') and 'advanced_collections' not in n and 'witness' not in n
    if not lib:
        return
    cost = None
    if ('alloc' in n and (short in ALLOCS or short.startswith('__rust_alloc') or short in ('exchange_malloc', 'alloc', 'alloc_zeroed', 'realloc'))) or \
            (('::vec::' in n or '::string::' in n or 'VecDeque' in n or 'HashMap' in n) and short in ALLOCS) or \
            (n.startswith('std::boxed::Box::<') and short in ('new', 'new_uninit', 'new_in', 'pin', 'new_uninit_slice', 'new_zeroed_slice')):
        st.ghost['cost'] = st.ghost.get('cost', ()) + (('allocation by ' + n, None, st.where()),)
    elif n.startswith('std::intrinsics::copy') or n in ('std::ptr::copy', 'std::ptr::copy_nonoverlapping') or short in ('copy_to', 'copy_from', 'copy_to_nonoverlapping', 'copy_from_nonoverlapping'):
        cost = c.args[2] if len(c.args) > 2 else None
    elif short in BULK and ('slice' in n or '::vec::' in n) and c.args:
        v = c.args[0]
        if isinstance(v, Ptr) and v.len is not None:
            cost = v.len
        elif isinstance(v, Ptr):
            try:
                w = st.load(v.root, v.path)
            except Viol:
                w = None
            if isinstance(w, VecV):
                cost = w.len
    elif c.f['kind'] == 'shim' and n == 'std::ptr::drop_glue' and c.args and isinstance(c.args[0], Ptr):
        p = c.args[0]
        if p.len is not None:
            cost = p.len
    if isinstance(cost, Lin):
        st.ghost['cost'] = st.ghost.get('cost', ()) + ((n, cost, st.where()),)


CONST_OPS = ('push_back', 'push_front', 'pop_back', 'pop_front', 'index', 'index_mut', 'swap', 'first', 'first_mut', 'last', 'last_mut', 'len', 'capacity',
             'is_empty', 'is_full', 'slices', 'slices_mut')
STEPS = 8


def C11(ctx):
    rg = start(ctx, unroll=STEPS)
    if not rg:
        return
    rg.eng.cost_hook = cost_hook
    for op in CONST_OPS:
        key = 'C11/' + op
        for o, env in rg.runs(op):
            if o.kind == 'cut':
                rg.ctx.path_bad(key, o.st, 'the loop in %s can run more than %d times: its length depends on the buffer' % (rg.prog.fns[o.st.fn]['def'] if o.st.fn is not None else '?', STEPS), o.st.where())
                continue
            if o.kind == 'viol':
                continue

            def f(x):
                for what, n, where in x.ghost.get('cost', ()):
                    if n is None:
                        raise Bad('%s at %s' % (what, where))
                    if not x.decide_le(n - STEPS):
                        raise Bad('%s processes %r elements at %s' % (what, x.lin.norm(n), where))
            ctx.check(rg.eng, key, o.st, f)
    ctx.extra['loop_rounds'] = STEPS
    ctx.absorb(rg.eng)


RULES = {
    'C01': 'on every exit of push_back/push_front the decoded sequence equals the old one plus the element at its end, minus the opposite end element exactly when full; no operation but resize changes the capacity, and the length stays within it',
    'C02': 'on every exit of every operation, the elements owned by the buffers, the result and the surviving arguments plus those dropped are exactly those owned before, each once; no unused slot is read, cloned, dropped or returned as an element',
    'C03': 'pops return exactly the end element and leave the rest; next on drain/into_iter yields element k at call k and None exactly at the end; the buffer keeps exactly what was not yielded',
    'C04': 'each observer returns what the decoded sequence says; references point at the element itself (a write through a mutable one changes exactly that element); positions out of range panic and nothing else does; the buffer is unchanged',
    'C05': 'after resize(n) the decoded capacity is n, the sequence is the last min(len,n) elements, and exactly the older ones were dropped',
    'C06': 'the decoded sequence after the operation is the specified rearrangement, no element is dropped or cloned, and the returned slice is the whole sequence in the storage of the buffer',
    'C07': 'the decoded sequence and capacity of the result equal those of pushing the items one by one',
    'C08': 'the answer equals the comparison of the two decoded sequences under the order relations known on the path; both buffers are unchanged',
    'C09': 'the clone decodes to one clone of each element in order with the capacity of the original; the original decodes as before',
    'C11': 'no path of these operations takes a loop more than 8 times, calls an allocating function, or calls a library function that processes more than 8 elements, for any capacity and length',
    'C10': 'on every path where a drop, clone or iterator of the caller panics, the buffer left behind decodes to live elements and no element is owned or dropped twice',
}
PROPS = {'C01': (C01, 2), 'C02': (C02, 40), 'C03': (C03, 5), 'C04': (C04, 30), 'C05': (C05, 2), 'C06': (C06, 6), 'C07': (C07, 8), 'C08': (C08, 20),
         'C09': (C09, 4), 'C10': (C10, 8), 'C11': (C11, 15)}
