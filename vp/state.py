"""Abstract values and states."""
from typing import NamedTuple, Any
from .dom import Lin, L, S, LinDom, OrdDom, LT, EQ, GT, ANY, inv


class Agg(NamedTuple):
    variant: int
    fields: tuple

class Atom(NamedTuple):
    term: tuple

class Ptr(NamedTuple):
    root: Any
    path: tuple = ()
    off: Any = None      # slices: offset and length
    len: Any = None

class Seg(NamedTuple):
    lo: Lin
    hi: Lin
    val: Any             # UNINIT or a template mentioning the index symbol $i

class Arr(NamedTuple):
    segs: tuple
    len: Lin

class VecV(NamedTuple):
    root: Any
    len: Lin
    tag: str = 'vec'

class FnV(NamedTuple):
    key: int
    tag: str = 'fn'

class Str(NamedTuple):
    bytes: tuple
    tag: str = 'str'

class Cond(NamedTuple):
    kind: str            # le, eq, ne (on Lin) or sym
    arg: Any
    neg: bool = False

class Obj(NamedTuple):
    """A modelled library object: kind and immutable payload."""
    kind: str
    data: tuple

class Top(NamedTuple):
    why: str

class _Uninit:
    __slots__ = ()
    def __repr__(self):
        return 'uninit'
UNINIT = _Uninit()
UNIT = Agg(0, ())
I = '$i'
ZERO, ONE = Lin(0), Lin(1)
TRUE, FALSE = ONE, ZERO


def sub_term(t, m):
    if isinstance(t, Lin):
        return t.subst(m)
    if isinstance(t, tuple):
        if type(t) is tuple:
            return tuple(sub_term(x, m) for x in t)
        return sub_val(t, m)
    return t


def sub_val(v, m):
    """Substitute symbols in a value tree."""
    if isinstance(v, Lin):
        return v.subst(m)
    if isinstance(v, Atom):
        return Atom(sub_term(v.term, m))
    if isinstance(v, Agg):
        return Agg(v.variant, tuple(sub_val(x, m) for x in v.fields))
    if isinstance(v, Ptr):
        return Ptr(sub_term(v.root, m), sub_term(v.path, m), sub_term(v.off, m), sub_term(v.len, m))
    if isinstance(v, Arr):
        return Arr(tuple(Seg(s.lo.subst(m), s.hi.subst(m), s.val if s.val is UNINIT else sub_val(s.val, m)) for s in v.segs), v.len.subst(m))
    if isinstance(v, VecV):
        return VecV(v.root, v.len.subst(m))
    if isinstance(v, Cond):
        return Cond(v.kind, sub_term(v.arg, m), v.neg)
    if isinstance(v, Obj):
        return Obj(v.kind, sub_term(v.data, m))
    return v


def mentions(v, sym):
    if isinstance(v, Lin):
        return any(s == sym for s, _ in v.t)
    if isinstance(v, tuple):
        return any(mentions(x, sym) for x in v)
    return False


class Fork(Exception):
    """The current step needs a decision; each alternative is (label, apply(state) -> bool)."""
    def __init__(self, alts):
        self.alts = alts


class Stop(Exception):
    """The current path ends (infeasible or abandoned)."""


class Viol(Exception):
    """A definite error on this path (e.g. use of an uninitialized slot)."""
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


class State:
    __slots__ = ('cells', 'lin', 'ord', 'choices', 'ghost', 'events', 'trace', 'n', 'taint', 'stack', 'fn', 'bb', 'si',
                 'fid', 'loops', 'panic', 'eng', 'status', 'ret', 'ordver', 'steps', 'depth', 'wide')

    def __init__(self, eng):
        self.eng = eng
        self.cells = {}
        self.lin = LinDom()
        self.ord = OrdDom()
        self.ordver = None
        self.choices = {}
        self.ghost = {}
        self.events = ()
        self.trace = ()
        self.n = 0
        self.taint = frozenset()
        self.stack = None
        self.fn = None
        self.bb = self.si = 0
        self.fid = 0
        self.loops = {}
        self.panic = None
        self.status = None
        self.ret = None
        self.steps = 0
        self.depth = 0
        self.wide = False

    def copy(self):
        s = State.__new__(State)
        s.eng = self.eng
        s.cells = self.cells.copy()
        s.lin = self.lin
        s.ord = self.ord
        s.ordver = self.ordver
        s.choices = self.choices
        s.ghost = self.ghost.copy()
        s.events = self.events
        s.trace = self.trace
        s.n = self.n
        s.taint = self.taint
        s.stack = self.stack
        s.fn = self.fn
        s.bb = self.bb
        s.si = self.si
        s.fid = self.fid
        s.loops = self.loops
        s.panic = self.panic
        s.status = self.status
        s.ret = self.ret
        s.steps = self.steps
        s.depth = self.depth
        s.wide = self.wide
        return s

    # ---- symbols ----
    def fresh(self, base='t', usize=True):
        self.n += 1
        s = '%s#%d' % (base, self.n)
        if usize:
            self.lin = self.lin.declare(s)
        return S(s)

    def sym(self, name, usize=True):
        if usize:
            self.lin = self.lin.declare(name)
        return S(name)

    def new_root(self, kind='h'):
        self.n += 1
        return (kind, self.n)

    def alloc(self, v, kind='h'):
        r = self.new_root(kind)
        self.cells[r] = v
        return r

    def mark(self, why):
        self.taint = self.taint | {why}

    def where(self):
        return self.eng.where(self)

    def note(self, label):
        self.trace = self.trace + ((self.where(), label),)

    # ---- numeric decisions ----
    def assume_le(self, e):
        if 'ne' in self.ghost:
            n = self.lin.norm(e)
            if n.t and self.known_ne(n):
                e = n + 1
        d = self.lin.add_le(e)
        if d is None:
            return False
        self.lin = d
        return True

    def assume_eq(self, e):
        d = self.lin.add_eq(e)
        if d is None:
            return False
        self.lin = d
        for x in self.ghost.get('ne', ()):
            if self.lin.norm(x) == ZERO:
                return False
        return True

    def known_ne(self, e):
        for x in self.ghost.get('ne', ()):
            x = self.lin.norm(x)
            if x == e or x == -e:
                return True
        return False

    def assume_ne(self, a, b):
        e = self.lin.norm(a - b)
        if not e.t:
            return e.c != 0
        if not self.known_ne(e):
            self.ghost['ne'] = self.ghost.get('ne', ()) + (e,)
        return True

    def need(self, ok):
        if not ok:
            raise Stop()

    def decide_le(self, e):
        """e <= 0 ? forks when both are possible."""
        e = self.lin.norm(e)
        r = self.lin.le0(e)
        if r is not None:
            return r
        raise Fork([('%r <= 0' % e, lambda s: s.assume_le(e)), ('%r > 0' % e, lambda s: s.assume_le(Lin(1) - e))])

    def decide_lt(self, a, b):
        return self.decide_le(a - b + 1)

    def decide_eq(self, e):
        e = self.lin.norm(e)
        if e.t and 'ne' in self.ghost and self.known_ne(e):
            return False
        r = self.lin.eq0(e)
        if r is not None:
            return r
        if all(s[0] == '@' for s, _ in e.t):
            # names without an order of their own: equal or different
            raise Fork([('%r == 0' % e, lambda s: s.assume_eq(e)), ('%r != 0' % e, lambda s: s.assume_ne(e, ZERO))])
        raise Fork([('%r == 0' % e, lambda s: s.assume_eq(e)), ('%r < 0' % e, lambda s: s.assume_le(e + 1)),
                    ('%r > 0' % e, lambda s: s.assume_le(Lin(1) - e))])

    def choose(self, key, n, label=None):
        """A nondeterministic choice among 0..n-1, fixed per key."""
        if key in self.choices:
            return self.choices[key]

        def mk(i):
            def ap(s):
                s.choices = dict(s.choices)
                s.choices[key] = i
                return True
            return ap
        raise Fork([((label or str(key)) + ' = ' + str(i), mk(i)) for i in range(n)])

    def known(self, key):
        return self.choices.get(key)

    def truth(self, v):
        """Boolean value -> True/False, forking if needed."""
        if isinstance(v, Lin):
            v = self.lin.norm(v)
            if v.const:
                return v.c != 0
            return not self.decide_eq(v)
        if isinstance(v, Cond):
            if v.kind == 'le':
                r = self.decide_le(v.arg)
            elif v.kind == 'eq':
                r = self.decide_eq(v.arg)
            elif v.kind == 'sym':
                r = bool(self.choose(v.arg, 2, 'flag %s' % (v.arg,)))
            else:
                raise AssertionError(v)
            return r != v.neg
        if isinstance(v, Top) or isinstance(v, Atom):
            self.mark('branch on unknown value: %s' % (v,))
            self.n += 1
            return bool(self.choose(('top', self.n), 2))
        if v is UNINIT:
            raise Viol('uninit', 'branch on an uninitialized value')
        self.mark('branch on %s' % type(v).__name__)
        self.n += 1
        return bool(self.choose(('top', self.n), 2))

    # ---- order of opaque values ----
    def norm_term(self, t):
        return sub_term(t, self.lin.eq) if self.lin.eq else t

    def okey(self, t):
        """The representative used for comparisons: clones compare like the original."""
        t = self.norm_term(t)
        while t[0] == 'clone':
            t = t[1]
        if t[0] == 'el' and self.eng.kk and t[2].const:
            return ('kk', t[2].c % self.eng.kk)     # runs with fixed contents: the items are named keys, repeated
        return t

    def _ordsync(self):
        if self.ordver is not self.lin.eq:
            d = self.ord.rename(self.okey)
            if d is None:
                raise Stop()
            self.ord = d
            self.ordver = self.lin.eq

    def rel(self, a, b):
        """Mask of possible relations of atoms a and b."""
        self._ordsync()
        a, b = self.okey(a), self.okey(b)
        if a[0] == b[0] == 'kk':
            return EQ if a == b else LT if a[1] < b[1] else GT
        r = self.ord.get(a, b)
        if r & (r - 1):
            r &= self.eng.facts_rel(self, a, b)
        return r

    def assume_rel(self, a, b, mask):
        self._ordsync()
        d = self.ord.add(self.okey(a), self.okey(b), mask)
        if d is None:
            return False
        self.ord = d
        return True

    def _possibly_same(self, a, b):
        """Elements of one source whose indices may coincide: decide that first."""
        a, b = self.okey(a), self.okey(b)
        if a[0] == 'el' and b[0] == 'el' and a[1] == b[1] and a != b:
            if self.decide_eq(a[2] - b[2]):
                return True
        return False

    def cmp(self, a, b):
        """-1, 0, 1; forks."""
        if a is b or self.okey(a) == self.okey(b) or self._possibly_same(a, b):
            return 0
        r = self.rel(a, b)
        if r == LT:
            return -1
        if r == EQ:
            return 0
        if r == GT:
            return 1
        raise Fork([('%s %s %s' % (show_term(a), '<' if m == LT else '=' if m == EQ else '>', show_term(b)),
                     (lambda m: lambda s: s.assume_rel(a, b, m))(m)) for m in (LT, EQ, GT) if r & m])

    def same(self, a, b):
        """equality; forks two ways."""
        if self.okey(a) == self.okey(b) or self._possibly_same(a, b):
            return True
        r = self.rel(a, b)
        if r == EQ:
            return True
        if not r & EQ:
            return False
        raise Fork([('%s = %s' % (show_term(a), show_term(b)), lambda s: s.assume_rel(a, b, EQ)),
                    ('%s != %s' % (show_term(a), show_term(b)), lambda s: s.assume_rel(a, b, LT | GT))])

    # ---- memory ----
    def load(self, root, path=()):
        try:
            v = self.cells[root]
        except KeyError:
            raise Viol('dangling', 'read of a dead location %s' % (root,))
        for st in path:
            v = self.proj(v, st)
        return v

    def proj(self, v, st):
        if st[0] == 'f':
            if isinstance(v, Agg):
                if st[1] < len(v.fields):
                    return v.fields[st[1]]
                return UNINIT
            if isinstance(v, Atom):
                return Atom(('fld', st[1], v.term))
            if v is UNINIT:
                return UNINIT
            if isinstance(v, Ptr) and st[1] == 0:
                return v
            if isinstance(v, Top):
                return v
            self.mark('field of %s' % type(v).__name__)
            return Top('field of %s' % type(v).__name__)
        if st[0] == 'i':
            return self.arr_get(v, st[1])
        if st[0] == 'mv':
            return self.eng.map_get(self, v, st[1])
        raise AssertionError(st)

    def seg_at(self, arr, idx):
        """Index of the segment containing idx (forks); None if outside."""
        for k, s in enumerate(arr.segs):
            if self.decide_lt(idx, s.hi):
                if k == 0 and not self.decide_le(s.lo - idx):
                    return None
                return k
        return None

    def arr_get(self, v, idx):
        if isinstance(v, Agg):
            idx = self.lin.norm(idx)
            if idx.const and 0 <= idx.c < len(v.fields):
                return v.fields[idx.c]
            self.mark('symbolic index into a small array')
            return Top('array index')
        if isinstance(v, Arr):
            k = self.seg_at(v, idx)
            if k is None:
                raise Viol('oob', 'access outside of the allocation at index %r of %r' % (self.lin.norm(idx), self.lin.norm(v.len)))
            val = v.segs[k].val
            return val if val is UNINIT else sub_val(val, {I: idx})
        if isinstance(v, Top):
            return v
        if v is UNINIT:
            return UNINIT
        if isinstance(v, Obj) and v.kind == 'forest':
            return self.eng.forest_get(self, v, idx)
        self.mark('index of %s' % type(v).__name__)
        return Top('index')

    def store(self, root, path, val):
        if not path:
            self.cells[root] = val
            return
        if root not in self.cells:
            raise Viol('dangling', 'write to a dead location %s' % (root,))
        self.cells[root] = self._upd(self.cells[root], path, val)

    def _upd(self, v, path, val):
        if not path:
            return val
        st = path[0]
        if st[0] == 'f':
            i = st[1]
            if v is UNINIT:
                v = Agg(0, ())
            if isinstance(v, Agg):
                f = list(v.fields)
                while len(f) <= i:
                    f.append(UNINIT)
                f[i] = self._upd(f[i], path[1:], val)
                return Agg(v.variant, tuple(f))
            if isinstance(v, Ptr) and i == 0 and len(path) == 1:
                return val
            self.mark('write into a field of %s' % type(v).__name__)
            return Top('written')
        if st[0] == 'i':
            if isinstance(v, Agg):
                idx = self.lin.norm(st[1])
                if idx.const and 0 <= idx.c < len(v.fields):
                    f = list(v.fields)
                    f[idx.c] = self._upd(f[idx.c], path[1:], val)
                    return Agg(v.variant, tuple(f))
                self.mark('symbolic index into a small array')
                return Top('array index')
            if isinstance(v, Arr):
                k = self.seg_at(v, st[1])
                if k is None:
                    raise Viol('oob', 'write outside of the allocation at index %r of %r' % (self.lin.norm(st[1]), self.lin.norm(v.len)))
                old = UNINIT
                if len(path) > 1:
                    old = self.arr_get(v, st[1])
                return self.arr_set(v, st[1], self._upd(old, path[1:], val))
            if isinstance(v, Obj) and v.kind == 'forest':
                old = self.eng.forest_get(self, v, st[1]) if len(path) > 1 else UNINIT
                return self.eng.forest_set(self, v, st[1], self._upd(old, path[1:], val))
            self.mark('indexed write into %s' % type(v).__name__)
            return Top('written')
        if st[0] == 'mv':
            old = self.eng.map_get(self, v, st[1]) if len(path) > 1 else None
            return self.eng.map_set(self, v, st[1], self._upd(old, path[1:], val))
        raise AssertionError(st)

    def arr_set(self, v, idx, val):
        k = self.seg_at(v, idx)
        s = v.segs[k]
        out = list(v.segs[:k])
        if self.decide_lt(s.lo, idx):
            out.append(Seg(s.lo, idx, s.val))
        out.append(Seg(idx, idx + 1, val))
        if self.decide_lt(idx + 1, s.hi):
            out.append(Seg(idx + 1, s.hi, s.val))
        out.extend(v.segs[k + 1:])
        return Arr(tuple(out), v.len)

    def arr_slice(self, v, lo, hi, delta=None):
        """Segments of v restricted to [lo,hi), indices shifted by delta (default -lo)."""
        if delta is None:
            delta = -lo
        out = []
        for s in v.segs:
            if self.decide_le(s.hi - lo):        # s.hi <= lo
                continue
            if self.decide_le(hi - s.lo):        # hi <= s.lo
                break
            a = s.lo if self.decide_le(lo - s.lo) else lo
            b = s.hi if self.decide_le(s.hi - hi) else hi
            if self.decide_le(b - a):
                continue
            val = s.val if s.val is UNINIT else sub_val(s.val, {I: S(I) - delta})
            out.append(Seg(a + delta, b + delta, val))
        return tuple(out)

    def event(self, *e):
        self.events = self.events + (e,)

    # ---- rewriting of values under the current equalities ----
    def norm(self, v):
        return sub_val(v, self.lin.eq) if self.lin.eq else v


def show_term(t):
    if isinstance(t, Lin):
        return repr(t)
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == 'var':
        return str(t[1])
    if t[0] == 'el':
        return '%s[%r]' % (t[1], t[2])
    if t[0] == 'clone':
        return show_term(t[1])
    if t[0] == 'app':
        return '%s(%s)' % (t[1], ', '.join(show_term(x) for x in t[2:]))
    return '(' + ' '.join(show_term(x) for x in t) + ')'
