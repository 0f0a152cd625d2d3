"""Symbolic sequences of elements and their bookkeeping."""
from .dom import Lin, S
from .state import *
from .report import Bad, Undecided

SI = S(I)


def piece(n, val):
    return (n, val)


def el(name, a, b):
    """Elements a..b of source `name` as a sequence."""
    return ((b - a, Atom(('el', name, SI + a))),)


def one(v):
    return ((Lin(1), v),)


def from_segs(segs):
    return tuple((s.hi - s.lo, s.val if s.val is UNINIT else sub_val(s.val, {I: SI + s.lo})) for s in segs)


def clones(seq):
    return tuple((n, Atom(('clone', v.term))) for n, v in seq)


def rev(seq):
    return tuple((n, sub_val(v, {I: n - 1 - SI})) for n, v in reversed(seq))


def length(seq):
    r = Lin(0)
    for n, _ in seq:
        r = r + n
    return r


def shift(v, k):
    return v if v is UNINIT else sub_val(v, {I: SI + k})


def cut(st, seq, a, b):
    """Sub-sequence [a, b); forks."""
    out = []
    pos = Lin(0)
    for n, v in seq:
        lo = a if st.decide_le(pos - a) else pos
        hi = pos + n if st.decide_le(pos + n - b) else b
        if not st.decide_le(hi - lo):
            out.append((hi - lo, shift(v, lo - pos)))
        pos = pos + n
    return tuple(out)


def set_at(st, seq, i, val):
    return cut(st, seq, Lin(0), i) + one(val) + cut(st, seq, i + 1, length(seq))


def get_at(st, seq, i):
    pos = Lin(0)
    for n, v in seq:
        if st.decide_lt(i, pos + n):
            return v if v is UNINIT else sub_val(v, {I: i - pos})
        pos = pos + n
    return None


def swap_at(st, seq, a, b):
    x, y = get_at(st, seq, a), get_at(st, seq, b)
    if st.decide_eq(a - b):
        return seq
    return set_at(st, set_at(st, seq, a, y), b, x)


def terms_equal(st, a, b, n):
    """Are two element terms (over $i in [0,n), n >= 1) the same element everywhere?"""
    if a == b:
        return True
    if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b or a[0] != b[0]:
        return False
    if a[0] == 'el':
        if a[1] != b[1]:
            return False
        d = st.lin.norm(a[2] - b[2])
        if mentions(d, I):
            if not st.decide_eq(n - 1):
                return False
            d = d.subst({I: Lin(0)})
        return st.decide_eq(d)
    if a[0] == 'clone':
        return terms_equal(st, a[1], b[1], n)
    return False


def show_piece(st, n, v):
    n = st.lin.norm(n)
    if v is UNINIT:
        return 'unused*%r' % n
    if not isinstance(v, Atom):
        return '?*%r' % n

    def sh(t):
        if t[0] == 'el':
            i = st.lin.norm(t[2])
            if mentions(i, I):
                k = dict(i.t)[I]
                a = i.subst({I: Lin(0)})
                b = i.subst({I: n - 1})
                return '%s[%r..=%r]' % (t[1], a, st.lin.norm(b))
            return '%s[%r]' % (t[1], i) + ('' if n == Lin(1) else '*%r' % n)
        if t[0] == 'clone':
            return 'clone of ' + sh(t[1])
        return show_term(t)
    return sh(v.term)


def show_seq(st, seq):
    r = [show_piece(st, n, v) for n, v in seq if st.lin.le0(n) is not True]
    return '[' + ', '.join(r) + ']'


def seq_check(st, got, want, what):
    a, b = list(got), list(want)

    def fail(why):
        raise Bad('%s is %s, should be %s (%s)' % (what, show_seq(st, got), show_seq(st, want), why))
    while True:
        while a and st.decide_le(a[0][0]):
            a.pop(0)
        while b and st.decide_le(b[0][0]):
            b.pop(0)
        if not a and not b:
            return
        if not a:
            fail('elements are missing')
        if not b:
            fail('there are extra elements')
        (na, va), (nb, vb) = a[0], b[0]
        if st.decide_le(na - nb):
            m = na
        else:
            m = nb
        if va is UNINIT:
            fail('an unused slot is in place of an element')
        if not isinstance(va, Atom) or not isinstance(vb, Atom):
            raise Undecided('element is %s' % (va,))
        if va != vb and not terms_equal(st, st.norm_term(va.term), st.norm_term(vb.term), m):
            fail('wrong element or order')
        a.pop(0)
        b.pop(0)
        if not st.decide_eq(na - m):
            a.insert(0, (na - m, shift(va, m)))
        if not st.decide_eq(nb - m):
            b.insert(0, (nb - m, shift(vb, m)))


def ranges(st, seq):
    """Sequence -> {source: [(lo, hi)]}; forks on nothing except single elements."""
    out = {}
    for n, v in seq:
        if v is UNINIT:
            raise Bad('an unused slot is owned as an element')
        if not isinstance(v, Atom):
            raise Undecided('element is %s' % (v,))
        t = st.norm_term(v.term)
        wrap = ()
        while t[0] == 'clone':
            wrap += ('clone',)
            t = t[1]
        if t[0] == 'el':
            i = st.lin.norm(t[2])
            k = dict(i.t).get(I, 0)
            if k == 1:
                lo, hi = i.subst({I: Lin(0)}), i.subst({I: n})
            elif k == -1:
                lo, hi = i.subst({I: n - 1}), i.subst({I: Lin(0)}) + 1
            elif k == 0:
                if not st.decide_eq(n - 1):
                    if st.decide_le(n):
                        continue
                    raise Bad('element %s occurs several times' % show_term(t))
                lo, hi = i, i + 1
            else:
                raise Undecided('element pattern %r' % i)
            out.setdefault(wrap + (t[1],), []).append((lo, hi))
        else:
            if st.decide_le(n):
                continue
            if not st.decide_eq(n - 1):
                raise Bad('element %s occurs several times' % show_term(t))
            out.setdefault(wrap + (t,), []).append((Lin(0), Lin(1)))
    return out


def src_name(k):
    s = k[-1] if isinstance(k[-1], str) else show_term(k[-1])
    return 'clone of ' * (len(k) - 1) + s


def at_most_once_of(st, have, want):
    """An element type without drop glue: elements may be forgotten, but none occurs twice."""
    for name in sorted(have, key=repr):
        hs = [h for h in have[name] if not st.decide_le(h[1] - h[0])]
        for i, h in enumerate(hs):
            for g in hs[:i]:
                if not st.decide_le(h[1] - g[0]) and not st.decide_le(g[1] - h[0]):
                    raise Bad('%s[%r] is owned or dropped twice' % (src_name(name), st.lin.norm(h[0] if st.decide_le(g[0] - h[0]) else g[0])))
            for lo, hi in want.get(name, ()):
                if st.decide_le(lo - h[0]) and st.decide_le(h[1] - hi):
                    break
            else:
                raise Bad('%s[%r] is held but was never an element' % (src_name(name), st.lin.norm(h[0])))


def exactly_once(st, have, want):
    """Every element of `want` occurs in `have` exactly once and nothing else does."""
    if st.known(('no drop glue',)):
        return at_most_once_of(st, have, want)
    for name in sorted(set(have) | set(want), key=repr):
        hs = list(have.get(name, ()))
        ws = list(want.get(name, ()))
        while ws:
            lo, hi = ws.pop()
            if st.decide_le(hi - lo):
                continue
            k = None
            for j, h in enumerate(hs):
                if st.lin.eq0(h[0] - lo) is True and st.lin.le0(h[1] - h[0]) is not True:
                    k = j
                    break
            if k is None:
                for j, h in enumerate(hs):
                    if not st.decide_le(h[1] - h[0]) and st.decide_eq(h[0] - lo):
                        k = j
                        break
            if k is None:
                raise Bad('%s[%r] is lost: neither kept, returned nor dropped' % (src_name(name), st.lin.norm(lo)))
            h = hs.pop(k)
            if st.decide_le(h[1] - hi):
                ws.append((h[1], hi))
            else:
                hs.append((hi, h[1]))
        for h in hs:
            if not st.decide_le(h[1] - h[0]):
                raise Bad('%s[%r] is owned or dropped twice' % (src_name(name), st.lin.norm(h[0])))


def at_most_once(st, have):
    for name in sorted(have, key=repr):
        hs = [h for h in have[name] if not st.decide_le(h[1] - h[0])]
        for i in range(len(hs)):
            for j in range(i + 1, len(hs)):
                if not st.decide_le(hs[i][1] - hs[j][0]) and not st.decide_le(hs[j][1] - hs[i][0]):
                    a, b = hs[i][0], hs[j][0]
                    m = a if st.decide_le(b - a) else b
                    raise Bad('%s[%r] is owned or dropped twice' % (src_name(name), st.lin.norm(m)))


def merge(a, b):
    r = {k: list(v) for k, v in a.items()}
    for k, v in b.items():
        r.setdefault(k, []).extend(v)
    return r
