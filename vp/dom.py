"""Numeric and order abstract domains.

Lin      linear expressions over integer symbols
LinDom   conjunctions of linear equalities (kept solved) and inequalities; entailment by
         Fourier-Motzkin projection with integer tightening (a convex-polyhedra domain)
OrdDom   relations {<,=,>} between opaque values of a totally ordered type (point algebra,
         closed under composition)
"""
from math import gcd

UMAX = (1 << 64) - 1


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __mul__(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((s, c * k) for s, c in self.t))

    @property
    def const(self):
        return not self.t

    def syms(self):
        return [s for s, _ in self.t]

    def subst(self, m):
        if not any(s in m for s, _ in self.t):
            return self
        r = Lin(self.c)
        for s, k in self.t:
            r = r + (m[s] * k if s in m else Lin(0, ((s, k),)))
        return r

    def __repr__(self):
        out = ''
        for s, k in self.t:
            sg = '+' if k > 0 else '-'
            a = abs(k)
            out += (' %s ' % sg if out else ('-' if k < 0 else '')) + (('%d*' % a) if a != 1 else '') + str(s)
        if not out:
            return str(self.c)
        if self.c:
            out += ' %s %d' % ('+' if self.c > 0 else '-', abs(self.c))
        return out


def L(c):
    return c if isinstance(c, Lin) else Lin(int(c))


def S(s):
    return Lin(0, ((s, 1),))


class TooHard(Exception):
    pass


def _tight(e):
    """e <= 0 tightened over the integers."""
    if not e.t:
        return e
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
    if g > 1:
        return Lin(-((-e.c) // g), tuple((s, k // g) for s, k in e.t))
    return e


def infeasible(cons, limit=3000):
    """True if the conjunction of (e <= 0) has no solution (rational FM + integer tightening)."""
    best = {}
    for e in cons:
        e = _tight(e)
        if not e.t:
            if e.c > 0:
                return True
            continue
        if e.t not in best or best[e.t] < e.c:
            best[e.t] = e.c
    while best:
        # opposite pairs
        for t, c in best.items():
            nt = tuple((s, -k) for s, k in t)
            if nt in best and best[nt] + c > 0:
                return True
        pos, neg = {}, {}
        for t in best:
            for s, k in t:
                (pos if k > 0 else neg).setdefault(s, []).append((t, k))
        vs = set(pos) | set(neg)
        # variables whose elimination is exact over the integers (one of each pair has coefficient 1) come first
        v = min(vs, key=lambda s: (not (all(k == 1 for _, k in pos.get(s, ())) or all(k == -1 for _, k in neg.get(s, ()))),
                                   len(pos.get(s, ())) * len(neg.get(s, ())), s))
        P, N = pos.get(v, []), neg.get(v, [])
        new = {}
        used = set(t for t, _ in P) | set(t for t, _ in N)
        for t, c in best.items():
            if t not in used:
                new[t] = c
        for tp, kp in P:
            ep = Lin(best[tp], tp)
            for tn, kn in N:
                en = Lin(best[tn], tn)
                e = _tight(ep * (-kn) + en * kp)
                if not e.t:
                    if e.c > 0:
                        return True
                    continue
                if e.t not in new or new[e.t] < e.c:
                    new[e.t] = e.c
        if len(new) > limit:
            raise TooHard()
        best = new
    return False


_memo = {}


class LinDom:
    """Immutable. eq: solved substitution {sym: Lin}; le: frozenset of Lin meaning <= 0."""
    __slots__ = ('eq', 'le', 'nn', 'memo', 'hard')

    def __init__(self, eq=None, le=frozenset(), nn=frozenset(), hard=False):
        self.eq = eq or {}
        self.le = le
        self.nn = nn        # symbols ranging over usize
        self.memo = {}
        self.hard = hard

    def norm(self, e):
        if not e.t or not self.eq:
            return e
        for s, _ in e.t:
            if s in self.eq:
                return e.subst(self.eq)
        return e

    def declare(self, s):
        return LinDom(self.eq, self.le, self.nn | {s})

    def _bounds(self, syms, big):
        out = []
        for s in syms:
            if s in self.nn:
                out.append(Lin(0, ((s, -1),)))
                if big:
                    out.append(Lin(-UMAX, ((s, 1),)))
        for s in self.nn:
            if s in self.eq:
                e = self.eq[s]
                if any(x in syms for x, _ in e.t):
                    out.append(-e)
                    if big:
                        out.append(e - UMAX)
        return out

    def _component(self, e):
        syms = set(e.syms())
        rest = list(self.le)
        got = []
        solved = [self.eq[s] for s in self.nn if s in self.eq]
        ch = True
        while ch:
            ch = False
            nr = []
            for c in rest:
                if any(s in syms for s, _ in c.t):
                    got.append(c)
                    for s, _ in c.t:
                        if s not in syms:
                            syms.add(s)
                            ch = True
                else:
                    nr.append(c)
            rest = nr
            for c in solved:
                if any(s in syms for s, _ in c.t):
                    for s, _ in c.t:
                        if s not in syms:
                            syms.add(s)
                            ch = True
        return got, syms

    def refuted(self, e):
        """True if e <= 0 is impossible here."""
        e = _tight(self.norm(e))
        if not e.t:
            return e.c > 0
        r = self.memo.get(e)
        if r is None:
            got, syms = self._component(e)
            big = abs(e.c) > (1 << 40) or any(abs(c.c) > (1 << 40) for c in got)
            cons = got + [e] + self._bounds(syms, big)
            key = frozenset(cons)
            r = _memo.get(key)
            if r is None:
                try:
                    r = infeasible(cons)
                except TooHard:
                    r = None
                    self.hard = True
                    r = False
                _memo[key] = r
            self.memo[e] = r
        return r

    def le0(self, e):
        """True / False / None for e <= 0."""
        if self.refuted(Lin(1) - e):    # e >= 1 impossible
            return True
        if self.refuted(e):
            return False
        return None

    def eq0(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c == 0
        if self.refuted(e) or self.refuted(-e):
            return False
        if self.refuted(Lin(1) - e) and self.refuted(Lin(1) + e):
            return True
        return None

    def add_le(self, e):
        e = _tight(self.norm(e))
        if not e.t:
            return self if e.c <= 0 else None
        if self.refuted(e):
            return None
        # implied equality?
        if self.refuted(e + 1):         # e <= -1 impossible, so e == 0
            return self.add_eq(e)
        if self.refuted(Lin(1) - e):
            return self
        return LinDom(self.eq, self.le | {e}, self.nn)

    def add_eq(self, e):
        e = self.norm(e)
        if not e.t:
            return self if e.c == 0 else None
        if self.refuted(e) or self.refuted(-e):
            return None
        # solve for a unit-coefficient symbol; prefer the newest (largest) name
        cand = [(s, k) for s, k in e.t if k in (1, -1)]
        if not cand:
            g = 0
            for _, k in e.t:
                g = gcd(g, k)
            if e.c % g:
                return None
            return LinDom(self.eq, self.le | {e, -e}, self.nn)
        s, k = max(cand, key=lambda x: _symkey(x[0]))
        rhs = (Lin(0, ((s, k),)) - e) * k       # s = k*(k*s - e)
        m = {s: rhs}
        eq = {x: v.subst(m) for x, v in self.eq.items()}
        eq[s] = rhs
        d = LinDom(eq, frozenset(), self.nn)
        le = set()
        for c in self.le:
            c = _tight(c.subst(m))
            if not c.t:
                if c.c > 0:
                    return None
                continue
            le.add(c)
        d.le = frozenset(le)
        # implied equalities among the new inequalities (opposite pairs)
        for c in list(d.le):
            if -c in d.le:
                return LinDom(eq, frozenset(x for x in d.le if x != c and x != -c), self.nn).add_eq(c)
        if s in self.nn:
            if d.refuted(-rhs):
                return None
        # global feasibility of the touched component
        got, syms = d._component(rhs if rhs.t else Lin(0))
        try:
            if got and infeasible(got + d._bounds(syms, False)):
                return None
        except TooHard:
            d.hard = True
        return d

    def __repr__(self):
        return '; '.join(['%s = %s' % x for x in sorted(self.eq.items())] + sorted('%r <= 0' % e for e in self.le))


def _symkey(s):
    # 'name#12' : generated symbols are solved first
    i = s.rfind('#')
    return (int(s[i + 1:]), s) if i >= 0 else (-1, s)


LT, EQ, GT = 1, 2, 4
ANY = 7
_INV = {m: ((m & LT) and GT) | (m & EQ) | ((m & GT) and LT) for m in range(8)}


def _comp1(a, b):
    if a == EQ:
        return b
    if b == EQ:
        return a
    return a if a == b else ANY


_COMP = {}
for _a in range(8):
    for _b in range(8):
        r = 0
        for x in (LT, EQ, GT):
            if _a & x:
                for y in (LT, EQ, GT):
                    if _b & y:
                        r |= _comp1(x, y)
        _COMP[_a, _b] = r


def inv(m):
    return _INV[m]


class OrdDom:
    """Immutable; rel[(a,b)] mask, both directions stored."""
    __slots__ = ('rel', 'nodes')

    def __init__(self, rel=None, nodes=frozenset()):
        self.rel = rel or {}
        self.nodes = nodes

    def get(self, a, b):
        if a == b:
            return EQ
        return self.rel.get((a, b), ANY)

    def add(self, a, b, mask):
        """None if inconsistent."""
        if a == b:
            return self if mask & EQ else None
        m = self.get(a, b) & mask
        if m == 0:
            return None
        if m == self.get(a, b):
            return self
        rel = dict(self.rel)
        nodes = self.nodes | {a, b}
        work = [(a, b, m)]
        while work:
            x, y, m = work.pop()
            if x == y:
                if not m & EQ:
                    return None
                continue
            o = rel.get((x, y), ANY)
            n = o & m
            if n == 0:
                return None
            if n == o:
                continue
            rel[x, y] = n
            rel[y, x] = _INV[n]
            for z in nodes:
                if z == x or z == y:
                    continue
                m2 = rel.get((y, z), ANY)
                if m2 != ANY or n != ANY:
                    c = _COMP[n, m2]
                    if c != ANY:
                        work.append((x, z, c))
                m3 = rel.get((z, x), ANY)
                c = _COMP[m3, n]
                if c != ANY:
                    work.append((z, y, c))
        return OrdDom(rel, nodes)

    def rename(self, f):
        """Rebuild with node names mapped by f (used when index equalities identify elements)."""
        m = {n: f(n) for n in self.nodes}
        if all(k == v for k, v in m.items()):
            return self
        d = OrdDom()
        for (a, b), k in self.rel.items():
            d = d.add(m[a], m[b], k)
            if d is None:
                return None
        return d
