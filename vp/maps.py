"""Hash maps as finite functions.

A map value is Obj('map', (base, upd, hasher, delta)): the contents of a named unknown map `base` (or of an
empty one: None) overridden by `upd`, a tuple of (key, value | ABSENT) with pairwise different keys; its length
is the length of the base plus delta.  What is known of a base is kept in the state: a lookup of a key whose
relation to the known keys is open splits on it, and on whether the base holds the key.  Iteration visits every
present key once, in every order.

The same treatment is given to the node table of the disjoint set: Obj('forest', (name, writes)) is a table of
unknown nodes whose entries are made up when first read.
"""
from .dom import Lin, S, UMAX
from .interp import Panic
from .state import *
from .models import deref, put, unknown, some, NONE, M, VP, user_point


class _Absent:
    __slots__ = ()

    def __repr__(self):
        return 'absent'


ABSENT = _Absent()


def keyval(st, k):
    for _ in range(3):
        if isinstance(k, Ptr):
            k = st.load(k.root, k.path)
        else:
            break
    return k


def named(t, kk):
    """The number of a named key (runs with fixed contents)."""
    while t[0] == 'clone':
        t = t[1]
    if t[0] == 'kk':
        return t[1]
    if t[0] == 'el' and t[2].const:
        return t[2].c % kk
    return None


def keq(st, a, b):
    """Are two keys equal? (splits)"""
    if a is b or a == b:
        return True
    a, b = keyval(st, a), keyval(st, b)
    if isinstance(a, Atom) and isinstance(b, Atom):
        kk = st.eng.kk
        if kk:
            i, j = named(a.term, kk), named(b.term, kk)
            if i is not None and j is not None:
                return i == j
        return st.same(a.term, b.term)
    if isinstance(a, Lin) and isinstance(b, Lin):
        return st.decide_eq(a - b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.variant == b.variant and len(a.fields) == len(b.fields) and all(keq(st, x, y) for x, y in zip(a.fields, b.fields))
    if a is UNINIT or b is UNINIT:
        raise Viol('uninit', 'an uninitialized value is used as a key')
    st.mark('key comparison of %s and %s' % (type(a).__name__, type(b).__name__))
    st.n += 1
    return bool(st.choose(('keq', st.n), 2))


def known(st, base):
    return st.ghost.get(('mb', base), ())


def npresent(st, base):
    return sum(1 for k, p, v in known(st, base) if p)


def base_len(st, base):
    return ZERO if base is None else st.sym('len_' + base)


def base_add(eng, st, base, key, present):
    ks = known(st, base)
    v = None
    if present:
        n = base_len(st, base)
        if len(ks) == 0 or True:
            if not st.assume_le(Lin(npresent(st, base) + 1) - n):
                raise Stop()
        v = eng.map_value(st, base, key)
    st.ghost[('mb', base)] = ks + ((key, present, v),)
    return v


def base_find(eng, st, base, key):
    """Value of key in the base or ABSENT (splits)."""
    if base is None:
        return ABSENT
    ks = known(st, base)
    for k, p, v in ks:
        if keq(st, k, key):
            return v if p else ABSENT
    if st.ghost.get(('mbc', base)):
        return ABSENT
    n = base_len(st, base)
    if st.lin.le0(n - npresent(st, base)) is True:
        return ABSENT
    if st.choose(('mbp', base, len(ks)), 2, 'a further key is in ' + base):
        return base_add(eng, st, base, key, True)
    base_add(eng, st, base, key, False)
    return ABSENT


def find(eng, st, m, key):
    base, upd, h, d = m.data
    for k, v in upd:
        if keq(st, k, key):
            return v
    return base_find(eng, st, base, key)


def length(st, m):
    return base_len(st, m.data[0]) + m.data[3]


def assign(eng, st, m, key, val):
    """The map with key mapped to val (ABSENT removes it); also the old value."""
    old = find(eng, st, m, key)
    base, upd, h, d = m.data
    out = []
    hit = False
    for k, v in upd:
        if not hit and keq(st, k, key):
            out.append((k, val))
            hit = True
        else:
            out.append((k, v))
    if not hit:
        out.append((key, val))
    if old is ABSENT and val is not ABSENT:
        d = d + 1
    elif old is not ABSENT and val is ABSENT:
        d = d - 1
    return Obj('map', (base, tuple(out), h, d)), old


def stored_key(st, m, key):
    """The key object held by the map for an equal key."""
    base, upd, h, d = m.data
    for k, v in upd:
        if keq(st, k, key):
            return k
    for k, p, v in known(st, base):
        if keq(st, k, key):
            return k
    return key


def ident(st, k):
    """The name of a key in a run with fixed contents."""
    k = keyval(st, k)
    return st.okey(k.term) if isinstance(k, Atom) else k


def candidates(st, m):
    """Known present keys, in a fixed order."""
    base, upd, h, d = m.data
    if st.eng.kk:
        over = {ident(st, k): v for k, v in upd}
        return [k for k, v in upd if v is not ABSENT] + [k for k, p, v in known(st, base) if p and ident(st, k) not in over]
    out = []
    up = []
    for k, v in upd:
        up.append(keyval(st, k))
        if v is not ABSENT:
            out.append(k)
    for k, p, v in known(st, base):
        if p:
            kv = keyval(st, k)
            if not any(same_known(st, kv, u) for u in up):
                out.append(k)
    return out


def same_known(st, a, b):
    """Equality of keys whose relation has been decided already."""
    if a == b:
        return True
    if isinstance(a, Atom) and isinstance(b, Atom):
        return st.okey(a.term) == st.okey(b.term) or st.rel(a.term, b.term) == 2
    if isinstance(a, Lin) and isinstance(b, Lin):
        return st.lin.norm(a - b) == ZERO
    return keq(st, a, b)


def new_key(eng, st, base):
    """A key of the base that is none of the known ones."""
    return eng.map_key(st, base)


def closed(st, m):
    base = m.data[0]
    return base is None or bool(st.ghost.get(('mbc', base)))


def order_key(st, m):
    """What the order of iteration depends on: the base and the keys added to it or removed from it."""
    base, upd, h, d = m.data
    if not upd:
        return ('mord', base, ())
    ks = known(st, base) if base is not None else ()
    out = []
    for k, v in upd:
        kv = keyval(st, k)
        held = any(p and same_known(st, keyval(st, b), kv) for b, p, w in ks)
        if held != (v is not ABSENT):
            out.append((ident(st, k), v is ABSENT))
    return ('mord', base, tuple(out))


def advance(eng, st, m, iid, visited):
    """One step of an iteration over m: the key, or None at the end (splits).  Iterating again over a map whose keys
    have not changed visits them in the same order."""
    if st.eng.kk:
        return advance1(eng, st, m, iid, visited)
    o = order_key(st, m)
    rec = st.ghost.get(o, ())
    n = len(visited)
    if all(same_known(st, keyval(st, a), keyval(st, b)) for a, b in zip(visited, rec)):
        if n < len(rec):
            return rec[n]
        key = advance1(eng, st, m, iid, visited)
        if key is not None and n == len(rec):
            st.ghost[order_key(st, m)] = rec + (key,)
        return key
    return advance1(eng, st, m, iid, visited)


def advance1(eng, st, m, iid, visited):
    base = m.data[0]
    if st.eng.kk:
        done = {ident(st, u) for u in visited}
        cand = [k for k in candidates(st, m) if ident(st, k) not in done]
        return cand[st.eng.fixed_order] if cand else None
    cand = [k for k in candidates(st, m) if not any(same_known(st, keyval(st, k), keyval(st, u)) for u in visited)]
    opts = [('key', k) for k in cand]
    if not closed(st, m):
        n = base_len(st, base)
        if st.lin.le0(n - npresent(st, base)) is not True:
            opts.append(('new', None))
    if not cand:
        opts.append(('end', None))
    if len(opts) > 1 and cand and eng.map_order_free:
        # the code under analysis treats the keys of one unknown map alike: known keys first
        opts = opts[:1]
    i = st.choose(('mi', iid, len(visited)), len(opts), 'next entry') if len(opts) > 1 else 0
    k, key = opts[i]
    if k == 'end':
        if not closed(st, m):
            if not st.assume_eq(base_len(st, base) - npresent(st, base)):
                raise Stop()
            st.ghost[('mbc', base)] = True
            eng.map_closed(st, base)
        return None
    if k == 'new':
        key = new_key(eng, st, base)
        # distinct from every known key of the map
        for other in [x[0] for x in known(st, base)] + [x[0] for x in m.data[1]]:
            o = keyval(st, other)
            if isinstance(o, Atom) and isinstance(key, Atom):
                if not st.assume_rel(o.term, key.term, 5):
                    raise Stop()
            elif isinstance(o, Lin) and isinstance(key, Lin):
                if not st.assume_ne(o, key):
                    raise Stop()
        base_add(eng, st, base, key, True)
    return key


def key_ptr(st, key):
    return Ptr(st.alloc(key, 'kc'))


def emap(eng, st, p):
    m = deref(eng, st, p)
    return m if isinstance(m, Obj) and m.kind == 'map' else None


def mk_iter(st, src, mode):
    st.n += 1
    return Obj('miter', (st.n, src, mode, ()))


def empty(h):
    return Obj('map', (None, (), h, ZERO))


# ------------------------------------------------------------------ capacity
# With eng.map_caps every map has a base, and the state keeps lower bounds of its capacity (mcap) and the amounts of
# room asked for (mreq).
def made(eng, st, h, cap=ZERO):
    """A new map with room for `cap` entries."""
    if not getattr(eng, 'map_caps', False):
        return empty(h)
    if not isinstance(cap, Lin):
        st.mark('capacity %s' % type(cap).__name__)
        cap = ZERO
    st.n += 1
    b = 'made%d' % st.n
    st.ghost[('mbc', b)] = True
    st.need(st.assume_eq(base_len(st, b)))
    st.ghost[('mcap', b)] = (cap,)
    st.ghost[('mreq', b)] = (cap,)
    return Obj('map', (b, (), h, ZERO))


def emptied(eng, st, m):
    """The map without its entries; its room stays."""
    r = made(eng, st, m.data[2])
    if r.data[0] is not None:
        for k in ('mcap', 'mreq'):
            st.ghost[(k, r.data[0])] = st.ghost.get((k, m.data[0]), ())
    return r


def shrunk(st, caps, length, to):
    return (length,) if to is None else (length,) + tuple(x if st.decide_le(x - to) else to for x in caps)


# ------------------------------------------------------------------ functions
def f_new(eng, st, c):
    return made(eng, st, Agg(0, (st.fresh('hash seed'),)))


def f_with_capacity(eng, st, c):
    return made(eng, st, Agg(0, (st.fresh('hash seed'),)), c.args[0])


def f_with_hasher(eng, st, c):
    return made(eng, st, c.args[0])


def f_with_capacity_and_hasher(eng, st, c):
    return made(eng, st, c.args[1], c.args[0])


def withmap(f):
    def g(eng, st, c):
        m = emap(eng, st, c.args[0])
        if m is None:
            return unknown(eng, st, c)
        return f(eng, st, c, m)
    return g


def iter_mode(mode):
    def f(eng, st, c):
        if emap(eng, st, c.args[0]) is None:
            return unknown(eng, st, c)
        return mk_iter(st, c.args[0], mode)
    return f


def owned_mode(mode):
    def f(eng, st, c):
        v = c.args[0]
        if isinstance(v, Ptr):
            return iter_mode('ref')(eng, st, c)
        if not (isinstance(v, Obj) and v.kind == 'map'):
            return unknown(eng, st, c)
        return mk_iter(st, v, mode)
    return f


@withmap
def f_drain(eng, st, c, m):
    put(eng, st, c.args[0], emptied(eng, st, m))
    return mk_iter(st, m, 'own')


@withmap
def f_len(eng, st, c, m):
    return length(st, m)


@withmap
def f_is_empty(eng, st, c, m):
    return Cond('eq', length(st, m))


@withmap
def f_capacity(eng, st, c, m):
    n = st.fresh('cap')
    st.need(st.assume_le(length(st, m) - n))
    if getattr(eng, 'map_caps', False):
        k = ('mcap', m.data[0])
        for x in st.ghost.get(k, ()):
            st.need(st.assume_le(x - n))
        st.ghost[k] = st.ghost.get(k, ()) + (n,)
    return n


@withmap
def f_reserve(eng, st, c, m):
    if getattr(eng, 'map_caps', False) and isinstance(c.args[1], Lin):
        b = m.data[0]
        st.ghost[('mcap', b)] = st.ghost.get(('mcap', b), ()) + (length(st, m) + c.args[1],)
        st.ghost[('mreq', b)] = st.ghost.get(('mreq', b), ()) + (c.args[1],)
    return UNIT


@withmap
def f_shrink(eng, st, c, m):
    if getattr(eng, 'map_caps', False):
        k = ('mcap', m.data[0])
        st.ghost[k] = shrunk(st, st.ghost.get(k, ()), length(st, m), c.args[1] if len(c.args) > 1 else None)
    return UNIT


def hashing(eng, st, c, key):
    """The hash function or comparison of the key may panic; the map stays as it is."""
    if eng.user_panics and isinstance(keyval(st, key), Atom) and user_point(eng, st, c, 'hashing'):
        raise Panic('hashing panics', 'user')


@withmap
def f_clear(eng, st, c, m):
    held = not eng.user_panics or not st.decide_eq(length(st, m))
    put(eng, st, c.args[0], emptied(eng, st, m))
    if eng.user_panics and held and eng.map_user_keys(st, m) and user_point(eng, st, c, 'dropping an element'):
        raise Panic('drop panics', 'user')      # the map is empty even then
    return UNIT


@withmap
def f_nop(eng, st, c, m):
    return UNIT


@withmap
def f_hasher(eng, st, c, m):
    return Ptr(st.alloc(m.data[2]))


@withmap
def f_contains(eng, st, c, m):
    hashing(eng, st, c, c.args[1])
    return Lin(int(find(eng, st, m, keyval(st, c.args[1])) is not ABSENT))


def val_ptr(p, key):
    return Ptr(p.root, p.path + (('mv', key),))


@withmap
def f_get(eng, st, c, m):
    hashing(eng, st, c, c.args[1])
    k = keyval(st, c.args[1])
    if find(eng, st, m, k) is ABSENT:
        return NONE
    return some(val_ptr(c.args[0], k))


@withmap
def f_index(eng, st, c, m):
    hashing(eng, st, c, c.args[1])
    k = keyval(st, c.args[1])
    if find(eng, st, m, k) is ABSENT:
        raise Panic('no entry found for key', 'index')
    return val_ptr(c.args[0], k)


@withmap
def f_get_key_value(eng, st, c, m):
    hashing(eng, st, c, c.args[1])
    k = keyval(st, c.args[1])
    if find(eng, st, m, k) is ABSENT:
        return NONE
    return some(Agg(0, (key_ptr(st, stored_key(st, m, k)), val_ptr(c.args[0], k))))


@withmap
def f_insert(eng, st, c, m):
    hashing(eng, st, c, c.args[1])
    m2, old = assign(eng, st, m, c.args[1], c.args[2])
    put(eng, st, c.args[0], m2)
    return NONE if old is ABSENT else some(old)


@withmap
def f_remove(eng, st, c, m):
    hashing(eng, st, c, c.args[1])
    m2, old = assign(eng, st, m, keyval(st, c.args[1]), ABSENT)
    if old is ABSENT:
        return NONE
    put(eng, st, c.args[0], m2)
    return some(old)


@withmap
def f_remove_entry(eng, st, c, m):
    hashing(eng, st, c, c.args[1])
    k = keyval(st, c.args[1])
    m2, old = assign(eng, st, m, k, ABSENT)
    if old is ABSENT:
        return NONE
    put(eng, st, c.args[0], m2)
    return some(Agg(0, (stored_key(st, m, k), old)))


@withmap
def f_entry(eng, st, c, m):
    hashing(eng, st, c, c.args[1])
    if find(eng, st, m, c.args[1]) is ABSENT:
        return Agg(1, (Obj('vac', (c.args[0], c.args[1])),))
    return Agg(0, (Obj('occ', (c.args[0], c.args[1])),))


def f_clone(eng, st, c):
    m = emap(eng, st, c.args[0])
    if m is None:
        return unknown(eng, st, c)
    base, upd, h, d = m.data
    if any(isinstance(v, VecV) for k, v in upd):
        return unknown(eng, st, c)
    if eng.user_panics and eng.map_user_keys(st, m) and not st.decide_eq(length(st, m)) and user_point(eng, st, c, 'clone'):
        raise Panic('clone panics', 'user')
    return m


BY_REF = {
    'new': f_new, 'with_capacity': f_with_capacity, 'default': f_new, 'with_hasher': f_with_hasher, 'with_capacity_and_hasher': f_with_capacity_and_hasher,
    'iter': iter_mode('ref'), 'iter_mut': iter_mode('ref'), 'keys': iter_mode('kref'), 'values': iter_mode('vref'), 'values_mut': iter_mode('vref'),
    'into_keys': owned_mode('key'), 'into_values': owned_mode('val'), 'drain': f_drain,
    'len': f_len, 'is_empty': f_is_empty, 'capacity': f_capacity, 'clear': f_clear, 'reserve': f_reserve, 'shrink_to_fit': f_shrink, 'shrink_to': f_shrink,
    'hasher': f_hasher, 'contains_key': f_contains, 'get': f_get, 'get_mut': f_get, 'get_key_value': f_get_key_value,
    'insert': f_insert, 'remove': f_remove, 'remove_entry': f_remove_entry, 'entry': f_entry,
}
# bodies that only use the functions above
BODY = {'ne', 'index', 'fmt', 'get_or_insert_with', 'or_insert', 'or_insert_with', 'or_default', 'and_modify',
        'into_iter', 'key', 'from', 'from_iter', 'extend', 'map_entry'}


def map_inherent(eng, st, c):
    n = c.name.rsplit('::', 1)[-1]
    f = BY_REF.get(n)
    if f is not None:
        return f(eng, st, c)
    if n in BODY and c.f['body'] is not None:
        return NotImplemented
    return unknown(eng, st, c)


def map_trait(eng, st, c):
    n = c.name.rsplit('::', 1)[-1]
    if n == 'into_iter':
        return owned_mode('own')(eng, st, c)
    if n == 'clone':
        return f_clone(eng, st, c)
    if n == 'default':
        return f_new(eng, st, c)
    if n == 'clone_from':
        m = emap(eng, st, c.args[1])
        if m is None:
            return unknown(eng, st, c)
        put(eng, st, c.args[0], m)
        return UNIT
    if n == 'index':
        return f_index(eng, st, c)
    if n in BODY and c.f['body'] is not None:
        return NotImplemented
    return unknown(eng, st, c)


# ---- iterators ----
def it_map(eng, st, src):
    if isinstance(src, Ptr):
        m = emap(eng, st, src)
        return m
    return src


def f_next(eng, st, c):
    v = deref(eng, st, c.args[0])
    if not (isinstance(v, Obj) and v.kind == 'miter'):
        return unknown(eng, st, c)
    iid, src, mode, visited = v.data
    m = it_map(eng, st, src)
    if m is None:
        return unknown(eng, st, c)
    key = advance(eng, st, m, iid, visited)
    if key is None:
        return NONE
    put(eng, st, c.args[0], Obj('miter', (iid, src, mode, visited + (key,))))
    if mode == 'ref':
        return some(Agg(0, (key_ptr(st, key), val_ptr(src, key))))
    if mode == 'kref':
        return some(key_ptr(st, key))
    if mode == 'vref':
        return some(val_ptr(src, key))
    val = find(eng, st, m, key)
    if mode == 'key':
        return some(key)
    if mode == 'val':
        return some(val)
    return some(Agg(0, (key, val)))


def it_left(eng, st, v):
    m = it_map(eng, st, v.data[1])
    return None if m is None else length(st, m) - len(v.data[3])


def f_size_hint(eng, st, c):
    v = deref(eng, st, c.args[0])
    n = it_left(eng, st, v) if isinstance(v, Obj) and v.kind == 'miter' else None
    if n is None:
        return unknown(eng, st, c)
    return Agg(0, (n, some(n)))


def f_it_len(eng, st, c):
    v = deref(eng, st, c.args[0])
    n = it_left(eng, st, v) if isinstance(v, Obj) and v.kind == 'miter' else None
    return n if n is not None else unknown(eng, st, c)


def f_it_clone(eng, st, c):
    return deref(eng, st, c.args[0])


def ent(eng, st, v):
    if isinstance(v, Ptr):
        v = st.load(v.root, v.path)
    return v if isinstance(v, Obj) and v.kind in ('occ', 'vac') else None


def f_entry_method(eng, st, c, occ):
    n = c.name.rsplit('::', 1)[-1]
    e = ent(eng, st, c.args[0])
    if e is None:
        return unknown(eng, st, c)
    p, key = e.data
    m = emap(eng, st, p)
    if m is None:
        return unknown(eng, st, c)
    if n == 'key':
        return key_ptr(st, stored_key(st, m, keyval(st, key)) if occ else key)
    if occ:
        if n in ('get', 'get_mut', 'into_mut'):
            return val_ptr(p, key)
        if n == 'insert':
            m2, old = assign(eng, st, m, key, c.args[1])
            put(eng, st, p, m2)
            return old
        if n in ('remove', 'remove_entry'):
            k = stored_key(st, m, keyval(st, key))
            m2, old = assign(eng, st, m, key, ABSENT)
            put(eng, st, p, m2)
            return old if n == 'remove' else Agg(0, (k, old))
    else:
        if n in ('insert', 'insert_entry'):
            m2, old = assign(eng, st, m, key, c.args[1])
            put(eng, st, p, m2)
            return val_ptr(p, key) if n == 'insert' else Obj('occ', (p, key))
        if n == 'into_key':
            return key
    return unknown(eng, st, c)


def hash_map_mod(eng, st, c):
    """std::collections::hash_map::…"""
    n = c.name.rsplit('::', 1)[-1]
    if 'OccupiedEntry' in c.name:
        return f_entry_method(eng, st, c, True)
    if 'VacantEntry' in c.name:
        return f_entry_method(eng, st, c, False)
    if '::Entry' in c.name:
        if n == 'key':
            v = deref(eng, st, c.args[0])
            if isinstance(v, Agg) and isinstance(v.fields[0], Obj):
                return key_ptr(st, keyval(st, v.fields[0].data[1]))
            return unknown(eng, st, c)
        return NotImplemented
    if n == 'next':
        return f_next(eng, st, c)
    if n == 'size_hint':
        return f_size_hint(eng, st, c)
    if n == 'len':
        return f_it_len(eng, st, c)
    if n == 'clone':
        return f_it_clone(eng, st, c)
    if n == 'count':
        v = c.args[0]
        r = it_left(eng, st, v) if isinstance(v, Obj) and v.kind == 'miter' else None
        return r if r is not None else unknown(eng, st, c)
    return NotImplemented if n in BODY else unknown(eng, st, c)


def f_cursor(eng, st, c):
    if emap(eng, st, c.args[0]) is None:
        return unknown(eng, st, c)
    return mk_iter(st, c.args[0], 'ref')


def f_cursor_next(eng, st, c):
    v = deref(eng, st, c.args[1])
    m = emap(eng, st, c.args[0])
    if not (isinstance(v, Obj) and v.kind == 'miter') or m is None:
        return unknown(eng, st, c)
    iid, src, mode, visited = v.data
    key = advance(eng, st, m, iid, visited)
    if key is None:
        return NONE
    put(eng, st, c.args[1], Obj('miter', (iid, src, mode, visited + (key,))))
    return some(Agg(0, (key_ptr(st, key), val_ptr(c.args[0], key))))


def f_cursor_remove(eng, st, c):
    v = deref(eng, st, c.args[1])
    m = emap(eng, st, c.args[0])
    if not (isinstance(v, Obj) and v.kind == 'miter') or m is None or not v.data[3]:
        return unknown(eng, st, c)
    m2, old = assign(eng, st, m, v.data[3][-1], ABSENT)
    put(eng, st, c.args[0], m2)
    return UNIT


# ------------------------------------------------------------------ values behind &mut V
def map_get(eng, st, v, key):
    if isinstance(v, Obj) and v.kind == 'map':
        r = find(eng, st, v, key)
        if r is ABSENT:
            raise Viol('dangling', 'an entry that is no longer in the map is used')
        return r
    st.mark('map read')
    return Top('map')


def map_set(eng, st, v, key, val):
    if isinstance(v, Obj) and v.kind == 'map':
        return assign(eng, st, v, key, val)[0]
    st.mark('map write')
    return v


# ------------------------------------------------------------------ node tables
def node(eng, st, name, idx):
    """The unknown node at idx of table name: (index, value)."""
    idx = st.lin.norm(idx)
    for i, v in st.ghost.get(('fo', name), ()):
        if st.decide_eq(i - idx):
            return i, v
    v = eng.new_node(st, name, idx)
    st.ghost[('fo', name)] = st.ghost.get(('fo', name), ()) + ((idx, v),)
    return idx, v


def forest_get(eng, st, f, idx):
    name, writes = f.data
    for i, v in reversed(writes):
        if st.decide_eq(i - idx):
            return v
    return node(eng, st, name, idx)[1]


def forest_set(eng, st, f, idx, val):
    name, writes = f.data
    out = []
    hit = False
    for i, v in writes:
        if not hit and st.decide_eq(i - idx):
            out.append((i, val))
            hit = True
        else:
            out.append((i, v))
    if not hit:
        out.append((st.lin.norm(idx), val))
    return Obj('forest', (name, tuple(out)))


def is_forest(st, v):
    x = st.cells.get(v.root) if isinstance(v, VecV) else None
    return x if isinstance(x, Obj) and x.kind == 'forest' else None


def wrap_vec(name, fn):
    """Vec functions on node tables."""
    old = M[name]

    def g(eng, st, c):
        if c.args and isinstance(c.args[0], Ptr):
            v = st.load(c.args[0].root, c.args[0].path)
            f = is_forest(st, v)
            if f is not None:
                return fn(eng, st, c, v, f)
        return old(eng, st, c)
    return g


def v_push(eng, st, c, v, f):
    st.cells[v.root] = Obj('forest', (f.data[0], f.data[1] + ((v.len, c.args[1]),)))
    put(eng, st, c.args[0], VecV(v.root, v.len + 1))
    return UNIT


def v_clear(eng, st, c, v, f):
    st.cells[v.root] = Arr((), ZERO)
    put(eng, st, c.args[0], VecV(v.root, ZERO))
    return UNIT


def v_truncate(eng, st, c, v, f):
    n = c.args[1]
    if isinstance(n, Lin) and st.lin.norm(n) == ZERO:
        return v_clear(eng, st, c, v, f)
    return unknown(eng, st, c)


def v_reserve(eng, st, c, v, f):
    if isinstance(c.args[1], Lin):
        k = ('vcap', v.root)
        st.ghost[k] = st.ghost.get(k, ()) + (v.len + c.args[1],)
    return UNIT


def v_shrink(eng, st, c, v, f):
    k = ('vcap', v.root)
    st.ghost[k] = shrunk(st, st.ghost.get(k, ()), v.len, c.args[1] if len(c.args) > 1 else None)
    return UNIT


def v_cap(eng, st, c, v, f):
    n = st.fresh('cap')
    st.need(st.assume_le(v.len - n))
    k = ('vcap', v.root)
    for x in st.ghost.get(k, ()):
        st.need(st.assume_le(x - n))
    st.ghost[k] = st.ghost.get(k, ()) + (n,)
    return n


def v_clone(eng, st, c, v, f):
    return VecV(st.alloc(f), v.len)


def install(eng):
    eng.map_get = lambda st, v, key: map_get(eng, st, v, key)
    eng.map_set = lambda st, v, key, val: map_set(eng, st, v, key, val)
    eng.forest_get = lambda st, v, i: forest_get(eng, st, v, i)
    eng.forest_set = lambda st, v, i, x: forest_set(eng, st, v, i, x)
    eng.map_order_free = False

    def value(st, base, key):
        n = st.fresh('count')
        return n
    eng.map_value = value

    def mkey(st, base):
        st.n += 1
        return Atom(('var', 'k%d' % st.n))
    eng.map_key = mkey
    # maps whose keys are the caller's: all but the empty ones with other keys
    eng.map_user_keys = lambda st, m: m.data[0] is not None or any(isinstance(keyval(st, k), Atom) for k, v in m.data[1])
    eng.map_closed = lambda st, base: None

    def new_node(st, name, idx):
        st.mark('node table')
        return Top('node')
    eng.new_node = new_node
    for n, f in (('push', v_push), ('clear', v_clear), ('truncate', v_truncate), ('reserve', v_reserve), ('reserve_exact', v_reserve),
                 ('shrink_to_fit', v_shrink), ('shrink_to', v_shrink), ('capacity', v_cap)):
        eng.models[VP + n] = wrap_vec(VP + n, f)
    for n in list(eng.models):
        if n.startswith(VP) and n[len(VP):] not in ('push', 'clear', 'truncate', 'reserve', 'reserve_exact', 'shrink_to_fit', 'shrink_to', 'capacity',
                                                    'len', 'is_empty', 'new_in', 'with_capacity_in'):
            eng.models[n] = wrap_vec(n, lambda eng, st, c, v, f: unknown(eng, st, c))
    eng.models['<std::vec::Vec<T, A> as std::clone::Clone>::clone'] = wrap_vec('<std::vec::Vec<T, A> as std::clone::Clone>::clone', v_clone)
    eng.models['witness::models::vp_cursor'] = f_cursor
    eng.models['witness::models::vp_cursor_next'] = f_cursor_next
    eng.models['witness::models::vp_cursor_remove'] = f_cursor_remove
    for p in ('std::collections::HashMap::<',):
        eng.model_prefix.append((p, map_inherent))
    for p in ('<std::collections::HashMap<', "<&'a std::collections::HashMap<", "<&'a mut std::collections::HashMap<", '<&std::collections::HashMap<', '<&mut std::collections::HashMap<'):
        eng.model_prefix.append((p, map_trait))
    for p in ('std::collections::hash_map::', '<std::collections::hash_map::'):
        eng.model_prefix.append((p, hash_map_mod))
