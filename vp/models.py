"""Models of library functions and of the opaque operations of the witness crate."""
from .dom import Lin, L, S, LT, EQ, GT
from .state import *
from .interp import Panic, PUSHED, TRANSPARENT

NONE = Agg(0, ())


def some(v):
    return Agg(1, (v,))


def ok(v):
    return Agg(0, (v,))


M = {}
PFX = []


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def deref(eng, st, p):
    if isinstance(p, Ptr):
        return st.load(p.root, p.path)
    if p is UNINIT:
        raise Viol('uninit', 'dereference of an uninitialized pointer')
    st.mark('deref of %s' % type(p).__name__)
    return Top('deref')


def put(eng, st, p, v):
    if isinstance(p, Ptr):
        st.store(p.root, p.path, v)
    elif p is UNINIT:
        raise Viol('uninit', 'dereference of an uninitialized pointer')
    else:
        st.mark('write through %s' % type(p).__name__)


def atom(st, v, what='value'):
    if isinstance(v, Atom):
        return v.term
    if v is UNINIT:
        raise Viol('uninit', 'an unused or vacated slot is treated as an element (%s)' % what)
    st.mark('%s of %s' % (what, v))
    st.n += 1
    return ('var', '?%d' % st.n)


def unknown(eng, st, c, why=None):
    eng.unknown_call(st, why or c.name, None, c)
    return PUSHED


# ------------------------------------------------------------------ opaque element operations
def user_point(eng, st, c, what):
    """Caller code runs here; in panic mode it may panic (at most once per run)."""
    if eng.user_panics and st.panic is None and not st.ghost.get('upanicked'):
        st.ghost['uc'] = st.ghost.get('uc', 0) + 1
        k = ('upanic', st.ghost['uc'])
        if st.choose(k, 2, 'panic in ' + what):
            st.ghost['upanicked'] = what
            return True
    return False


@model('witness::opaque::vp_cmp')
def m_cmp(eng, st, c):
    a, b = (atom(st, deref(eng, st, x), 'comparison') for x in c.args)
    return Agg(st.cmp(a, b) + 1, ())


@model('witness::opaque::vp_eq')
def m_eq(eng, st, c):
    a, b = (atom(st, deref(eng, st, x), 'comparison') for x in c.args)
    return Lin(int(st.same(a, b)))


def pcmp(st, a, b):
    """Outcome of comparing partially ordered elements: -1, 0, 1 or None; forks. Duality only: whoever compares an element
    with two different others would need transitivity and is not decided."""
    a, b = st.okey(a), st.okey(b)

    def same(s, t):
        if s == t:
            return True
        return s[0] == 'el' and t[0] == 'el' and s[1] == t[1] and st.decide_eq(s[2] - t[2])
    for x, y, k in st.ghost.get('pcmp', ()):
        ax, ay, bx, by = same(a, x), same(a, y), same(b, x), same(b, y)
        o = st.choices[k]
        o = None if o == 3 else o - 1
        if ax and by:
            return o
        if ay and bx:
            return None if o is None else -o
        if ax or ay or bx or by:
            st.mark('chained comparisons of partially ordered elements')
    k = ('pcmp', a, b)
    # an element is equal to itself or incomparable with itself
    r = (1, 3)[st.choose(k + ('self',), 2, 'self-comparison')] if same(a, b) else st.choose(k, 4, 'partial order')
    if k not in st.choices:
        st.choices = dict(st.choices)
        st.choices[k] = r
    st.ghost['pcmp'] = st.ghost.get('pcmp', ()) + ((a, b, k),)
    return None if r == 3 else r - 1


@model('witness::opaque::vp_pcmp')
def m_pcmp(eng, st, c):
    a, b = (atom(st, deref(eng, st, x), 'comparison') for x in c.args)
    r = pcmp(st, a, b)
    return NONE if r is None else some(Agg(r + 1, ()))


@model('witness::opaque::vp_peq')
def m_peq(eng, st, c):
    a, b = (atom(st, deref(eng, st, x), 'comparison') for x in c.args)
    return Lin(int(pcmp(st, a, b) == 0))


@model('witness::opaque::vp_ceq')
def m_ceq(eng, st, c):
    return m_eq(eng, st, c)


@model('witness::opaque::vp_clone', 'witness::opaque::vp_uclone')
def m_clone(eng, st, c):
    t = atom(st, deref(eng, st, c.args[0]), 'clone')
    if user_point(eng, st, c, 'clone'):
        raise Panic('clone panics', 'user')
    if c.name.endswith('vp_clone'):
        st.ghost['clones'] = st.ghost.get('clones', ()) + (Seg(ZERO, ONE, Atom(t)),)
    return Atom(('clone', t))


def note_drop(st, seg):
    st.ghost['drops'] = st.ghost.get('drops', ()) + (seg,)


@model('witness::opaque::vp_drop')
def m_drop(eng, st, c):
    t = atom(st, deref(eng, st, c.args[0]), 'drop')
    if eng.track_drops:
        note_drop(st, Seg(ZERO, ONE, Atom(t)))
    if user_point(eng, st, c, 'drop'):
        raise Panic('drop panics', 'user')
    return UNIT


@model('witness::opaque::vp_udrop', 'witness::opaque::vp_itdrop')
def m_udrop(eng, st, c):
    return UNIT


def arith(name, assign=False):
    def f(eng, st, c):
        if assign:
            a = atom(st, deref(eng, st, c.args[0]), 'arithmetic')
        else:
            a = atom(st, c.args[0], 'arithmetic')
        xs = [st.okey(a)]
        if len(c.args) > 1:
            xs.append(st.okey(atom(st, c.args[1], 'arithmetic')))
        if user_point(eng, st, c, 'arithmetic'):
            raise Panic('arithmetic panics', 'user')
        v = Atom(('app', name) + tuple(xs))
        if assign:
            put(eng, st, c.args[0], v)
            return UNIT
        return v
    return f


for n in ('add', 'sub', 'mul', 'div', 'neg'):
    M['witness::opaque::vp_' + n] = arith(n)
    if n != 'neg':
        M['witness::opaque::vp_%s_assign' % n] = arith(n + '_assign', True)


@model('witness::opaque::vp_hash', 'witness::opaque::vp_chash')
def m_hash(eng, st, c):
    st.event('hash', 'val', st.okey(atom(st, deref(eng, st, c.args[0]), 'hash')))
    return UNIT


@model('witness::opaque::vp_fmt')
def m_fmt(eng, st, c):
    st.event('out', 'val', st.okey(atom(st, deref(eng, st, c.args[0]), 'display')))
    return ok(UNIT)


@model('witness::opaque::vp_hasher_write')
def m_hw(eng, st, c):
    p = c.args[1]
    st.event('hash', 'bytes', repr(st.norm(st.load(p.root, p.path)) if isinstance(p, Ptr) else p))
    return UNIT


@model('witness::opaque::vp_hasher_finish', 'witness::opaque::vp_default_hasher')
def m_hf(eng, st, c):
    return Lin(c.args[0].c) if isinstance(c.args[0], Lin) and c.args[0].const else st.fresh('h')


@model('witness::opaque::vp_build_hasher')
def m_bh(eng, st, c):
    return Agg(0, (ZERO,))


# sources: Obj('src', (name, kind)); iterators Obj('it', (name, kind, pos)), kind one of val/ref
@model('witness::opaque::vp_into_iter', 'witness::opaque::vp_rinto_iter', 'witness::opaque::vp_cinto_iter')
def m_into_iter(eng, st, c):
    if user_point(eng, st, c, 'into_iter'):
        raise Panic('into_iter panics', 'user')
    v = c.args[0]
    if isinstance(v, Obj) and v.kind == 'src':
        return Obj('it', (v.data[0], v.data[1], ZERO))
    return unknown(eng, st, c)


@model('witness::opaque::vp_next', 'witness::opaque::vp_rnext', 'witness::opaque::vp_cnext')
def m_next(eng, st, c):
    v = deref(eng, st, c.args[0])
    if not (isinstance(v, Obj) and v.kind == 'it'):
        return unknown(eng, st, c)
    name, kind, pos = v.data
    h = eng.call_hooks.get('src_next')
    if h:
        r = h(eng, st, c, v)
        if r is not None:
            return r
    n = st.sym('len_' + name)
    if not st.decide_lt(pos, n):
        return NONE
    if user_point(eng, st, c, 'next'):
        raise Panic('next panics', 'user')
    put(eng, st, c.args[0], Obj('it', (name, kind, pos + 1)))
    st.ghost[('taken', name)] = pos + 1
    if kind == 'val':
        return some(Atom(('el', name, pos)))
    return some(Ptr(('srcarr', name), (('i', pos),)))


@model('witness::opaque::vp_size_hint', 'witness::opaque::vp_rsize_hint', 'witness::opaque::vp_csize_hint')
def m_size_hint(eng, st, c):
    v = deref(eng, st, c.args[0])
    if not (isinstance(v, Obj) and v.kind == 'it'):
        return unknown(eng, st, c)
    name, kind, pos = v.data
    n = st.sym('len_' + name)
    if eng.kk:
        return Agg(0, (n - pos, some(n - pos)))
    key = ('hint', name, pos)
    if st.choose(key, 2, 'size_hint has an upper bound'):
        up = st.fresh('hi')
        st.need(st.assume_le(n - pos - up))
        up = some(up)
    else:
        up = NONE
    lo = st.fresh('lo')
    st.need(st.assume_le(lo - (n - pos)))
    return Agg(0, (lo, up))


# ------------------------------------------------------------------ panics
def panics(eng, st, c):
    msg = ''
    for a in c.args:
        if isinstance(a, Str):
            msg = bytes(a.bytes).decode('utf8', 'replace')
        elif isinstance(a, Agg) and a.fields and isinstance(a.fields[0], Str):
            msg = bytes(a.fields[0].bytes).decode('utf8', 'replace')
    raise Panic(msg or c.name.split('::')[-1])


for n in ('std::rt::begin_panic', 'std::rt::panic_fmt', 'core::panicking::panic', 'core::panicking::panic_fmt',
          'core::panicking::panic_bounds_check', 'core::panicking::unreachable_display', 'core::panicking::panic_display',
          'core::panicking::panic_str_2015', 'core::panicking::panic_explicit', 'core::panicking::assert_failed',
          'core::panicking::assert_failed_inner', 'std::option::unwrap_failed', 'core::option::unwrap_failed',
          'std::option::expect_failed', 'core::option::expect_failed', 'std::result::unwrap_failed',
          'core::result::unwrap_failed', 'core::cell::panic_already_borrowed', 'core::panicking::panic_const::panic_const_add_overflow',
          'std::panic::panic_any', 'std::panicking::begin_panic', 'std::panic::resume_unwind'):
    M[n] = panics
PFX.append(('core::panicking::panic_const', panics))
PFX.append(('core::slice::index::slice_', panics))
PFX.append(('core::slice::copy_from_slice_impl::len_mismatch_fail', panics))


@model('core::panicking::panic_nounwind', 'core::panicking::panic_nounwind_fmt', 'core::panicking::panic_cannot_unwind',
       'core::panicking::panic_in_cleanup', 'std::process::abort', 'std::intrinsics::abort')
def m_abort(eng, st, c):
    st.status = 'abort'
    return PUSHED


# ------------------------------------------------------------------ formatting and hashing
@model('std::fmt::Arguments::<\'a>::new')
def m_args_new(eng, st, c):
    return Agg(0, (c.args[0], c.args[1]))


@model('std::fmt::Arguments::<\'a>::from_str', 'std::fmt::Arguments::<\'a>::from_str_nonconst', 'std::fmt::Arguments::<\'a>::new_const')
def m_args_str(eng, st, c):
    return Agg(1, (c.args[0],))


def fmt_arg(eng, st, c):
    return Agg(0, (c.args[0], Lin(c.f['args'][-1] if isinstance(c.f['args'][-1], int) else -1)))


M["core::fmt::rt::Argument::<'_>::new_display"] = fmt_arg
M["core::fmt::rt::Argument::<'_>::new_debug"] = fmt_arg


def show(eng, st, v, tid):
    """Display of a value of a known type into the output events; False if the type is not known."""
    t = eng.prog.types[tid] if tid >= 0 else None
    while t is not None and t['k'] == 'ref' and isinstance(v, Ptr):
        v = st.load(v.root, v.path)
        t = eng.prog.types[t['elem']]
    if t is None:
        return False
    if isinstance(v, Atom):
        st.event('out', 'val', st.okey(v.term))
        return True
    if isinstance(v, Str):
        st.event('out', 'str', bytes(v.bytes))
        return True
    if isinstance(v, Lin):
        v = st.lin.norm(v)
        if t['k'] == 'char' and v.const:
            st.event('out', 'str', chr(v.c).encode())
            return True
        if v.const:
            st.event('out', 'str', str(v.c).encode())
            return True
        st.event('out', 'num', v)
        return True
    return False


@model("std::fmt::Formatter::<'a>::write_fmt")
def m_write_fmt(eng, st, c):
    a = c.args[1]
    if not isinstance(a, Agg):
        return unknown(eng, st, c)
    if a.variant == 1:
        if not isinstance(a.fields[0], Str):
            return unknown(eng, st, c)
        st.event('out', 'str', bytes(a.fields[0].bytes))
        return ok(UNIT)
    tp, av = a.fields
    try:
        tpl = st.load(tp.root, tp.path)
        arr = st.load(av.root, av.path)
        bs = []
        i = 0
        while True:
            b = st.arr_get(tpl, Lin(i))
            if not (isinstance(b, Lin) and b.const):
                raise ValueError
            if b.c == 0:
                break
            bs.append(b.c)
            i += 1
            if b.c == 192:
                continue
            if b.c >= 128:
                raise ValueError
            for _ in range(b.c):
                x = st.arr_get(tpl, Lin(i))
                bs.append(x.c)
                i += 1
    except (ValueError, AttributeError):
        return unknown(eng, st, c, 'formatting template')
    i = k = 0
    while i < len(bs):
        if bs[i] == 192:
            arg = st.arr_get(arr, Lin(k))
            k += 1
            i += 1
            if not isinstance(arg, Agg) or not isinstance(arg.fields[0], Ptr):
                return unknown(eng, st, c, 'formatting argument')
            p, ty = arg.fields
            if not show(eng, st, st.load(p.root, p.path), ty.c):
                return unknown(eng, st, c, 'formatting of a value')
        else:
            n = bs[i]
            st.event('out', 'str', bytes(bs[i + 1:i + 1 + n]))
            i += 1 + n
    return ok(UNIT)


@model("std::fmt::Formatter::<'a>::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", "std::fmt::Formatter::<'a>::pad")
def m_write_str(eng, st, c):
    if isinstance(c.args[1], Str):
        st.event('out', 'str', bytes(c.args[1].bytes))
        return ok(UNIT)
    return unknown(eng, st, c)


@model("<std::fmt::Formatter<'_> as std::fmt::Write>::write_char", "std::fmt::Write::write_char")
def m_write_char(eng, st, c):
    v = st.lin.norm(c.args[1]) if isinstance(c.args[1], Lin) else None
    if v is not None and v.const:
        st.event('out', 'str', chr(v.c).encode())
        return ok(UNIT)
    return unknown(eng, st, c)


def m_display(eng, st, c):
    v = deref(eng, st, c.args[0])
    tid = c.argtys[0]
    t = eng.prog.types[tid]['elem'] if tid is not None and eng.prog.types[tid]['k'] == 'ref' else -1
    if isinstance(c.args[0], Str):
        v, t = c.args[0], t
    if show(eng, st, v, t):
        return ok(UNIT)
    return unknown(eng, st, c)


for n in ('<char as std::fmt::Display>::fmt', '<str as std::fmt::Display>::fmt', 'core::fmt::num::imp::<impl std::fmt::Display for usize>::fmt'):
    M[n] = m_display


def m_hash_prim(eng, st, c):
    v = deref(eng, st, c.args[0]) if isinstance(c.args[0], Ptr) else c.args[0]
    if isinstance(v, Cond):
        v = Lin(int(st.truth(v)))
    if not isinstance(v, (Lin, Str)):
        return unknown(eng, st, c)
    if isinstance(v, Lin):
        v = st.lin.norm(v)
        t = eng.prog.types[eng.prog.types[c.argtys[0]]['elem']] if c.argtys[0] is not None else None
        if t is not None and t['k'] == 'bool' and not v.const:
            v = Lin(int(st.truth(v)))
    st.event('hash', 'prim', (c.name.rsplit(' for ', 1)[-1].split('>')[0], v))
    return UNIT


PFX.append(('core::hash::impls::<impl std::hash::Hash for', m_hash_prim))


def m_hash_write(eng, st, c):
    v = c.args[1]
    if isinstance(v, Cond):
        v = Lin(int(st.truth(v)))
    if isinstance(v, Lin):
        st.event('hash', 'prim', (c.name.rsplit('_', 1)[-1], st.lin.norm(v)))
        return UNIT
    return unknown(eng, st, c)


PFX.append(('std::hash::Hasher::write_', m_hash_write))


# ------------------------------------------------------------------ memory
@model('std::mem::swap', 'std::ptr::swap', 'std::intrinsics::typed_swap_nonoverlapping')
def m_swap(eng, st, c):
    a, b = deref(eng, st, c.args[0]), deref(eng, st, c.args[1])
    put(eng, st, c.args[0], b)
    put(eng, st, c.args[1], a)
    return UNIT


@model('std::mem::replace', 'std::ptr::replace')
def m_replace(eng, st, c):
    a = deref(eng, st, c.args[0])
    put(eng, st, c.args[0], c.args[1])
    return a


@model('std::mem::forget')
def m_forget(eng, st, c):
    st.ghost['forgot'] = st.ghost.get('forgot', ()) + (c.args[0],)
    return UNIT


def src_of(eng, st, p):
    """(root, path, index) of an element pointer, or None."""
    if isinstance(p, Ptr) and p.len is not None:
        return p.root, p.path, p.off
    if isinstance(p, Ptr) and p.path and p.path[-1][0] == 'i':
        return p.root, p.path[:-1], p.path[-1][1]
    return None


def copy_range(eng, st, src, dst, count):
    if not isinstance(count, Lin):
        st.mark('copy of unknown length')
        return
    count = st.lin.norm(count)
    if count == ZERO:
        return
    if count == ONE:
        put(eng, st, dst, deref(eng, st, src))
        return
    a, b = src_of(eng, st, src), src_of(eng, st, dst)
    if a is None or b is None:
        st.mark('bulk copy')
        return
    if st.decide_le(count):
        return
    copy_elems(eng, st, a, b, count)


def copy_elems(eng, st, a, b, n):
    va = st.load(a[0], a[1])
    segs = slice_segs(eng, st, va, a[2], a[2] + n, b[2] - a[2])
    vb = st.load(b[0], b[1])
    if not isinstance(vb, Arr) or segs is None:
        st.mark('bulk copy')
        return
    st.store(b[0], b[1], splice(eng, st, vb, b[2], b[2] + n, segs))


def slice_segs(eng, st, v, lo, hi, delta):
    if isinstance(v, Agg):
        v = eng.mk_array(list(v.fields))
    if not isinstance(v, Arr):
        return None
    if not st.decide_le(hi - v.len) or not st.decide_le(-lo):
        raise Viol('oob', 'access outside of the allocation: [%r, %r) of %r' % (st.lin.norm(lo), st.lin.norm(hi), st.lin.norm(v.len)))
    return st.arr_slice(v, lo, hi, delta)


def splice(eng, st, v, lo, hi, segs):
    """v with [lo,hi) replaced by segs (already at their final positions)."""
    if not st.decide_le(hi - v.len):
        raise Viol('oob', 'write outside of the allocation: [%r, %r) of %r' % (st.lin.norm(lo), st.lin.norm(hi), st.lin.norm(v.len)))
    pre = st.arr_slice(v, ZERO, lo, ZERO)
    post = st.arr_slice(v, hi, v.len, ZERO)
    return Arr(tuple(pre) + tuple(segs) + tuple(post), v.len)


def disjoint(eng, st, c, a, b, n):
    """The two ranges of a nonoverlapping operation must not overlap."""
    x, y = src_of(eng, st, a), src_of(eng, st, b)
    if 'nonoverlapping' not in c.name or not x or not y or x[:2] != y[:2] or not isinstance(n, Lin):
        return
    if not st.decide_le(n) and not st.decide_le(x[2] + n - y[2]) and not st.decide_le(y[2] + n - x[2]):
        raise Viol('overlap', '%s on overlapping ranges' % c.name.split('::')[-1])


@model('std::intrinsics::copy', 'std::intrinsics::copy_nonoverlapping', 'std::ptr::copy', 'std::ptr::copy_nonoverlapping')
def m_copy(eng, st, c):
    disjoint(eng, st, c, *c.args[:3])
    copy_range(eng, st, c.args[0], c.args[1], c.args[2])
    return UNIT


def m_copy_to(eng, st, c):
    disjoint(eng, st, c, *c.args[:3])
    copy_range(eng, st, c.args[0], c.args[1], c.args[2])
    return UNIT


def m_copy_from(eng, st, c):
    disjoint(eng, st, c, *c.args[:3])
    copy_range(eng, st, c.args[1], c.args[0], c.args[2])
    return UNIT


@model('std::ptr::swap_nonoverlapping', 'std::intrinsics::swap_nonoverlapping')
def m_swap_nonoverlapping(eng, st, c):
    a, b, n = c.args
    x, y = src_of(eng, st, a), src_of(eng, st, b)
    if not x or not y or not isinstance(n, Lin):
        return unknown(eng, st, c)
    disjoint(eng, st, c, a, b, n)
    if st.decide_le(n):
        return UNIT
    sa = slice_segs(eng, st, st.load(x[0], x[1]), x[2], x[2] + n, y[2] - x[2])
    sb = slice_segs(eng, st, st.load(y[0], y[1]), y[2], y[2] + n, x[2] - y[2])
    if sa is None or sb is None:
        return unknown(eng, st, c)
    st.store(x[0], x[1], splice(eng, st, st.load(x[0], x[1]), x[2], x[2] + n, sb))
    st.store(y[0], y[1], splice(eng, st, st.load(y[0], y[1]), y[2], y[2] + n, sa))
    return UNIT


@model('std::ptr::read', 'std::intrinsics::read_via_copy', 'std::ptr::read_unaligned', 'std::ptr::read_volatile')
def m_read(eng, st, c):
    return deref(eng, st, c.args[0])


@model('std::ptr::write', 'std::intrinsics::write_via_move', 'std::ptr::write_unaligned', 'std::ptr::write_volatile')
def m_write(eng, st, c):
    put(eng, st, c.args[0], c.args[1])
    return UNIT


def scalar(eng, st, p):
    """An atomic is accessed through a pointer to its wrapper."""
    while isinstance(p, Ptr) and p.off is None:
        v = deref(eng, st, p)
        if not (isinstance(v, Agg) and v.variant == 0 and len(v.fields) == 1):
            break
        p = p._replace(path=p.path + (('f', 0),))
    return p


@model('intrinsic:atomic_load', 'intrinsic:volatile_load')
def m_atomic_load(eng, st, c):
    return deref(eng, st, scalar(eng, st, c.args[0]))


@model('intrinsic:atomic_store', 'intrinsic:volatile_store')
def m_atomic_store(eng, st, c):
    put(eng, st, scalar(eng, st, c.args[0]), c.args[1])
    return UNIT


@model('intrinsic:atomic_xchg')
def m_atomic_xchg(eng, st, c):
    v = deref(eng, st, scalar(eng, st, c.args[0]))
    put(eng, st, scalar(eng, st, c.args[0]), c.args[1])
    return v


@model('intrinsic:atomic_cxchg', 'intrinsic:atomic_cxchgweak')
def m_atomic_cxchg(eng, st, c):
    v = deref(eng, st, scalar(eng, st, c.args[0]))
    if not (isinstance(v, Lin) and isinstance(c.args[1], Lin)):
        return unknown(eng, st, c)
    if st.decide_eq(v - c.args[1]):
        put(eng, st, scalar(eng, st, c.args[0]), c.args[2])
        return Agg(0, (v, TRUE))
    return Agg(0, (v, FALSE))


def m_atomic_rmw(op):
    def f(eng, st, c):
        v = deref(eng, st, scalar(eng, st, c.args[0]))
        b = c.args[1]
        t = eng.prog.types[c.argtys[1]]
        if not (isinstance(v, Lin) and isinstance(b, Lin) and t['k'] == 'uint'):
            return unknown(eng, st, c)
        if op in ('min', 'max'):
            r = v if st.decide_le(v - b) == (op == 'min') else b
        else:
            r, ov = eng.arith(st, op, v, b, t)
            if ov is not None and st.truth(ov):
                r = eng.wrap(st, r, t)
        put(eng, st, scalar(eng, st, c.args[0]), r)
        return v
    return f


M['intrinsic:atomic_xadd'] = m_atomic_rmw('Add')
M['intrinsic:atomic_xsub'] = m_atomic_rmw('Sub')
M['intrinsic:atomic_umax'] = m_atomic_rmw('max')
M['intrinsic:atomic_umin'] = m_atomic_rmw('min')


def m_ptr_add(eng, st, c):
    return eng.ptr_add(st, c.args[0], c.args[1])


def m_ptr_sub(eng, st, c):
    return eng.ptr_add(st, c.args[0], -c.args[1] if isinstance(c.args[1], Lin) else c.args[1])


def m_offset_from(eng, st, c):
    a, b = c.args[:2]
    x, y = src_of(eng, st, a), src_of(eng, st, b)
    if x and y and x[:2] == y[:2]:
        return x[2] - y[2]
    return unknown(eng, st, c)


for pm in ('std::ptr::const_ptr::<impl *const T>::', 'std::ptr::mut_ptr::<impl *mut T>::', 'std::ptr::NonNull::<T>::',
           'core::ptr::const_ptr::<impl *const T>::', 'core::ptr::mut_ptr::<impl *mut T>::', 'core::ptr::non_null::NonNull::<T>::'):
    for x in ('add', 'wrapping_add', 'offset', 'wrapping_offset'):
        M[pm + x] = m_ptr_add
    for x in ('sub', 'wrapping_sub'):
        M[pm + x] = m_ptr_sub
    for x in ('read', 'read_unaligned'):
        M[pm + x] = m_read
    for x in ('write', 'write_unaligned'):
        M[pm + x] = m_write
    M[pm + 'replace'] = m_replace
    M[pm + 'swap'] = m_swap
    for x in ('copy_to', 'copy_to_nonoverlapping'):
        M[pm + x] = m_copy_to
    for x in ('copy_from', 'copy_from_nonoverlapping'):
        M[pm + x] = m_copy_from
    for x in ('offset_from', 'offset_from_unsigned', 'sub_ptr'):
        M[pm + x] = m_offset_from
M['intrinsic:ptr_offset_from'] = M['intrinsic:ptr_offset_from_unsigned'] = m_offset_from
M['intrinsic:arith_offset'] = M['intrinsic:offset'] = m_ptr_add


@model('std::ptr::drop_in_place')
def m_dip(eng, st, c):
    tid = c.f['args'][0]
    return drop_value_at(eng, st, c, c.args[0], tid)


@model('intrinsic:transmute')
def m_transmute(eng, st, c):
    return c.args[0]


def type_fact(eng, st, what, tid, lo, hi):
    k = (what, tid)
    if k not in st.ghost:
        n = st.ghost[k] = st.fresh(what)
        st.need(st.assume_le(Lin(lo) - n) and st.assume_le(n - hi))
    return st.ghost[k]


@model('intrinsic:size_of_val', 'intrinsic:align_of_val', 'std::mem::align_of', 'intrinsic:align_of', 'intrinsic:min_align_of', 'intrinsic:min_align_of_val')
def m_sov(eng, st, c):
    t = c.f['args'][0]
    if 'align' in c.name:
        return type_fact(eng, st, 'align', t, 1, 1 << 29)
    if eng.prog.types[t]['k'] in ('slice', 'str', 'dyn'):
        n = st.fresh('size')
        st.need(st.assume_le(n - ((1 << 63) - 1)))
        return n
    return type_fact(eng, st, 'size', t, 0, (1 << 63) - 1)


@model('intrinsic:assert_inhabited', 'intrinsic:assert_zero_valid', 'intrinsic:assert_mem_uninitialized_valid', 'intrinsic:cold_path', 'intrinsic:assume')
def m_nop(eng, st, c):
    return UNIT


@model('intrinsic:needs_drop', 'std::mem::needs_drop', 'std::intrinsics::needs_drop')
def m_needs_drop(eng, st, c):
    if not has_v(eng, c.f['args'][0]):
        return Lin(0)
    # the element type may have no drop glue: both are followed
    return Lin(1 - st.choose(('no drop glue',), 2))


@model('std::thread::panicking')
def m_panicking(eng, st, c):
    # an operation may also be used by a destructor that runs while the thread unwinds: both are followed
    return Lin(1) if st.panic is not None else Lin(st.choose(('thread already panicking',), 2))


@model('std::mem::size_of', 'std::intrinsics::size_of', 'intrinsic:size_of')
def m_size_of(eng, st, c):
    if not opaque_in(eng, c.f['args'][0]):
        return NotImplemented
    return type_fact(eng, st, 'size', c.f['args'][0], 0, (1 << 63) - 1)


@model('intrinsic:saturating_sub')
def m_satsub(eng, st, c):
    a, b = c.args
    if isinstance(a, Lin) and isinstance(b, Lin):
        return a - b if st.decide_le(b - a) else ZERO
    return unknown(eng, st, c)


@model('intrinsic:saturating_add')
def m_satadd(eng, st, c):
    a, b = c.args
    if isinstance(a, Lin) and isinstance(b, Lin):
        from .dom import UMAX
        return a + b if st.decide_le(a + b - UMAX) else Lin(UMAX)
    return unknown(eng, st, c)


def bits_of(eng, c):
    t = eng.prog.types[c.argtys[0]]
    return t


def m_wrapping(op):
    def f(eng, st, c):
        a, b = c.args
        t = bits_of(eng, c)
        if isinstance(a, Lin) and isinstance(b, Lin) and t['k'] == 'uint':
            v, ov = eng.arith(st, op, a, b, t)
            if ov is not None and st.truth(ov):
                return eng.wrap(st, v, t)
            return v
        return unknown(eng, st, c)
    return f


def m_overflowing(op):
    def f(eng, st, c):
        a, b = c.args
        t = bits_of(eng, c)
        if isinstance(a, Lin) and isinstance(b, Lin) and t['k'] == 'uint':
            v, ov = eng.arith(st, op, a, b, t)
            if ov is not None and st.truth(ov):
                return Agg(0, (eng.wrap(st, v, t), TRUE))
            return Agg(0, (v, FALSE))
        return unknown(eng, st, c)
    return f


def m_checked(op):
    def f(eng, st, c):
        a, b = c.args
        t = bits_of(eng, c)
        if isinstance(a, Lin) and isinstance(b, Lin) and t['k'] == 'uint':
            if op in ('Div', 'Rem') and st.decide_eq(b):
                return NONE
            v, ov = eng.arith(st, op, a, b, t)
            if ov is not None and st.truth(ov):
                return NONE
            return some(v)
        return unknown(eng, st, c)
    return f


def m_saturating(op):
    def f(eng, st, c):
        a, b = c.args
        t = bits_of(eng, c)
        if isinstance(a, Lin) and isinstance(b, Lin) and t['k'] == 'uint':
            v, ov = eng.arith(st, op, a, b, t)
            if ov is not None and st.truth(ov):
                return ZERO if op == 'Sub' else Lin((1 << t['bits']) - 1)
            return v
        return unknown(eng, st, c)
    return f


for ty in ('usize', 'u8', 'u16', 'u32', 'u64'):
    for nm, op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div'), ('rem', 'Rem')):
        p = 'core::num::<impl %s>::' % ty
        M[p + 'wrapping_' + nm] = m_wrapping(op)
        M[p + 'overflowing_' + nm] = m_overflowing(op)
        M[p + 'checked_' + nm] = m_checked(op)
        M[p + 'saturating_' + nm] = m_saturating(op)
        M['intrinsic:wrapping_' + nm] = m_wrapping(op)
        M['intrinsic:%s_with_overflow' % nm] = m_overflowing(op)
        M['intrinsic:unchecked_' + nm] = m_wrapping(op)

    def m_absdiff(eng, st, c):
        a, b = c.args
        if isinstance(a, Lin) and isinstance(b, Lin):
            return a - b if st.decide_le(b - a) else b - a
        return unknown(eng, st, c)
    M['core::num::<impl %s>::abs_diff' % ty] = m_absdiff

    def m_euclid(op):
        def f(eng, st, c):
            t = bits_of(eng, c)
            if not isinstance(c.args[0], Lin) or not isinstance(c.args[1], Lin):
                return unknown(eng, st, c)
            a, b = st.lin.norm(c.args[0]), st.lin.norm(c.args[1])
            if st.decide_eq(b):
                raise Panic('division by zero', 'arith')
            if op == 'Ceil':
                q = eng.divrem(st, 'Div', a, b, t)
                r = eng.divrem(st, 'Rem', a, b, t)
                return q if st.decide_eq(r) else q + 1
            return eng.divrem(st, op, a, b, t)
        return f
    M['core::num::<impl %s>::rem_euclid' % ty] = m_euclid('Rem')
    M['core::num::<impl %s>::div_euclid' % ty] = m_euclid('Div')
    M['core::num::<impl %s>::div_ceil' % ty] = m_euclid('Ceil')

    def m_pow(eng, st, c):
        a, b = c.args
        t = bits_of(eng, c)
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            return unknown(eng, st, c)
        a, b = st.lin.norm(a), st.lin.norm(b)
        if not b.const or not (a.const or b.c <= 1):
            return unknown(eng, st, c)
        if b.c <= 1:
            return ONE if b.c == 0 else a
        v = a.c ** b.c
        if v >> t['bits']:
            raise Panic('attempt to multiply with overflow', 'arith')
        return Lin(v)
    M['core::num::<impl %s>::pow' % ty] = m_pow

    def m_pow2(eng, st, c):
        """Is it a power of two?  Of a number that is not known both answers are possible."""
        a = c.args[0]
        if not isinstance(a, Lin):
            return unknown(eng, st, c)
        a = st.lin.norm(a)
        if a.const:
            return Lin(int(a.c > 0 and a.c & (a.c - 1) == 0))
        for k in (0, 1, 2, 3):
            if st.decide_eq(a - k):
                return Lin(int(k in (1, 2)))
        return Lin(st.choose(('pow2', a), 2, 'is_power_of_two'))
    M['core::num::<impl %s>::is_power_of_two' % ty] = m_pow2

    def m_next_pow2(eng, st, c):
        a = c.args[0]
        t = bits_of(eng, c)
        if not isinstance(a, Lin):
            return unknown(eng, st, c)
        a = st.lin.norm(a)
        if a.const:
            v = 1
            while v < a.c:
                v *= 2
            if v >> t['bits']:
                raise Panic('attempt to add with overflow', 'arith')
            return Lin(v)
        if st.decide_le(a - 1):
            return ONE
        if not st.decide_le(a - (1 << (t['bits'] - 1))):
            raise Panic('attempt to add with overflow', 'arith')
        r = st.ghost.get(('npow2', a))
        if r is None:
            r = st.ghost[('npow2', a)] = st.fresh('pow2')
            st.need(st.assume_le(a - r))
            st.need(st.assume_le(r - a * 2 + 2))
        return r
    M['core::num::<impl %s>::next_power_of_two' % ty] = m_next_pow2

    def m_isqrt(eng, st, c):
        a = st.lin.norm(c.args[0]) if isinstance(c.args[0], Lin) else None
        if a is None or not a.const:
            return unknown(eng, st, c)
        import math
        return Lin(math.isqrt(a.c))
    M['core::num::<impl %s>::isqrt' % ty] = m_isqrt

for ty in ('isize', 'i8', 'i16', 'i32', 'i64'):
    def m_abs(eng, st, c):
        a = c.args[0]
        if not isinstance(a, Lin):
            return unknown(eng, st, c)
        return a if st.decide_le(-a if hasattr(a, '__neg__') else ZERO - a) else ZERO - a
    M['core::num::<impl %s>::abs' % ty] = m_abs


def bitfns():
    fs = {'leading_zeros': lambda a, n: n - a.bit_length(), 'trailing_zeros': lambda a, n: (a & -a).bit_length() - 1 if a else n,
          'count_ones': lambda a, n: bin(a).count('1'), 'ilog2': lambda a, n: a.bit_length() - 1 if a else None}
    for ty in ('usize', 'u8', 'u16', 'u32', 'u64'):
        for nm, g in fs.items():
            def f(eng, st, c, g=g):
                a = st.lin.norm(c.args[0]) if isinstance(c.args[0], Lin) else None
                v = g(a.c, bits_of(eng, c)['bits']) if a is not None and a.const else None
                return unknown(eng, st, c) if v is None else Lin(v)
            M['core::num::<impl %s>::%s' % (ty, nm)] = f

        def multiple(eng, st, c):
            a, b = (st.lin.norm(x) if isinstance(x, Lin) else None for x in c.args)
            if a is None or b is None or not a.const or not b.const or not b.c:
                return unknown(eng, st, c)
            return Lin(-(-a.c // b.c) * b.c)
        M['core::num::<impl %s>::next_multiple_of' % ty] = multiple


bitfns()


@model('std::hash::RandomState::new', '<std::hash::RandomState as std::default::Default>::default', 'std::collections::hash_map::RandomState::new',
       '<std::collections::hash_map::RandomState as std::default::Default>::default')
def m_random_state(eng, st, c):
    return Agg(0, (st.fresh('hash seed'),))


@model('alloc::alloc::__rust_dealloc', 'std::alloc::dealloc')
def m_dealloc(eng, st, c):
    return UNIT


def opaque_in(eng, tid):
    """Is the size of this type a matter of the element type?"""
    t = eng.prog.types[tid]
    k = t['k']
    if k in ('struct', 'enum', 'union'):
        if (t.get('def') or '').startswith('witness::opaque::'):
            return True
        if t.get('box') or t.get('def') in ('std::vec::Vec', 'std::collections::HashMap'):
            return False
        return any(opaque_in(eng, f[1]) for v in t['variants'] for f in v['fields'])
    if k == 'tuple':
        return any(opaque_in(eng, x) for x in t['fields'])
    return k == 'array' and opaque_in(eng, t['elem'])


# ------------------------------------------------------------------ dropping
def zero_of(eng, tid):
    """The value of this type whose bytes are all zero."""
    t = eng.prog.types[tid]
    k = t['k']
    if k in ('uint', 'int', 'bool', 'char', 'ptr'):
        return ZERO
    d = t.get('def') or ''
    if k == 'struct' and d.startswith('witness::opaque::') or d in ('std::vec::Vec', 'std::collections::HashMap') or t.get('box'):
        return Obj('zeroed', (tid,))
    if k == 'struct':
        return Agg(0, tuple(zero_of(eng, f[1]) for f in t['variants'][0]['fields']))
    if k == 'tuple':
        return Agg(0, tuple(zero_of(eng, f) for f in t['fields']))
    return None


@model('std::mem::zeroed', 'core::mem::zeroed')
def m_zeroed(eng, st, c):
    v = zero_of(eng, c.f['args'][0])
    return unknown(eng, st, c) if v is None else v


@model('std::mem::MaybeUninit::<T>::zeroed')
def m_mu_zeroed(eng, st, c):
    return UNINIT if opaque_in(eng, c.f['args'][0]) else unknown(eng, st, c)


def has_v(eng, tid, seen=None):
    """Can a value of this type own a V?"""
    seen = seen or set()
    if tid in seen:
        return False
    seen.add(tid)
    t = eng.prog.types[tid]
    k = t['k']
    if k in ('struct', 'enum', 'union'):
        d = t.get('def')
        if d == 'witness::opaque::V':
            return True
        if d in ('std::mem::MaybeUninit', 'std::mem::ManuallyDrop'):
            return False
        if t.get('box') or d in ('std::vec::Vec', 'std::vec::IntoIter', 'std::collections::HashMap'):
            return any(has_v(eng, x, seen) for x in t['targs'])
        return any(has_v(eng, f[1], seen) for v in t['variants'] for f in v['fields'])
    if k == 'tuple':
        return any(has_v(eng, x, seen) for x in t['fields'])
    if k in ('array', 'slice'):
        return has_v(eng, t['elem'], seen)
    if k == 'closure':
        return True
    return False


def drop_segs(eng, st, segs, tid):
    """Drop every element (of type tid) of the given segments; only element types that are V or contain no V."""
    t = eng.prog.types[tid]
    if t.get('def') == 'witness::opaque::V':
        for s in segs:
            if s.val is UNINIT:
                raise Viol('uninit', 'an unused or vacated slot is dropped as an element')
            if not isinstance(s.val, Atom):
                st.mark('drop of %s' % (s.val,))
                continue
            if eng.track_drops:
                note_drop(st, s)
        return True
    return False


def elem_values(eng, st, arr, lo, hi):
    """Values of [lo,hi) when the range has a known size, else None."""
    n = st.lin.norm(hi - lo)
    if not n.const or n.c > 24:
        return None
    return [st.arr_get(arr, lo + i) for i in range(n.c)]


def drop_value(eng, st, v, tid):
    """Immediate drop of a value whose drop cannot fork or panic; used inside containers."""
    t = eng.prog.types[tid]
    if not has_v(eng, tid):
        return
    if isinstance(v, Top):
        st.mark('drop of unknown value')
        return
    d = t.get('def')
    if d == 'witness::opaque::V':
        note_if(eng, st, v)
    elif t['k'] == 'tuple':
        if isinstance(v, Agg):
            for x, ft in zip(v.fields, t['fields']):
                drop_value(eng, st, x, ft)
    elif t['k'] in ('struct', 'enum') and d not in TRANSPARENT and d not in ('std::vec::Vec', 'std::collections::HashMap', 'std::vec::IntoIter'):
        if isinstance(v, Agg):
            for x, f in zip(v.fields, t['variants'][v.variant]['fields']):
                drop_value(eng, st, x, f[1])
    elif isinstance(v, VecV):
        drop_range(eng, st, v.root, (), ZERO, v.len, t['targs'][0])
        st.cells.pop(v.root, None)
    else:
        st.mark('nested drop of %s' % t['s'])


def note_if(eng, st, v):
    t = atom(st, v, 'drop')
    if eng.track_drops:
        note_drop(st, Seg(ZERO, ONE, Atom(t)))


def drop_range(eng, st, root, path, lo, hi, etid):
    if not has_v(eng, etid):
        return
    if not eng.track_drops and not eng.check_uninit:
        return
    arr = st.load(root, path)
    if isinstance(arr, Top):
        st.mark('drop of unknown contents')
        return
    segs = slice_segs(eng, st, arr, lo, hi, ZERO)
    if segs is None:
        st.mark('drop of %s' % type(arr).__name__)
        return
    if drop_segs(eng, st, segs, etid):
        return
    vals = elem_values(eng, st, arr, lo, hi)
    if vals is None:
        st.mark('drop of a range of %s' % eng.prog.types[etid]['s'])
        return
    for v in vals:
        drop_value(eng, st, v, etid)


def bulk_panic(eng, st, c, what='drop'):
    """A panic while a range is dropped: the rest of the range is still dropped, the panic continues."""
    if user_point(eng, st, c, what):
        return True
    return False


@model('drop_glue')
def m_drop_glue(eng, st, c):
    return drop_value_at(eng, st, c, c.args[0], c.f['args'][0], glue=True)


def drop_value_at(eng, st, c, p, tid, glue=False):
    t = eng.prog.types[tid]
    d = t.get('def')
    if t['k'] in ('slice', 'array') and isinstance(p, Ptr):
        lo, n = (p.off, p.len) if p.len is not None else (ZERO, Lin(t.get('len') or 0))
        ne = has_v(eng, t['elem'])
        if not ne:
            return UNIT
        if st.decide_le(n):
            return UNIT
        bp = bulk_panic(eng, st, c)
        drop_range(eng, st, p.root, p.path, lo, lo + n, t['elem'])
        if bp:
            raise Panic('drop panics', 'user')
        return UNIT
    if t['k'] == 'slice':
        return unknown(eng, st, c)
    if t.get('box'):
        v = deref(eng, st, p)
        if isinstance(v, Ptr):
            inner = eng.prog.types[t['targs'][0]]
            bp = False
            if inner['k'] == 'slice':
                if has_v(eng, inner['elem']) and v.len is not None and not st.decide_le(v.len):
                    bp = bulk_panic(eng, st, c)
                    drop_range(eng, st, v.root, v.path, v.off, v.off + v.len, inner['elem'])
            elif has_v(eng, t['targs'][0]):
                drop_value(eng, st, st.load(v.root, v.path), t['targs'][0])
            if not v.path:
                if v.root[0] == 'h' and v.root not in st.cells:
                    raise Viol('double free', 'an allocation is freed twice')
                st.cells.pop(v.root, None)
            if bp:
                raise Panic('drop panics', 'user')
            return UNIT
        if v is UNINIT:
            raise Viol('uninit', 'drop of an uninitialized box')
        return unknown(eng, st, c, 'drop of box')
    if d in ('std::vec::Vec', 'std::vec::IntoIter', 'std::vec::Drain'):
        v = deref(eng, st, p)
        bp = False
        if isinstance(v, VecV):
            if has_v(eng, t['targs'][0]) and not st.decide_le(v.len):
                bp = bulk_panic(eng, st, c)
            drop_range(eng, st, v.root, (), ZERO, v.len, t['targs'][0])
            st.cells.pop(v.root, None)
        elif isinstance(v, Obj) and v.kind == 'vinto':
            root, lo, hi = v.data[:3]
            if has_v(eng, t['targs'][0]) and not st.decide_le(hi - lo):
                bp = bulk_panic(eng, st, c)
                drop_range(eng, st, root, (), lo, hi, t['targs'][0])
            st.cells.pop(root, None)
        elif v is UNINIT:
            raise Viol('uninit', 'drop of an uninitialized vector')
        else:
            return unknown(eng, st, c, 'drop of vector')
        if bp:
            raise Panic('drop panics', 'user')
        return UNIT
    if d is not None and (d.startswith('std::collections::') or d.startswith('hashbrown') or d.startswith('alloc::raw_vec')):
        return UNIT
    if c.f['body'] is None or not glue:
        # drop_in_place of something else: run its glue if it was exported
        if not has_v(eng, tid):
            return UNIT
        for k in eng.prog.by_def.get('std::ptr::drop_glue', ()):
            f = eng.prog.fns[k]
            if f['args'][:1] == [tid] and f['body']:
                eng.push_frame(st, k, [p], c.dest, c.target, c.unwind)
                return PUSHED
        if d == 'witness::opaque::V':
            note_if(eng, st, deref(eng, st, p))
            return UNIT
        if c.f.get('empty_shim'):
            return UNIT
        return unknown(eng, st, c)
    v = deref(eng, st, p)
    if v is UNINIT and t['k'] in ('struct', 'enum', 'tuple', 'closure') and has_v(eng, tid):
        raise Viol('uninit', 'drop of an uninitialized %s' % t['s'])
    return NotImplemented


# ------------------------------------------------------------------ Vec
def vecv(eng, st, p):
    v = deref(eng, st, p)
    return v if isinstance(v, VecV) else None


VP = 'std::vec::Vec::<T, A>::'
VN = 'std::vec::Vec::<T>::'


def new_vec(st, cap=None):
    if cap is None:
        cap = ZERO
        segs = ()
    else:
        segs = (Seg(ZERO, cap, UNINIT),)
    r = st.alloc(Arr(segs, cap))
    return VecV(r, ZERO)


@model(VN + 'new', '<std::vec::Vec<T> as std::default::Default>::default', VP + 'new_in')
def m_vec_new(eng, st, c):
    return new_vec(st)


@model(VN + 'with_capacity', VP + 'with_capacity_in')
def m_vec_cap(eng, st, c):
    n = c.args[0]
    eng.allocs_hook(st, c)
    if isinstance(n, Lin):
        if st.decide_le(n):
            return new_vec(st)
        if not st.decide_le(n - ((1 << 63) - 1)):
            raise Panic('capacity overflow', 'alloc')
        return new_vec(st, n)
    return new_vec(st)


def vec_reserve_raw(st, v, need):
    """Array of vector v with at least `need` slots."""
    arr = st.load(v.root)
    if st.lin.le0(need - arr.len) is True:
        return arr
    live = st.arr_slice(arr, ZERO, v.len, ZERO)
    m = st.lin.norm(need)
    if st.eng.fixed_sizes and m.const:
        cap = Lin(2 * m.c)      # runs with fixed sizes: doubling
        return Arr(tuple(live) + (Seg(v.len, cap, UNINIT),), cap)
    cap = st.fresh('cap')
    st.need(st.assume_le(need - cap))
    st.need(st.assume_le(arr.len - cap))
    return Arr(tuple(live) + (Seg(v.len, cap, UNINIT),), cap)


@model(VP + 'push')
def m_vec_push(eng, st, c):
    v = vecv(eng, st, c.args[0])
    if v is None:
        return unknown(eng, st, c)
    if st.lin.le0(v.len + 1 - st.load(v.root).len) is not True:
        eng.allocs_hook(st, c)
    arr = vec_reserve_raw(st, v, v.len + 1)
    if eng.fixed_sizes and arr.segs and v.len.const and arr.len.const:
        e = arr.segs[-1]
        if e.val is UNINIT and e.lo == v.len and e.hi == arr.len and c.args[1] is not UNINIT:
            rest = (Seg(v.len + 1, arr.len, UNINIT),) if v.len.c + 1 < arr.len.c else ()
            st.cells[v.root] = Arr(arr.segs[:-1] + (Seg(v.len, v.len + 1, c.args[1]),) + rest, arr.len)
            put(eng, st, c.args[0], VecV(v.root, v.len + 1))
            return UNIT
    live = st.arr_slice(arr, ZERO, v.len, ZERO)
    rest = st.arr_slice(arr, v.len + 1, arr.len, ZERO)
    segs = list(live)
    x = c.args[1]
    if x is UNINIT and segs and segs[-1].val is UNINIT and st.lin.eq0(segs[-1].hi - v.len) is True:
        segs[-1] = Seg(segs[-1].lo, v.len + 1, UNINIT)
    else:
        segs.append(Seg(v.len, v.len + 1, x))
    st.cells[v.root] = Arr(tuple(segs) + tuple(rest), arr.len)
    put(eng, st, c.args[0], VecV(v.root, v.len + 1))
    return UNIT


@model(VP + 'push_mut')
def m_vec_push_mut(eng, st, c):
    v = vecv(eng, st, c.args[0])
    r = m_vec_push(eng, st, c)
    return Ptr(v.root, (('i', v.len),)) if r is UNIT else r


@model(VP + 'pop')
def m_vec_pop(eng, st, c):
    v = vecv(eng, st, c.args[0])
    if v is None:
        return unknown(eng, st, c)
    if st.decide_le(v.len):
        return NONE
    x = st.arr_get(st.load(v.root), v.len - 1)
    put(eng, st, c.args[0], VecV(v.root, v.len - 1))
    return some(x)


@model(VP + 'len')
def m_vec_len(eng, st, c):
    v = vecv(eng, st, c.args[0])
    return v.len if v else unknown(eng, st, c)


@model(VP + 'capacity')
def m_vec_capacity(eng, st, c):
    v = vecv(eng, st, c.args[0])
    if v is None:
        return unknown(eng, st, c)
    arr = st.load(v.root)
    if st.eng.fixed_sizes:
        return arr.len
    # at least what was asked for (far more for zero-sized elements)
    cap = st.fresh('cap')
    st.need(st.assume_le(arr.len - cap))
    st.cells[v.root] = Arr(tuple(arr.segs) + (Seg(arr.len, cap, UNINIT),), cap)
    return cap


@model(VP + 'is_empty')
def m_vec_empty(eng, st, c):
    v = vecv(eng, st, c.args[0])
    return Cond('le', v.len) if v else unknown(eng, st, c)


@model(VP + 'set_len')
def m_vec_set_len(eng, st, c):
    v = vecv(eng, st, c.args[0])
    n = c.args[1]
    if v is None or not isinstance(n, Lin):
        return unknown(eng, st, c)
    arr = st.load(v.root)
    if not st.decide_le(n - arr.len):
        raise Viol('oob', 'set_len(%r) beyond the capacity %r of the vector' % (st.lin.norm(n), st.lin.norm(arr.len)))
    put(eng, st, c.args[0], VecV(v.root, n))
    return UNIT


@model(VP + 'reserve', VP + 'reserve_exact')
def m_vec_reserve(eng, st, c):
    v = vecv(eng, st, c.args[0])
    n = c.args[1]
    if v is None or not isinstance(n, Lin):
        return unknown(eng, st, c)
    if st.decide_le(v.len + n - st.load(v.root).len):
        return UNIT
    eng.allocs_hook(st, c)
    st.cells[v.root] = vec_reserve_raw(st, v, v.len + n)
    return UNIT


@model(VP + 'shrink_to_fit', VP + 'shrink_to')
def m_vec_shrink(eng, st, c):
    v = vecv(eng, st, c.args[0])
    if v is None:
        return unknown(eng, st, c)
    eng.allocs_hook(st, c)
    arr = st.load(v.root)
    to = v.len
    if not c.name.endswith('fit'):
        if not isinstance(c.args[1], Lin):
            return unknown(eng, st, c)
        if not st.decide_le(c.args[1] - to):
            to = c.args[1]
        if st.decide_le(arr.len - to):
            return UNIT
    st.cells[v.root] = Arr(tuple(st.arr_slice(arr, ZERO, to, ZERO)), to)
    return UNIT


@model(VP + 'spare_capacity_mut')
def m_vec_spare(eng, st, c):
    v = vecv(eng, st, c.args[0])
    if v is None:
        return unknown(eng, st, c)
    return Ptr(v.root, (), v.len, st.load(v.root).len - v.len)


@model(VN + 'from_raw_parts')
def m_vec_from_raw(eng, st, c):
    p, n, cap = c.args
    if isinstance(p, Ptr) and isinstance(n, Lin) and isinstance(cap, Lin):
        s = src_of(eng, st, p)
        if s and not s[1] and st.lin.norm(s[2]) == ZERO:
            arr = st.load(s[0])
            if isinstance(arr, Arr) and st.lin.eq0(arr.len - cap) is True:
                if not st.decide_le(n - cap):
                    raise Viol('oob', 'a vector of length %r made from %r slots' % (n, cap))
                return VecV(s[0], n)
    return unknown(eng, st, c)


@model('<std::vec::Vec<T> as std::convert::From<[T; N]>>::from')
def m_vec_from_array(eng, st, c):
    a = c.args[0]
    if isinstance(a, Arr):
        return VecV(st.alloc(a), a.len)
    return unknown(eng, st, c)


@model(VP + 'into_boxed_slice', VP + 'leak')
def m_vec_boxed(eng, st, c):
    v = c.args[0]
    if not isinstance(v, VecV):
        return unknown(eng, st, c)
    st.cells[v.root] = Arr(tuple(st.arr_slice(st.load(v.root), ZERO, v.len, ZERO)), v.len)
    return Ptr(v.root, (), ZERO, v.len)


@model('std::slice::<impl [T]>::into_vec', 'alloc::slice::<impl [T]>::into_vec')
def m_into_vec(eng, st, c):
    p = c.args[0]
    if isinstance(p, Ptr) and p.len is not None and not p.path:
        return VecV(p.root, p.len)
    return unknown(eng, st, c)


@model('<std::vec::Vec<T, A> as std::convert::From<std::boxed::Box<[T], A>>>::from', '<std::vec::Vec<T, A> as std::convert::From<std::boxed::Box<[T]>>>::from')
def m_vec_from_box(eng, st, c):
    return m_into_vec(eng, st, c)


@model('<std::boxed::Box<[T], A> as std::convert::From<std::vec::Vec<T, A>>>::from', '<std::boxed::Box<[T]> as std::convert::From<std::vec::Vec<T>>>::from',
       'std::vec::<impl std::convert::From<std::vec::Vec<T, A>> for std::boxed::Box<[T], A>>::from')
def m_box_from_vec(eng, st, c):
    return m_vec_boxed(eng, st, c)


@model('std::intrinsics::raw_eq')
def m_raw_eq(eng, st, c):
    a, b = [st.load(p.root, p.path) if isinstance(p, Ptr) and p.off is None else None for p in c.args]
    if isinstance(a, Lin) and isinstance(b, Lin):
        return Lin(int(st.decide_eq(a - b)))
    if not isinstance(a, Arr) or not isinstance(b, Arr) or not st.lin.norm(a.len).const or st.lin.norm(a.len) != st.lin.norm(b.len):
        return unknown(eng, st, c)
    n = st.lin.norm(a.len).c
    xs = [[v for s in st.arr_slice(v, Lin(i), Lin(i + 1)) for v in (s.val,)] for i in range(n) for v in (a, b)]
    if n > 64 or any(len(x) != 1 or not isinstance(x[0], Lin) for x in xs):
        return unknown(eng, st, c)
    return Lin(int(all(st.decide_eq(x[0] - y[0]) for x, y in zip(xs[::2], xs[1::2]))))


def m_vec_truncate_to(eng, st, c, n):
    v = vecv(eng, st, c.args[0])
    if v is None or not isinstance(n, Lin):
        return unknown(eng, st, c)
    if st.decide_le(v.len - n):
        return UNIT
    et = c.f['args'][0]
    bp = has_v(eng, et) and bulk_panic(eng, st, c)
    drop_range(eng, st, v.root, (), n, v.len, et)
    arr = st.load(v.root)
    st.cells[v.root] = Arr(tuple(st.arr_slice(arr, ZERO, n, ZERO)) + (Seg(n, arr.len, UNINIT),), arr.len)
    put(eng, st, c.args[0], VecV(v.root, n))
    if bp:
        raise Panic('drop panics', 'user')
    return UNIT


@model(VP + 'clear')
def m_vec_clear(eng, st, c):
    return m_vec_truncate_to(eng, st, c, ZERO)


@model(VP + 'truncate')
def m_vec_truncate(eng, st, c):
    return m_vec_truncate_to(eng, st, c, c.args[1])


def vec_slice_ptr(eng, st, c):
    v = vecv(eng, st, c.args[0])
    if v is None:
        return unknown(eng, st, c)
    return Ptr(v.root, (), ZERO, v.len)


for n in (VP + 'as_slice', VP + 'as_mut_slice', '<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
          '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut',
          '<std::vec::Vec<T> as std::borrow::Borrow<[T]>>::borrow'):
    M[n] = vec_slice_ptr


@model(VP + 'as_ptr', VP + 'as_mut_ptr')
def m_vec_ptr(eng, st, c):
    v = vecv(eng, st, c.args[0])
    if v is None:
        return unknown(eng, st, c)
    return Ptr(v.root, (('i', ZERO),))


@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def m_vec_into_iter(eng, st, c):
    v = c.args[0]
    if isinstance(v, VecV):
        return Obj('vinto', (v.root, ZERO, v.len))
    return unknown(eng, st, c)


@model(VP + 'drain')
def m_vec_drain(eng, st, c):
    """The range leaves the vector at once: nobody can look at the vector before the drain is gone (leaking a drain apart)."""
    v = vecv(eng, st, c.args[0])
    if v is None:
        return unknown(eng, st, c)
    r = range_of(eng, st, c.args[1], c.argtys[1], v.len)
    if r is None or not isinstance(r[0], Lin) or not isinstance(r[1], Lin):
        return unknown(eng, st, c)
    lo, hi = r
    if not st.decide_le(lo - hi) or not st.decide_le(hi - v.len):
        raise Panic('range out of bounds', 'bounds')
    arr = st.load(v.root)
    n = hi - lo
    new = st.alloc(Arr(tuple(st.arr_slice(arr, lo, hi, -lo)), n))
    pre = st.arr_slice(arr, ZERO, lo, ZERO)
    post = st.arr_slice(arr, hi, v.len, -n)
    st.cells[v.root] = Arr(tuple(pre) + tuple(post) + ((Seg(v.len - n, arr.len, UNINIT),) if not st.decide_le(arr.len - (v.len - n)) else ()), arr.len)
    put(eng, st, c.args[0], VecV(v.root, v.len - n))
    return Obj('vinto', (new, ZERO, n))


@model(VP + 'split_off')
def m_vec_split_off(eng, st, c):
    v = vecv(eng, st, c.args[0])
    at = c.args[1]
    if v is None or not isinstance(at, Lin):
        return unknown(eng, st, c)
    if not st.decide_le(at - v.len):
        raise Panic('`at` split index out of bounds', 'bounds')
    eng.allocs_hook(st, c)
    arr = st.load(v.root)
    n = v.len - at
    new = st.alloc(Arr(tuple(st.arr_slice(arr, at, v.len, -at)), n))
    st.cells[v.root] = Arr(tuple(st.arr_slice(arr, ZERO, at, ZERO)) + ((Seg(at, arr.len, UNINIT),) if not st.decide_le(arr.len - at) else ()), arr.len)
    put(eng, st, c.args[0], VecV(v.root, at))
    return VecV(new, n)


@model(VP + 'append')
def m_vec_append(eng, st, c):
    v, w = vecv(eng, st, c.args[0]), vecv(eng, st, c.args[1])
    if v is None or w is None:
        return unknown(eng, st, c)
    eng.allocs_hook(st, c)
    arr = vec_reserve_raw(st, v, v.len + w.len)
    src = st.load(w.root)
    n = v.len + w.len
    pre = st.arr_slice(arr, ZERO, v.len, ZERO)
    mid = st.arr_slice(src, ZERO, w.len, v.len)
    st.cells[v.root] = Arr(tuple(pre) + tuple(mid) + ((Seg(n, arr.len, UNINIT),) if not st.decide_le(arr.len - n) else ()), arr.len)
    st.cells[w.root] = Arr((Seg(ZERO, src.len, UNINIT),) if not st.decide_le(src.len) else (), src.len)
    put(eng, st, c.args[0], VecV(v.root, n))
    put(eng, st, c.args[1], VecV(w.root, ZERO))
    return UNIT


@model('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next', "<std::vec::Drain<'_, T, A> as std::iter::Iterator>::next")
def m_vinto_next(eng, st, c):
    v = deref(eng, st, c.args[0])
    if not (isinstance(v, Obj) and v.kind == 'vinto'):
        return unknown(eng, st, c)
    root, lo, hi = v.data
    if st.decide_le(hi - lo):
        return NONE
    x = st.arr_get(st.load(root), lo)
    put(eng, st, c.args[0], Obj('vinto', (root, lo + 1, hi)))
    return some(x)


@model('<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back', "<std::vec::Drain<'_, T, A> as std::iter::DoubleEndedIterator>::next_back")
def m_vinto_next_back(eng, st, c):
    v = deref(eng, st, c.args[0])
    if not (isinstance(v, Obj) and v.kind == 'vinto'):
        return unknown(eng, st, c)
    root, lo, hi = v.data
    if st.decide_le(hi - lo):
        return NONE
    x = st.arr_get(st.load(root), hi - 1)
    put(eng, st, c.args[0], Obj('vinto', (root, lo, hi - 1)))
    return some(x)


@model('<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint', "<std::vec::Drain<'_, T, A> as std::iter::Iterator>::size_hint")
def m_vinto_size(eng, st, c):
    v = deref(eng, st, c.args[0])
    if not (isinstance(v, Obj) and v.kind == 'vinto'):
        return unknown(eng, st, c)
    n = v.data[2] - v.data[1]
    return Agg(0, (n, some(n)))


def map_val(v, f):
    """Apply f to every atom term of a template value."""
    if isinstance(v, Atom):
        return Atom(f(v.term))
    if isinstance(v, Agg):
        return Agg(v.variant, tuple(map_val(x, f) for x in v.fields))
    return v


def clone_arr(eng, st, arr, lo, hi, etid):
    segs = slice_segs(eng, st, arr, lo, hi, -lo)
    if segs is None:
        return None
    if not has_v(eng, etid):
        return Arr(tuple(segs), hi - lo)
    out = []
    for s in segs:
        if s.val is UNINIT:
            raise Viol('uninit', 'an unused or vacated slot is cloned as an element')
        st.ghost['clones'] = st.ghost.get('clones', ()) + (s,)
        out.append(Seg(s.lo, s.hi, map_val(s.val, lambda t: ('clone', t))))
    return Arr(tuple(out), hi - lo)


@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone')
def m_vec_clone(eng, st, c):
    v = vecv(eng, st, c.args[0])
    if v is None:
        return unknown(eng, st, c)
    et = c.f['args'][0]
    if has_v(eng, et) and user_point(eng, st, c, 'clone'):
        raise Panic('clone panics', 'user')
    a = clone_arr(eng, st, st.load(v.root), ZERO, v.len, et)
    if a is None:
        return unknown(eng, st, c)
    return VecV(st.alloc(a), v.len)


@model('std::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_vec_in',
       '<[T] as std::borrow::ToOwned>::to_owned')
def m_to_vec(eng, st, c):
    p = c.args[0]
    if not (isinstance(p, Ptr) and p.len is not None):
        return unknown(eng, st, c)
    et = c.f['args'][0]
    if has_v(eng, et) and user_point(eng, st, c, 'clone'):
        raise Panic('clone panics', 'user')
    a = clone_arr(eng, st, st.load(p.root, p.path), p.off, p.off + p.len, et)
    if a is None:
        return unknown(eng, st, c)
    return VecV(st.alloc(a), p.len)


@model(VP + 'remove')
def m_vec_remove(eng, st, c):
    v = vecv(eng, st, c.args[0])
    i = c.args[1]
    if v is None or not isinstance(i, Lin):
        return unknown(eng, st, c)
    if not st.decide_lt(i, v.len):
        raise Panic('removal index out of range')
    arr = st.load(v.root)
    x = st.arr_get(arr, i)
    pre = st.arr_slice(arr, ZERO, i, ZERO)
    post = st.arr_slice(arr, i + 1, v.len, Lin(-1))
    st.cells[v.root] = Arr(tuple(pre) + tuple(post) + (Seg(v.len - 1, arr.len, UNINIT),), arr.len)
    put(eng, st, c.args[0], VecV(v.root, v.len - 1))
    return x


@model(VP + 'swap_remove')
def m_vec_swap_remove(eng, st, c):
    v = vecv(eng, st, c.args[0])
    i = c.args[1]
    if v is None or not isinstance(i, Lin):
        return unknown(eng, st, c)
    if not st.decide_lt(i, v.len):
        raise Panic('removal index out of range')
    arr = st.load(v.root)
    x = st.arr_get(arr, i)
    y = st.arr_get(arr, v.len - 1)
    st.cells[v.root] = st.arr_set(arr, i, y)
    put(eng, st, c.args[0], VecV(v.root, v.len - 1))
    return x


@model(VP + 'insert')
def m_vec_insert(eng, st, c):
    v = vecv(eng, st, c.args[0])
    i, x = c.args[1], c.args[2]
    if v is None or not isinstance(i, Lin):
        return unknown(eng, st, c)
    if not st.decide_le(i - v.len):
        raise Panic('insertion index out of range')
    arr = vec_reserve_raw(st, v, v.len + 1)
    pre = st.arr_slice(arr, ZERO, i, ZERO)
    post = st.arr_slice(arr, i, v.len, ONE)
    rest = st.arr_slice(arr, v.len + 1, arr.len, ZERO)
    st.cells[v.root] = Arr(tuple(pre) + (Seg(i, i + 1, x),) + tuple(post) + tuple(rest), arr.len)
    put(eng, st, c.args[0], VecV(v.root, v.len + 1))
    return UNIT


@model('std::vec::from_elem')
def m_from_elem(eng, st, c):
    x, n = c.args
    if not isinstance(n, Lin) or has_v(eng, c.f['args'][0]):
        return unknown(eng, st, c)
    r = st.alloc(Arr((Seg(ZERO, n, x),), n) if not st.decide_le(n) else Arr((), ZERO))
    return VecV(r, n)


@model('std::boxed::Box::<T>::new_uninit_slice', 'std::boxed::Box::<[T]>::new_uninit_slice')
def m_uninit_slice(eng, st, c):
    n = c.args[0]
    if not isinstance(n, Lin):
        return unknown(eng, st, c)
    return Ptr(st.alloc(Arr((Seg(ZERO, n, UNINIT),), n)), (), ZERO, n)


@model('std::boxed::Box::<T>::new')
def m_box_new(eng, st, c):
    return Ptr(st.alloc(c.args[0]))


@model('std::boxed::Box::<T>::new_uninit')
def m_box_uninit(eng, st, c):
    return Ptr(st.alloc(UNINIT))


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_box_into_vec(eng, st, c):
    p = c.args[0]
    if isinstance(p, Ptr) and not p.path and isinstance(st.load(p.root), Arr):
        return VecV(p.root, st.load(p.root).len)
    return unknown(eng, st, c)


@model('std::boxed::Box::<T, A>::into_raw', 'std::boxed::Box::<T>::into_raw', 'std::boxed::Box::<T>::from_raw', 'std::boxed::Box::<T, A>::leak',
       'std::boxed::Box::<T, A>::from_raw_in', '<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref_')
def m_box_id(eng, st, c):
    return c.args[0]


@model('<std::boxed::Box<T, A> as std::ops::Drop>::drop')
def m_box_free(eng, st, c):
    """The allocation goes, its content has been taken out or dropped before."""
    v = deref(eng, st, c.args[0])
    if isinstance(v, Ptr) and not v.path and v.root[0] == 'h':
        if v.root not in st.cells:
            raise Viol('double free', 'an allocation is freed twice')
        st.cells.pop(v.root)
    return UNIT


def m_box_deref(eng, st, c):
    return deref(eng, st, c.args[0])


for n in ('<std::boxed::Box<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut',
          '<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref', '<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut'):
    M[n] = m_box_deref


# ------------------------------------------------------------------ slices
SP = ('core::slice::<impl [T]>::', 'std::slice::<impl [T]>::', 'alloc::slice::<impl [T]>::')


def smodel(*names):
    def d(f):
        for n in names:
            for p in SP:
                M[p + n] = f
        return f
    return d


def sl(eng, st, p):
    return isinstance(p, Ptr) and p.len is not None


def sub(p, lo, n):
    return Ptr(p.root, p.path, p.off + lo, n)


def elp(p, i):
    return Ptr(p.root, p.path + (('i', p.off + i),))


@smodel('len')
def m_slen(eng, st, c):
    p = c.args[0]
    if sl(eng, st, p):
        return p.len
    return unknown(eng, st, c)


@smodel('is_empty')
def m_sempty(eng, st, c):
    p = c.args[0]
    return Cond('le', p.len) if sl(eng, st, p) else unknown(eng, st, c)


@smodel('as_ptr', 'as_mut_ptr')
def m_sptr(eng, st, c):
    p = c.args[0]
    return elp(p, ZERO) if sl(eng, st, p) else unknown(eng, st, c)


@smodel('swap')
def m_sswap(eng, st, c):
    p, a, b = c.args
    if not sl(eng, st, p) or not isinstance(a, Lin) or not isinstance(b, Lin):
        return unknown(eng, st, c)
    for i in (a, b):
        if not st.decide_lt(i, p.len):
            raise Panic('index out of bounds', 'bounds')
    x, y = elp(p, a), elp(p, b)
    if st.decide_eq(a - b):
        return UNIT
    va, vb = deref(eng, st, x), deref(eng, st, y)
    put(eng, st, x, vb)
    put(eng, st, y, va)
    return UNIT


@smodel('split_at', 'split_at_mut', 'split_at_unchecked', 'split_at_mut_unchecked')
def m_ssplit(eng, st, c):
    p, i = c.args
    if not sl(eng, st, p) or not isinstance(i, Lin):
        return unknown(eng, st, c)
    if not st.decide_le(i - p.len):
        raise Panic('mid > len', 'bounds')
    return Agg(0, (sub(p, ZERO, i), sub(p, i, p.len - i)))


def range_of(eng, st, r, tid, n):
    """(lo, hi) of a range argument of the given type for a slice of length n, or None."""
    t = eng.prog.types[tid]
    d = t.get('def', '')
    nm = d.rsplit('::', 1)[-1]
    if nm == 'RangeFull':
        return ZERO, n
    if not isinstance(r, Agg):
        return None
    f = r.fields
    if nm == 'Range':
        return f[0], f[1]
    if nm == 'RangeFrom':
        return f[0], n
    if nm == 'RangeTo':
        return ZERO, f[0]
    if nm == 'RangeToInclusive':
        return ZERO, f[0] + 1
    if nm == 'RangeInclusive':
        return f[0], f[1] + 1
    return None


def slice_index(eng, st, c, p, idx, tid, checked=True, opt=False):
    t = eng.prog.types[tid]
    if not sl(eng, st, p):
        return unknown(eng, st, c)
    if t['k'] == 'uint':
        if not isinstance(idx, Lin):
            return unknown(eng, st, c)
        if not st.decide_lt(idx, p.len):
            if opt:
                return NONE
            if not checked:
                raise Viol('oob', 'unchecked index %r out of bounds %r' % (st.lin.norm(idx), st.lin.norm(p.len)))
            raise Panic('index out of bounds', 'bounds')
        e = elp(p, idx)
        return some(e) if opt else e
    r = range_of(eng, st, idx, tid, p.len)
    if r is None or not isinstance(r[0], Lin) or not isinstance(r[1], Lin):
        return unknown(eng, st, c)
    lo, hi = r
    if not st.decide_le(lo - hi) or not st.decide_le(hi - p.len):
        if opt:
            return NONE
        if not checked:
            raise Viol('oob', 'unchecked slice out of bounds')
        raise Panic('slice index out of range', 'bounds')
    e = sub(p, lo, hi - lo)
    return some(e) if opt else e


@model('core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut')
def m_sindex(eng, st, c):
    return slice_index(eng, st, c, c.args[0], c.args[1], c.argtys[1])


@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut')
def m_vindex(eng, st, c):
    v = vecv(eng, st, c.args[0])
    if v is None:
        return unknown(eng, st, c)
    return slice_index(eng, st, c, Ptr(v.root, (), ZERO, v.len), c.args[1], c.argtys[1])


@smodel('get', 'get_mut')
def m_sget(eng, st, c):
    return slice_index(eng, st, c, c.args[0], c.args[1], c.argtys[1], opt=True)


@smodel('get_unchecked', 'get_unchecked_mut')
def m_sgetu(eng, st, c):
    return slice_index(eng, st, c, c.args[0], c.args[1], c.argtys[1], checked=False)


@smodel('first', 'first_mut')
def m_sfirst(eng, st, c):
    p = c.args[0]
    if not sl(eng, st, p):
        return unknown(eng, st, c)
    return NONE if st.decide_le(p.len) else some(elp(p, ZERO))


@smodel('last', 'last_mut')
def m_slast(eng, st, c):
    p = c.args[0]
    if not sl(eng, st, p):
        return unknown(eng, st, c)
    return NONE if st.decide_le(p.len) else some(elp(p, p.len - 1))


@smodel('split_first', 'split_first_mut')
def m_ssplit_first(eng, st, c):
    p = c.args[0]
    if not sl(eng, st, p):
        return unknown(eng, st, c)
    return NONE if st.decide_le(p.len) else some(Agg(0, (elp(p, ZERO), sub(p, ONE, p.len - 1))))


@smodel('split_last', 'split_last_mut')
def m_ssplit_last(eng, st, c):
    p = c.args[0]
    if not sl(eng, st, p):
        return unknown(eng, st, c)
    return NONE if st.decide_le(p.len) else some(Agg(0, (elp(p, p.len - 1), sub(p, ZERO, p.len - 1))))


def rotate(eng, st, c, p, k):
    arr = st.load(p.root, p.path)
    n = p.len
    a = slice_segs(eng, st, arr, p.off + k, p.off + n, -k)
    b = slice_segs(eng, st, arr, p.off, p.off + k, n - k)
    if a is None or b is None:
        return unknown(eng, st, c)
    st.store(p.root, p.path, splice(eng, st, arr, p.off, p.off + n, tuple(a) + tuple(b)))
    return UNIT


@smodel('rotate_left')
def m_rotl(eng, st, c):
    p, k = c.args
    if not sl(eng, st, p) or not isinstance(k, Lin):
        return unknown(eng, st, c)
    if not st.decide_le(k - p.len):
        raise Panic('rotation out of range', 'bounds')
    return rotate(eng, st, c, p, k)


@smodel('rotate_right')
def m_rotr(eng, st, c):
    p, k = c.args
    if not sl(eng, st, p) or not isinstance(k, Lin):
        return unknown(eng, st, c)
    if not st.decide_le(k - p.len):
        raise Panic('rotation out of range', 'bounds')
    return rotate(eng, st, c, p, p.len - k)


@smodel('reverse')
def m_srev(eng, st, c):
    p = c.args[0]
    if not sl(eng, st, p):
        return unknown(eng, st, c)
    arr = st.load(p.root, p.path)
    segs = slice_segs(eng, st, arr, p.off, p.off + p.len, ZERO)
    if segs is None:
        return unknown(eng, st, c)
    m = p.off * 2 + p.len      # index i -> m - 1 - i
    out = [Seg(m - s.hi, m - s.lo, s.val if s.val is UNINIT else sub_val(s.val, {I: m - 1 - S(I)})) for s in reversed(segs)]
    st.store(p.root, p.path, splice(eng, st, arr, p.off, p.off + p.len, out))
    return UNIT


@smodel('iter', 'iter_mut')
def m_siter(eng, st, c):
    p = c.args[0]
    if not sl(eng, st, p):
        if isinstance(p, Ptr):
            v = st.load(p.root, p.path)
            if isinstance(v, Arr):
                return Obj('siter', (p.root, p.path, ZERO, v.len))
        return unknown(eng, st, c)
    return Obj('siter', (p.root, p.path, p.off, p.off + p.len))


@model("std::slice::Iter::<'a, T>::new", "std::slice::IterMut::<'a, T>::new", "<&'a [T] as std::iter::IntoIterator>::into_iter",
       "<&'a mut [T] as std::iter::IntoIterator>::into_iter",
       "std::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "std::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",)
def m_siter2(eng, st, c):
    return m_siter(eng, st, c)


@model("<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def m_viter(eng, st, c):
    v = vecv(eng, st, c.args[0])
    if v is None:
        return unknown(eng, st, c)
    return Obj('siter', (v.root, (), ZERO, v.len))


@model('std::prelude::v1::Ok', 'std::result::Result::Ok')
def m_ok(eng, st, c):
    return Agg(0, (c.args[0],))


@model('std::prelude::v1::Err', 'std::result::Result::Err', 'std::prelude::v1::Some', 'std::option::Option::Some')
def m_err(eng, st, c):
    return Agg(1, (c.args[0],))


def siter_m(*names):
    def d(f):
        for n in names:
            for ty in ('Iter', 'IterMut'):
                for tr in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator', 'iter::ExactSizeIterator'):
                    M["<std::slice::%s<'a, T> as std::iter::%s>::%s" % (ty, tr, n)] = f
                    M["<std::slice::%s<'_, T> as std::iter::%s>::%s" % (ty, tr, n)] = f
        return f
    return d


def the_siter(eng, st, p):
    v = deref(eng, st, p)
    return v if isinstance(v, Obj) and v.kind == 'siter' else None


@siter_m('next')
def m_siter_next(eng, st, c):
    v = the_siter(eng, st, c.args[0])
    if v is None:
        return unknown(eng, st, c)
    root, path, lo, hi = v.data
    if st.decide_le(hi - lo):
        return NONE
    put(eng, st, c.args[0], Obj('siter', (root, path, lo + 1, hi)))
    return some(Ptr(root, path + (('i', lo),)))


@siter_m('next_back')
def m_siter_next_back(eng, st, c):
    v = the_siter(eng, st, c.args[0])
    if v is None:
        return unknown(eng, st, c)
    root, path, lo, hi = v.data
    if st.decide_le(hi - lo):
        return NONE
    put(eng, st, c.args[0], Obj('siter', (root, path, lo, hi - 1)))
    return some(Ptr(root, path + (('i', hi - 1),)))


@siter_m('nth')
def m_siter_nth(eng, st, c):
    v = the_siter(eng, st, c.args[0])
    n = c.args[1]
    if v is None or not isinstance(n, Lin):
        return unknown(eng, st, c)
    root, path, lo, hi = v.data
    if st.decide_le(hi - lo - n):
        put(eng, st, c.args[0], Obj('siter', (root, path, hi, hi)))
        return NONE
    put(eng, st, c.args[0], Obj('siter', (root, path, lo + n + 1, hi)))
    return some(Ptr(root, path + (('i', lo + n),)))


def advance(back):
    def f(eng, st, c):
        v = the_siter(eng, st, c.args[0])
        n = c.args[1]
        if v is None or not isinstance(n, Lin):
            return unknown(eng, st, c)
        root, path, lo, hi = v.data
        if st.decide_le(n - (hi - lo)):
            put(eng, st, c.args[0], Obj('siter', (root, path, lo, hi - n) if back else (root, path, lo + n, hi)))
            return Agg(0, (UNIT,))
        put(eng, st, c.args[0], Obj('siter', (root, path, lo, lo) if back else (root, path, hi, hi)))
        return Agg(1, (n - (hi - lo),))
    return f


siter_m('advance_by')(advance(False))
siter_m('advance_back_by')(advance(True))


@siter_m('nth_back')
def m_siter_nth_back(eng, st, c):
    v = the_siter(eng, st, c.args[0])
    n = c.args[1]
    if v is None or not isinstance(n, Lin):
        return unknown(eng, st, c)
    root, path, lo, hi = v.data
    if st.decide_le(hi - lo - n):
        put(eng, st, c.args[0], Obj('siter', (root, path, lo, lo)))
        return NONE
    put(eng, st, c.args[0], Obj('siter', (root, path, lo, hi - n - 1)))
    return some(Ptr(root, path + (('i', hi - n - 1),)))


@siter_m('__iterator_get_unchecked')
def m_siter_unchecked(eng, st, c):
    v = the_siter(eng, st, c.args[0])
    if v is None or not isinstance(c.args[1], Lin):
        return unknown(eng, st, c)
    root, path, lo, hi = v.data
    if not st.decide_lt(lo + c.args[1], hi):
        raise Viol('oob', 'unchecked access past the end of a slice iterator')
    return Ptr(root, path + (('i', lo + c.args[1]),))


@siter_m('size_hint')
def m_siter_size(eng, st, c):
    v = the_siter(eng, st, c.args[0])
    if v is None:
        return unknown(eng, st, c)
    n = v.data[3] - v.data[2]
    return Agg(0, (n, some(n)))


@siter_m('len')
def m_siter_len(eng, st, c):
    v = the_siter(eng, st, c.args[0])
    if v is None:
        return unknown(eng, st, c)
    return v.data[3] - v.data[2]


@siter_m('count')
def m_siter_count(eng, st, c):
    v = c.args[0]
    if not (isinstance(v, Obj) and v.kind == 'siter'):
        return unknown(eng, st, c)
    return v.data[3] - v.data[2]


@siter_m('last')
def m_siter_last(eng, st, c):
    v = c.args[0]
    if not (isinstance(v, Obj) and v.kind == 'siter'):
        return unknown(eng, st, c)
    root, path, lo, hi = v.data
    if st.decide_le(hi - lo):
        return NONE
    return some(Ptr(root, path + (('i', hi - 1),)))


@model("std::slice::Iter::<'a, T>::as_slice", "std::slice::IterMut::<'a, T>::into_slice", "std::slice::IterMut::<'a, T>::as_slice",
       "std::slice::Iter::<'a, T>::make_slice", "std::slice::IterMut::<'a, T>::make_slice")
def m_siter_slice(eng, st, c):
    v = c.args[0] if isinstance(c.args[0], Obj) else the_siter(eng, st, c.args[0])
    if not (isinstance(v, Obj) and v.kind == 'siter'):
        return unknown(eng, st, c)
    root, path, lo, hi = v.data
    return Ptr(root, path, lo, hi - lo)


@model("<std::slice::Iter<'_, T> as std::clone::Clone>::clone", "<std::slice::Iter<'a, T> as std::clone::Clone>::clone")
def m_siter_clone(eng, st, c):
    v = the_siter(eng, st, c.args[0])
    return v if v is not None else unknown(eng, st, c)


@model('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut', 'std::ptr::slice_from_raw_parts', 'std::ptr::slice_from_raw_parts_mut')
def m_raw_parts(eng, st, c):
    p, n = c.args
    if isinstance(p, Ptr) and isinstance(n, Lin):
        s = src_of(eng, st, p)
        if s:
            return Ptr(s[0], s[1], s[2], n)
        if st.lin.norm(n) == ZERO:
            return Ptr(p.root, p.path, ZERO, ZERO)
    return unknown(eng, st, c)


@model('std::slice::from_ref', 'std::slice::from_mut')
def m_from_ref(eng, st, c):
    s = src_of(eng, st, c.args[0])
    if s:
        return Ptr(s[0], s[1], s[2], ONE)
    return unknown(eng, st, c)


@smodel('copy_within')
def m_copy_within(eng, st, c):
    p = c.args[0]
    if not sl(eng, st, p):
        return unknown(eng, st, c)
    r = range_of(eng, st, c.args[1], c.argtys[1], p.len)
    if r is None:
        return unknown(eng, st, c)
    lo, hi = r
    d = c.args[2]
    if not st.decide_le(lo - hi) or not st.decide_le(hi - p.len) or not st.decide_le(d - (p.len - (hi - lo))):
        raise Panic('copy_within out of range', 'bounds')
    if st.decide_le(hi - lo):
        return UNIT
    copy_elems(eng, st, (p.root, p.path, p.off + lo), (p.root, p.path, p.off + d), hi - lo)
    return UNIT


@smodel('swap_with_slice')
def m_swap_slices(eng, st, c):
    a, b = c.args
    if not sl(eng, st, a) or not sl(eng, st, b):
        return unknown(eng, st, c)
    if not st.decide_eq(a.len - b.len):
        raise Panic('length mismatch', 'bounds')
    if st.decide_le(a.len):
        return UNIT
    va, vb = st.load(a.root, a.path), st.load(b.root, b.path)
    sa = slice_segs(eng, st, va, a.off, a.off + a.len, b.off - a.off)
    sb = slice_segs(eng, st, vb, b.off, b.off + b.len, a.off - b.off)
    if sa is None or sb is None:
        return unknown(eng, st, c)
    st.store(a.root, a.path, splice(eng, st, va, a.off, a.off + a.len, sb))
    vb = st.load(b.root, b.path)
    st.store(b.root, b.path, splice(eng, st, vb, b.off, b.off + b.len, sa))
    return UNIT


@model('<str as std::string::ToString>::to_string_')
def m_none(eng, st, c):
    return unknown(eng, st, c)


def install(eng):
    eng.models.update(M)
    eng.model_prefix.extend(PFX)
    if not hasattr(eng, 'track_drops'):
        eng.track_drops = False
    eng.check_uninit = True
    eng.allocs_hook = lambda st, c: None
    eng.fact_hooks.append(congruence)
    from . import maps
    maps.install(eng)


def congruence(st, a, b):
    """Equal operands give equal results."""
    if a[0] == 'app' and b[0] == 'app' and a[1] == b[1] and len(a) == len(b):
        for x, y in zip(a[2:], b[2:]):
            if x != y and st.rel(x, y) != EQ:
                return 7
        return EQ
    return 7


def limits():
    for s in 'ui':
        for b in (8, 16, 32, 64, 128, 'size'):
            n = 64 if b == 'size' else b
            hi = (1 << (n - (s == 'i'))) - 1
            for nm, v in (('max_value', hi), ('min_value', 0 if s == 'u' else -hi - 1)):
                def f(eng, st, c, v=v):
                    return Lin(eng.prog.scaling.get(v, v))
                model('core::num::<impl %s%s>::%s' % (s, b, nm))(f)


limits()
