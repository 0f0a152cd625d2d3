"""Abstract interpreter over monomorphic MIR with trace partitioning."""
import time
from .dom import Lin, L, S, LT, EQ, GT, UMAX
from .state import *

TRANSPARENT = {
    'std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'core::mem::maybe_dangling::MaybeDangling', 'std::mem::MaybeDangling',
    'std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull', 'core::ptr::unique::Unique', 'core::ptr::Unique',
    'std::cell::UnsafeCell', 'std::cell::Cell', 'std::pin::Pin', 'std::num::Wrapping', 'std::cmp::Reverse_',
}


class Panic(Exception):
    def __init__(self, why, kind='panic'):
        self.why = why
        self.kind = kind


class Loc:
    __slots__ = ('root', 'path', 'tid', 'off', 'len', 'const')

    def __init__(self, root, path, tid, off=None, len=None):
        self.root = root
        self.path = path
        self.tid = tid
        self.off = off
        self.len = len


class Call:
    __slots__ = ('key', 'f', 'args', 'argtys', 'dest', 'target', 'unwind', 'line', 'name', 'destty')


PUSHED = object()


class Out:
    """A finished path: kind is ret, panic, viol, cut."""
    __slots__ = ('kind', 'st', 'val', 'msg')

    def __init__(self, kind, st, val=None, msg=None):
        self.kind = kind
        self.st = st
        self.val = val
        self.msg = msg


class Engine:
    def __init__(self, prog, unroll=3, max_paths=6000, max_steps=4000000):
        self.prog = prog
        self.unroll = unroll
        self.max_paths = max_paths
        self.kk = 0                 # runs with fixed contents: number of named keys among the items of a source
        self.fixed_order = 0
        self.fixed_sizes = False    # runs with fixed sizes: paths beyond the budget are left, not undecided
        self.deadline = None
        self.max_steps = max_steps
        self.models = {}
        self.model_prefix = []
        self.user_panics = False      # fork a panic at every call into user code
        self.fact_hooks = []
        self.backedges = {}
        self.steps = 0
        self.paths = 0
        self.used_fns = set()
        self.unmodelled = {}
        self.call_hooks = {}
        self.maxdepth = 60
        self.loop_hook = None
        from . import models
        models.install(self)

    # hooks overridden by domains
    cost_hook = None

    def facts_rel(self, st, a, b):
        m = 7
        for h in self.fact_hooks:
            m &= h(st, a, b)
        return m

    def map_get(self, st, v, key):
        st.mark('map read')
        return Top('map')

    def map_set(self, st, v, key, val):
        st.mark('map write')
        return v

    # ---- types ----
    def transparent(self, tid):
        t = self.prog.types[tid]
        return t['k'] in ('struct', 'union') and (t.get('def') in TRANSPARENT)

    def where(self, st):
        if st.fn is None:
            return ''
        f = self.prog.fns[st.fn]
        b = f['body']
        line = ''
        if b and st.bb < len(b['blocks']):
            ss, te = b['blocks'][st.bb]
            if st.si < len(ss):
                x = ss[st.si]
                line = x[-1] if x[0] in ('=', 'sd', 'cno', 'assume') else ''
            elif te[0] in ('call', 'drop', 'assert', 'switch'):
                line = te[-1]
            file = b['file'].replace('/repo/', '')
            return '%s (%s:%s)' % (f['def'], file, line or b['line'])
        return f['def']

    # ---- places and operands ----
    def body(self, st):
        return self.prog.fns[st.fn]['body']

    def resolve(self, st, place):
        local, proj = place
        b = self.body(st)
        loc = Loc(('l', st.fid, local), (), b['locals'][local])
        types = self.prog.types
        for e in proj:
            if e == '*':
                v = st.load(loc.root, loc.path)
                t = types[loc.tid]
                if t['k'] in ('ref', 'ptr'):
                    nt = t['elem']
                elif t.get('box'):
                    nt = t['targs'][0]
                else:
                    raise Viol('type', 'deref of %s' % t['s'])
                if isinstance(v, Ptr):
                    loc = Loc(v.root, v.path, nt, v.off, v.len)
                elif isinstance(v, Str):
                    loc = Loc(('str', v), (), nt)
                    if ('str', v) not in st.cells:
                        st.cells[('str', v)] = v
                elif v is UNINIT:
                    raise Viol('uninit', 'dereference of an uninitialized pointer')
                else:
                    st.mark('deref of %s' % (v,))
                    r = st.alloc(Top('deref of %s' % type(v).__name__))
                    loc = Loc(r, (), nt, ZERO if types[nt]['k'] == 'slice' else None, st.fresh('len') if types[nt]['k'] == 'slice' else None)
            elif e[0] == 'f':
                if not self.transparent(loc.tid):
                    n, k = loc.len, types[e[2]]['k']
                    if n is None or types[loc.tid]['k'] != 'struct' or k not in ('slice', 'struct'):
                        n = None
                    # the last field of a structure without a size is the one of unknown length
                    loc = Loc(loc.root, loc.path + (('f', e[1]),), e[2], ZERO if n is not None and k == 'slice' else None, n)
                else:
                    loc = Loc(loc.root, loc.path, e[2], loc.off, loc.len)
            elif e[0] == 'd':
                pass
            elif e[0] == 'i':
                idx = st.load(('l', st.fid, e[1]))
                loc = self.index(st, loc, idx)
            elif e[0] == 'ci':
                off = Lin(e[1])
                if e[3]:
                    off = self.seqlen(st, loc) - e[1]
                loc = self.index(st, loc, off)
            elif e[0] == 'ss':
                n = self.seqlen(st, loc)
                hi = n - e[2] if e[3] else Lin(e[2])
                loc = Loc(loc.root, loc.path, loc.tid, (loc.off or ZERO) + e[1], hi - e[1])
            else:
                loc = Loc(loc.root, loc.path, e[1], loc.off, loc.len)
        return loc

    def tail(self, tid):
        """The number of elements of the array a structure ends with."""
        if tid is None:
            return None
        t = self.prog.types[tid]
        if t['k'] == 'array':
            return t.get('len')
        if t['k'] == 'struct' and t.get('variants') and t['variants'][0]['fields']:
            return self.tail(t['variants'][0]['fields'][-1][1])
        return None

    def seqlen(self, st, loc):
        if loc.len is not None:
            return loc.len
        t = self.prog.types[loc.tid]
        if t['k'] == 'array' and t.get('len') is not None:
            return Lin(t['len'])
        st.mark('length of %s' % t['s'])
        return st.fresh('len')

    def index(self, st, loc, idx):
        t = self.prog.types[loc.tid]
        if not isinstance(idx, Lin):
            st.mark('index is %s' % (idx,))
            idx = st.fresh('idx')
        if loc.off is not None:
            idx = loc.off + idx
        return Loc(loc.root, loc.path + (('i', idx),), t.get('elem'))

    def operand(self, st, op):
        k = op[0]
        if k == 'k':
            return self.const(st, op[2], op[1])
        loc = self.resolve(st, op[1])
        if loc.len is not None and self.prog.types[loc.tid]['k'] == 'slice':
            return Ptr(loc.root, loc.path, loc.off, loc.len)
        v = st.load(loc.root, loc.path)
        if loc.len is not None and loc.off is not None and self.prog.types[loc.tid]['k'] == 'array' and isinstance(v, Arr):
            return Arr(tuple(st.arr_slice(v, loc.off, loc.off + loc.len)), loc.len)
        if k == 'm' and not loc.path and loc.root[0] == 'l':
            st.cells[loc.root] = UNINIT
        return v

    def operand_ty(self, st, op):
        if op[0] == 'k':
            return op[1]
        local, proj = op[1]
        tid = self.body(st)['locals'][local]
        for e in proj:
            t = self.prog.types[tid]
            if e == '*':
                tid = t['elem'] if t['k'] in ('ref', 'ptr') else t['targs'][0]
            elif e[0] == 'f':
                tid = e[2]
            elif e[0] in ('i', 'ci'):
                tid = t['elem']
            elif e[0] == 'oc':
                tid = e[1]
        return tid

    def const(self, st, c, tid):
        if 'int' in c:
            return Lin(c['int'])
        t = self.prog.types[tid]
        if 'zst' in c:
            if t['k'] == 'fndef' and 'call' in t:
                return FnV(t['call'])
            n = 0
            if t['k'] == 'struct':
                n = len(t['variants'][0]['fields'])
                if self.transparent(tid):
                    return UNIT
            return Agg(0, tuple(UNIT for _ in range(n)))
        if 'adt' in c:
            if self.transparent(tid):
                fs = t['variants'][0]['fields']
                return self.const(st, c['fields'][0], fs[0][1])
            if t['k'] == 'tuple':
                fts = t['fields']
            else:
                fts = [x[1] for x in t['variants'][c['adt']]['fields']]
            return Agg(c['adt'], tuple(self.const(st, x, ft) for x, ft in zip(c['fields'], fts)))
        if 'str' in c:
            return Str(tuple(c['str']))
        if 'array' in c:
            vals = [self.const(st, x, t['elem']) for x in c['array']]
            return self.mk_array(vals)
        if 'refslice' in c:
            vals = [self.const(st, x, c['elem']) for x in c['refslice']]
            r = ('c', repr(c))
            st.cells[r] = self.mk_array(vals)
            return Ptr(r, (), ZERO, Lin(len(vals)))
        if 'ref' in c:
            r = ('c', repr(c))
            st.cells[r] = self.const(st, c['ref'], c['ty'])
            return Ptr(r)
        if 'fnptr' in c:
            return FnV(c['fnptr'])
        if 'static' in c and c.get('off') == 0:
            # a static that can change holds anything when an operation begins
            r = ('s', c['static'])
            if r not in st.cells:
                v = self.const(st, c['val'], c['ty'])
                if (t['k'] == 'ptr' and t.get('mut')) or self.shared_mut(c['ty']):
                    v = self.anything(st, v, c['ty'])
                st.cells[r] = v
            return Ptr(r)
        if 'addr' in c:
            if t['k'] in ('ref', 'ptr') and c.get('meta') == 0 or (t['k'] == 'ref' and c.get('meta') is None):
                # dangling, e.g. reference to an empty slice or a ZST
                r = ('c', 'dangling')
                st.cells[r] = Arr((), ZERO)
                if c.get('meta') is not None:
                    return Ptr(r, (), ZERO, Lin(c['meta']))
                return Ptr(r)
            return Lin(c['addr'])
        return Top('constant %s' % (c,))

    def shared_mut(self, tid, depth=0):
        t = self.prog.types[tid]
        if depth > 6:
            return True
        if 'UnsafeCell' in t['s'] or 'Atomic' in t['s']:
            return True
        kids = [x[1] for v in t.get('variants', ()) for x in v['fields']] if 'variants' in t else list(t.get('fields', ())) if t['k'] == 'tuple' else [t['elem']] if t['k'] in ('array', 'slice') else []
        return any(self.shared_mut(x, depth + 1) for x in kids)

    def anything(self, st, v, tid):
        if isinstance(v, Lin):
            return st.fresh('static')
        if isinstance(v, Agg) and v.variant == 0:
            return Agg(0, tuple(self.anything(st, x, None) for x in v.fields))
        if isinstance(v, Arr):
            return Arr(tuple(Seg(s.lo, s.hi, self.anything(st, s.val, None)) for s in v.segs), v.len)
        return Top('a static that can change')

    def mk_array(self, vals):
        return Arr(tuple(Seg(Lin(i), Lin(i + 1), v) for i, v in enumerate(vals)), Lin(len(vals)))

    # ---- rvalues ----
    def rvalue(self, st, r, dloc):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])
        if k in ('ref', 'addr'):
            loc = self.resolve(st, r[2])
            t = self.prog.types[loc.tid]
            if t['k'] == 'str':
                v = st.load(loc.root, loc.path)
                if isinstance(v, Str):
                    return v
            wide = t['k'] in ('slice', 'array') or t['k'] == 'struct' and loc.off is None
            return Ptr(loc.root, loc.path, loc.off if wide else None, loc.len if wide else None)
        if k == 'bin':
            return self.binop(st, r[1], r[2], r[3])
        if k == 'cbin':
            a, b = self.operand(st, r[2]), self.operand(st, r[3])
            t = self.prog.types[self.operand_ty(st, r[2])]
            v, ov = self.checked(st, r[1], a, b, t)
            return Agg(0, (v, ov))
        if k == 'un':
            v = self.operand(st, r[2])
            if r[1] == 'Not':
                t = self.prog.types[self.operand_ty(st, r[2])]
                if t['k'] == 'bool':
                    return self.bnot(st, v)
                if isinstance(v, Lin) and t['k'] == 'uint':
                    return Lin((1 << t['bits']) - 1) - v
            elif r[1] == 'Neg':
                if isinstance(v, Lin):
                    return -v
            elif r[1] == 'PtrMetadata':
                if isinstance(v, Ptr) and v.len is not None:
                    return v.len
                if isinstance(v, Str):
                    return Lin(len(v.bytes))
                if isinstance(v, Ptr):
                    return UNIT
            st.mark('operator %s' % r[1])
            return Top(r[1])
        if k == 'cast':
            return self.cast(st, r[1], r[2], r[3])
        if k == 'discr':
            loc = self.resolve(st, r[1])
            return self.discr(st, st.load(loc.root, loc.path), loc.tid)
        if k == 'len':
            loc = self.resolve(st, r[1])
            return self.seqlen(st, loc)
        if k == 'agg':
            return self.aggregate(st, r)
        if k == 'repeat':
            v = self.operand(st, r[1])
            n = Lin(r[2] or 0)
            return Arr((Seg(ZERO, n, v),), n)
        st.mark('rvalue %s' % k)
        return Top(k)

    def aggregate(self, st, r):
        kind = r[1]
        ops = [self.operand(st, x) for x in r[2]]
        if kind[0] == 'tuple' or kind[0] == 'closure':
            return Agg(0, tuple(ops))
        if kind[0] == 'array':
            return self.mk_array(ops)
        if kind[0] == 'adt':
            t = self.prog.types[kind[1]]
            if self.transparent(kind[1]):
                if t['k'] == 'union' and kind[3] == 0 and t['def'] == 'std::mem::MaybeUninit':
                    return UNINIT
                return ops[0]
            if t['k'] == 'union':
                return ops[0]
            if t.get('def') in ('std::slice::Iter', 'std::slice::IterMut') and len(ops) == 3:
                # library code with the construction of a slice iterator inlined
                p, q = ops[:2]
                if isinstance(p, Ptr) and p.path and p.path[-1][0] == 'i':
                    lo = p.path[-1][1]
                    if isinstance(q, Ptr) and q.root == p.root and q.path and q.path[-1][0] == 'i' and q.path[:-1] == p.path[:-1]:
                        return Obj('siter', (p.root, p.path[:-1], lo, q.path[-1][1]))
                    if isinstance(q, Lin):
                        return Obj('siter', (p.root, p.path[:-1], lo, lo + q))
            return Agg(kind[2], tuple(ops))
        if kind[0] == 'rawptr':
            p, m = ops
            if isinstance(p, Ptr) and isinstance(m, Lin):
                path, off = p.path, ZERO
                if path and path[-1][0] == 'i':
                    off = path[-1][1]
                    path = path[:-1]
                    return Ptr(p.root, path, off, m)
                if p.len is not None:
                    return Ptr(p.root, p.path, p.off, m)
                if m == ZERO:
                    return Ptr(p.root, p.path, ZERO, ZERO)
                return Ptr(p.root, p.path, ZERO, m)
            if isinstance(p, Ptr):
                return p
            st.mark('raw pointer from %s' % (p,))
            return Top('rawptr')
        st.mark('aggregate %s' % (kind,))
        return Top('agg')

    def bnot(self, st, v):
        if isinstance(v, Cond):
            return Cond(v.kind, v.arg, not v.neg)
        if isinstance(v, Lin):
            v = st.lin.norm(v)
            return Lin(1) - v
        return Lin(0 if st.truth(v) else 1)

    def discr(self, st, v, tid):
        t = self.prog.types[tid]
        if isinstance(v, Agg):
            if t['k'] == 'enum':
                d = t['variants'][v.variant]['discr']
                return Lin(d)
            return Lin(v.variant)
        if isinstance(v, Obj) and v.kind == 'ordering':
            pass
        if v is UNINIT:
            if t['k'] == 'enum' and t.get('size') == 0:
                # a zero-sized enum has one inhabited variant and needs no initialization
                ok = [x for x in t['variants'] if not any(self.prog.types[f[1]]['k'] == 'never' for f in x['fields'])]
                if len(ok) == 1:
                    return Lin(ok[0]['discr'])
            raise Viol('uninit', 'inspection of an uninitialized value')
        if isinstance(v, Lin):
            return v
        h = self.call_hooks.get('discr')
        if h:
            x = h(self, st, v, tid)
            if x is not None:
                return x
        st.mark('discriminant of %s' % (v,))
        return Top('discr')

    def inttype(self, t):
        return t['k'] in ('int', 'uint', 'char', 'bool')

    def binop(self, st, op, xo, yo):
        tx = self.prog.types[self.operand_ty(st, xo)]
        a, b = self.operand(st, xo), self.operand(st, yo)
        if a is UNINIT or b is UNINIT:
            raise Viol('uninit', 'use of an uninitialized value')
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, op, a, b, tx)
        if op == 'Cmp':
            if isinstance(a, Lin) and isinstance(b, Lin):
                d = a - b
                if st.decide_eq(d):
                    return Agg(1, ())
                return Agg(0, ()) if st.decide_le(d) else Agg(2, ())
            st.mark('Cmp')
            return Top('cmp')
        if tx['k'] == 'bool' and op in ('BitAnd', 'BitOr', 'BitXor'):
            x = st.truth(a)
            if op == 'BitAnd' and not x:
                return FALSE
            if op == 'BitOr' and x:
                return TRUE
            y = st.truth(b)
            return Lin(int(x != y)) if op == 'BitXor' else Lin(int(y))
        if op == 'Offset':
            return self.ptr_add(st, a, b)
        if isinstance(a, Lin) and isinstance(b, Lin):
            v, ov = self.arith(st, op, a, b, tx)
            if ov is not None and not op.endswith('Unchecked'):
                if st.truth(ov):
                    if getattr(self, 'count_limit', False) and op != 'Sub':
                        raise Stop()    # a count that cannot be represented: a panic where overflow is checked
                    return self.wrap(st, v, tx)
            return v
        if op == 'BitAnd' and isinstance(a, Ptr) and isinstance(b, Lin) and b.const and b.c < 64:
            return ZERO     # alignment check inserted by the compiler: pointers to live places are aligned
        st.mark('arithmetic %s on %s' % (op, type(a).__name__))
        return Top(op)

    def wrap(self, st, v, t):
        if t['k'] == 'uint':
            m = 1 << t['bits']
            v = st.lin.norm(v)
            if v.const:
                return Lin(v.c % m)
            if st.decide_le(v + 1):
                return v + m
            return v - m
        st.mark('wrapping arithmetic')
        return Top('wrap')

    def ptr_add(self, st, p, n):
        if isinstance(p, Ptr) and isinstance(n, Lin):
            if p.path and p.path[-1][0] == 'i':
                return Ptr(p.root, p.path[:-1] + (('i', p.path[-1][1] + n),))
            n = st.lin.norm(n)
            if n == ZERO:
                return p
            if p.len is None:
                return Ptr(p.root, p.path + (('i', n),))
        st.mark('pointer arithmetic')
        return Top('ptr')

    def arith(self, st, op, a, b, t):
        """(value, overflow condition or None) in unbounded integers."""
        a, b = st.lin.norm(a), st.lin.norm(b)
        base = op.replace('Unchecked', '')
        if base == 'Add':
            v = a + b
        elif base == 'Sub':
            v = a - b
        elif base == 'Mul':
            if a.const:
                v = b * a.c
            elif b.const:
                v = a * b.c
            else:
                st.mark('nonlinear product')
                return st.fresh('mul'), None
        elif base in ('Div', 'Rem'):
            return self.divrem(st, base, a, b, t), None
        elif base in ('Shl', 'Shr'):
            if b.const and 0 <= b.c < t['bits'] if t['k'] in ('uint', 'int') else False:
                if base == 'Shl':
                    v = a * (1 << b.c)
                    if not a.const:
                        return v, Cond('le', v - ((1 << t['bits']) - 1), True)
                    return Lin(v.c & ((1 << t['bits']) - 1)), None
                return self.divrem(st, 'Div', a, Lin(1 << b.c), t), None
            st.mark('shift')
            return st.fresh('sh'), None
        elif base in ('BitAnd', 'BitOr', 'BitXor'):
            if a.const and b.const:
                f = {'BitAnd': a.c & b.c, 'BitOr': a.c | b.c, 'BitXor': a.c ^ b.c}[base]
                return Lin(f), None
            if base == 'BitAnd':
                if b.const and (b.c & (b.c + 1)) == 0:
                    return self.divrem(st, 'Rem', a, Lin(b.c + 1), t), None
                if a.const and (a.c & (a.c + 1)) == 0:
                    return self.divrem(st, 'Rem', b, Lin(a.c + 1), t), None
            st.mark('bit operation')
            return st.fresh('bits'), None
        else:
            st.mark('operator ' + op)
            return st.fresh('op'), None
        if t['k'] == 'uint':
            hi = (1 << t['bits']) - 1
            lo = 0
        else:
            hi = (1 << (t.get('bits', 64) - 1)) - 1
            lo = -hi - 1
        if base == 'Sub' and t['k'] == 'uint':
            ov = Cond('le', lo - v if isinstance(lo, Lin) else Lin(lo) - v, True)    # v < lo
            return v, ov
        if t['k'] == 'uint':
            return v, Cond('le', v - hi, True)      # v > hi
        if v.const:
            return v, (Lin(1) if not lo <= v.c <= hi else None)
        return v, Cond('le', v - hi, True)

    def divrem(self, st, op, a, b, t):
        if a.const and b.const and b.c:
            if t['k'] == 'uint' or (a.c >= 0 and b.c > 0):
                return Lin(a.c // b.c if op == 'Div' else a.c % b.c)
        if t['k'] == 'uint' and b.const and b.c > 0:
            key = ('div', a, b.c)
            q = st.ghost.get(key)
            if q is None:
                q = st.fresh('q')
                st.ghost[key] = q
                st.need(st.assume_le(q * b.c - a))
                st.need(st.assume_le(a - q * b.c - (b.c - 1)))
            return q if op == 'Div' else a - q * b.c
        if t['k'] == 'uint' and st.lin.le0(Lin(1) - b) is True:
            for m in range(4):
                # a < (m+1)*b ?
                if st.decide_lt(a, b * (m + 1)):
                    return Lin(m) if op == 'Div' else a - b * m
                if st.lin.le0(a - b * (m + 2) + 1) is None and m >= 2:
                    break
        st.mark('division')
        r = st.fresh('rem')
        if op == 'Rem' and t['k'] == 'uint':
            st.need(st.assume_le(r - b + 1))
        return r

    def checked(self, st, op, a, b, t):
        if isinstance(a, Lin) and isinstance(b, Lin):
            v, ov = self.arith(st, op, a, b, t)
            if ov is None:
                ov = FALSE
            elif isinstance(ov, Cond) and ov.kind == 'le' and st.lin.le0(ov.arg) is True:
                ov = FALSE
            return v, ov
        if a is UNINIT or b is UNINIT:
            raise Viol('uninit', 'arithmetic on an uninitialized value')
        st.mark('arithmetic on %s' % (a if isinstance(a, Top) else type(a).__name__))
        self_n = st.fresh('ar')
        return self_n, FALSE

    @staticmethod
    def number(v):
        """A number in wrappers of one field."""
        w = v
        while isinstance(w, Agg) and len(w.fields) == 1:
            w = w.fields[0]
        return w if isinstance(w, Lin) else v

    def compare(self, st, op, a, b, t):
        if isinstance(a, Lin) != isinstance(b, Lin):
            a, b = self.number(a), self.number(b)
        if isinstance(a, Cond):
            a = Lin(int(st.truth(a)))
        if isinstance(b, Cond):
            b = Lin(int(st.truth(b)))
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = st.lin.norm(a - b)
            c = {'Eq': Cond('eq', d), 'Ne': Cond('eq', d, True), 'Le': Cond('le', d), 'Lt': Cond('le', d + 1),
                 'Gt': Cond('le', d, True), 'Ge': Cond('le', d + 1, True)}[op]
            if d.const:
                return Lin(int(st.truth(c)))
            return c
        if op in ('Eq', 'Ne'):
            e = None
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a == b:
                    e = True
                elif a.root != b.root:
                    e = False
                elif len(a.path) == len(b.path) and a.path[:-1] == b.path[:-1] and a.path[-1][0] == b.path[-1][0] == 'i':
                    if a.root[0] == 'srcarr' and not self.kk:
                        return Lin(int(self.aliases(st, a, b) == (op == 'Eq')))
                    return self.compare(st, op, a.path[-1][1], b.path[-1][1], t)
            elif isinstance(a, Ptr) and isinstance(b, Lin) or isinstance(b, Ptr) and isinstance(a, Lin):
                e = False
            elif isinstance(a, FnV) and isinstance(b, FnV):
                e = a == b
            if e is not None:
                return Lin(int(e == (op == 'Eq')))
        elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and a.path and b.path and \
                a.path[:-1] == b.path[:-1] and a.path[-1][0] == b.path[-1][0] == 'i':
            return self.compare(st, op, a.path[-1][1], b.path[-1][1], t)
        if isinstance(a, (Atom, Top)) or isinstance(b, (Atom, Top)):
            st.mark('comparison of %s and %s' % (a, b))
            return Cond('sym', ('cmp', st.norm(a), st.norm(b), op))
        st.mark('comparison %s of %s and %s' % (op, type(a).__name__, type(b).__name__))
        return Top('compare')

    def aliases(self, st, a, b):
        """Whether two references a caller's iterator yields are one: it may yield a reference any number of times."""
        i, j = a.path[-1][1], b.path[-1][1]
        if st.decide_eq(i - j):
            return True
        x, y = (Atom(('el', a.root[1], k)) for k in (i, j))
        if hasattr(self, 'map_order_free') and not st.same(x, y):
            return False
        return bool(st.choose(('one reference', a.root[1], st.lin.norm(i), st.lin.norm(j)), 2))

    def elem_ptr(self, p):
        """slice pointer -> pointer to its first element"""
        return Ptr(p.root, p.path + (('i', p.off),))

    def cast(self, st, kind, op, tid):
        src = self.operand_ty(st, op)
        v = self.operand(st, op)
        ts, td = self.prog.types[src], self.prog.types[tid]
        if kind == 'IntToInt':
            if isinstance(v, Cond):
                v = Lin(int(st.truth(v)))
            if isinstance(v, Lin):
                return self.int_cast(st, v, ts, td)
            if v is UNINIT:
                raise Viol('uninit', 'use of an uninitialized value')
            st.mark('integer cast of %s' % (v,))
            return Top('cast')
        if kind in ('PtrToPtr', 'Transmute', 'Subtype', 'BoxDerefTransmute') or kind.startswith('PointerCoercion'):
            if 'Unsize' in kind and isinstance(v, Ptr) and v.len is None:
                es = self.pointee(ts)
                ed = self.pointee(td)
                if es is not None and ed is not None and self.prog.types[es]['k'] == 'array' and self.prog.types[ed]['k'] == 'slice':
                    return Ptr(v.root, v.path, ZERO, Lin(self.prog.types[es]['len'] or 0))
                n = self.tail(es)
                if n is not None and es != ed and self.prog.types[ed]['k'] == 'struct':
                    return Ptr(v.root, v.path, None, Lin(n))
                return v
            if 'Closure' in kind or 'Reify' in kind:
                if isinstance(v, FnV):
                    return v
                if 'call' in ts:
                    return FnV(ts['call'])
            if isinstance(v, Ptr):
                es, ed = self.pointee(ts), self.pointee(td)
                if es is not None and ed is not None:
                    ks, kd = self.peeled(es), self.peeled(ed)
                    if v.len is not None and kd != 'slice' and kd != 'str':
                        if kd == 'array':
                            n = self.prog.types[ed].get('len')
                            if n is not None and st.lin.norm(v.off or ZERO) != ZERO:
                                return Ptr(v.root, v.path, v.off, Lin(n))       # an array within a slice
                            return Ptr(v.root, v.path)
                        return self.elem_ptr(v)
                    if ks == 'array' and kd not in ('array', 'slice'):
                        return Ptr(v.root, v.path + (('i', ZERO),))
                return v
            if kind == 'Transmute' and self.inttype(ts) and self.inttype(td) and isinstance(v, Lin):
                return self.int_cast(st, v, ts, td)
            if kind == 'Transmute' and 'NonZero' in td['s']:
                # a number as an optional nonzero number, and back
                if td.get('def') == 'std::option::Option' and isinstance(v, Lin):
                    return Agg(0, ()) if st.decide_eq(v) else Agg(1, (v,))
            if kind == 'Transmute' and 'NonZero' in ts['s'] and self.inttype(td):
                if ts.get('def') == 'std::option::Option' and isinstance(v, Agg):
                    return v.fields[0] if v.variant else ZERO
            return v
        if isinstance(v, Lin) and kind.startswith('Pointer'):
            return v
        if isinstance(v, Ptr) and kind.startswith('PointerExpose') and v.len is None:
            return st.sym('address of %s%s' % ('%s%s' % v.root if isinstance(v.root, tuple) and len(v.root) == 2 else v.root, list(v.path) or ''))
        st.mark('cast %s' % kind)
        return Top('cast')

    def peeled(self, t):
        t = self.prog.types[t]
        for _ in range(6):
            if t['k'] in ('struct', 'union') and t.get('def') in TRANSPARENT and not t.get('box') and t['variants'][0]['fields']:
                t = self.prog.types[t['variants'][0]['fields'][-1 if t['def'] == 'std::mem::MaybeUninit' else 0][1]]
                continue
            break
        return t['k']

    def pointee(self, t):
        for _ in range(6):
            if t['k'] in ('ref', 'ptr'):
                return t['elem']
            if t['k'] in ('struct', 'union') and t.get('def') in TRANSPARENT:
                if t.get('box') or t['def'] == 'std::ptr::NonNull':
                    return t['targs'][0]
                t = self.prog.types[t['variants'][0]['fields'][-1 if t['def'] == 'std::mem::MaybeUninit' else 0][1]]
                continue
            return None
        return None

    def int_cast(self, st, v, ts, td):
        v = st.lin.norm(v)
        bits = td.get('bits', 1 if td['k'] == 'bool' else 32)
        if td['k'] == 'uint' or td['k'] in ('char', 'bool'):
            lo, hi = 0, (1 << bits) - 1
        else:
            lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        if v.const:
            c = v.c
            if not lo <= c <= hi:
                c &= (1 << bits) - 1
                if td['k'] == 'int' and c > hi:
                    c -= 1 << bits
            return Lin(c)
        sb = ts.get('bits', 32)
        if ts['k'] == td['k'] and bits >= sb or (ts['k'] == 'uint' and td['k'] == 'int' and bits > sb):
            return v
        span = 1 << bits
        if ts['k'] == 'uint':
            if st.decide_le(v - hi):
                return v
            r = v if sb <= bits else self.divrem(st, 'Rem', v, Lin(span), ts)
            if td['k'] != 'int' or (sb > bits and st.decide_le(r - hi)):
                return r
            return r - span
        if st.decide_le(v - hi) and st.decide_le(Lin(lo) - v):
            return v
        if ts['k'] == 'int' and sb <= bits and td['k'] == 'uint':
            return v + span
        st.mark('cast out of range')
        return st.fresh('cast')

    # ---- stepping ----
    def goto(self, st, bb):
        if st.fn is not None:
            be = self.back_edges(st.fn)
            if (st.bb, bb) in be:
                c = st.loops.get(bb, 0) + 1
                st.loops = dict(st.loops)
                st.loops[bb] = c
                st.bb, st.si = bb, 0
                if self.loop_hook:
                    self.loop_hook(self, st, bb, c)
                elif c > self.unroll:
                    st.status = 'cut'
                return
        st.bb = bb
        st.si = 0

    def back_edges(self, fn):
        r = self.backedges.get(fn)
        if r is None:
            r = set()
            blocks = self.prog.fns[fn]['body']['blocks']

            def succ(te):
                k = te[0]
                if k == 'goto':
                    return [te[1]]
                if k == 'switch':
                    return [x[1] for x in te[2]] + [te[3]]
                if k == 'call':
                    return [x for x in (te[4], te[5]) if isinstance(x, int)]
                if k == 'drop':
                    return [x for x in (te[3], te[4]) if isinstance(x, int)]
                if k == 'assert':
                    return [x for x in (te[4], te[5]) if isinstance(x, int)]
                return []
            color = {}
            stack = [(0, iter(succ(blocks[0][1])))]
            color[0] = 1
            while stack:
                u, it = stack[-1]
                for v in it:
                    if color.get(v) == 1:
                        r.add((u, v))
                    elif v not in color:
                        color[v] = 1
                        stack.append((v, iter(succ(blocks[v][1]))))
                        break
                else:
                    color[u] = 2
                    stack.pop()
            self.backedges[fn] = r
        return r

    def push_frame(self, st, key, args, dest, target, unwind):
        f = self.prog.fns[key]
        b = f['body']
        if b is None:
            raise AssertionError('no body: ' + f['name'])
        if st.depth > self.maxdepth:
            st.status = 'cut'
            st.taint = st.taint | {'recursion depth'}
            return
        self.used_fns.add(key)
        argc = b['argc']
        if len(args) == 2 and isinstance(args[1], Agg) and f['def'].rsplit('::', 1)[-1].startswith('{closure#') and b['spread'] is None:
            args = [args[0]] + list(args[1].fields)     # closures are called with a tuple of arguments
        elif len(args) != argc and args and isinstance(args[-1], Agg):
            args = list(args[:-1]) + list(args[-1].fields)
        if len(args) != argc:
            if b['spread'] is not None and len(args) >= argc:
                k = b['spread'] - 1
                args = list(args[:k]) + [Agg(0, tuple(args[k:]))]
            if len(args) != argc:
                st.mark('argument count of ' + f['def'])
                args = (list(args) + [Top('arg')] * argc)[:argc]
        st.stack = ((st.fn, st.bb, st.fid, dest, target, unwind, st.loops), st.stack)
        st.n += 1
        st.fid = st.n
        st.fn = key
        st.bb = st.si = 0
        st.loops = {}
        st.depth += 1
        for i, a in enumerate(args):
            st.cells[('l', st.fid, i + 1)] = a
        for i in range(argc + 1, len(b['locals'])):
            st.cells[('l', st.fid, i)] = UNINIT
        st.cells[('l', st.fid, 0)] = UNINIT

    def pop_frame(self, st):
        (fn, bb, fid, dest, target, unwind, loops), rest = st.stack
        b = self.prog.fns[st.fn]['body']
        for i in range(len(b['locals'])):
            st.cells.pop(('l', st.fid, i), None)
        st.fn, st.bb, st.fid, st.loops = fn, bb, fid, loops
        st.stack = rest
        st.depth -= 1
        return dest, target, unwind

    def do_return(self, st):
        v = st.cells.get(('l', st.fid, 0), UNINIT)
        dest, target, unwind = self.pop_frame(st)
        if st.fn is None:
            st.status = 'ret'
            st.ret = v
            return
        self.finish_call(st, dest, target, v)

    def finish_call(self, st, dest, target, v):
        if dest is not None:
            st.store(dest[0], dest[1], v)
        if target is None:
            st.status = 'dead'
            return
        self.goto(st, target)

    def unwinding(self, st, unwind):
        """Continue a panic at the current frame with the given unwind action."""
        while True:
            if unwind == 'cont':
                dest, target, unwind = self.pop_frame(st)
                if st.fn is None:
                    st.status = 'panic'
                    return
                continue
            if unwind in ('unreach', 'term'):
                st.status = 'abort'
                return
            self.goto(st, unwind)
            return

    def start_panic(self, st, why, unwind, kind='panic'):
        if st.panic is not None:
            st.status = 'abort'
            return
        st.panic = (kind, why, self.where(st))
        self.unwinding(st, unwind)

    def step(self, st):
        b = self.prog.fns[st.fn]['body']
        stmts, te = b['blocks'][st.bb]
        while st.si < len(stmts) and stmts[st.si][0] in ('live', 'dead', 'assume'):
            st.si += 1
        if st.si < len(stmts):
            s = stmts[st.si]
            if s[0] == '=':
                pl, rv = s[1], s[2]
                v = self.rvalue(st, rv, None)
                if rv[0] == 'discr' and isinstance(v, Lin) and v.const and v.c > 0:
                    t = self.prog.types[self.operand_ty(st, ['c', pl])]
                    if t['k'] == 'int' and v.c >> (t['bits'] - 1):
                        v = Lin(v.c - (1 << t['bits']))
                if not pl[1]:
                    st.cells[('l', st.fid, pl[0])] = v
                else:
                    loc = self.resolve(st, pl)
                    st.store(loc.root, loc.path, v)
            elif s[0] == 'sd':
                loc = self.resolve(st, s[1])
                v = st.load(loc.root, loc.path)
                st.store(loc.root, loc.path, Agg(s[2], v.fields if isinstance(v, Agg) else ()))
            elif s[0] == 'cno':
                from . import models
                models.copy_range(self, st, self.operand(st, s[1]), self.operand(st, s[2]), self.operand(st, s[3]))
            st.si += 1
            return
        k = te[0]
        if k == 'goto':
            self.goto(st, te[1])
        elif k == 'switch':
            self.switch(st, te)
        elif k == 'return':
            self.do_return(st)
        elif k == 'call':
            self.call(st, te)
        elif k == 'drop':
            loc = self.resolve(st, te[1])
            if te[2] is None:
                self.goto(st, te[3])
            else:
                ptr = Ptr(loc.root, loc.path, loc.off, loc.len)
                c = Call()
                c.key = te[2]
                c.f = self.prog.fns[te[2]]
                c.args = [ptr]
                c.argtys = [None]
                c.dest = None
                c.destty = None
                c.target = te[3]
                c.unwind = te[4]
                c.line = te[5]
                c.name = c.f['def']
                self.invoke(st, c)
        elif k == 'assert':
            v = st.truth(self.operand(st, te[1]))
            if v == te[2]:
                self.goto(st, te[4])
            else:
                if te[3] in ('ub',):
                    st.mark('ub check')
                self.start_panic(st, {'bounds': 'index out of bounds', 'overflow': 'arithmetic overflow', 'divzero': 'division by zero'}.get(te[3], te[3]), te[5], te[3])
        elif k == 'resume':
            dest, target, unwind = self.pop_frame(st)
            if st.fn is None:
                st.status = 'panic'
            else:
                self.unwinding(st, unwind)
        elif k == 'unreachable':
            raise Viol('unreachable', 'code declared unreachable is reached')
        elif k == 'abort':
            st.status = 'abort'
        else:
            st.mark('terminator ' + k)
            st.status = 'dead'

    def switch(self, st, te):
        v = self.operand(st, te[1])
        br = te[2]
        if isinstance(v, Lin):
            v = st.lin.norm(v)
        if isinstance(v, Lin) and v.const:
            tid = self.operand_ty(st, te[1])
            t = self.prog.types[tid]
            c = v.c
            if c < 0:
                c &= (1 << t.get('bits', 64)) - 1
            for x, tgt in br:
                if x == c or (x & 0xffffffffffffffff) == c:
                    return self.goto(st, tgt)
            return self.goto(st, te[3])
        if isinstance(v, Lin):
            for x, tgt in br:
                if st.decide_eq(v - x):
                    return self.goto(st, tgt)
            return self.goto(st, te[3])
        if isinstance(v, Cond):
            r = int(st.truth(v))
            for x, tgt in br:
                if x == r:
                    return self.goto(st, tgt)
            return self.goto(st, te[3])
        if v is UNINIT:
            raise Viol('uninit', 'branch on an uninitialized value')
        st.mark('switch on %s' % (v,))
        tgts = [t for _, t in br] + [te[3]]
        # a target that is plainly unreachable is not taken
        b = self.body(st)
        tgts = [t for t in tgts if not (not b['blocks'][t][0] and b['blocks'][t][1][0] == 'unreachable')]
        st.n += 1
        self.goto(st, tgts[st.choose(('sw', st.n), len(tgts))])

    def call(self, st, te):
        f = te[1]
        c = Call()
        c.args = None
        if f and f[0] == 'fn':
            c.key = f[1]
        elif f and f[0] == 'ptr':
            v = self.operand(st, f[1])
            if not isinstance(v, FnV):
                st.mark('indirect call')
                self.unknown_call(st, 'indirect call', te)
                return
            c.key = v.key
        else:
            self.unknown_call(st, 'unresolved call %s' % (f,), te)
            return
        c.f = self.prog.fns[c.key]
        c.name = c.f['def']
        c.argtys = [self.operand_ty(st, x) for x in te[2]]
        c.args = [self.operand(st, x) for x in te[2]]
        d = self.resolve(st, te[3])
        c.dest = (d.root, d.path)
        c.destty = d.tid
        c.target, c.unwind, c.line = te[4], te[5], te[6]
        self.invoke(st, c)

    def find_model(self, c):
        m = self.models.get(c.name)
        if m is None and c.f['kind'] == 'intrinsic':
            m = self.models.get('intrinsic:' + c.f['intrinsic'])
        if m is None and c.f['kind'] == 'shim' and c.name == 'std::ptr::drop_glue':
            m = self.models.get('drop_glue')
        if m is None:
            for p, fn in self.model_prefix:
                if c.name.startswith(p):
                    return fn
        return m

    def invoke(self, st, c):
        if self.cost_hook is not None:
            self.cost_hook(self, st, c)
        m = self.find_model(c)
        if m is not None:
            try:
                r = m(self, st, c)
            except Panic as p:
                self.start_panic(st, p.why, c.unwind, p.kind)
                return
            if r is PUSHED:
                return
            if r is not NotImplemented:
                self.finish_call(st, c.dest, c.target, r)
                return
        if c.f['body'] is None:
            if c.f.get('empty_shim'):
                self.finish_call(st, c.dest, c.target, UNIT)
                return
            v = self.constructor(c)
            if v is not None:
                self.finish_call(st, c.dest, c.target, v)
                return
            self.unknown_call(st, c.name, None, c)
            return
        self.push_frame(st, c.key, c.args, c.dest, c.target, c.unwind)

    def constructor(self, c):
        """A variant of an enum, or a tuple struct, used as a function."""
        if c.destty is None:
            return None
        t = self.prog.types[c.destty]
        if t['k'] not in ('enum', 'struct'):
            return None
        last = c.name.rsplit('::', 1)[-1]
        for i, v in enumerate(t.get('variants', ())):
            if v['name'] == last and len(v['fields']) == len(c.args) and c.name == (t['def'] + '::' + last if t['k'] == 'enum' else t['def']):
                return Agg(i, tuple(c.args))
        return None

    def unknown_call(self, st, name, te, c=None):
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        st.mark('unmodelled call: ' + name)
        if c is None:
            d = self.resolve(st, te[3])
            dest, target, destty = (d.root, d.path), te[4], d.tid
        else:
            dest, target, destty = c.dest, c.target, c.destty
        if target is None:
            st.status = 'dead'
            return
        v = Top('result of ' + name)
        if destty is not None:
            t = self.prog.types[destty]
            if t['k'] == 'tuple' and not t['fields']:
                v = UNIT
            elif t['k'] == 'uint':
                v = st.fresh('res')
        self.finish_call(st, dest, target, v)

    # ---- driving ----
    def run(self, states):
        """Run states (each with a current frame) to completion; yields Out."""
        work = list(states)
        outs = []
        paths0 = self.paths
        while work:
            st = work.pop()
            while True:
                if st.status is not None:
                    if st.status != 'dead':
                        outs.append(Out(st.status, st, st.ret))
                        self.paths += 1
                    break
                self.steps += 1
                if self.fixed_sizes and self.late():
                    for x in work + [st]:
                        x.status = 'cut'
                        outs.append(Out('cut', x))
                    return outs
                snap = st.copy()
                try:
                    self.step(st)
                except Fork as fk:
                    if len(work) + self.paths - paths0 > self.max_paths:
                        if not self.fixed_sizes:
                            snap.mark('path budget')
                        snap.status = 'cut'
                        outs.append(Out('cut', snap))
                        break
                    for label, ap in reversed(fk.alts):
                        s2 = snap.copy()
                        s2.note(label)
                        try:
                            if ap(s2):
                                work.append(s2)
                        except Stop:
                            pass
                    break
                except Stop:
                    break
                except Viol as v:
                    st = snap
                    st.status = 'viol'
                    outs.append(Out('viol', st, None, (v.kind, v.msg, self.where(st))))
                    self.paths += 1
                    break
        return outs

    def late(self):
        return self.deadline is not None and time.time() > self.deadline

    def call_entry(self, st, name, args):
        """Call a witness function on a state; returns Outs (states positioned outside any frame)."""
        key = name if isinstance(name, int) else self.prog.entry(name)
        if key is None:
            raise KeyError(name)
        s = st.copy()
        assert s.fn is None
        s.status = None
        s.ret = None
        s.panic = None
        s.loops = {}
        self.push_frame(s, key, list(args), None, None, 'cont')
        return self.run([s])

    def split(self, st, fn):
        """Evaluate fn(state) in a finished state, splitting on undecided conditions; returns [(state, result)]."""
        work = [st]
        res = []
        while work:
            s = work.pop()
            if self.fixed_sizes and self.late():
                return res
            snap = s.copy()
            try:
                r = fn(s)
                res.append((s, r))
            except Fork as fk:
                if len(work) + len(res) > 3000:
                    snap.mark('check budget')
                    res.append((snap, None))
                    continue
                for label, ap in reversed(fk.alts):
                    s2 = snap.copy()
                    s2.trace = s2.trace + (('check', label),)
                    try:
                        if ap(s2):
                            work.append(s2)
                    except Stop:
                        pass
            except Stop:
                pass
        return res
