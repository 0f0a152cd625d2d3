"""The exported program: functions, types, pretty printing."""


LIMITS = {'core::num::<impl %s%d>::max_value' % (s, b): (1 << (b - (s == 'i'))) - 1 for b in (8, 16, 32) for s in 'ui'}
SMALL = 44      # below all sizes that loops are run through with


class Prog:
    def __init__(self, j):
        self.fns = j['fns']
        self.types = j['types']
        self.scaling = {}
        self.entries = j['entries']
        self.by_def = {}
        for i, f in enumerate(self.fns):
            self.by_def.setdefault(f['def'], []).append(i)
        self.tstr = {}
        for i, t in enumerate(self.types):
            self.tstr.setdefault(t['s'], i)

    @classmethod
    def empty(cls):
        return cls({'fns': [], 'types': [], 'entries': {}})

    def scaled(self):
        """The program with the large size constants of the crate made small (keeping their order and neighbourhood), or None
        if there are none: what happens only after thousands of rounds then happens within the sizes that are run through."""
        kinds = ('usize', 'isize', 'u32', 'i32', 'u64', 'i64')
        narrow = ('u8', 'i8', 'u16', 'i16')
        fixed = ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Mul', 'Div', 'Rem')
        found, pinned = set(), []

        def value(o):
            if isinstance(o, list) and len(o) == 3 and o[0] == 'k' and isinstance(o[2], dict) and self.types[o[1]]['s'] in kinds:
                return o[2].get('int')

        def big(n):
            return n is not None and SMALL <= n <= 1 << 33

        def walk(o, f):
            if not isinstance(o, (list, tuple)):
                return o
            v = value(o)
            if v is not None:
                return f(o, v)
            if len(o) == 4 and o[0] in ('bin', 'cbin') and isinstance(o[1], str):
                op = o[1].replace('Unchecked', '').replace('WithOverflow', '')
                a, b = value(o[2]), value(o[3])
                if o[0] == 'bin' and op == 'Shl' and a is not None and b is not None and b < 64:
                    return ['use', f(['k', o[2][1], {'int': a << b}], a << b)]
                if op in fixed or a is not None and b is not None:
                    pinned.extend(x for x in (a, b) if big(x))
                    return o
            if len(o) == 4 and o[0] == 'cast' and o[1] == 'IntToInt' and o[2][0] != 'k' and self.types[o[3]]['s'] in narrow:
                pinned.append(o[3])
            if len(o) == 4 and o[0] == 'cast' and o[1] == 'IntToInt' and o[2][0] == 'k' and self.types[o[3]]['s'] in kinds:
                v = isinstance(o[2][2], dict) and o[2][2].get('int')
                if type(v) is int and self.types[o[2][1]]['k'] in ('uint', 'int'):
                    n = f(['k', o[3], {'int': v}], v)
                    return ['use', n] if n[2]['int'] != v else o
            if len(o) > 4 and o[0] == 'call' and o[1] and o[1][0] == 'fn':
                v = LIMITS.get(self.fns[o[1][1]]['def'])
                if v:
                    f(['k', None, {'int': v}], v)
            new = [walk(x, f) for x in o]
            return o if all(x is y for x, y in zip(o, new)) else new

        def note(o, v):
            if big(v):
                found.add(v)
            return o
        mine = [k for k, f in enumerate(self.fns) if f['body'] and '/repo/' in f['body']['file']]
        for k in mine:
            walk(self.fns[k]['body']['blocks'], note)
        # a value that also counts the slots of an array, divides or masks cannot be changed in one place only
        if not found or pinned or any(t['k'] == 'array' and found & {t.get('len', 0) + d for d in (-1, 0, 1)}
                                      for t in self.types):
            return None
        to, last, at = {}, None, SMALL
        for v in sorted(found):
            at = at if last is None else at + min(v - last, 6)
            to[v], last = min(at, v), v
        p = Prog.__new__(Prog)
        p.__dict__.update(self.__dict__)
        p.fns = list(self.fns)
        for k in mine:
            b = self.fns[k]['body']
            n = walk(b['blocks'], lambda o, v: ['k', o[1], dict(o[2], int=to[v])] if v in to else o)
            if n is not b['blocks']:
                p.fns[k] = dict(self.fns[k], body=dict(b, blocks=n))
        p.scaling = to
        return p

    def entry(self, name):
        for k in (name, 'witness::' + name):
            if k in self.entries:
                return self.entries[k]
        return None

    def fname(self, k):
        return self.fns[k]['def']

    def ty(self, t):
        return self.types[t]

    # ---- pretty printing (debugging and reports) ----
    def place(self, p):
        s = '_%d' % p[0]
        for e in p[1]:
            if e == '*':
                s = '(*%s)' % s
            elif e[0] == 'f':
                s += '.%d' % e[1]
            elif e[0] == 'i':
                s += '[_%d]' % e[1]
            else:
                s += '<%s>' % ' '.join(map(str, e))
        return s

    def operand(self, o):
        if o[0] in 'cm':
            return ('move ' if o[0] == 'm' else '') + self.place(o[1])
        t = self.types[o[1]]
        return 'const %s: %s' % (o[2], t['s'])

    def rvalue(self, r):
        k = r[0]
        if k == 'use':
            return self.operand(r[1])
        if k in ('ref', 'addr'):
            return '&%s %s' % (r[1], self.place(r[2]))
        if k in ('bin', 'cbin'):
            return '%s%s(%s, %s)' % (r[1], '!' if k == 'cbin' else '', self.operand(r[2]), self.operand(r[3]))
        if k == 'un':
            return '%s(%s)' % (r[1], self.operand(r[2]))
        if k == 'cast':
            return '%s as %s (%s)' % (self.operand(r[2]), self.types[r[3]]['s'], r[1])
        if k in ('discr', 'len'):
            return '%s(%s)' % (k, self.place(r[1]))
        if k == 'agg':
            return 'agg%s(%s)' % (r[1], ', '.join(self.operand(x) for x in r[2]))
        if k == 'repeat':
            return '[%s; %s]' % (self.operand(r[1]), r[2])
        return str(r)

    def term(self, t):
        k = t[0]
        if k == 'switch':
            return 'switch %s %s else %s' % (self.operand(t[1]), t[2], t[3])
        if k == 'call':
            f = t[1]
            fn = self.fns[f[1]]['name'] if f and f[0] == 'fn' else str(f)
            return '%s = %s(%s) -> %s unwind %s' % (self.place(t[3]), fn, ', '.join(self.operand(x) for x in t[2]), t[4], t[5])
        if k == 'drop':
            return 'drop %s (%s) -> %s unwind %s' % (self.place(t[1]), t[2], t[3], t[4])
        if k == 'assert':
            return 'assert %s == %s (%s) -> %s unwind %s' % (self.operand(t[1]), t[2], t[3], t[4], t[5])
        return str(t)

    def dump(self, k):
        f = self.fns[k]
        b = f['body']
        out = ['fn#%d %s [%s] %s' % (k, f['name'], f['kind'], f['def'])]
        if not b:
            return '\n'.join(out + ['  (no body)'])
        out.append('  argc=%s spread=%s %s:%s' % (b['argc'], b['spread'], b['file'], b['line']))
        for i, t in enumerate(b['locals']):
            out.append('  _%d: %s %s' % (i, self.types[t]['s'], b['names'].get(str(i), '')))
        for i, (st, te) in enumerate(b['blocks']):
            out.append(' bb%d:' % i)
            for s in st:
                if s[0] == '=':
                    out.append('    %s = %s' % (self.place(s[1]), self.rvalue(s[2])))
                elif s[0] not in ('live', 'dead'):
                    out.append('    %s' % s)
            out.append('    ' + self.term(te))
        return '\n'.join(out)


if __name__ == '__main__':
    import sys
    from .extract import extract
    p = Prog(extract())
    for pat in sys.argv[1:]:
        for i, f in enumerate(p.fns):
            if pat == str(i) or (not pat.isdigit() and pat in f['name']):
                print(p.dump(i))
