"""C12, T01: programs the type system has to reject or to accept, each next to an accepted twin."""
import json, os, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from .extract import ROOT, BUILD, _env, ExtractError
from .report import Ctx

PRELUDE = '''#![allow(unused, dead_code)]
use advanced_collections::circular_buffer::{CircularBuffer, Drain, IntoIter, Iter, IterMut};
use advanced_collections::counter::{Counter, FastCounter};
use advanced_collections::disjoint_set::{DisjointSet, FastDisjointSet};
use advanced_collections::interval::{Interval, LowerBound, UpperBound};
use std::cell::Cell;
use std::rc::Rc;
use std::collections::hash_map::RandomState;
fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn use_<T>(t: T) {}
'''

# reject: the line marked with ! makes the program ill-typed (twin: without it); accept: the marked line has to be accepted
R = []
A = []


def rej(name, code, codes):
    R.append((name, code, codes))


def acc(name, code):
    A.append((name, code))


BORROW = ('E0499', 'E0502', 'E0505', 'E0506')
MUT = ('E0596', 'E0594', 'E0308', 'E0277')
ESC = ('E0515', 'E0597', 'E0716', 'E0106', 'E0505', 'E0499', 'E0502')

# --- circular buffer: a view keeps the buffer borrowed ---
_views = {
    'iter': 'r.iter()', 'iter_mut': 'r.iter_mut()', 'first': 'r.first()', 'first_mut': 'r.first_mut()', 'last': 'r.last()', 'last_mut': 'r.last_mut()',
    'index': '&r[0]', 'index_mut': '&mut r[0]', 'slices': 'r.slices()', 'slices_mut': 'r.slices_mut()', 'linearize': 'r.linearize()', 'drain': 'r.drain()',
    'ref_into_iter': '(&r).into_iter()', 'mut_into_iter': '(&mut r).into_iter()', 'iter_item': 'r.iter().next()', 'iter_mut_item': 'r.iter_mut().next()',
}
for _n, _e in sorted(_views.items()):
    rej('ring/%s/push-while-viewed' % _n, '''fn main() {
    let mut r: CircularBuffer<String> = CircularBuffer::new(2);
    let v = %s;
!   r.push_back(String::new());
    use_(v);
}''' % _e, BORROW)
    rej('ring/%s/drop-while-viewed' % _n, '''fn main() {
    let mut r: CircularBuffer<String> = CircularBuffer::new(2);
    let v = %s;
!   drop(r);
    use_(v);
}''' % _e, BORROW)
    rej('ring/%s/outlives-buffer' % _n, '''fn main() {
!   let keep;
    {
        let mut r: CircularBuffer<String> = CircularBuffer::new(2);
        r.push_back(String::new());
        let v = %s;
!       keep = v;
    }
!   use_(keep);
}''' % _e, ESC)
for _n in ('iter_mut', 'first_mut', 'last_mut', 'index_mut', 'slices_mut', 'linearize', 'drain', 'mut_into_iter', 'iter_mut_item'):
    rej('ring/%s/read-while-mutably-viewed' % _n, '''fn main() {
    let mut r: CircularBuffer<String> = CircularBuffer::new(2);
    let v = %s;
!   use_(r.len());
    use_(v);
}''' % _views[_n], BORROW)
for _n, _e in (('push_back', 'r.push_back(1)'), ('push_front', 'r.push_front(1)'), ('pop_back', 'r.pop_back()'), ('pop_front', 'r.pop_front()'),
               ('clear', 'r.clear()'), ('resize', 'r.resize(3)'), ('iter_mut', 'r.iter_mut()'), ('first_mut', 'r.first_mut()'), ('last_mut', 'r.last_mut()'),
               ('index_mut', '&mut r[0]'), ('slices_mut', 'r.slices_mut()'), ('linearize', 'r.linearize()'), ('swap', 'r.swap(0, 1)'),
               ('reverse', 'r.reverse()'), ('drain', 'r.drain()'), ('append', 'r.append(&mut CircularBuffer::new(1))'), ('extend', 'r.extend(vec![1])')):
    rej('ring/%s/through-shared-reference' % _n, '''fn f(r: &CircularBuffer<i32>) {
    let n = r.len();
!   use_(%s);
}
fn main() {}''' % _e, MUT)
rej('ring/iter/write-through-shared-element', '''fn f(r: &CircularBuffer<i32>) {
    for x in r.iter() {
        use_(x);
!       *x = 1;
    }
}
fn main() {}''', MUT)
rej('ring/slices/write-through-shared-slice', '''fn f(r: &CircularBuffer<i32>) {
    let (a, b) = r.slices();
!   a[0] = 1;
}
fn main() {}''', MUT)
rej('ring/first/write-through-shared-element', '''fn f(r: &CircularBuffer<i32>) {
    let a = r.first().unwrap();
!   *a = 1;
}
fn main() {}''', MUT)
for _n, _a, _b in (('first_mut-last_mut', 'r.first_mut()', 'r.last_mut()'), ('index_mut-index_mut', '&mut r[0]', '&mut r[0]'),
                   ('iter_mut-iter_mut', 'r.iter_mut()', 'r.iter_mut()'), ('slices_mut-index_mut', 'r.slices_mut()', '&mut r[0]'),
                   ('linearize-first_mut', 'r.linearize()', 'r.first_mut()'), ('drain-drain', 'r.drain()', 'r.drain()')):
    rej('ring/%s/two-mutable-views' % _n, '''fn main() {
    let mut r: CircularBuffer<i32> = CircularBuffer::new(2);
    let a = %s;
!   let b = %s; use_(a);
}''' % (_a, _b), BORROW)
rej('ring/elements/outlived-by-buffer', '''fn main() {
    let mut r: CircularBuffer<&i32> = CircularBuffer::new(2);
    {
        let x = 1;
!       r.push_back(&x);
    }
    r.len();
}''', ESC)
rej('ring/elements/dangling-after-pop', '''fn main() {
    let s = String::new();
    let mut r: CircularBuffer<&String> = CircularBuffer::new(2);
    r.push_back(&s);
!   drop(s);
    use_(r.pop_front());
}''', BORROW)
rej('ring/iter_mut/item-moved-out', '''fn f(r: &mut CircularBuffer<String>) {
    for x in r.iter_mut() {
        x.push('a');
!       let y: String = *x;
    }
}
fn main() {}''', ('E0507', 'E0308'))
rej('ring/index/element-moved-out', '''fn f(r: CircularBuffer<String>) {
    let n = r.len();
!   let y: String = r[0];
}
fn main() {}''', ('E0507', 'E0308'))
rej('ring/into_iter/used-after-move', '''fn main() {
    let r: CircularBuffer<String> = CircularBuffer::new(2);
    let v = r.into_iter();
!   r.len();
    use_(v);
}''', ('E0382',))
rej('ring/clone/needs-clone', '''struct N;
fn main() {
    let r: CircularBuffer<N> = CircularBuffer::new(2);
!   let s: CircularBuffer<N> = r.clone();
}''', ('E0599', 'E0277', 'E0308'))

# --- auto traits ---
for _n, _t in (('CircularBuffer', 'CircularBuffer<%s>'), ('Drain', 'Drain<%s>'), ('IntoIter', 'IntoIter<%s>'), ('IterMut', "IterMut<'static, %s>"),
               ('Interval-elements', 'LowerBound<%s>'), ('Interval', 'Interval<%s>'), ('UpperBound', 'UpperBound<%s>'),
               ('Counter', 'Counter<%s, RandomState>'), ('DisjointSet', 'DisjointSet<%s, RandomState>')):
    _t = _t.replace('Drain<', "Drain<'static, ")
    rej('auto/%s/send-needs-send' % _n, 'fn main() {\n!   send::<%s>();\n}' % (_t % 'Rc<i32>'), ('E0277',))
    acc('auto/%s/send' % _n, 'fn main() {\n    use_::<Option<%s>>(None);\n!   send::<%s>();\n}' % (_t % 'i32', _t % 'i32'))
    acc('auto/%s/sync' % _n, 'fn main() {\n    use_::<Option<%s>>(None);\n!   sync::<%s>();\n}' % (_t % 'i32', _t % 'i32'))
    rej('auto/%s/sync-needs-sync' % _n, 'fn main() {\n!   sync::<%s>();\n}' % (_t % 'Rc<i32>'), ('E0277',))
    if _n in ('CircularBuffer', 'Drain', 'IntoIter', 'IterMut'):
        rej('auto/%s/sync-needs-sync-elements' % _n, 'fn main() {\n!   sync::<%s>();\n}' % (_t % 'Cell<i32>'), ('E0277',))
        acc('auto/%s/send-without-sync' % _n, 'fn main() {\n    use_::<Option<%s>>(None);\n!   send::<%s>();\n}' % (_t % 'Cell<i32>', _t % 'Cell<i32>'))
rej('auto/Iter/send-needs-sync', "fn main() {\n!   send::<Iter<'static, Cell<i32>>>();\n}", ('E0277',))
acc('auto/Iter/send', "fn main() {\n!   send::<Iter<'static, i32>>();\n}")

# --- disjoint set ---
_d = '    let mut d: DisjointSet<String> = DisjointSet::new();\n'
for _n, _e in (('sets', '(&mut d).into_iter()'), ('set', '(&mut d).into_iter().next()'), ('element', '(&mut d).into_iter().next().unwrap().next()')):
    rej('set/%s/change-while-viewed' % _n, 'fn main() {\n' + _d + '    let v = %s;\n!   d.make_set(String::new());\n    use_(v);\n}' % _e, BORROW)
    rej('set/%s/clear-while-viewed' % _n, 'fn main() {\n' + _d + '    let v = %s;\n!   d.clear();\n    use_(v);\n}' % _e, BORROW)
    rej('set/%s/drop-while-viewed' % _n, 'fn main() {\n' + _d + '    let v = %s;\n!   drop(d);\n    use_(v);\n}' % _e, BORROW)
    rej('set/%s/outlives-set' % _n, 'fn main() {\n!   let keep;\n    {\n' + _d + '        let v = %s;\n!       keep = v;\n    }\n!   use_(keep);\n}' % _e, ESC)
for _n, _e in (('make_set', 'd.make_set(1)'), ('union', 'd.union(1, 2)'), ('clear', 'd.clear()'), ('extend', 'd.extend(vec![1])')):
    rej('set/%s/through-shared-reference' % _n, 'fn f(d: &DisjointSet<i32>) {\n    use_(d.len());\n!   use_(%s);\n}\nfn main() {}' % _e, MUT)
rej('set/element/write', 'fn f(d: &mut DisjointSet<String>) {\n    for s in d { for e in s {\n        use_(e);\n!       e.push(\'a\');\n    } }\n}\nfn main() {}', MUT)
rej('set/elements/outlived-by-set', 'fn main() {\n    let mut d: DisjointSet<&String> = DisjointSet::new();\n    {\n        let s = String::new();\n!       d.make_set(&s);\n    }\n    use_(d.len());\n}', ESC)

# --- counter ---
_c = '    let mut c: Counter<String> = Counter::new();\n'
for _n, _e in (('iter', '(&c).into_iter()'), ('iter_mut', '(&mut c).into_iter()'), ('item', '(&c).into_iter().next()'), ('map', '&*c'), ('map_mut', '&mut *c')):
    rej('counter/%s/change-while-viewed' % _n, 'fn main() {\n' + _c + '    let v = %s;\n!   c.push(String::new());\n    use_(v);\n}' % _e, BORROW)
    rej('counter/%s/drop-while-viewed' % _n, 'fn main() {\n' + _c + '    let v = %s;\n!   drop(c);\n    use_(v);\n}' % _e, BORROW)
for _n, _e in (('push', 'c.push(1)'), ('extend', 'c.extend(vec![1])'), ('insert', 'c.insert(1, 2)'), ('iter_mut', '(&mut *c).into_iter()')):
    rej('counter/%s/through-shared-reference' % _n, 'fn f(c: &Counter<i32>) {\n    use_(c.len());\n!   use_(%s);\n}\nfn main() {}' % _e, MUT)
rej('counter/element/write', 'fn f(c: &mut Counter<String>) {\n    for (e, n) in c {\n        *n += 1;\n!       e.push(\'a\');\n    }\n}\nfn main() {}', MUT)
rej('counter/count/write-through-shared', 'fn f(c: &Counter<String>) {\n    for (e, n) in c {\n        use_(n);\n!       *n += 1;\n    }\n}\nfn main() {}', MUT)
rej('counter/elements/outlived-by-counter', 'fn main() {\n    let mut c: Counter<&String> = Counter::new();\n    {\n        let s = String::new();\n!       c.push(&s);\n    }\n    use_(c.len());\n}', ESC)

# --- intervals ---
_i = '    let mut i: Interval<String> = Interval::closed(String::new(), String::new());\n'
for _n, _e in (('lower', 'i.lower()'), ('upper', 'i.upper()'), ('bounds', 'i.bounds()'), ('lower-value', 'i.lower().unwrap().val()'), ('upper-value', 'i.upper().unwrap().val()')):
    rej('interval/%s/change-while-viewed' % _n, 'fn main() {\n' + _i + '    let v = %s;\n!   i.span(Interval::empty());\n    use_(v);\n}' % _e, BORROW)
    rej('interval/%s/drop-while-viewed' % _n, 'fn main() {\n' + _i + '    let v = %s;\n!   drop(i);\n    use_(v);\n}' % _e, BORROW)
    rej('interval/%s/outlives-interval' % _n, 'fn main() {\n!   let keep;\n    {\n' + _i + '        let v = %s;\n!       keep = v;\n    }\n!   use_(keep);\n}' % _e, ESC)
rej('interval/lower-value/write', 'fn f(i: &mut Interval<i32>) {\n    let v = i.lower().unwrap().val();\n!   *v = 5;\n}\nfn main() {}', MUT)
rej('interval/bound-value/write', 'fn f(b: &mut LowerBound<i32>) {\n    let v = b.val();\n!   *v = 5;\n}\nfn main() {}', MUT)
for _n, _e in (('span', 'i.span(Interval::empty())'), ('merge', 'i.merge(Interval::empty())'), ('intersection', 'i.intersection(Interval::empty())'), ('add_assign', '*i += 1')):
    rej('interval/%s/through-shared-reference' % _n, 'fn f(i: &Interval<i32>) {\n    use_(i.is_empty());\n!   %s;\n}\nfn main() {}' % _e, MUT)
rej('interval/into_tuple/used-after-move', 'fn f(i: Interval<String>) {\n    let t = i.into_tuple();\n!   use_(i.is_empty());\n    use_(t);\n}\nfn main() {}', ('E0382',))
rej('interval/bounds/mismatched-kinds', 'fn f(l: LowerBound<i32>, u: UpperBound<i32>, m: LowerBound<i32>) {\n    let w = 1;\n!   use_(Interval::from_bounds(l, m));\n}\nfn main() {}', ('E0308',))

# --- fields cannot be reached: one case per field the types have now ---
TYPES = (('CircularBuffer', 'CircularBuffer<i32>'), ('Drain', "Drain<'_, i32>"), ('IntoIter', 'IntoIter<i32>'), ('Counter', 'Counter<i32>'),
         ('DisjointSet', 'DisjointSet<i32>'), ('Interval', 'Interval<i32>'), ('LowerBound', 'LowerBound<i32>'), ('UpperBound', 'UpperBound<i32>'))


def field_cases(prog):
    out = []
    for name, ty in TYPES:
        for t in prog.types:
            if t.get('crate') == 'advanced_collections' and t.get('def', '').endswith('::' + name) and t['k'] == 'struct':
                for f, _ in t['variants'][0]['fields']:
                    out.append(('fields/%s/%s' % (name, f), 'fn f(x: &mut %s) {\n    let n = 1;\n!   let y = &mut x.%s;\n}\nfn main() {}' % (ty, f), ('E0616', 'E0609', 'E0610')))
                break
    return out


def rustc_lib(tdir):
    """Builds the crate's metadata from the current tree; returns compiler arguments."""
    e = _env()
    e['CARGO_TARGET_DIR'] = tdir
    e['RUSTFLAGS'] = '--cap-lints allow'
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '-q'], cwd=os.path.join(ROOT, 'witness'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    metas = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(tdir, 'debug')) if 'incremental' not in d for f in fs if f.startswith('lib') and f.endswith('.rmeta')]
    m = [f for f in metas if os.path.basename(f).startswith('libadvanced_collections-')]
    if not m:
        raise ExtractError('the crate does not build: ' + r.stdout[-4000:])
    out = ['--extern', 'advanced_collections=' + m[0]]
    for f in metas:
        if os.path.basename(f).startswith('libfnv-'):
            out += ['--extern', 'fnv=' + f]
    for d in sorted({os.path.dirname(f) for f in metas}):
        out += ['-L', 'dependency=' + d]
    return out


def compile_(args, tdir, n, text):
    src = os.path.join(tdir, 'case%d.rs' % n)
    with open(src, 'w') as f:
        f.write(text)
    r = subprocess.run(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'bin', '--emit', 'metadata', '--error-format', 'json', '-o',
                        os.path.join(tdir, 'case%d.rmeta' % n)] + args + [src], env=_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    codes = []
    for l in r.stderr.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get('level') == 'error' and j.get('code'):
            codes.append(j['code']['code'])
        elif j.get('level') == 'error' and not j['message'].startswith('aborting'):
            codes.append(j['message'][:80])
    return r.returncode == 0, codes


def with_line(code):
    return '\n'.join(' ' + l[1:] if l.startswith('!') else l for l in code.split('\n'))


def without_line(code):
    return '\n'.join(l for l in code.split('\n') if not l.startswith('!'))


# --- T01: what the operations ask of the element type ---
T = []


def gen(name, sig, line, pre=''):
    """A generic function whose marked line has to be accepted for every element type with the stated abilities."""
    T.append((name, 'fn f%s {\n%s    let n = 1;\n!   %s;\n}\nfn main() {}' % (sig, ''.join('    %s;\n' % x for x in pre.split(';') if x), line)))


_R = '<T>(mut r: CircularBuffer<T>, x: T, y: T)'
for _n, _e in (('new', 'use_::<CircularBuffer<T>>(CircularBuffer::new(3))'), ('with_capacity', 'use_::<CircularBuffer<T>>(CircularBuffer::with_capacity(3))'),
               ('push_back', 'r.push_back(x)'), ('push_front', 'r.push_front(x)'), ('pop_back', 'use_::<Option<T>>(r.pop_back())'), ('pop_front', 'use_::<Option<T>>(r.pop_front())'),
               ('len', 'use_::<usize>(r.len())'), ('capacity', 'use_::<usize>(r.capacity())'), ('is_empty', 'use_::<bool>(r.is_empty())'), ('is_full', 'use_::<bool>(r.is_full())'),
               ('clear', 'r.clear()'), ('resize', 'r.resize(5)'), ('first', 'use_::<Option<&T>>(r.first())'), ('first_mut', 'use_::<Option<&mut T>>(r.first_mut())'),
               ('last', 'use_::<Option<&T>>(r.last())'), ('last_mut', 'use_::<Option<&mut T>>(r.last_mut())'), ('index', 'use_::<&T>(&r[0])'), ('index_mut', 'use_::<&mut T>(&mut r[0])'),
               ('iter', 'for v in r.iter() { use_::<&T>(v); }'), ('iter_mut', 'for v in r.iter_mut() { use_::<&mut T>(v); }'), ('drain', 'for v in r.drain() { use_::<T>(v); }'),
               ('into_iter', 'for v in r { use_::<T>(v); }'), ('ref_into_iter', 'for v in &r { use_::<&T>(v); }'), ('mut_into_iter', 'for v in &mut r { use_::<&mut T>(v); }'),
               ('slices', 'use_::<(&[T], &[T])>(r.slices())'), ('slices_mut', 'use_::<(&mut [T], &mut [T])>(r.slices_mut())'), ('linearize', 'use_::<&mut [T]>(r.linearize())'),
               ('swap', 'r.swap(0, 1)'), ('reverse', 'r.reverse()'), ('append', 'r.append(&mut CircularBuffer::new(2))'), ('extend', 'r.extend(vec![x, y])'),
               ('extend_iter', 'r.extend(Some(x).into_iter().chain(Some(y)))'), ('from_iter', 'use_::<CircularBuffer<T>>(vec![x, y].into_iter().collect())'),
               ('from_vec', 'use_::<CircularBuffer<T>>(CircularBuffer::from(vec![x, y]))'), ('drop', 'drop(r)'), ('thread', 'use_::<CircularBuffer<Box<dyn FnOnce() -> T>>>(CircularBuffer::new(1))')):
    gen('ring/' + _n, _R, _e)
for _n, _b, _e in (('clone', 'Clone', 'use_::<CircularBuffer<T>>(r.clone())'), ('extend_ref', 'Clone', 'r.extend([x, y].iter())'), ('from_iter_ref', 'Clone', 'use_::<CircularBuffer<T>>([x, y].iter().collect())'),
                   ('eq', 'PartialEq', 'use_::<bool>(r == CircularBuffer::new(1))'), ('eq-slice', 'PartialEq', 'use_::<bool>(r == [x, y][..])'), ('eq-ref-slice', 'PartialEq', 'use_::<bool>(r == &[x, y][..])'),
                   ('partial_cmp', 'PartialOrd', 'use_(r.partial_cmp(&CircularBuffer::new(1)))'), ('lt', 'PartialOrd', 'use_::<bool>(r < CircularBuffer::new(1))'),
                   ('eq-bound', 'Eq', 'fn e<X: Eq>(x: X) {} e(r)'), ('cmp', 'Ord', 'use_(r.cmp(&CircularBuffer::new(1)))'), ('sort-buffers', 'Ord', 'vec![r].sort()')):
    gen('ring/' + _n, _R.replace('<T>', '<T: %s>' % _b, 1), _e)
gen('ring/debug', _R.replace('<T>', '<T: std::fmt::Debug>', 1), 'println!("{:?}", r)')
gen('ring/covariant', "<'a, T>(r: CircularBuffer<&'static T>, t: &'a T)", "fn g<'b, X>(r: CircularBuffer<&'b X>, x: &'b X) {} g::<T>(r, t)")
gen('ring/borrowed-elements', "<'a>(s: &'a str)", "let mut r = CircularBuffer::new(2); r.push_back(s); use_::<Option<&'a str>>(r.pop_front())")
gen('ring/views-live-as-long-as-the-borrow', "<'a, T>(r: &'a CircularBuffer<T>)", "use_::<(Option<&'a T>, Option<&'a T>, &'a T, (&'a [T], &'a [T]), Option<&'a T>)>((r.first(), r.last(), &r[0], r.slices(), r.iter().next()))")
gen('ring/mutable-views-live-as-long-as-the-borrow', "<'a, T>(r: &'a mut CircularBuffer<T>)", "use_::<&'a mut [T]>(r.linearize())")

_I = '<T: Ord>(mut i: Interval<T>, j: Interval<T>, x: T, y: T)'
for _n, _e in (('new', 'use_::<Interval<T>>(Interval::new(x, true, y, false))'), ('from_bounds', 'use_::<Interval<T>>(Interval::from_bounds(LowerBound::new(x, true), UpperBound::new(y, true)))'),
               ('open', 'use_::<Interval<T>>(Interval::open(x, y))'), ('closed', 'use_::<Interval<T>>(Interval::closed(x, y))'), ('lower_closed', 'use_::<Interval<T>>(Interval::lower_closed(x, y))'),
               ('upper_closed', 'use_::<Interval<T>>(Interval::upper_closed(x, y))'), ('empty', 'use_::<Interval<T>>(Interval::empty())'), ('into_tuple', 'use_::<Option<(T, bool, T, bool)>>(i.into_tuple())'),
               ('into_bounds', 'use_::<Option<(LowerBound<T>, UpperBound<T>)>>(i.into_bounds())'), ('upper', 'use_::<Option<&UpperBound<T>>>(i.upper())'), ('lower', 'use_::<Option<&LowerBound<T>>>(i.lower())'),
               ('bounds', 'use_::<Option<(&LowerBound<T>, &UpperBound<T>)>>(i.bounds())'), ('is_empty', 'use_::<bool>(i.is_empty())'), ('is_single', 'use_::<bool>(i.is_single())'),
               ('is_lower_closed', 'use_::<Option<bool>>(i.is_lower_closed())'), ('is_upper_closed', 'use_::<Option<bool>>(i.is_upper_closed())'), ('contains_val', 'use_::<bool>(i.contains_val(&x))'),
               ('contains_interval', 'use_::<bool>(i.contains_interval(&j))'), ('can_be_merged', 'use_::<bool>(i.can_be_merged(&j))'), ('into_merged', 'use_::<Result<Interval<T>, (Interval<T>, Interval<T>)>>(i.into_merged(j))'),
               ('merge', 'use_::<Result<(), Interval<T>>>(i.merge(j))'), ('intersects', 'use_::<bool>(i.intersects(&j))'), ('into_intersection', 'use_::<Interval<T>>(i.into_intersection(j))'),
               ('intersection', 'i.intersection(j)'), ('into_span', 'use_::<Interval<T>>(i.into_span(j))'), ('span', 'i.span(j)'), ('eq', 'use_::<bool>(i == j)'), ('eq-bound', 'fn e<X: Eq>(x: X) {} e(i)'),
               ('lt', 'use_::<bool>(i < j)'), ('partial_cmp', 'use_(i.partial_cmp(&j))'), ('eq-value', 'use_::<bool>(i == x)'), ('lt-value', 'use_::<bool>(i < x)'),
               ('lower-bound', 'use_::<bool>(LowerBound::new(x, true) < LowerBound::new(y, false))'), ('upper-bound', 'use_::<bool>(UpperBound::new(x, true) < UpperBound::new(y, false))'),
               ('lower-bound-cmp', 'use_(LowerBound::new(x, true).cmp(&LowerBound::new(y, false)))'), ('upper-bound-cmp', 'use_(UpperBound::new(x, true).cmp(&UpperBound::new(y, false)))'),
               ('bounds-cmp', 'use_::<bool>(LowerBound::new(x, true) < UpperBound::new(y, false))'), ('bounds-cmp-2', 'use_::<bool>(UpperBound::new(x, true) < LowerBound::new(y, false))'),
               ('lower-bound-value', 'use_::<bool>(LowerBound::new(x, true) < y)'), ('upper-bound-value', 'use_::<bool>(UpperBound::new(x, true) < y)'),
               ('lower-bound-parts', 'use_::<(T, bool)>(LowerBound::new(x, true).into_tuple())'), ('lower-bound-closed', 'use_::<bool>(LowerBound::new(x, true).is_closed())'), ('upper-bound-closed', 'use_::<bool>(UpperBound::new(x, true).is_closed())'), ('upper-bound-parts', 'use_::<(T, bool)>(UpperBound::new(x, true).into_tuple())'),
               ('is_separated_from', 'use_::<bool>(LowerBound::new(x, true).is_separated_from(&UpperBound::new(y, true)))')):
    gen('interval/' + _n, _I, _e)
for _n, _b, _e in (('single', 'Clone', 'use_::<Interval<T>>(Interval::single(x))'), ('clone', 'Clone', 'use_::<Interval<T>>(i.clone())'), ('copy', 'Copy', 'use_((i, i))'), ('hash', 'std::hash::Hash', 'fn h<X: std::hash::Hash>(x: X) {} h(i)'),
                   ('debug', 'std::fmt::Debug', 'println!("{:?}", i)'), ('display', 'std::fmt::Display', 'println!("{}", i)'), ('neg', 'std::ops::Neg<Output = T>', 'use_::<Interval<T>>(-i)'),
                   ('add_assign', 'std::ops::AddAssign + Clone', 'i += x'), ('sub_assign', 'std::ops::SubAssign + Clone', 'i -= x'), ('mul_assign', 'std::ops::MulAssign + Clone', 'i *= x'), ('div_assign', 'std::ops::DivAssign + Clone', 'i /= x'),
                   ('hash-lower', 'std::hash::Hash', 'fn h<X: std::hash::Hash>(x: X) {} h(LowerBound::new(x, true))'), ('copy-upper', 'Copy', 'let b = UpperBound::new(x, true); use_((b, b))')):
    gen('interval/' + _n, _I.replace('T: Ord', 'T: Ord + ' + _b, 1), _e)
for _n, _o, _t in (('add', '+', 'Add'), ('sub', '-', 'Sub'), ('mul', '*', 'Mul'), ('div', '/', 'Div')):
    gen('interval/' + _n, _I.replace('<T: Ord>', '<U: Clone, T: Ord + std::ops::%s<U, Output = T>>' % _t, 1).replace('y: T', 'y: T, u: U'), 'use_::<Interval<T>>(i %s u)' % _o)
    gen('interval/%s-bound' % _n, _I.replace('<T: Ord>', '<U, T: Ord + std::ops::%s<U, Output = T>>' % _t, 1).replace('y: T', 'y: T, u: U'), 'use_::<LowerBound<T>>(LowerBound::new(x, true) %s u)' % _o)
    gen('interval/%s_assign-bound' % _n, _I.replace('<T: Ord>', '<U, T: Ord + std::ops::%sAssign<U>>' % _t, 1).replace('y: T', 'y: T, u: U'), 'let mut b = UpperBound::new(x, true); b %s= u' % _o)
gen('interval/views-live-as-long-as-the-borrow', "<'a, T: Ord>(i: &'a Interval<T>)", "use_::<Option<&'a T>>(i.lower().map(|b| b.val()))")

_H = '<T: std::hash::Hash + Eq, S: std::hash::BuildHasher, S2: std::hash::BuildHasher>'
_K = _H + '(mut c: Counter<T, S>, d: Counter<T, S2>, h: S, h2: S2, x: T, y: T)'
for _n, _e in (('with_hasher', 'use_::<Counter<T, S>>(Counter::with_hasher(h))'), ('with_capacity_and_hasher', 'use_::<Counter<T, S>>(Counter::with_capacity_and_hasher(5, h))'),
               ('from_hashmap', 'use_::<Counter<T, S>>(Counter::from_hashmap(std::collections::HashMap::with_hasher(h)))'), ('into_most_common', 'use_::<Vec<(T, usize)>>(c.into_most_common())'),
               ('push', 'c.push(x)'), ('extend', 'c.extend(vec![x, y])'), ('into_iter', 'for (k, v) in c { use_::<(T, usize)>((k, v)); }'), ('ref_into_iter', 'for (k, v) in &c { use_::<(&T, &usize)>((k, v)); }'),
               ('mut_into_iter', 'for (k, v) in &mut c { use_::<(&T, &mut usize)>((k, v)); }'), ('deref', 'use_::<&std::collections::HashMap<T, usize, S>>(&*c)'),
               ('deref_mut', 'use_::<&mut std::collections::HashMap<T, usize, S>>(&mut *c)'), ('add', 'use_::<Counter<T, S>>(c + d)'), ('add_assign', 'c += d'), ('sub', 'use_::<Counter<T, S>>(c - d)'), ('sub_assign', 'c -= d')):
    gen('counter/' + _n, _K, _e)
for _n, _b, _e in (('most_common', 'Clone', 'use_::<Vec<(T, usize)>>(c.most_common())'), ('add-ref', 'Clone', 'use_::<Counter<T, S>>(c + &d)'), ('add_assign-ref', 'Clone', 'c += &d'),
                   ('sub_assign-ref', 'Clone', 'c -= &d'), ('sub-ref', 'Clone', 'use_::<Counter<T, S>>(c - &d)'), ('extend_ref', 'Copy', 'c.extend([x, y].iter())')):
    gen('counter/' + _n, _K.replace('Hash + Eq', 'Hash + Eq + ' + _b, 1), _e)
for _n, _b, _e in (('new', '', 'use_::<Counter<T, S>>(Counter::new())'), ('with_capacity', '', 'use_::<Counter<T, S>>(Counter::with_capacity(4))'), ('default', '', 'use_::<Counter<T, S>>(Default::default())'),
                   ('from_iter', '', 'use_::<Counter<T, S>>(vec![x, y].into_iter().collect())'),
                   ('from_map', '', 'let m = std::collections::HashMap::<T, usize, S2>::with_hasher(h2); use_::<Counter<T, S>>(Counter::from(m))'),
                   ('from_map_ref', ' + Clone', 'let m = std::collections::HashMap::<T, usize, S2>::with_hasher(h2); use_::<Counter<T, S>>(Counter::from(&m))'), ('from_iter_ref', ' + Clone', 'use_::<Counter<T, S>>([x, y].iter().collect())')):
    gen('counter/' + _n, _K.replace('S: std::hash::BuildHasher', 'S: std::hash::BuildHasher + Default', 1).replace('Hash + Eq', 'Hash + Eq' + _b, 1), _e)
gen('counter/eq', _K.replace('S: std::hash::BuildHasher', 'S: std::hash::BuildHasher + PartialEq', 1), 'use_::<bool>(c == Counter::with_hasher(h))')
gen('counter/clone', _K.replace('S: std::hash::BuildHasher', 'S: std::hash::BuildHasher + Clone', 1).replace('Hash + Eq', 'Hash + Eq + Clone', 1), 'use_::<Counter<T, S>>(c.clone())')
gen('counter/debug', _K.replace('S: std::hash::BuildHasher', 'S: std::hash::BuildHasher + std::fmt::Debug', 1).replace('Hash + Eq', 'Hash + Eq + std::fmt::Debug', 1), 'println!("{:?}", c)')
gen('counter/borrowed-elements', "<'a>(s: &'a str)", "let mut c: Counter<&'a str> = Counter::new(); c.push(s); c.get(s)")

_D = _H + '(mut d: DisjointSet<T, S>, h: S, h2: S2, x: T, y: T)'
for _n, _e in (('with_hasher', 'use_::<DisjointSet<T, S>>(DisjointSet::with_hasher(h))'), ('with_capacity_and_hasher', 'use_::<DisjointSet<T, S>>(DisjointSet::with_capacity_and_hasher(5, h))'),
               ('make_set', 'd.make_set(x)'), ('union', 'd.union(x, y)'), ('contains', 'use_::<bool>(d.contains(&x))'), ('in_union', 'use_::<bool>(d.in_union(&x, &y))'), ('is_empty', 'use_::<bool>(d.is_empty())'),
               ('len', 'use_::<usize>(d.len())'), ('clear', 'd.clear()'), ('reserve', 'd.reserve(4)'), ('extend', 'd.extend(vec![x, y])'), ('iterate', 'for s in &mut d { for e in s { use_::<&T>(e); } }')):
    gen('set/' + _n, _D, _e)
for _n, _b, _e in (('new', '', 'use_::<DisjointSet<T, S>>(DisjointSet::new())'), ('with_capacity', '', 'use_::<DisjointSet<T, S>>(DisjointSet::with_capacity(4))'), ('default', '', 'use_::<DisjointSet<T, S>>(Default::default())'),
                   ('from_iter', '', 'use_::<DisjointSet<T, S>>(vec![x, y].into_iter().collect())'), ('from_iter_ref', ' + Clone', 'use_::<DisjointSet<T, S>>([x, y].iter().collect())')):
    gen('set/' + _n, _D.replace('S: std::hash::BuildHasher', 'S: std::hash::BuildHasher + Default', 1).replace('Hash + Eq', 'Hash + Eq' + _b, 1), _e)
gen('set/extend_ref', _D.replace('Hash + Eq', 'Hash + Eq + Copy', 1), 'd.extend([x, y].iter())')
gen('set/clone', _D.replace('S: std::hash::BuildHasher', 'S: std::hash::BuildHasher + Clone', 1).replace('Hash + Eq', 'Hash + Eq + Clone', 1), 'use_::<DisjointSet<T, S>>(d.clone())')
gen('set/debug', _D.replace('S: std::hash::BuildHasher', 'S: std::hash::BuildHasher + std::fmt::Debug', 1).replace('Hash + Eq', 'Hash + Eq + std::fmt::Debug', 1), 'println!("{:?}", d)')
gen('set/elements-live-as-long-as-the-borrow', "<'a>(d: &'a mut DisjointSet<String>)", "use_::<Vec<&'a String>>(d.into_iter().flatten().collect())")
gen('set/values-of-any-lifetime', "<'a>(d: &mut DisjointSet<&'a str>, s: &str, t: &'a str)", 'd.make_set(t); d.contains(&s)')
gen('set/borrowed-elements', "<'a>(s: &'a str)", "let mut d: DisjointSet<&'a str> = DisjointSet::new(); d.union(s, s); d.contains(&s)")


# --- which hasher a collection uses when none is named ---
H = []
for _c in ('Counter', 'DisjointSet'):
    _f = 'Fast' + _c
    H += [('acc', _c + '/default-hasher', """fn f<T: std::hash::Hash + Eq>(c: %s<T>) {
!   use_::<%s<T, RandomState>>(c)
}
fn main() {}""" % (_c, _c), ()),
          ('acc', _c + '/default-hasher-by-reference', """fn f<T: std::hash::Hash + Eq>(c: &mut %s<T>) {
!   let d: &mut %s<T, std::collections::hash_map::RandomState> = c;
}
fn main() {}""" % (_c, _c), ()),
          ('acc', _f + '/hasher', """fn f<T: std::hash::Hash + Eq>(c: %s<T>) {
!   use_::<%s<T, fnv::FnvBuildHasher>>(c)
}
fn main() {}""" % (_f, _c), ()),
          ('rej', _f + '/is-not-the-default', """fn f<T: std::hash::Hash + Eq>(c: %s<T>) {
!   use_::<%s<T>>(c)
}
fn main() {}""" % (_f, _c), ('E0308',)),
          ('acc', _c + '/made-with-default-hasher', """fn f<T: std::hash::Hash + Eq>(c: %s<T>, x: T) -> bool {
!   let n = <%s<T>>::new(); let d: %s<T> = Default::default(); let m: %s<T> = vec![x].into_iter().collect(); let k = <%s<T>>::with_capacity(3);
    true
}
fn main() {}""" % ((_c,) * 5), ()),
          ('acc', _f + '/made-with-its-hasher', """fn f<T: std::hash::Hash + Eq>(c: %s<T>, x: T) -> bool {
!   let n = <%s<T>>::new(); let d: %s<T> = Default::default(); let m: %s<T> = vec![x].into_iter().collect(); let k = <%s<T>>::with_capacity(3);
    true
}
fn main() {}""" % ((_f,) * 5), ())]
    # the hasher is part of the type: no operation swaps it for another one
    for _n, _e in (('clone', 'c.clone()'), ('take', 'std::mem::take(&mut c)')):
        H += [('acc', '%s/%s-keeps-the-hasher-type' % (_c, _n), """fn f<T: std::hash::Hash + Eq + Clone, S: std::hash::BuildHasher + Clone + Default>(mut c: %s<T, S>) {
!   use_::<%s<T, S>>(%s)
}
fn main() {}""" % (_c, _c, _e), ())]
for _n, _e, _t in (('deref', '&c', '&HashMap<T, usize, S>'), ('from_hashmap', 'Counter::from_hashmap(m)', 'Counter<T, S>'),
                   ('add', 'c + d', 'Counter<T, S>'), ('add-reference', 'c + &d', 'Counter<T, S>'), ('sub', 'c - d', 'Counter<T, S>'), ('sub-reference', 'c - &d', 'Counter<T, S>')):
    H += [('acc', 'Counter/%s-keeps-the-hasher-type' % _n, """use std::collections::HashMap;
fn f<T: std::hash::Hash + Eq + Clone, S: std::hash::BuildHasher + Clone, S2: std::hash::BuildHasher + Clone>(c: Counter<T, S>, d: Counter<T, S2>, m: HashMap<T, usize, S>) {
!   use_::<%s>(%s)
}
fn main() {}""" % (_t, _e), ())]


def H01(ctx):
    witnesses(ctx, 'H01', H)


def C12(ctx):
    witnesses(ctx, 'C12', [('rej',) + c for c in R] + [('rej',) + c for c in field_cases(ctx.prog)] + [('acc', n, c, ()) for n, c in A])


def T01(ctx):
    witnesses(ctx, 'T01', [('acc', n, c, ()) for n, c in T])


def witnesses(ctx, prop, cases):
    tdir = tempfile.mkdtemp(prefix='types-', dir=BUILD)
    try:
        args = rustc_lib(tdir)
        jobs = []
        with ThreadPoolExecutor(8) as ex:
            for i, (kind, name, code, codes) in enumerate(cases):
                a = ex.submit(compile_, args, tdir, 2 * i, PRELUDE + with_line(code))
                b = ex.submit(compile_, args, tdir, 2 * i + 1, PRELUDE + without_line(code))
                jobs.append((kind, name, code, codes, a, b))
            for kind, name, code, codes, a, b in jobs:
                key = '%s/%s' % (prop, name)
                (ok, why), (twin, twhy) = a.result(), b.result()
                line = [l[1:].strip() for l in code.split('\n') if l.startswith('!')]
                line = ' '.join(line)
                if not twin:
                    ctx.undecided(key, 'the accepted twin does not compile: %s' % twhy[:2])
                elif kind == 'rej':
                    if ok:
                        ctx.violation(key, 'the compiler accepts `%s`' % line, 'witness program', [('program', l) for l in code.split('\n')])
                    elif not set(why) & set(codes):
                        ctx.undecided(key, 'rejected for another reason: %s' % why[:2])
                    else:
                        ctx.ok(key)
                elif ok:
                    ctx.ok(key)
                else:
                    ctx.violation(key, 'the compiler rejects `%s` (%s)' % (line, ', '.join(why[:2])), 'witness program', [('program', l) for l in code.split('\n')])
        ctx.extra['programs_compiled'] = 2 * len(cases)
        ctx.extra['witnesses'] = {'must_be_rejected': len([c for c in cases if c[0] == 'rej']), 'must_be_accepted': len([c for c in cases if c[0] == 'acc'])}
    finally:
        shutil.rmtree(tdir, ignore_errors=True)
