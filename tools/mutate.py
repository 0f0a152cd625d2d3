#!/usr/bin/env python3
"""Mutation sweep: change /repo's source in scratch copies, one token at a time; a mutant that builds and passes the tests is
given to the checks (run from a scratch copy of /verif that looks at the scratch copy). Development aid; no check uses it.

  mutate.py list [file-substring]         number of mutants per file
  mutate.py run OUT.jsonl [file-substr] [--op NAME] [--sample N]
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '/tmp/mut'
GROUP = {'circular_buffer': ['C01', 'C03', 'C04', 'C06', 'C05', 'C07', 'C08', 'C09', 'C10', 'C11', 'C02', 'C12'],
         'interval': ['I01', 'I02', 'I03', 'I04', 'I05', 'I06', 'I07', 'I08', 'I09', 'I10', 'I11', 'C12'],
         'counter': ['K01', 'K02', 'K03', 'K04', 'K05', 'D05', 'C12'],
         'disjoint_set': ['D01', 'D02', 'D04', 'D05', 'D03', 'C12']}

SWAP = [('self', 'other'), ('self', 'rhs'), ('self', 'o'), ('front', 'back'), ('lower', 'upper'), ('Less', 'Greater'), ('Less', 'Equal'), ('Greater', 'Equal'),
        ('min', 'max'), ('start', 'end'), ('a', 'b'), ('pop_front', 'pop_back'), ('push_front', 'push_back'), ('true', 'false'),
        ('first', 'second'), ('left', 'right'), ('ab', 'ba'), ('size', 'start'), ('size', 'capacity'), ('len', 'capacity'), ('is_empty', 'is_full'),
        ('lower_bound', 'upper_bound'), ('le', 'lt'), ('ge', 'gt'), ('le', 'ge'), ('lt', 'gt'), ('all', 'any'), ('Some', 'Ok'), ('f', 's'),
        ('closed', 'open'), ('lower_closed', 'upper_closed'), ('is_closed', 'is_open'), ('LowerBound', 'UpperBound'), ('next', 'next_back'), ('idx', 'idx2'),
        ('saturating_sub', 'wrapping_sub'), ('eq', 'ne'), ('and', 'or'), ('parent', 'size'), ('x', 'y'), ('take', 'skip'), ('checked_sub', 'checked_add'),
        ('i', 'start'), ('l', 'u'), ('sl', 'su'), ('key', 'value')]
OPS = [(' == ', ' != '), (' != ', ' == '), (' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' < ', ' > '), (' > ', ' < '), (' <= ', ' >= '), (' >= ', ' <= '),
       (' + ', ' - '), (' - ', ' + '), (' += ', ' -= '), (' -= ', ' += '), (' += ', ' = '), (' -= ', ' = '), (' % ', ' / '), (' * ', ' + '), (' / ', ' * '),
       (' && ', ' || '), (' || ', ' && '), (' += ', ' *= ')]


def code_spans(text):
    """Offsets of code (not comments, strings, attributes); stops at the test module."""
    m = re.search(r'#\[cfg\(test\)\]\s*mod ', text)
    end = m.start() if m else len(text)
    mask = bytearray(b'\1' * end)
    for m in re.finditer(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"|#!?\[[^\]]*\]', text[:end], re.S):
        for i in range(m.start(), m.end()):
            mask[i] = 0
    return mask, end


def mutants(path, text):
    mask, end = code_spans(text)
    ok = lambda a, b: all(mask[a:b])
    out = []

    def add(op, a, b, new):
        if b <= end and ok(a, b) and text[a:b] != new:
            out.append((op, a, b, new))
    for o, n in OPS:
        i = text.find(o, 0, end)
        while i >= 0:
            add('op', i, i + len(o), n)
            i = text.find(o, i + 1, end)
    for x, y in SWAP:
        for p, q in ((x, y), (y, x)):
            for m in re.finditer(r'(?<![\w])' + p + r'(?!\w)', text[:end]):
                add('swap', m.start(), m.end(), q)
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', text[:end]):
        v = int(m.group(1))
        for n in {v + 1, max(v - 1, 0)} - {v}:
            add('lit', m.start(), m.end(), str(n))
    for m in re.finditer(r'!(?=[\w(])', text[:end]):
        if text[m.start() - 1] in ' (|&{':
            add('not', m.start(), m.end(), '')
    for m in re.finditer(r'\bif ((?!let)[^{;]+?) \{', text[:end]):
        for n in ('true', 'false', '!(' + m.group(1) + ')'):
            add('if', m.start(1), m.end(1), n)
    # statements
    for m in re.finditer(r'^[ ]{8,}(?!let |//|use |return|\}|pub |fn |impl|where|type )([^\n]*;)\n', text[:end], re.M):
        s = m.start(1) if m.group(1) else m.start()
        a = m.start() + len(m.group(0)) - len(m.group(0).lstrip())
        add('del', a, m.end() - 1, '')
    # adjacent statements exchanged
    lines = [(m.start(), m.end()) for m in re.finditer(r'[^\n]*\n', text[:end])]
    for (a, b), (c, d) in zip(lines, lines[1:]):
        l1, l2 = text[a:b], text[c:d]
        if l1.rstrip().endswith(';') and l2.rstrip().endswith(';') and len(l1) - len(l1.lstrip()) == len(l2) - len(l2.lstrip()) >= 8:
            add('xchg', a, d, l2 + l1)
    # method calls dropped: .rev() and the like
    for m in re.finditer(r'\.(rev|clone|cloned|copied|is_none|is_some|is_empty|not|abs|neg|skip|take|unwrap|as_ref|reverse)\([^()]*\)', text[:end]):
        add('call', m.start(), m.end(), '')
    # early return in front of a body of a unit function; a constant in front of a bool function
    for m in re.finditer(r'\bfn \w+(?:<[^>{]*>)?\([^{;]*?\{\n', text[:end], re.S):
        h = m.group(0)
        r = re.search(r'->\s*([^{]+?)\s*(where[^{]*)?\{\n$', h, re.S)
        if r is None:
            add('body', m.end() - 1, m.end(), '\n if true { return; }\n')
        elif r.group(1).strip() == 'bool':
            add('body', m.end() - 1, m.end(), '\n if true { return true; }\n')
            add('body', m.end() - 1, m.end(), '\n if true { return false; }\n')
        elif r.group(1).strip().startswith('Option<'):
            add('body', m.end() - 1, m.end(), '\n if true { return None; }\n')
    # operands exchanged around an operator
    for m in re.finditer(r'(?<![\w.])([\w.]+(?:\([\w.]*\))?) (-|<|<=|>|>=|/|%) ([\w.]+(?:\([\w.]*\))?)(?![\w(.])', text[:end]):
        add('operands', m.start(), m.end(), '%s %s %s' % (m.group(3), m.group(2), m.group(1)))
    # arguments exchanged
    for m in re.finditer(r'\((&?(?:mut )?[\w.]+), (&?(?:mut )?[\w.]+)\)', text[:end]):
        add('args', m.start(), m.end(), '(%s, %s)' % (m.group(2), m.group(1)))
    # match arms: right-hand sides of adjacent one-line arms exchanged
    arms = [m for m in re.finditer(r'^( +)([^\n=]+) => ([^\n{]+),\n', text[:end], re.M)]
    for p, q in zip(arms, arms[1:]):
        if p.end() == q.start():
            add('arms', p.start(3), q.end(3), q.group(3) + text[p.end(3):q.start(3)] + p.group(3))
            add('arms', p.start(3), p.end(3), q.group(3))
            add('arms', q.start(3), q.end(3), p.group(3))
    # calls replaced by similar ones
    for x, y in (('get_unchecked', 'get'), ('partial_cmp', 'cmp'), ('saturating_sub', 'wrapping_sub'), ('mem::replace', 'mem::swap'), ('or_insert', 'insert')):
        pass
    seen = set()
    res = []
    for o in out:
        k = o[1:]
        if k not in seen:
            seen.add(k)
            res.append(o)
    return res


def files(sub):
    r = []
    for d, _, fs in os.walk('/repo/src'):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith('.rs') and f not in ('lib.rs',) and sub in p:
                r.append(os.path.relpath(p, '/repo'))
    return sorted(r)


def run(cmd, cwd, timeout, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env, start_new_session=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def setup(w):
    d = '%s/w%d' % (BASE, w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    run('cp -a /repo %s/repo' % d, '/', 100)
    os.makedirs(d + '/verif')
    run('cp -a %s/vp %s/driver %s/witness %s/check.py %s/known_findings.json %s/properties.jsonl %s/verif/ && mkdir -p %s/verif/build && cp -a %s/build/driver-* %s/verif/build/' % (ROOT, ROOT, ROOT, ROOT, ROOT, ROOT, d, d, ROOT, d), '/', 100)
    run(r"grep -rlE '/repo' %s/verif --include=*.py --include=Cargo.toml | xargs sed -i 's#/repo#%s/repo#g'" % (d, d), '/', 100)
    return d


def worker(w, q, out, lock):
    d = setup(w)
    env = dict(os.environ, CARGO_TARGET_DIR=d + '/target')
    while True:
        try:
            n, f, (op, a, b, new) = q.get_nowait()
        except queue.Empty:
            break
        p = d + '/repo/' + f
        text = open('/repo/' + f).read()
        open(p, 'w').write(text[:a] + new + text[b:])
        line = text.count('\n', 0, a) + 1
        rec = {'n': n, 'file': f, 'line': line, 'op': op, 'old': text[a:b], 'new': new, 'src': text[text.rfind('\n', 0, a) + 1:text.find('\n', b)].strip()[:160]}
        rc, o = run('cargo test --offline -q --lib 2>&1', d + '/repo', 60, env)
        if rc == 0:
            rc, o = run('cargo test --offline -q --doc 2>&1', d + '/repo', 120, env)
        if 'error: could not compile' in o or 'error[E' in o and rc:
            rec['res'] = 'nobuild'
        elif rc:
            rec['res'] = 'killed'
        else:
            rec['res'] = 'survived'
            rec['checks'] = {}
            g = f.split('/')[1]
            for c in GROUP[g]:
                rc, o = run('python3 check.py --property ' + c, d + '/verif', 900, dict(os.environ, VERIF_TIER='quick'))
                if rc or 'undecided' in o.lower():
                    rec['checks'][c] = [rc, o.strip()[:300]]
                if rc == 1 and 'VIOLATION' in o:
                    rec['res'] = 'caught'
                    break
        open(p, 'w').write(text)
        with lock:
            with open(out, 'a') as fo:
                fo.write(json.dumps(rec) + '\n')


def main():
    if sys.argv[1] == 'list':
        t = 0
        for f in files(sys.argv[2] if len(sys.argv) > 2 else ''):
            m = mutants(f, open('/repo/' + f).read())
            t += len(m)
            print(f, len(m))
        print(t)
        return
    out = sys.argv[2]
    rest = sys.argv[3:]
    sample = None
    opn = None
    if '--sample' in rest:
        i = rest.index('--sample'); sample = int(rest[i + 1]); del rest[i:i + 2]
    if '--op' in rest:
        i = rest.index('--op'); opn = rest[i + 1]; del rest[i:i + 2]
    todo = []
    n = 0
    for f in files(rest[0] if rest else ''):
        for m in mutants(f, open('/repo/' + f).read()):
            n += 1
            if opn is None or m[0] == opn:
                todo.append((n, f, m))
    random.seed(1)
    random.shuffle(todo)
    if sample:
        todo = todo[:sample]
    done = set()
    if os.path.exists(out):
        done = {(r['file'], r['n']) for r in map(json.loads, open(out))}
    q = queue.Queue()
    for t in todo:
        if (t[1], t[0]) not in done:
            q.put(t)
    print(q.qsize(), 'mutants')
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(w, q, out, lock)) for w in range(int(os.environ.get('WORKERS', '8')))]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    main()
