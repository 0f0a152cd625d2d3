#!/usr/bin/env python3
"""Planted bugs and benign edits, tried in parallel in scratch copies (so /repo stays as it is).

  pool.py seeds [ids...]          each seeded bug against the check of its property
  pool.py benign [ids...]         each benign edit against the checks of the part it touches
"""
import json, os, queue, sys, threading, time
import mutate
from mutate import run, setup, ROOT
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import benign

BASE = mutate.BASE = '/tmp/pool%d' % os.getpid()


def check(d, p):
    t = time.time()
    rc, o = run('python3 check.py --property ' + p, d + '/verif', 900, dict(os.environ))
    if time.time() - t > float(os.environ.get("POOL_SLOW", 300)):
        print('      slow: %s %d s' % (p, time.time() - t), flush=True)
    v = [l.strip()[:230] for l in o.splitlines() if l.startswith('  ')]
    und = [l[:230] for l in o.splitlines() if 'not decided' in l]
    return rc, 'VIOLATION property=' + p in o, v, und, o


def worker(w, q, mode, lock):
    d = setup(w)
    env = dict(os.environ, CARGO_TARGET_DIR=d + '/target')
    while True:
        try:
            i = q.get_nowait()
        except queue.Empty:
            return
        run('git checkout -q -f HEAD && git clean -fdq src', d + '/repo', 60)
        if mode == 'seeds':
            s = os.path.join(ROOT, 'seeded', i)
            prop = json.load(open(s + '/meta.json'))['property']
            rc, o = run('git apply %s/patch.diff' % s, d + '/repo', 60)
            if rc:
                msg = '%s does not apply %s' % (i, o)
            else:
                rc, viol, v, und, o = check(d, prop)
                msg = '%-6s %s %-6s rc=%d %s' % (i, prop, 'CAUGHT' if rc == 1 and viol else 'missed', rc, (v or und or [o[-300:]])[0])
        else:
            parts, edits = benign.ALL[i]
            benign.apply(edits, d + '/repo')
            rc, o = run('cargo test --offline -q --lib 2>&1', d + '/repo', 300, env)
            if rc:
                msg = '%s DOES NOT BUILD OR PASS %s' % (i, o[-1500:])
            else:
                only = os.environ.get('POOL_PROPS', parts).split()
                res = [(p,) + check(d, p) for p in parts.split() if p in only]
                bad = [r for r in res if r[1]]
                u = [r for r in res if r[4]]
                msg = '%-6s %s %s' % (i, 'ALARM' if bad else 'QUIET', 'und' if u else '')
                for r in bad:
                    msg += '\n      %s rc=%d %s' % (r[0], r[1], r[3][:3] or r[5][-500:])
                for r in u:
                    msg += '\n      %s %s' % (r[0], r[4][0])
        with lock:
            print(msg, flush=True)


def main():
    mode, ids = sys.argv[1], sys.argv[2:]
    q = queue.Queue()
    for i in ids or sorted(os.listdir(os.path.join(ROOT, 'seeded')) if mode == 'seeds' else benign.ALL):
        q.put(i)
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(w, q, mode, lock)) for w in range(min(7, q.qsize()))]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
import shutil
shutil.rmtree(BASE, ignore_errors=True)
