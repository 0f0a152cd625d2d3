#!/usr/bin/env python3
"""Which planted bugs change lines of the original repository (rather than ones that the fix commits added)?"""
import os, re, subprocess, sys
BASE = '1d4d4b0'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
blame = {}


def old(f, n):
    if f not in blame:
        o = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', f], capture_output=True, text=True).stdout
        blame[f] = [l.startswith('^' + BASE) for l in o.splitlines()]
    return 1 <= n <= len(blame[f]) and blame[f][n - 1]


for i in sorted(os.listdir(ROOT + '/seeded')):
    f, n, good, ins = None, 0, 0, False
    for l in open('%s/seeded/%s/patch.diff' % (ROOT, i)):
        if l.startswith('--- a/'):
            f = l[6:].strip()
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            good += old(f, n) and l[1:].strip() != ''
            n += 1
        elif l.startswith('+') and not l.startswith('+++'):
            good += old(f, n) and old(f, n - 1)
        elif l.startswith(' '):
            n += 1
    if not good:
        print(i, 'changes no line of the original repository')
