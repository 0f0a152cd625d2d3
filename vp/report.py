"""Obligations, verdicts, evidence."""
import json, os, time
from .state import *
from .dom import Lin
from .interp import Engine, Out

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Bad(Exception):
    """Raised by a checking function: the obligation does not hold on this path."""


class Undecided(Exception):
    """Raised by a checking function: the result is not in a form the checker understands."""


class Ctx:
    """Collects the obligations of one property."""

    def __init__(self, prog, prop, tier='quick', seed=1):
        self.prog = prog
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.obs = {}          # key -> [paths, ok, violations, undecided]
        self.viol = {}         # key -> (message, where, trace)
        self.und = {}
        self.missing = []
        self.fns = set()
        self.paths = 0
        self.notes = []
        self.rules = {}
        self.unmodelled = {}
        self.bnd = {}
        self.t0 = time.time()
        self.extra = {}
        self.on_violation = None
        self.build = 'debug'
        self.builds = ['debug']
        self.crate_fns = set()

    def use_build(self, prog, build):
        """Go on with the same tree as compiled by another kind of build."""
        self.crate_fns |= self.crate_functions()
        self.n_fns = max(getattr(self, 'n_fns', 0), len(self.fns))
        self.fns = set()
        self.prog = prog
        self.build = build
        self.builds.append(build)

    def crate_functions(self):
        return {self.prog.fns[k]['def'] for k in self.fns if '/repo/' in (self.prog.fns[k]['body'] or {}).get('file', '')}

    def engine(self, **kw):
        e = Engine(self.prog, **kw)
        e.ctx = self
        return e

    def absorb(self, eng):
        """Account for what an engine analysed."""
        self.fns |= eng.used_fns
        for k, v in eng.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v

    def rec(self, key):
        r = self.obs.get(key)
        if r is None:
            r = self.obs[key] = [0, 0, 0, 0]
        return r

    def ok(self, key):
        r = self.rec(key)
        r[0] += 1
        r[1] += 1
        self.paths += 1

    def violation(self, key, msg, where='', trace=()):
        r = self.rec(key)
        r[0] += 1
        r[2] += 1
        self.paths += 1
        if key not in self.viol:
            if self.build != 'debug':
                msg += ' (in a release build)' if self.build == 'release' else \
                    ' (with the large constants of the code made small: %s)' % ', '.join('%s -> %s' % x for x in sorted(self.prog.scaling.items()))
            self.viol[key] = (msg, where, tuple(trace))
            if self.on_violation and key not in self.known():
                self.on_violation()
                self.on_violation = None

    def undecided(self, key, why):
        r = self.rec(key)
        r[0] += 1
        r[3] += 1
        self.paths += 1
        d = self.und.setdefault(key, {})
        d[why] = d.get(why, 0) + 1

    # ---- verdict on a path ----
    def path_bad(self, key, st, msg, where=None):
        if st.taint:
            self.undecided(key, '; '.join(sorted(st.taint))[:300])
        else:
            self.violation(key, msg, where or '', st.trace)

    def check(self, eng, key, st, fn, refine=None):
        """Evaluate fn(state) on a finished path (splitting on open questions); Bad is a violation."""
        def go(s):
            try:
                return ('ok', fn(s))
            except Bad as b:
                return ('bad', str(b))
            except Undecided as u:
                return ('und', str(u))
            except Viol as v:
                return ('bad', '%s: %s' % (v.kind, v.msg))
        for s, r in eng.split(st, go):
            if r is None:
                self.undecided(key, 'check budget')
            elif r[0] == 'ok' and s.taint:
                self.undecided(key, '; '.join(sorted(s.taint))[:300])
            elif r[0] == 'ok':
                self.ok(key)
            elif r[0] == 'und':
                self.undecided(key, r[1])
            else:
                self.path_bad(key, s, r[1])

    def outs(self, eng, key, outs, panics='never'):
        """Filter finished paths: yields the returning ones; others are judged here.
        panics: 'never' -> violation; 'ok' -> ignored; function(out) -> None or message"""
        for o in outs:
            if o.kind == 'ret':
                yield o
            elif o.kind == 'panic' and o.st.panic[0] == 'alloc':
                continue
            elif o.kind == 'panic':
                if panics == 'never':
                    self.path_bad(key, o.st, 'panics (%s)' % (o.st.panic[1],), o.st.panic[2])
                elif callable(panics):
                    panics(o)
            elif o.kind == 'viol':
                self.path_bad(key, o.st, '%s: %s' % (o.msg[0], o.msg[1]), o.msg[2])
            elif o.kind == 'abort':
                self.path_bad(key, o.st, 'aborts the process')
            elif o.st.taint:
                self.undecided(key, 'path cut: ' + '; '.join(sorted(o.st.taint))[:200])
            else:
                self.bounded(key)

    def bounded(self, key):
        """A path left a loop unfinished after the allowed number of rounds."""
        self.bnd[key] = self.bnd.get(key, 0) + 1

    def known(self):
        p = os.path.join(ROOT, 'known_findings.json')
        try:
            j = json.load(open(p))
        except OSError:
            return {}
        return {f['key']: f for f in j.get('findings', []) if f['property'] == self.prop}

    def finish(self, level, explanation, rule, assumptions=(), floor=1):
        known = self.known()
        shown = 0
        new = [k for k in self.viol if k not in known]
        for k in sorted(self.viol):
            if k in known:
                print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, k, self.viol[k][0]))
        rdir = os.path.join(ROOT, 'build', 'replay')
        os.makedirs(rdir, exist_ok=True)
        nob = len(self.obs)
        und = sorted(k for k, r in self.obs.items() if r[3] and not r[2])
        ndis = sum(1 for r in self.obs.values() if r[0] and r[1] == r[0])
        rc = 0
        if len(set(self.obs) | set(self.bnd)) + len(self.missing) < floor and not self.und:
            self.missing.append('only %d obligations were generated, at least %d expected' % (nob, floor))
        for i, k in enumerate(sorted(new)):
            msg, where, trace = self.viol[k]
            path = os.path.join(rdir, '%s-%d.txt' % (self.prop, i))
            with open(path, 'w') as f:
                f.write('property   %s\nobligation %s\nviolation  %s\nat         %s\n\npath (branches decided, in order):\n' % (self.prop, k, msg, where))
                for w, l in trace:
                    f.write('  %-70s %s\n' % (w, l))
            if i < 12:
                print('  %s: %s%s' % (k, msg, ' at ' + where if where else ''))
            if i == 0:
                first = path
            rc = 1
        if self.missing and rc == 0:
            path = os.path.join(rdir, '%s-missing.txt' % self.prop)
            with open(path, 'w') as f:
                f.write('property %s\n' % self.prop + '\n'.join(self.missing) + '\n')
            for m in self.missing:
                print('  ' + m)
            first = path
            rc = 1
        if rc:
            print('VIOLATION property=%s replay=%s' % (self.prop, first))
        if und:
            print('%s: %d of %d obligations not decided on every path, e.g. %s: %s' % (
                self.prop, len(und), nob, und[0], next(iter(self.und[und[0]]))))
        cov = {
            'explanation': explanation,
            'rule': rule,
            'obligations': nob,
            'discharged': ndis,
            'paths_judged': self.paths,
            'builds_analysed': self.builds,
            'functions_analysed': max(getattr(self, 'n_fns', 0), len(self.fns)),
            'crate_functions': sorted(self.crate_fns | self.crate_functions())[:150],
            'undecided': {k: list(self.und[k].items())[:2] for k in und[:20]},
            'paths_not_followed_past_the_loop_bound': dict(sorted(self.bnd.items())[:60]),
            'unmodelled_calls': dict(list(self.unmodelled.items())[:20]),
            'samples': [{'obligation': k, 'paths': r[0], 'holds': r[1]} for k, r in sorted(self.obs.items())[:25]],
        }
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d paths, %.1f s' % (self.prop, nob, ndis, self.paths, time.time() - self.t0))
        return rc
