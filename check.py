#!/usr/bin/env python3
"""Decides one property of /repo's current tree: check.py --property ID"""
import argparse, os, signal, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vp.extract import extract, ExtractError
from vp.prog import Prog
from vp.report import Ctx
from vp import registry


class TimeUp(BaseException):
    pass


def time_up(*a):
    raise TimeUp('time limit')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--debug', action='store_true')
    a = ap.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = registry.get(a.property)
    if spec is None:
        print('unknown property ' + a.property)
        return 2
    prog = None
    err = None
    with ThreadPoolExecutor(2) as ex:
        builds = [ex.submit(extract, True, b) for b in ('debug', 'release')]
    try:
        prog = Prog(builds[0].result())
    except ExtractError as e:
        err = str(e)
    if prog is None and spec.programs:
        prog = Prog.empty()         # these compile client programs of their own
    if prog is None:
        return registry.no_program(a.property, err, tier, seed)
    ctx = Ctx(prog, a.property, tier, seed)
    ctx.t0 = t0
    missing = spec.missing(prog)
    if missing:
        ctx.missing += missing
    else:
        try:
            signal.signal(signal.SIGALRM, time_up)
            limit = int(os.environ.get('VP_LIMIT', 720))
            signal.alarm(limit)
            # the verdict is known: a little more time to name other obligations that fail
            ctx.on_violation = lambda: signal.alarm(max(1, min(60, int(limit - (time.time() - t0)))))
            spec.run(ctx)
            if spec.both and 'VP_DEBUG_ONLY' not in os.environ:
                # the same source without debug assertions and overflow checks
                ctx.use_build(Prog(builds[1].result()), 'release')
                spec.run(ctx)
            small = prog.scaled() if spec.both else None
            if small:
                ctx.use_build(small, 'scaled')
                ctx.extra['scaled_constants'] = {str(k): v for k, v in small.scaling.items()}
                spec.run(ctx)
            signal.alarm(0)
        except (Exception, TimeUp) as e:
            signal.alarm(0)
            # a construct the analysis cannot handle: nothing is claimed about what was not reached
            if a.debug:
                raise
            import traceback
            ctx.undecided(a.property + '/analysis', 'the analysis stopped: %s at %s' % (repr(e)[:200], traceback.format_exc().strip().splitlines()[-3].strip()[:200]))
    if a.debug:
        for k, r in sorted(ctx.obs.items()):
            print(k, r)
        for k, d in sorted(ctx.und.items()):
            print('UND', k, d)
    return ctx.finish('other', spec.explanation, spec.rule, spec.assumptions, spec.floor)


if __name__ == '__main__':
    sys.exit(main())
