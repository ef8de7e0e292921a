import argparse
import importlib
import os
import sys
import time
import warnings

t0 = time.time()
warnings.filterwarnings('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vh import core  # noqa: E402


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--case', default=None)
    p.add_argument('--rep', type=int, default=None)
    p.add_argument('--list', action='store_true')
    p.add_argument('--worker', default=None)
    args = p.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import logging
    logging.disable(logging.CRITICAL)
    monitor = core.Monitor(args.prop, tier, seed)
    try:
        module = importlib.import_module(args.prop.lower())
        cases = module.cases(tier)
    except Exception as e:
        frames = core.repo_frames(e.__traceback__)
        import traceback
        monitor.case = 'import'
        if frames:
            monitor.violation('import', 'importing the code under test '
                              'failed: {!r}'.format(e), where=frames)
        else:
            monitor.inconclusive.append(traceback.format_exc()[-3000:])
        return core.finish(args.prop, monitor, t0, 'exploration', 'n/a', [])
    if args.list:
        for c in cases:
            print(c.name)
        return 0
    if args.case is None:
        for name, n in getattr(module, 'REQUIRE', {}).items():
            # typical counts are about four times larger: stay far from the
            # edge so that a slow machine gives the same answer
            monitor.require(name, max(1, n // 4))
    workers = getattr(module, 'WORKERS', {}).get(
        tier, 1 if tier == 'quick' else 6)
    budget = getattr(module, 'BUDGET', {'quick': 25, 'thorough': 600})[tier]
    # silence the code under test
    quiet = not os.environ.get('VERIF_VERBOSE')
    out = sys.stdout
    if quiet:
        sys.stdout = open(os.devnull, 'w')
    take = None
    if args.worker:
        def take():
            return core.ticket(os.environ['VERIF_COUNTER'])
    try:
        if workers > 1 and args.case is None and not args.worker:
            core.run_workers(args.prop, monitor, workers)
        else:
            core.run_cases(args.prop, cases, monitor, budget,
                           only_case=args.case, only_rep=args.rep,
                           take=take)
    finally:
        sys.stdout = out
    if args.worker:
        core.dump_state(monitor, args.worker)
        return 0
    return core.finish(args.prop, monitor, t0,
                       getattr(module, 'LEVEL', 'exploration'),
                       getattr(module, 'RULE', ''),
                       getattr(module, 'ASSUMPTIONS', []))


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
