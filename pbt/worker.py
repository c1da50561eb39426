"""Runs one facet for one shard (or replays one case). Internal to run.py."""
import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('PBT_REPO', '/repo')
sys.path.insert(0, REPO)
# Hypothesis lives in another environment; appended last, so that numpy, scipy
# and sympy come from the environment symfit is built in.
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import hypothesis  # noqa
except ImportError:
    sys.path.append(VT)
sys.dont_write_bytecode = True
# sympy needs very long for the odd expression: such cases are skipped (and counted).
CASE_LIMIT = float(os.environ.get('PBT_CASE_LIMIT', '12'))
warnings.simplefilter('ignore')


def setup():
    import numpy as np
    np.seterr(all='ignore')
    import symfit
    assert os.path.realpath(symfit.__file__).startswith(os.path.realpath(REPO) + os.sep), symfit.__file__
    warnings.simplefilter('ignore')


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(facet, case, core, limit=None):
    """-> ('ok', info) | ('violation', message) | ('reject', '') | ('known', id)"""
    core.reset_state()
    if limit is None:
        limit = CASE_LIMIT
    # Processor time, so that a busy machine does not change the outcome; and
    # a wider limit on the clock for cases which wait.
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.setitimer(signal.ITIMER_REAL, 4 * limit)
    try:
        try:
            return _run_case(facet, case, core)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except CaseTimeout:
        return 'timeout', 'more than {} s'.format(limit)


def _run_case(facet, case, core):
    try:
        return 'ok', facet.check(case)
    except core.Violation as err:
        return 'violation', str(err)
    except core.Reject as err:
        return 'reject', str(err)
    except core.Known as err:
        return 'known', str(err)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as err:
        tb = traceback.extract_tb(err.__traceback__)
        inside = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
        own = [f for f in tb if f.filename.startswith(HERE)]
        if any(f.name == '_eval_subs' and g.name == 'call' and g.filename.endswith('operators.py')
               for f, g in zip(tb, tb[1:])):
            # Known finding C18-subs: sympy mistakes callable expressions for
            # functions when it substitutes the base of a power.
            return 'reject', 'C18-subs'
        where = inside[-1] if inside else tb[-1]
        msg = '{} on valid input: {}: {} (at {}:{} in {}; checked at {}:{})'.format(
            'failed' if inside else 'unusable result', type(err).__name__, str(err)[:400],
            os.path.basename(where.filename), where.lineno, where.name,
            os.path.basename(own[-1].filename) if own else '?', own[-1].lineno if own else '?')
        return 'violation', msg


def campaign(args, facet, core):
    from hypothesis import given, settings, seed, Phase, HealthCheck
    import collections
    st = dict(evaluations=0, rejected=0, nontrivial=0, skipped=0, timeouts=0, known={})
    labels = collections.Counter()
    seen = set()
    samples = []
    fail = {'case': None, 'msg': None, 'first': None, 'first_t': None}
    start = time.time()
    shrink_budget = float(os.environ.get('PBT_SHRINK', '40'))

    class Failed(Exception):
        pass

    def body(case):
        now = time.time()
        if fail['case'] is None and now - start > args.budget:
            st['skipped'] += 1
            return
        if fail['case'] is not None and now - fail['first_t'] > shrink_budget:
            if core.case_key(case) == core.case_key(fail['case']):
                raise Failed()
            return
        kind, res = run_case(facet, case, core)
        if fail['case'] is None:
            if kind == 'reject':
                st['rejected'] += 1
            elif kind == 'timeout':
                st['timeouts'] += 1
                if st['timeouts'] >= 6 and st['timeouts'] > st['evaluations']:
                    fail.update(case=case, msg='does not finish in time on most inputs', first=case, first_t=now)
                    raise Failed()
            else:
                st['evaluations'] += 1
                key = core.derive_seed(core.case_key(case))
                if kind == 'known':
                    st['known'][res] = st['known'].get(res, 0) + 1
                if kind == 'ok':
                    for l in res['labels']:
                        labels[l] += 1
                    if res['nontrivial'] and key not in seen:
                        st['nontrivial'] += 1
                        if len(samples) < 3 or (len(samples) < 6 and st['evaluations'] % 37 == 0):
                            samples.append(case)
                seen.add(key)
        if kind == 'violation':
            size = len(core.case_key(case))
            if fail['case'] is None:
                fail.update(case=case, msg=res, first=case, first_t=now)
            elif size <= len(core.case_key(fail['case'])):
                fail.update(case=case, msg=res)
            raise Failed()

    sd = core.derive_seed(args.seed, args.prop, facet.name, args.shard)
    test = seed(sd)(settings(
        max_examples=args.n, database=None, deadline=None, derandomize=False,
        report_multiple_bugs=False, print_blob=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck))(given(facet.strategy())(body)))
    try:
        test()
    except Failed:
        pass
    except BaseException as err:
        # Hypothesis may complain about flakiness, e.g. after the shrink budget
        if fail['case'] is None:
            raise
        st['note'] = type(err).__name__
    st.update(labels=dict(labels), samples=samples, seconds=time.time() - start,
              fail={'case': fail['case'], 'msg': fail['msg'], 'first': fail['first']} if fail['case'] is not None else None,
              distinct=len(seen), facet=facet.name, shard=args.shard, rule=facet.rule)
    return st


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--facet')
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--n', type=int, default=10)
    ap.add_argument('--budget', type=float, default=100)
    ap.add_argument('--case')
    ap.add_argument('--limit', type=float)
    ap.add_argument('--out')
    args = ap.parse_args()
    setup()
    import core
    mod = importlib.import_module(args.prop.lower())
    facet = mod.FACETS[args.facet]
    if args.case:
        with open(args.case) as f:
            case = json.load(f)
        kind, res = run_case(facet, case, core, args.limit)
        out = {'kind': kind, 'res': res}
    else:
        out = campaign(args, facet, core)
    tmp = args.out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(out, f, default=str)
    os.replace(tmp, args.out)
    # Skip interpreter teardown of the heavy libraries.
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
