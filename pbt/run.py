#!/usr/bin/env python3
"""Decide one property:  run.py C01 [--tier quick|thorough] [--seed N]
Replay a failure:       run.py --replay replays/C01-....json

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not do its work.
"""
import argparse
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = os.environ.get('PBT_PYTHON') or ('/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable)
NPROC = int(os.environ.get('PBT_JOBS', '0')) or min(8, os.cpu_count() or 4)
# Soft limit: generation stops (never a verdict). Hard limit: no answer.
SOFT = {'quick': 150.0, 'thorough': 3000.0}
HARD = {'quick': 700.0, 'thorough': 6000.0}
SHARDS = {'quick': 8, 'thorough': 16}


def env_for(shard, scratch):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=str(shard % 8), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
             HYPOTHESIS_NO_PLUGINS='1', HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, 'hyp'),
             MPLCONFIGDIR=os.path.join(scratch, 'mpl'), PYTHONWARNINGS='ignore')
    e.pop('PYTHONPATH', None)
    e.pop('CI', None)
    return e


def spawn(args, shard, scratch, out, limit):
    log = out + '.log'
    with open(log, 'w') as lf:
        try:
            proc = subprocess.run([PY, '-B', os.path.join(HERE, 'worker.py')] + args + ['--out', out],
                                  stdout=lf, stderr=subprocess.STDOUT, env=env_for(shard, scratch),
                                  cwd=scratch, timeout=limit)
        except subprocess.TimeoutExpired:
            return None, 'no answer within {} s'.format(limit)
    if os.path.exists(out):
        with open(out) as f:
            return json.load(f), None
    with open(log) as f:
        return None, 'worker exit {}: {}'.format(proc.returncode, f.read()[-3000:])


def plan(prop, tier, scratch):
    """Facets of the property, with their sizes (read without importing symfit)."""
    spec = importlib.util.spec_from_file_location('pbt_index', os.path.join(HERE, 'index.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod.facets_of(prop, tier)


def replay_case(prop, facet, case, hashseed, scratch, limit=300.0, tag='r', slow=False):
    path = os.path.join(scratch, tag + '.case.json')
    with open(path, 'w') as f:
        json.dump(case, f)
    more = ['--limit', '60'] if slow else []
    return spawn(['--prop', prop, '--facet', facet, '--case', path] + more, hashseed, scratch,
                 os.path.join(scratch, tag + '.out.json'), limit)


def campaign_args(prop, facet, shard, seed, n, budget):
    return ['--prop', prop, '--facet', facet, '--shard', str(shard), '--seed', str(seed),
            '--n', str(n), '--budget', str(budget)]


def do_replay(path):
    with open(path) as f:
        rep = json.load(f)
    scratch = tempfile.mkdtemp(prefix='pbt-')
    try:
        if rep['mode'] == 'case':
            out, err = replay_case(rep['property'], rep['facet'], rep['case'], rep['hashseed'], scratch,
                                   slow=rep['message'].startswith('more than'))
            bad = out is not None and out['kind'] in ('violation', 'timeout')
            msg = out and out['res']
        else:
            out, err = spawn(campaign_args(rep['property'], rep['facet'], rep['shard'], rep['seed'], rep['n'], 1e6),
                             rep['hashseed'], scratch, os.path.join(scratch, 'c.json'), 3600)
            bad = out is not None and out['fail'] is not None
            msg = bad and out['fail']['msg']
        if out is None:
            print('error: ' + str(err))
            return 2
        if bad:
            print(msg)
            print('VIOLATION property={} replay={}'.format(rep['property'], path))
            return 1
        print('not reproduced: ' + str(out if rep['mode'] == 'case' else 'campaign passed')[:500])
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--facet', action='append')
    ap.add_argument('--scale', type=float, default=float(os.environ.get('PBT_SCALE') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    prop, tier = a.prop, ('thorough' if a.tier == 'thorough' else 'quick')
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='pbt-')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    try:
        facets = [f for f in plan(prop, tier, scratch) if not a.facet or f['name'] in a.facet]
        nsh = SHARDS[tier]
        jobs = []
        for f in facets:
            total = max(1, int(f['n'] * a.scale))
            k = min(nsh, max(1, f.get('shards') or nsh))
            for s in range(k):
                n = total // k + (1 if s < total % k else 0)
                if n:
                    jobs.append((f, s, n))
        # Expensive facets first, so that the tail is short.
        jobs.sort(key=lambda j: (-j[0].get('weight', 1) * j[2], j[0]['name'], j[1]))
        deadline = time.time() + SOFT[tier]
        results, errors = [], []

        def one(job):
            f, s, n = job
            budget = max(5.0, deadline - time.time())
            out = os.path.join(scratch, '{}-{}.json'.format(f['name'], s))
            res, err = spawn(campaign_args(prop, f['name'], s, a.seed, n, budget), s % 8, scratch, out,
                             max(60.0, HARD[tier] - (time.time() - t0)))
            return f, s, n, res, err

        # Known findings are re-run by their committed reproducer.
        known = [k for k in load_known() if k['property'] == prop and k['status'] == 'known']

        def one_known(k):
            return k, replay_case(prop, k['facet'], k['case'], 0, scratch, tag='known-' + k['id'])

        with ThreadPoolExecutor(NPROC) as ex:
            fut = [ex.submit(one, j) for j in jobs]
            kfut = [ex.submit(one_known, k) for k in known]
            done = [f.result() for f in fut]
            kdone = [f.result() for f in kfut]

        fails = []
        for f, s, n, res, err in done:
            if res is None:
                errors.append('{}[{}]: {}'.format(f['name'], s, err))
            else:
                results.append(res)
                if res['fail']:
                    fails.append((f, s, n, res))

        known_lines = []
        known_ids = {k['id'] for k in known}
        seen_known = {}
        for r in results:
            for k, c in r['known'].items():
                seen_known[k] = seen_known.get(k, 0) + c
        for k, (out, err) in kdone:
            if out is None:
                errors.append('known finding {}: {}'.format(k['id'], err))
            elif out['kind'] == 'known' and out['res'] == k['id']:
                known_lines.append('KNOWN-FINDING: property={} {}'.format(prop, k['what']))
            elif out['kind'] == 'violation':
                fails.append(({'name': k['facet']}, 0, 0, {'fail': {'case': k['case'], 'msg': out['res']}}))
        for k in seen_known:
            if k not in known_ids:
                errors.append('case reports unlisted known finding ' + k)

        # Confirm failures in a fresh process and write replay files.
        violations, confirmed_facets = [], set()
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        fails.sort(key=lambda x: (x[0]['name'], len(json.dumps(x[3]['fail']['case']))))
        for f, s, n, res in fails:
            if f['name'] in confirmed_facets:
                continue
            case = res['fail']['case']
            rep = None
            slow = res['fail']['msg'] == 'does not finish in time on most inputs'
            for c in (case, res['fail'].get('first')):
                if c is None:
                    continue
                out, err = replay_case(prop, f['name'], c, s % 8, scratch, tag='confirm', slow=slow)
                if out is not None and out['kind'] in ('violation', 'timeout'):
                    rep = dict(property=prop, mode='case', facet=f['name'], hashseed=s % 8, case=c, message=out['res'])
                    break
            if rep is None and slow:
                # Finishes with more time: slow, not wrong (counted as timeouts).
                print('note: {}[{}] is cut: the cases take long here'.format(f['name'], s))
                continue
            if rep is None and n:
                # The failure needs the cases before it: the replay is the campaign.
                out, err = spawn(campaign_args(prop, f['name'], s, a.seed, n, 1e6), s % 8, scratch,
                                 os.path.join(scratch, 'again.json'), 600)
                if out is not None and out['fail']:
                    rep = dict(property=prop, mode='campaign', facet=f['name'], hashseed=s % 8, shard=s,
                               seed=a.seed, n=n, message=out['fail']['msg'], last_case=out['fail']['case'])
            if rep is None:
                errors.append('{}[{}]: failure did not reproduce: {}'.format(f['name'], s, res['fail']['msg']))
                continue
            confirmed_facets.add(f['name'])
            tag = re.sub(r'[^A-Za-z0-9]+', '-', f['name'])
            path = os.path.join('replays', '{}-{}-{}.json'.format(prop, tag, a.seed))
            with open(os.path.join(VERIF, path), 'w') as fh:
                json.dump(rep, fh, indent=1)
            violations.append((path, f['name'], rep['message']))

        # Evidence
        labels, per = {}, {}
        for r in results:
            p = per.setdefault(r['facet'], dict(evaluations=0, distinct_nontrivial=0, rejected=0, timeouts=0, cut_by_budget=0, seconds=0.0, rule=r['rule']))
            p['evaluations'] += r['evaluations']
            p['distinct_nontrivial'] += r['nontrivial']
            p['rejected'] += r['rejected']
            p['timeouts'] += r['timeouts']
            p['cut_by_budget'] += r['skipped']
            p['seconds'] = round(p['seconds'] + r['seconds'], 2)
            for l, c in r['labels'].items():
                labels.setdefault(r['facet'], {}).setdefault(l, 0)
                labels[r['facet']][l] += c
        samples = []
        for name in per:
            rs = [r for r in results if r['facet'] == name]
            got = 0
            for r in rs:
                for c in r['samples']:
                    if got < 2:
                        samples.append({'facet': name, 'case': c})
                        got += 1
        ev = dict(property=prop, tier=tier, seed=a.seed, level='exploration',
                  coverage=dict(
                      evaluations=sum(p['evaluations'] for p in per.values()),
                      distinct_nontrivial=sum(p['distinct_nontrivial'] for p in per.values()),
                      rule='cases are generated by Hypothesis strategies per facet; ' + ' | '.join(
                          '{}: {}'.format(k, p['rule']) for k, p in sorted(per.items())),
                      samples=samples, facets=per, labels=labels,
                      known_findings_hit=seen_known),
                  assumptions=['numpy, scipy, sympy and Hypothesis are trusted',
                               'floating point comparisons use stated tolerances scaled to intermediate magnitudes'],
                  wall_s=round(time.time() - t0, 2), violations=len(violations))
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)

        for line in known_lines:
            print(line)
        for e in errors:
            print('error: ' + e)
        for path, name, msg in violations:
            print('{}: {}'.format(name, msg))
            print('VIOLATION property={} replay={}'.format(prop, path))
        print('{} {}: {} cases, {} distinct non-trivial, {} violations, {:.1f} s'.format(
            prop, tier, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], len(violations), time.time() - t0))
        if violations:
            return 1
        if errors:
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


if __name__ == '__main__':
    sys.exit(main())
