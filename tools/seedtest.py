#!/usr/bin/env python3
"""Confirm planted bugs, and see whether the checks catch them.

    seedtest.py [--no-tests] [--no-check] [--all-checks] ID...

Per bug: a copy of /repo under /tmp, the demonstration without and with the patch,
the repository's stable tests with the patch, and the property's quick check.
"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SEEDED = os.path.join(VERIF, 'seeded')


CAUGHT = {}


def env(**kw):
    e = dict(os.environ, MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig', PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX='/opt/venv/no-pycache', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.update(kw)
    return e


def stable(wt, out):
    x = out + '.xml'
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--timeout=200',
                    '--session-timeout=900', '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
                    '--junitxml=' + x], cwd=wt, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run([PY, '/opt/vp/results.py', out, 'junit:' + x], cwd=wt, env=env(), stdout=subprocess.DEVNULL)
    res = json.load(open(out))
    want = json.load(open('/opt/vp/BASELINE.json'))
    return res, want


def names(d, *keys):
    for k in keys:
        if k in d:
            return set(d[k])
    raise KeyError(list(d))


def one(ident, opts):
    d = os.path.join(SEEDED, ident)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    wt = '/tmp/seedwt-' + ident
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', wt], check=True)
    demo = '/tmp/seeddemo-' + ident
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    out = [ident, meta['property']]
    try:
        def run_demo():
            r = subprocess.run(['bash', os.path.join(demo, 'demo.sh')], cwd=wt, env=env(), capture_output=True, text=True, timeout=300)
            return r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]
        rc, tail = run_demo()
        out.append('demo-clean=%s' % rc + ('' if rc == 0 else ' !! %s' % tail))
        r = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=wt, capture_output=True, text=True)
        if r.returncode:
            return out + ['PATCH FAILS ' + r.stderr]
        rc, tail = run_demo()
        out.append('demo-patched=%s %s' % (rc, tail) + (' !!' if rc == 0 else ''))
        if '--no-tests' not in opts:
            o = os.path.join('/tmp', 'seedres-%s.json' % ident)
            res, want = stable(wt, o)
            base = names(want, 'stable', 'stable_pass', 'passed')
            got = names(res, 'passed', 'pass')
            missing = sorted(base - got)
            out.append('tests=%s' % ('ok' if not missing else '!! %d fail: %s' % (len(missing), missing[:3])))
            for f in (o, o + '.xml'):
                os.path.exists(f) and os.unlink(f)
        if '--no-check' not in opts:
            props = ['C%02d' % i for i in range(1, 26)] if '--all-checks' in opts else [meta['property']]
            for p in props:
                t = time.time()
                r = subprocess.run([sys.executable, os.path.join(VERIF, 'pbt', 'run.py'), p], cwd=VERIF,
                                   env=dict(os.environ, PBT_REPO=wt, VERIF_SEED=os.environ.get('VERIF_SEED', '1')), capture_output=True, text=True)
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                if p == meta['property']:
                    import re
                    fac = sorted({m.group(1) for l in v for m in [re.search(r'C\d\d-(.+)-\d+\.json', l)] if m})
                    CAUGHT[ident] = '{} ({})'.format(p, ', '.join(fac).replace('-', '_')) if r.returncode == 1 and v else 'missed by ' + p
                if len(props) == 1 or r.returncode:
                    out.append('%s rc=%s %s (%.0f s)' % (p, r.returncode, 'CAUGHT' if r.returncode == 1 and v else '!! MISSED', time.time() - t))
                    if r.returncode == 1:
                        out.append(' | '.join(v)[:200])
    finally:
        shutil.rmtree(wt, ignore_errors=True)
        shutil.rmtree(demo, ignore_errors=True)
    return out


if __name__ == '__main__':
    opts = [a for a in sys.argv[1:] if a.startswith('--')]
    ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(int(os.environ.get('SEEDJOBS', '3'))) as ex:
        for res in ex.map(lambda i: one(i, opts), ids):
            print('; '.join(res), flush=True)
    path = os.path.join(VERIF, 'tools', 'caught.json')
    old = json.load(open(path)) if os.path.exists(path) else {}
    old.update(CAUGHT)
    old = {k: v for k, v in old.items() if os.path.isdir(os.path.join(SEEDED, k))}
    with open(path, 'w') as f:
        json.dump(old, f, indent=1, sort_keys=True)
        f.write('\n')
