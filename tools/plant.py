"""Write /verif/seeded/<id>/ from an edit and a demonstration (helper for planting bugs).

plant(id, property, file, [(old, new), ...], needs, breaks, demo)
"""
import json, os, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(ident, prop, edits, needs, breaks, demo):
    d = os.path.join(VERIF, 'seeded', ident)
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', tmp + '/r'], check=True)
        r = tmp + '/r'
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (ident, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        # every touched hunk must remove a line of the original repository
        base = '6ebe77d'
        for f in sorted({e[0] for e in edits}):
            blame = subprocess.run(['git', 'blame', '-s', 'HEAD', '--', f], cwd=r, capture_output=True, text=True).stdout.splitlines()
            u0 = subprocess.run(['git', 'diff', '-U0', '--', f], cwd=r, capture_output=True, text=True).stdout
            for line in u0.splitlines():
                if line.startswith('@@'):
                    a = line.split()[1][1:].split(',')
                    start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for k in range(start, start + n):
                        own = subprocess.run(['git', 'merge-base', '--is-ancestor', blame[k - 1].split()[0].lstrip('^'), base], cwd=r, capture_output=True)
                        if own.returncode:
                            print('!!', ident, 'touches a line of ours:', blame[k - 1])
                    if n == 0:
                        print('  note', ident, 'pure insertion', line)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# run with cwd /repo\nhere=$(cd "$(dirname "$0")" && pwd)\n'
            'export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 PYTHONPATH="$PWD"\n'
            'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec "$PY" -B "$here/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(tmp)
