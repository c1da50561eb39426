#!/usr/bin/env python3
"""Systematic small edits of the code under test: which of them does nothing notice?

    mutate.py [--src DIR] [--jobs N] [--sample N] [--seed N] [--scale S] [--only REGEX] --out FILE

Per mutant: the repository's tests (stop at the first stable one that fails); if they all pass, the checks for
that part of the code at a reduced scale, until one alarms. Survivors of both are for reading by hand.
Used while developing the checks; no check depends on it.
"""
import argparse, ast, importlib.util, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('pbt_run', os.path.join(VERIF, 'pbt', 'run.py'))
run = importlib.util.module_from_spec(spec)
spec.loader.exec_module(run)
PY = '/opt/venv/bin/python'

CHECKS = [  # file, scope regex, checks
    ('core/models.py', r'ODEModel', 'C06 C24 C02'),
    ('core/models.py', r'CallableNumericalModel|BaseNumericalModel', 'C05 C01 C02 C09 C17'),
    ('core/models.py', r'finite_difference|BaseGradientModel', 'C05 C03'),
    ('core/models.py', r'[Hh]ess', 'C04 C08'),
    ('core/models.py', r'[Jj]acobian', 'C03 C04 C07'),
    ('core/models.py', r'constraint', 'C14 C25'),
    ('core/models.py', r'', 'C01 C02 C03 C24 C04 C25 C17'),
    ('core/objectives.py', r'', 'C07 C08 C24 C12 C17 C25'),
    ('core/minimizers.py', r'', 'C15 C16 C14 C13 C12 C10 C17'),
    ('core/fit.py', r'', 'C09 C20 C11 C10 C14 C16 C19'),
    ('core/fit_results.py', r'', 'C19 C10 C11 C17'),
    ('core/argument.py', r'', 'C18 C17 C24'),
    ('core/support.py', r'', 'C18 C01 C02 C25 C09'),
    ('core/printing.py', r'', 'C01 C03 C04'),
    ('core/operators.py', r'', 'C01'),
    ('distributions.py', r'', 'C22'),
    ('interactive_guess.py', r'', 'C21'),
]


def checks_for(f, scope):
    for cf, rx, cs in CHECKS:
        if f.endswith(cf) and re.search(rx, scope):
            return cs.split()
    return []


class Finder(ast.NodeVisitor):
    """Collects (start, end, replacement, kind, scope) on character offsets."""
    def __init__(self, src):
        self.src, self.out, self.scope = src, [], []
        self.lines = [0]
        for l in src.splitlines(True):
            self.lines.append(self.lines[-1] + len(l.encode()))
        self.raw = src.encode()

    def pos(self, n):
        return self.lines[n.lineno - 1] + n.col_offset, self.lines[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.raw[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.pos(n)
        self.out.append((a, b, new, kind, '.'.join(self.scope), n.lineno))

    def visit_FunctionDef(self, n):
        if n.name in ('__str__', '__repr__') and 'FitResults' not in self.scope and 'InteractiveGuess' not in self.scope:
            return
        if any('deprecated' in ast.dump(d) for d in n.decorator_list):
            return
        self.scope.append(n.name)
        self.generic_visit(n)
        self.scope.pop()

    def visit_ClassDef(self, n):
        self.scope.append(n.name)
        self.generic_visit(n)
        self.scope.pop()

    def visit_Raise(self, n):
        self.add(n, 'pass', 'no-raise')

    def visit_Call(self, n):
        name = self.text(n.func)
        if name.startswith('warnings.') or name.startswith('super('):
            if name.startswith('super('):
                pass
            return
        for i, k in enumerate(n.keywords):
            if k.arg is None or not n.args and len(n.keywords) == 1:
                continue
            a, b = self.pos(k)
            # drop with the preceding comma
            pre = self.raw[:a].decode().rstrip()
            if pre.endswith(','):
                start = len(pre.encode()) - 1
                self.out.append((start, b, '', 'drop-kw ' + k.arg, '.'.join(self.scope), k.lineno))
        if name == 'sorted' and n.args:
            self.add(n, 'list(%s)' % self.text(n.args[0]), 'no-sort')
        if name in ('all', 'any'):
            self.add(n.func, 'any' if name == 'all' else 'all', 'all/any')
        if name in ('np.zeros_like', 'np.ones_like'):
            self.add(n.func, 'np.ones_like' if 'zeros' in name else 'np.zeros_like', 'zeros/ones')
        if name in ('np.atleast_1d', 'np.array', 'list', 'np.asarray', 'np.real', 'np.nan_to_num', 'copy', 'dict', 'OrderedDict') and len(n.args) == 1 and not isinstance(n.args[0], ast.Starred):
            self.add(n, '(%s)' % self.text(n.args[0]), 'unwrap ' + name)
        if name in ('min', 'max'):
            self.add(n.func, 'max' if name == 'min' else 'min', 'min/max')
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            op = type(n.ops[0]).__name__
            swap = {'Lt': '<=', 'LtE': '<', 'Gt': '>=', 'GtE': '>', 'Eq': '!=', 'NotEq': '==', 'Is': 'is not', 'IsNot': 'is', 'In': 'not in', 'NotIn': 'in'}[op]
            self.add(n, '%s %s %s' % (l, swap, r), 'cmp')
            if op in ('Is', 'IsNot') and r == 'None':
                self.add(n, ('not %s' if op == 'Is' else 'bool(%s)') % ('(%s)' % l), 'truth')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        vals = ['(%s)' % self.text(v) for v in n.values]
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(%s)' % op.join(vals), 'and/or')
        for i in range(len(vals)):
            rest = vals[:i] + vals[i + 1:]
            self.add(n, '(%s)' % (' and ' if op == ' or ' else ' or ').join(rest), 'drop-cond')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, '(%s)' % self.text(n.operand), 'no-unary')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        m = {'Add': '-', 'Sub': '+', 'Mult': '/', 'Div': '*', 'Pow': '*', 'FloorDiv': '/'}.get(type(n.op).__name__)
        if m and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not isinstance(n.right, ast.Constant) or m and isinstance(n.right, ast.Constant) and not isinstance(n.right.value, str):
            self.add(n, '(%s) %s (%s)' % (self.text(n.left), m, self.text(n.right)), 'arith')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), 'bool')
        elif isinstance(v, int):
            self.add(n, str(v + 1), 'int')
        elif isinstance(v, float):
            self.add(n, repr(v * 1e3 if v else 1.0), 'float')

    def visit_IfExp(self, n):
        self.add(n, '(%s)' % self.text(n.body), 'ifexp-body')
        self.add(n, '(%s)' % self.text(n.orelse), 'ifexp-else')
        self.generic_visit(n)

    def visit_If(self, n):
        if not isinstance(n.test, (ast.BoolOp,)):
            self.add(n.test, 'True', 'if-true')
            self.add(n.test, 'False', 'if-false')
        self.generic_visit(n)

    def visit_comprehension(self, n):
        for c in n.ifs:
            self.add(c, 'True', 'comp-if')
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice) and n.slice.lower and not n.slice.upper:
            self.add(n, '%s[:]' % self.text(n.value), 'slice')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            self.add(n, 'pass', 'no-assign')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, 'pass', 'no-aug')
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if not self.text(n).startswith('warnings.'):
            self.add(n, 'pass', 'no-stmt')
        self.generic_visit(n)

    def visit_Break(self, n):
        self.add(n, 'pass', 'no-break')

    def visit_Continue(self, n):
        self.add(n, 'pass', 'no-continue')

    def visit_arguments(self, n):
        pass


def mutants(src):
    out = []
    for d, _, fs in os.walk(os.path.join(src, 'symfit')):
        if 'tests' in d or 'examples' in d:
            continue
        for f in sorted(fs):
            if f.endswith('.py') and f not in ('__init__.py', 'api.py'):
                p = os.path.join(d, f)
                s = open(p).read()
                fi = Finder(s)
                fi.visit(ast.parse(s))
                seen = set()
                for a, b, new, kind, scope, line in fi.out:
                    m = fi.raw[:a] + new.encode() + fi.raw[b:]
                    try:
                        ast.parse(m)
                    except SyntaxError:
                        continue
                    if m in seen or m == fi.raw:
                        continue
                    seen.add(m)
                    out.append(dict(file=os.path.relpath(p, src), line=line, kind=kind, scope=scope, old=fi.raw[a:b].decode(), new=new, text=m.decode()))
    return out


def tests(wt, timeout=420):
    e = dict(os.environ, MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             PYTHONPYCACHEPREFIX='/opt/venv/no-pycache', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    try:
        r = subprocess.run([PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--timeout=100',
                            '--deselect', 'tests/test_minimize.py::TestMinimize::test_custom_objective',
                            '-k', 'not test_custom_objective'], cwd=wt, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout'
    if r.returncode == 0:
        return None
    m = re.findall(r'^(?:FAILED|ERROR) (\S+)', r.stdout, re.M)
    return m[0] if m else 'failed'


def check(prop, wt, scale):
    scratch = tempfile.mkdtemp(prefix='pbtm-')
    try:
        for f in run.plan(prop, 'quick', scratch):
            n = max(6, int(f['n'] * scale))
            e = {'PBT_REPO': wt}
            out = os.path.join(scratch, f['name'] + '.json')
            args = run.campaign_args(prop, f['name'], 0, 1, n, 100.0)
            env = dict(run.env_for(random.randrange(8), scratch), **e)
            try:
                subprocess.run([PY, '-B', os.path.join(VERIF, 'pbt', 'worker.py')] + args + ['--out', out],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=scratch, timeout=300)
            except subprocess.TimeoutExpired:
                return '%s %s timeout' % (prop, f['name'])
            if not os.path.exists(out):
                return '%s %s no answer' % (prop, f['name'])
            res = json.load(open(out))
            if res['fail']:
                return '%s %s %s' % (prop, f['name'], res['fail']['msg'][:150])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--src', default='/repo')
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--scale', type=float, default=0.12)
    ap.add_argument('--only', default='')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--out', default='/tmp/mut/out.jsonl')
    a = ap.parse_args()
    ms = [m for m in mutants(a.src) if re.search(a.only, m['file'] + ':' + m['scope'])]
    print(len(ms), 'mutants')
    random.Random(a.seed).shuffle(ms)
    if a.sample:
        ms = ms[:a.sample]
    if a.list:
        for m in sorted(ms, key=lambda m: (m['file'], m['line'])):
            print(m['file'], m['line'], m['kind'], repr(m['old'][:60]), '->', repr(m['new'][:60]))
        return
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['kind'], d['old'], d['new']))
    lock = threading.Lock()

    def one(m):
        if (m['file'], m['line'], m['kind'], m['old'], m['new']) in done:
            return
        wt = tempfile.mkdtemp(prefix='mutwt-')
        try:
            subprocess.run(['cp', '-a', a.src + '/.', wt], check=True)
            with open(os.path.join(wt, m['file']), 'w') as f:
                f.write(m['text'])
            t = time.time()
            k = tests(wt)
            res = dict(m, tests=k)
            del res['text']
            if k is None:
                for c in checks_for(m['file'], m['scope']):
                    res['check'] = check(c, wt, a.scale)
                    if res['check']:
                        break
            res['s'] = round(time.time() - t)
            with lock:
                with open(a.out, 'a') as f:
                    f.write(json.dumps(res) + '\n')
        finally:
            shutil.rmtree(wt, ignore_errors=True)
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, ms))


if __name__ == '__main__':
    main()
