"""C01: evaluating a model gives the numbers its definition says."""
import numpy as np
from hypothesis import strategies as st

import big
import exprs
import models_gen as mg
from core import facet, info, close, require, Violation, Reject

FACETS = {}


@st.composite
def _case(draw, **kw):
    sp = draw(mg.spec(attrs=True, **kw))
    return {'spec': sp, 'data': draw(mg.data_for(sp['vars'])), 'p': draw(mg.param_values(sp['params'])),
            'cls': draw(st.sampled_from(['Model', 'CallableModel', 'GradientModel'])),
            'style': draw(st.integers(0, 99)), 'np_scalar': draw(st.booleans()),
            'plist': draw(st.booleans())}


def call_styles(case, b, data, p):
    """Positional / keyword splits of the documented argument order."""
    order = [(n, data[n]) for n in b.vars] + [(n, p[n]) for n in b.params]
    k = case['style'] % (len(order) + 1)
    yield 'kw', (), dict(order)
    yield 'positional', tuple(v for _, v in order), {}
    yield 'mixed', tuple(v for _, v in order[:k]), dict(order[k:])


def check_output(out, b, want, tol):
    names = b.comp_names
    require(isinstance(out, tuple), 'output is not a tuple: {}', type(out))
    require(len(out) == len(names), 'output has {} components, not {}', len(out), len(names))
    d = out._asdict()
    require([v.name for v in d] == names, 'components are {} instead of {}', [v.name for v in d], names)
    listed = list(out)
    for i, n in enumerate(names):
        w = np.atleast_1d(want[n])
        close(out[i], w, tol, 'component {} by position'.format(n))
        close(listed[i], w, tol, 'component {} by iteration'.format(n))
        close(getattr(out, n), w, tol, 'component {} by name'.format(n))
        close(d[b.table[n]], w, tol, 'component {} by variable'.format(n))


def check_model(case, b):
    data = {n: mg.arr(d) for n, d in case['data'].items()}
    p = dict(case['p'])
    want, mag = mg.ref_values(b.sp, dict(data, **p))
    tol = 1e-9 * (1 + mag)
    if case['np_scalar']:
        p = {k: np.float64(v) for k, v in p.items()}
    before = {n: np.array(v, copy=True) for n, v in data.items()}
    for style, args, kwargs in call_styles(case, b, data, p):
        out = b.model(*args, **kwargs)
        check_output(out, b, want, tol)
    comps = b.model.eval_components(**dict(data, **p))
    for n, c in zip(b.comp_names, comps):
        close(c, np.atleast_1d(want[n]), tol, 'eval_components ' + n)
    for n in data:
        require(np.array_equal(before[n], data[n]), 'input array {} was modified', n)
    lev = mg.spec_levels(b.sp)
    return max(lev.values()), len(lev)


def labels_of(depth, ncomp, case):
    return ['depth=%d' % depth, 'comps=%d' % ncomp, 'vars=%d' % len(case['spec']['vars']),
            'params=%d' % len(case['spec']['params'])] + \
           ['ndim=%d' % len(d['shape']) for d in case['data'].values()]


@facet(FACETS, 'symbolic', lambda: _case(),
       'random acyclic systems of expressions over adversarial names, called by name, position and both, with '
       'scalar/1d/2d broadcastable data, against an independent evaluator; non-trivial: at least 2 symbols')
def symbolic(case):
    import symfit
    from symfit import Model, CallableModel
    from symfit.core.models import GradientModel
    cls = {'Model': Model, 'CallableModel': CallableModel, 'GradientModel': GradientModel}[case['cls']]
    b = mg.build(case['spec'], cls=cls)
    depth, nc = check_model(case, b)
    return info(len(b.vars) + len(b.params) >= 2, case['cls'], *labels_of(depth, nc, case))


@facet(FACETS, 'numeric', lambda: _case(numeric=True),
       'as symbolic, with a random subset of components given as python callables plus connectivity mapping')
def numeric(case):
    from symfit import CallableNumericalModel
    b = mg.build(case['spec'], cls=CallableNumericalModel)
    depth, nc = check_model(case, b)
    kinds = {c[2] for c in case['spec']['comps']}
    return info(True, 'mixed' if len(kinds) > 1 else 'pure', *labels_of(depth, nc, case))


@facet(FACETS, 'deprecated_numeric', lambda: _case(numeric=True, ncomps=(1, 3), inter=False, nparams=(1, 3), nvars=(1, 2)),
       'callable components declared through independent_vars and params: every component takes all of them')
def deprecated_numeric(case):
    from symfit import CallableNumericalModel
    sp = case['spec']
    b = mg.build(sp)
    every = sorted(sp['vars'] + sp['params'])
    md = {b.table[c]: exprs.to_callable(ast, every) for c, ast, _ in sp['comps']}
    b.model = CallableNumericalModel(md, [b.table[v] for v in sp['vars']], [b.table[q] for q in sp['params']])
    check_model(case, b)
    require([q.name for q in b.model.params] == b.params, 'params {}', b.model.params)
    require([q.name for q in b.model.independent_vars] == b.vars, 'independent_vars {}', b.model.independent_vars)
    return info(True, *labels_of(1, len(sp['comps']), case))


@st.composite
def _expr_case(draw):
    nv, np_ = draw(st.integers(0, 3)), draw(st.integers(0, 3))
    if nv + np_ == 0:
        np_ = 1
    ns = draw(exprs.names(nv + np_ + 2))
    vs, ps, extra = ns[:nv], ns[nv:nv + np_], ns[nv + np_:]
    return {'vars': vs, 'params': ps, 'extra': extra, 'e': draw(exprs.expr(vs + ps, vs + ps)),
            'data': draw(mg.data_for(vs)), 'p': draw(mg.param_values(ps)), 'style': draw(st.integers(0, 99)),
            'create': draw(st.permutations(range(nv + np_)))}


@facet(FACETS, 'expression', _expr_case,
       'bare expressions called positionally, by name, mixed and with surplus names; non-trivial: at least 2 symbols')
def expression(case):
    import sympy
    from symfit import Variable, Parameter
    names = case['vars'] + case['params']
    table = {}
    for i in case['create']:
        n = names[i]
        table[n] = Variable(n) if n in case['vars'] else Parameter(n)
    e = exprs.to_sympy(case['e'], table)
    if sorted(s.name for s in e.free_symbols) != sorted(names) or (e.is_Symbol and case['vars']):
        raise Reject('a symbol cancels')
    data = {n: mg.arr(d) for n, d in case['data'].items()}
    env = dict(data, **case['p'])
    mag = exprs.Mag()
    with np.errstate(all='ignore'):
        want = exprs.value(case['e'], env, mag)
    if not mag.m < 1e6:
        raise Reject('magnitude')
    tol = 1e-9 * (1 + mag.m)
    order = [(n, env[n]) for n in sorted(case['vars']) + sorted(case['params'])]
    k = case['style'] % (len(order) + 1)
    close(e(*[v for _, v in order]), want, tol, 'positional call')
    close(e(**dict(order)), want, tol, 'named call')
    close(e(*[v for _, v in order[:k]], **dict(order[k:])), want, tol, 'mixed call')
    surplus = {n: 1e3 + i for i, n in enumerate(case['extra'])}
    close(e(**dict(order, **surplus)), want, tol, 'call with surplus names')
    return info(len(names) >= 2, 'vars=%d' % len(case['vars']), 'params=%d' % len(case['params']))


@st.composite
def _twins_case(draw):
    ns = draw(exprs.names(draw(st.integers(2, 4))))
    roles = [draw(st.lists(st.booleans(), min_size=len(ns), max_size=len(ns))) for _ in range(2)]
    return {'names': ns, 'e': draw(exprs.expr(ns, ns, 2)), 'roles': roles, 'env': {n: draw(exprs.number()) for n in ns},
            'as': draw(st.sampled_from(['call', 'model']))}


@facet(FACETS, 'twins', _twins_case,
       'expressions that print alike, called one after the other: the same names in other roles, which changes the '
       'positional order; non-trivial: roles differ')
def twins(case):
    from symfit import Variable, Parameter, Model
    names, env = case['names'], case['env']
    mag = exprs.Mag()
    with np.errstate(all='ignore'):
        base = exprs.value(case['e'], env, mag)
    if not mag.m < 1e4:
        raise Reject('magnitude')
    tol = 1e-9 * (1 + mag.m)
    for var in case['roles']:
        table = {n: (Variable if v else Parameter)(n) for n, v in zip(names, var)}
        e = exprs.to_sympy(case['e'], table)
        if {s.name for s in e.free_symbols} != set(names):
            raise Reject('a symbol cancels')
        order = sorted(n for n, v in zip(names, var) if v) + sorted(n for n, v in zip(names, var) if not v)
        args = [env[n] for n in order]
        if case['as'] == 'call':
            close(e(*args), base, tol, 'positional call with variables {}'.format(sorted(n for n, v in zip(names, var) if v)))
        else:
            close(Model({Variable('zz_out'): e})(*args)[0], [base], tol, 'model with variables {}'.format(sorted(n for n, v in zip(names, var) if v)))
    return info(case['roles'][0] != case['roles'][1], case['as'])


@st.composite
def _dependencies_case(draw):
    sp = draw(mg.spec(numeric=draw(st.booleans()), nparams=(1, 3), ncomps=(2, 5), depth=2))
    return {'spec': sp, 'data': draw(mg.data_for(sp['vars'], ints=False)), 'p': draw(mg.param_values(sp['params'])),
            'cut': draw(st.integers(1, len(sp['comps']) - 1)), 'full': draw(st.booleans()),
            'cls': draw(st.sampled_from(['Model', 'CallableModel', 'GradientModel']))}


@facet(FACETS, 'dependencies', _dependencies_case,
       'with_dependencies: the upper components of a model given together with a model of the lower ones evaluate to the same numbers '
       'as in one model; non-trivial: lower components are used')
def dependencies(case):
    return with_dependencies(case, True)


def with_dependencies(case, numbers):
    import symfit
    sp = case['spec']
    num = any(c[2] == 'num' for c in sp['comps'])
    cls = symfit.CallableNumericalModel if num else getattr(symfit.core.models, case['cls'])
    b = mg.build(sp)
    lower = [c[0] for c in sp['comps'][:case['cut']]]
    data = {n: mg.arr(d) for n, d in case['data'].items()}
    want, mag = mg.ref_values(sp, dict(data, **case['p']))
    asts = {c[0]: c[1] for c in sp['comps']}

    def part(names):
        md = {v: e for v, e in b.model_dict.items() if v.name in names}
        conn = {v: {b.table[s] for s in exprs.symbols_of(asts[v.name])} for v in md if case['full'] or v in b.conn}
        if num and not conn:
            conn = {v: {b.table[s] for s in exprs.symbols_of(asts[v.name])} for v in md}
        return md, conn
    lmd, lconn = part(lower)
    umd, uconn = part([c for c in asts if c not in lower])
    low = cls(lmd, connectivity_mapping=lconn) if num else cls(lmd)
    roles0 = ([v.name for v in low], [v.name for v in low.independent_vars], [q.name for q in low.params], {k: set(v) for k, v in low.connectivity_mapping.items()})
    given, conn0 = dict(umd), {k: set(v) for k, v in uconn.items()}
    model = cls.with_dependencies(umd, low, **({'connectivity_mapping': uconn} if num else {}))
    if not numbers:
        require(dict(umd) == given, 'the mapping of components was modified')
        require(uconn == conn0, 'the connectivity mapping given was modified: {} became {}', conn0, uconn)
        require(roles0 == ([v.name for v in low], [v.name for v in low.independent_vars], [q.name for q in low.params],
                           {k: set(v) for k, v in low.connectivity_mapping.items()}), 'the model of the dependencies was modified')
    # what the upper components need
    need, todo = set(), [v.name for v in umd]
    while todo:
        n = todo.pop()
        if n in asts and n not in need:
            need.add(n)
            todo += sorted(exprs.symbols_of(asts[n]))
    require(type(model) is cls, 'a {} became a {}', cls, type(model))
    have = {v.name for v in model}
    require(need <= have <= set(asts), 'components {} do not match {}', have, need)
    require(not {v.name for v in model.independent_vars} & set(asts), 'components among the independent variables {}', model.independent_vars)
    env = {s.name: dict(data, **case['p'])[s.name] for s in model.independent_vars + model.params}
    out = model(**env)
    for n in sorted(have):
        close(getattr(out, n), np.atleast_1d(want[n]), 1e-9 * (1 + mag), 'component {}'.format(n))
    return info(len(need) > len(umd), cls.__name__, 'upper=%d' % len(umd))


@st.composite
def _complex_case(draw):
    sp = draw(mg.spec(numeric=draw(st.integers(0, 3)) == 0, nparams=(1, 3), ncomps=(1, 3), depth=2))
    return {'spec': sp, 'data': draw(mg.data_for(sp['vars'], ints=False)), 'p': draw(mg.param_values(sp['params'])),
            'step': draw(mg.param_values(sp['params'], -1, 1)), 'h': draw(st.sampled_from([1e-20, 1e-12, 1e-100])),
            'cls': draw(st.sampled_from(['Model', 'CallableModel', 'GradientModel']))}


def complex_step(case, which):
    import symfit
    sp = case['spec']
    cls = symfit.CallableNumericalModel if any(c[2] == 'num' for c in sp['comps']) else getattr(symfit.core.models, case['cls'])
    b = mg.build(sp, cls=cls)
    data = {n: mg.arr(d) for n, d in case['data'].items()}
    jets, mag = mg.ref_jets(sp, data, case['p'], limit=1e3)
    h, dirn = case['h'], np.array([case['step'][q] for q in b.params])
    p = {q: case['p'][q] + 1j * h * case['step'][q] for q in b.params}
    tol = 1e-9 * (1 + mag) ** 1.5
    out = b.model(**dict(data, **p)) if which == 'value' else b.model.eval_jacobian(**dict(data, **p))
    for n in b.comp_names:
        got = np.asarray(getattr(out, n))
        w, d = (jets[n].v, jets[n].g) if which == 'value' else (jets[n].g, jets[n].h)
        close(got.real, w, tol, 'real part of {} at complex parameters'.format(n))
        close(got.imag / h, np.tensordot(dirn, d, 1), tol * (10 if which == 'value' else 100), 'imaginary part of {} at complex parameters'.format(n))
    return info(any(dirn) and any(np.any(jets[n].g) for n in b.comp_names), type(b.model).__name__)


@facet(FACETS, 'complex', _complex_case,
       'models at complex parameters p + i h d: the value is f(p) + i h (gradient . d), with the gradient by forward mode, as used by '
       'complex-step differentiation; non-trivial: a component depends on the parameters')
def complex_(case):
    return complex_step(case, 'value')


# ---- special functions and relations ------------------------------------------

SPECIALS = ['piecewise', 'piecewise3', 'abs', 'minmax', 'sqrt', 'log', 'rational', 'sign', 'atan2', 'hyper', 'expm', 'pi', 'heaviside',
            'floor', 'mod', 'constant', 'ratpow', 'erf_gamma']


@st.composite
def _special_case(draw):
    x, y, a, b = draw(exprs.names(4))
    return {'kind': draw(st.sampled_from(SPECIALS)), 'n': [x, y, a, b],
            'a': draw(exprs.number()), 'b': draw(exprs.number()),
            'data': draw(mg.data_for([x, y], ints=False))}


@facet(FACETS, 'special', _special_case,
       'piecewise, relational, root, logarithm, inverse trigonometric and similar functions against numpy; all cases non-trivial')
def special(case):
    import sympy as sp
    import scipy.special
    from symfit import Variable, Parameter, Model, CallableModel, Piecewise
    nx, ny, na, nb = case['n']
    x, y, a, b = Variable(nx), Variable(ny), Parameter(na), Parameter(nb)
    X, Y = (mg.arr(case['data'][n]) for n in (nx, ny))
    A, B = case['a'], case['b']
    X1 = np.asarray(X, dtype=float)
    kind = case['kind']
    if kind == 'piecewise':
        e, w = Piecewise((a * x, x <= b), (a * x ** 2 + b, True)), np.where(X1 <= B, A * X1, A * X1 ** 2 + B)
    elif kind == 'piecewise3':
        e = Piecewise((a * x, x < -1), (b + x, x > 1), (a - x * b, True))
        w = np.where(X1 < -1, A * X1, np.where(X1 > 1, B + X1, A - X1 * B))
    elif kind == 'abs':
        e, w = abs(a * x + b), np.abs(A * X1 + B)
    elif kind == 'minmax':
        # (sympy prints Max/Min such that numpy needs arguments of equal shape)
        e, w = sp.Max(a * x, x + b) - sp.Min(x, a * x), np.maximum(A * X1, B + X1) - np.minimum(X1, A * X1)
    elif kind == 'sqrt':
        e, w = sp.sqrt(4 + x * sp.sin(a)) + b, np.sqrt(4 + X1 * np.sin(A)) + B
    elif kind == 'log':
        e, w = sp.log(a ** 2 + x ** 2 + sp.Rational(1, 2)) * b, np.log(A ** 2 + X1 ** 2 + 0.5) * B
    elif kind == 'rational':
        e, w = sp.Rational(1, 3) * a * x + sp.Rational(2, 7) * b, A * X1 / 3 + 2 * B / 7
    elif kind == 'sign':
        e, w = sp.sign(x - a) * b, np.sign(X1 - A) * B
    elif kind == 'atan2':
        e, w = sp.atan2(a, x ** 2 + 1) + sp.asinh(b * x), np.arctan2(A, X1 ** 2 + 1) + np.arcsinh(B * X1)
    elif kind == 'hyper':
        e, w = sp.sinh(a) + sp.cosh(x) + sp.tan(b / 4), np.sinh(A) + np.cosh(X1) + np.tan(B / 4)
    elif kind == 'expm':
        e, w = sp.exp(-a * x / 4) * b, np.exp(-A * X1 / 4) * B
    elif kind == 'pi':
        e, w = sp.pi * a * x + sp.E * b, np.pi * A * X1 + np.e * B
    elif kind == 'heaviside':
        e, w = sp.Heaviside(x - sp.Rational(1, 3)) * a + b, np.where(X1 > 1 / 3, 1.0, 0.0) * A + B
    elif kind == 'floor':
        e, w = sp.floor(x + sp.Rational(1, 16)) * a + sp.ceiling(x + sp.Rational(1, 16)) * b, np.floor(X1 + 1 / 16) * A + np.ceil(X1 + 1 / 16) * B
    elif kind == 'mod':
        e, w = sp.Mod(x + sp.Rational(1, 16), 2) * a + b, np.mod(X1 + 1 / 16, 2) * A + B
    elif kind == 'constant':
        e, w = a * b + 2, np.asarray(A * B + 2.0)
    elif kind == 'ratpow':
        e, w = (x ** 2 + a ** 2 + 1) ** sp.Rational(-3, 2) * b, (X1 ** 2 + A ** 2 + 1) ** -1.5 * B
    elif kind == 'erf_gamma':
        e, w = sp.erf(x * a) + b, scipy.special.erf(X1 * A) + B
    syms = {s.name for s in e.free_symbols}
    env = {nx: X, ny: Y, na: A, nb: B}
    kw = {n: env[n] for n in syms}
    out = CallableModel({Variable('out'): e})(**kw)
    tol = 1e-10 * (1 + float(np.max(np.abs(w))))
    close(out.out, np.atleast_1d(w), tol, 'model value of ' + kind)
    close(e(**kw), w, tol, 'call of ' + kind)
    return info(True, kind)


# ---- matrix expressions ---------------------------------------------------------

@st.composite
def _matrix_case(draw):
    n = draw(st.integers(1, 3))
    k = n * n

    def mat(m):
        return draw(st.lists(exprs.number(-2, 2), min_size=m, max_size=m))
    return {'n': n, 'M': mat(k), 'K': mat(k), 'y': mat(n), 'a': draw(exprs.positive(0.5, 3)),
            'names': draw(st.permutations(['A', 'B', 'C', 'D', 'F'])), 'pow': draw(st.sampled_from([2, 3])),
            'kind': draw(st.sampled_from(['inverse', 'hadamard', 'chain', 'matpow', 'hpow', 'transpose', 'mixed']))}


@facet(FACETS, 'matrix', _matrix_case,
       'models over matrix symbols (products, inverses, Hadamard products and powers, matrix powers, transposes) against numpy; '
       'non-trivial: dimension at least 2')
def matrix(case):
    import sympy as sp
    from sympy import MatrixSymbol, Symbol, Inverse, HadamardProduct
    from symfit import Parameter, Variable, CallableModel
    n = case['n']
    N = Symbol('N', integer=True)
    nM, nK, ny, nW, nc = case['names']
    M, K, W = (MatrixSymbol(q, N, N) for q in (nM, nK, nW))
    y, c = (MatrixSymbol(q, N, 1) for q in (ny, nc))
    a, z = Parameter('a'), Variable('z')
    Mv = np.array(case['M']).reshape(n, n)
    Kv = np.array(case['K']).reshape(n, n)
    yv = np.array(case['y']).reshape(n, 1)
    A = case['a']
    S = Mv @ Mv.T + np.eye(n)  # well conditioned, symmetric positive definite
    kind = case['kind']
    if kind == 'inverse':
        md, want = {W: Inverse(M / a)}, {nW: np.linalg.inv(S / A)}
        env = {nM: S, 'a': A}
    elif kind == 'hadamard':
        md, want = {W: HadamardProduct(M, K) * a}, {nW: S * Kv * A}
        env = {nM: S, nK: Kv, 'a': A}
    elif kind == 'matpow':
        md, want = {W: a * M ** case['pow']}, {nW: A * np.linalg.matrix_power(S, case['pow'])}
        env = {nM: S, 'a': A}
    elif kind == 'hpow':
        md, want = {W: sp.HadamardPower(M, case['pow']) * a}, {nW: A * S ** case['pow']}
        env = {nM: S, 'a': A}
    elif kind == 'transpose':
        md, want = {W: M * K.T * a}, {nW: S @ Kv.T * A}
        env = {nM: S, nK: Kv, 'a': A}
    elif kind == 'chain':
        Wv = np.linalg.inv(S + Kv @ Kv.T / A ** 2)
        md = {W: Inverse(M + K / a ** 2), c: -W * y, z: sp.sqrt(c.T * c)}
        cv = -Wv @ yv
        want = {nW: Wv, nc: cv, 'z': np.sqrt(cv.T @ cv)}
        env = {nM: S, nK: Kv @ Kv.T, ny: yv, 'a': A}
    else:
        md = {c: a * M * y + K * y, W: HadamardProduct(M, K)}
        want = {nc: A * S @ yv + Kv @ yv, nW: S * Kv}
        env = {nM: S, nK: Kv, ny: yv, 'a': A}
    model = CallableModel(md)
    out = model(**env)
    for name, w in want.items():
        got = np.asarray(getattr(out, name), dtype=float)
        close(got.reshape(np.shape(w)) if got.size == np.size(w) else got, w,
              1e-8 * (1 + float(np.max(np.abs(w)))), 'matrix component ' + name)
    return info(n >= 2, kind)


# Trees over matrix symbols: ['A'], ['+', l, r], ['-', l, r], ['*', l, r] (matrix
# product), ['had', l, r, ...], ['hpow', x, k], ['T', x], ['inv', x] (made
# invertible), ['s', x] (times a), ['neg', x], ['pow', x, k].

_MOPS = ['+', '-', '*', 'had', 'had3', 'hpow', 'T', 'inv', 's', 'neg', 'pow']


@st.composite
def _mtree(draw, depth):
    if depth == 0 or draw(st.integers(0, 5)) == 3:
        return [draw(st.sampled_from(['A', 'B', 'C']))]
    op = draw(st.sampled_from(_MOPS))
    sub = _mtree(depth - 1)
    if op in ('+', '-', '*', 'had'):
        return [op, draw(sub), draw(sub)]
    if op == 'had3':
        return ['had', draw(sub), draw(sub), draw(sub)]
    if op in ('hpow', 'pow'):
        return [op, draw(sub), draw(st.sampled_from([2, 3]))]
    return [op, draw(sub)]


def _mbuild(t, syms, a):
    """(sympy expression) of a tree."""
    import sympy as sp
    op = t[0]
    if len(t) == 1:
        return syms[op]
    if op == 'hpow':
        return sp.HadamardPower(_mbuild(t[1], syms, a), t[2])
    if op == 'pow':
        return _mbuild(t[1], syms, a) ** t[2]
    args = [_mbuild(u, syms, a) for u in t[1:]]
    if op == '+':
        return args[0] + args[1]
    if op == '-':
        return args[0] - args[1]
    if op == '*':
        return args[0] * args[1]
    if op == 'had':
        return sp.HadamardProduct(*args)
    if op == 'T':
        return args[0].T
    if op == 'inv':
        return sp.Inverse(syms['P'] + args[0] * args[0].T)
    if op == 's':
        return a * args[0]
    return -args[0]


def _meval(t, vals, a):
    op = t[0]
    if len(t) == 1:
        return vals[op]
    if op == 'hpow':
        return _meval(t[1], vals, a) ** t[2]
    if op == 'pow':
        return np.linalg.matrix_power(_meval(t[1], vals, a), t[2])
    args = [_meval(u, vals, a) for u in t[1:]]
    if op == '+':
        return args[0] + args[1]
    if op == '-':
        return args[0] - args[1]
    if op == '*':
        return args[0] @ args[1]
    if op == 'had':
        out = args[0]
        for u in args[1:]:
            out = out * u
        return out
    if op == 'T':
        return args[0].T
    if op == 'inv':
        return np.linalg.inv(vals['P'] + args[0] @ args[0].T)
    if op == 's':
        return a * args[0]
    return -args[0]


def _mops(t):
    return ([t[0]] if len(t) > 1 else []) + [o for u in t[1:] if isinstance(u, list) for o in _mops(u)]


@st.composite
def _matrix_tree_case(draw):
    n = draw(st.integers(2, 3))
    num = exprs.number(-2, 2)
    return {'n': n, 'tree': draw(_mtree(draw(st.integers(1, 3)))), 'second': draw(_mtree(2)), 'symbolic': draw(st.booleans()),
            'vals': {k: draw(st.lists(num, min_size=n * n, max_size=n * n)) for k in 'ABCP'},
            'y': draw(st.lists(num, min_size=n, max_size=n)), 'a': draw(exprs.positive(0.5, 3)),
            'link': draw(st.sampled_from(['separate', 'chain', 'vector', 'sum', 'weighted_sum', 'sqnorm']))}


@facet(FACETS, 'matrix_trees', _matrix_tree_case,
       'models built from random trees of matrix operations (sums, matrix and element-wise products and powers, inverses, transposes, '
       'scalar factors), also feeding a second component (element-wise product, matrix-vector product, sum over elements), '
       'against numpy; non-trivial: at least three operations')
def matrix_trees(case):
    import sympy as sp
    from symfit import Parameter, Variable, CallableModel
    from sympy import MatrixSymbol
    n, a, A = case['n'], Parameter('a'), case['a']
    N = sp.Symbol('N', integer=True) if case['symbolic'] else n
    vals = {k: np.array(v).reshape(n, n) for k, v in case['vals'].items()}
    vals['P'] = vals['P'] @ vals['P'].T + np.eye(n)
    yv = np.array(case['y']).reshape(n, 1)
    syms = {k: MatrixSymbol(k, N, N) for k in 'ABCP'}
    W, Z, y, c, z = MatrixSymbol('W', N, N), MatrixSymbol('Z', N, N), MatrixSymbol('y', N, 1), MatrixSymbol('c', N, 1), Variable('z')
    first = _mbuild(case['tree'], syms, a)
    try:
        Wv = _meval(case['tree'], vals, A)
    except np.linalg.LinAlgError:
        raise Reject('singular')
    md, want = {W: first}, {'W': Wv}
    link = case['link']
    if link == 'separate':
        md[Z] = _mbuild(case['second'], syms, a)
        want['Z'] = _meval(case['second'], vals, A)
    elif link == 'chain':
        # the second tree has the first component in place of A
        md[Z] = _mbuild(case['second'], dict(syms, A=W), a)
        want['Z'] = _meval(case['second'], dict(vals, A=Wv), A)
    elif link == 'vector':
        md[c] = W * y - a * y
        want['c'] = Wv @ yv - A * yv
    elif link in ('sum', 'weighted_sum'):
        i = sp.Idx('i', (0, n - 1)) if case['symbolic'] else sp.Idx('i', n)
        if link == 'sum':
            md[z] = sp.Sum(y[i, 0] * W[i, 0], i) * a
            want['z'] = float(np.sum(yv[:, 0] * Wv[:, 0])) * A
        else:
            md[z] = sp.Sum(a * W[i, i] ** 2 - y[i, 0], i)
            want['z'] = float(np.sum(A * np.diag(Wv) ** 2 - yv[:, 0]))
    else:
        md[c] = W * y
        md[z] = sp.sqrt(c.T * c) * a
        want['c'] = Wv @ yv
        want['z'] = float(np.linalg.norm(Wv @ yv)) * A
    for w in want.values():
        if not np.all(np.isfinite(w)) or np.max(np.abs(w)) > 1e12:
            raise Reject('overflow')
    if not all(isinstance(e, (sp.MatrixExpr, sp.Expr)) and e.free_symbols for e in md.values()):
        raise Reject('constant')
    model = CallableModel(md)
    env = {v.name: {**vals, 'y': yv}[v.name] for v in model.independent_vars if v.name != 'N'}
    if any(v.name == 'N' for v in model.independent_vars):
        env['N'] = n
    if a in model.params:
        env['a'] = A
    out = model(**env)
    conditioned = np.max(np.abs(np.concatenate([np.ravel(w) for w in want.values()])))
    for name, w in want.items():
        got = np.asarray(getattr(out, name), dtype=float)
        close(got.reshape(np.shape(w)) if got.size == np.size(w) else got, w,
              1e-8 * (1 + float(conditioned)), 'matrix component ' + name)
    ops = _mops(case['tree'])
    return info(len(ops) >= 3, link, *sorted(set(ops)))


# ---- size ------------------------------------------------------------------------

@st.composite
def _big(draw):
    c = draw(big.case_(J=(1, 12)))
    return {'c': c, 'cls': draw(st.sampled_from(['Model', 'CallableModel', 'GradientModel', 'num'])), 'style': draw(st.integers(0, 40))}


@facet(FACETS, 'big', _big,
       'models of 7-14 parameters, up to 12 components and thousands of points, called partly by position, against numpy; '
       'non-trivial: all')
def big_(case):
    import symfit
    pr = big.Problem(case['c'])
    num = case['cls'] == 'num'
    m = pr.build(None if num else getattr(symfit.core.models, case['cls']), numeric=num)
    order = sorted(case['c']['vs']) + pr.names
    kw = pr.kw(pr.p)
    k = case['style'] % (len(order) + 1)
    out = m(*[kw[n] for n in order[:k]], **{n: kw[n] for n in order[k:]})
    want = pr.values(pr.p)
    require(len(out) == pr.J, '{} components', len(out))
    for i, j in enumerate(pr.comps):
        close(out[i], want[j], 1e-9 * pr.K, 'component {} by position'.format(case['c']['ys'][j]))
        close(getattr(out, case['c']['ys'][j]), want[j], 1e-9 * pr.K, 'component {} by name'.format(case['c']['ys'][j]))
        close(out._asdict()[pr.Y[j]], want[j], 1e-9 * pr.K, 'component {} by variable'.format(case['c']['ys'][j]))
    return info(True, case['cls'], *pr.labels())
