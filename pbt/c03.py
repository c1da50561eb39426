"""C03: model Jacobians are the exact parameter derivatives."""
import mpmath
import numpy as np
from hypothesis import strategies as st

import big
import exprs
import models_gen as mg
from core import facet, info, close, require, Violation, Reject

FACETS = {}


def tol_of(mag):
    return 1e-9 * (1 + mag) ** 1.5


@st.composite
def case_strategy(draw, **kw):
    kw.setdefault('nparams', (1, 4))
    sp = draw(mg.spec(attrs=True, **kw))
    return {'spec': sp, 'data': draw(mg.data_for(sp['vars'])), 'p': draw(mg.param_values(sp['params'])),
            'cls': draw(st.sampled_from(['Model', 'Model', 'GradientModel', 'HessianModel'])),
            'style': draw(st.integers(0, 9)), 'twice': draw(st.booleans())}


def calls(case, b, data, p):
    order = [(n, data[n]) for n in b.vars] + [(n, p[n]) for n in b.params]
    k = case['style'] % (len(order) + 1)
    yield (), dict(order)
    yield tuple(v for _, v in order[:k]), dict(order[k:])


def check_eval(case, which, cls):
    """Compare eval_jacobian ('j') or eval_hessian ('h') with the jets."""
    sp = case['spec']
    b = mg.build(sp, cls=cls)
    data = {n: mg.arr(d) for n, d in case['data'].items()}
    p = case['p']
    want, mag = mg.ref_jets(sp, data, p, limit=2e4)
    tol = tol_of(mag)
    func = b.model.eval_jacobian if which == 'j' else b.model.eval_hessian
    what = 'Jacobian' if which == 'j' else 'Hessian'
    before = {n: np.array(v, copy=True) for n, v in data.items()}
    for args, kwargs in calls(case, b, data, p):
        out = func(*args, **kwargs)
        require(len(out) == len(b.comp_names), '{} of {} components', what, len(out))
        d = out._asdict()
        require([v.name for v in d] == b.comp_names, '{} components {}', what, list(d))
        for i, n in enumerate(b.comp_names):
            w = want[n].g if which == 'j' else want[n].h
            close(out[i], w, tol, '{} of {} by position'.format(what, n))
            close(getattr(out, n), w, tol, '{} of {} by name'.format(what, n))
            close(d[b.table[n]], w, tol, '{} of {} by variable'.format(what, n))
            if which == 'h':
                h = np.asarray(out[i])
                close(h, np.swapaxes(h, 0, 1), tol, 'symmetry of the Hessian of ' + n)
    for n in data:
        require(np.array_equal(before[n], data[n]), 'input array {} was modified', n)
    if case.get('twice'):
        # values are unaffected by having evaluated derivatives
        vals = b.model(**dict(data, **p))
        for i, n in enumerate(b.comp_names):
            close(vals[i], want[n].v, tol, 'value of {} after differentiating'.format(n))
    lev = mg.spec_levels(sp)
    depth = max(lev.values())
    nz = any(np.any((want[n].g if which == 'j' else want[n].h) != 0) for n in want)
    return b, depth, nz


def lab(depth, case):
    return ['depth=%d' % depth, 'comps=%d' % len(case['spec']['comps']), 'params=%d' % len(case['spec']['params'])] + \
        ['ndim=%d' % len(d['shape']) for d in case['data'].values()]


def get_cls(case):
    from symfit.core import models
    return getattr(models, case['cls'])


@facet(FACETS, 'evaluated', lambda: case_strategy(),
       'eval_jacobian of random acyclic systems of smooth expressions (1-4 components, scalar/1d/2d broadcast data) against '
       'forward-mode differentiation of the definition; non-trivial: some derivative is not zero')
def evaluated(case):
    b, depth, nz = check_eval(case, 'j', get_cls(case))
    return info(nz, *lab(depth, case))


@st.composite
def chain_strategy(draw):
    """Deep systems: every component builds on the one before."""
    nv, np_, nc = draw(st.integers(0, 2)), draw(st.integers(1, 3)), draw(st.integers(3, 6))
    ns = draw(exprs.names(nv + np_ + nc))
    vs, ps, cs = ns[:nv], ns[nv:nv + np_], ns[nv + np_:]
    comps = []
    for i in range(nc):
        d = [cs[i - 1]] if i else []
        if i > 1 and draw(st.booleans()):
            d.append(cs[draw(st.integers(0, i - 2))])
        if i == 0 or draw(st.booleans()):
            d.append(draw(st.sampled_from(ps)))
        if vs and draw(st.booleans()):
            d.append(draw(st.sampled_from(vs)))
        comps.append([cs[i], small_expr(draw, d), 'sym'])
    used = set().union(*[exprs.symbols_of(c[1]) for c in comps])
    for s in vs + ps:
        if s not in used:
            k = draw(st.integers(0, nc - 1))
            comps[k][1] = ['+', comps[k][1], ['*', ['s', s], ['c', 2.0]]]
    sp = {'vars': vs, 'params': ps, 'comps': comps, 'write': draw(st.permutations(range(nc))),
          'create': draw(st.permutations(range(len(ns))))}
    return {'spec': sp, 'data': draw(mg.data_for(vs, maxdim=1)), 'p': draw(mg.param_values(ps)), 'cls': 'Model',
            'style': draw(st.integers(0, 9)), 'twice': False}


def small_expr(draw, names):
    e = ['s', names[0]]
    e = draw(st.sampled_from([e, ['sin', e], ['pow', e, 2], ['tanh', e], ['gexp', e]]))
    for n in names[1:]:
        f = ['s', n]
        f = draw(st.sampled_from([f, f, ['cos', f], ['pow', f, 2]]))
        e = [draw(st.sampled_from(['+', '*', '*', '-'])), e, f]
    return e


@facet(FACETS, 'deep', chain_strategy,
       'chains of 3-6 components that each build on earlier ones; non-trivial: depth at least 3 and non-zero derivative')
def deep(case):
    b, depth, nz = check_eval(case, 'j', get_cls(case))
    return info(nz and depth >= 3, *lab(depth, case))


# ---- the symbolic Jacobian / Hessian -----------------------------------------

def eval_symbolic(e, point, jets, ps):
    """Value of a symbolic derivative; derivative symbols and components in it
    stand for the derivatives and values of those components."""
    import sympy
    e = sympy.sympify(e)
    e = _resolve(e, point, jets, ps)
    bad = e.free_symbols
    if bad:
        raise Violation('symbolic derivative contains unknown symbols {}: {}'.format(bad, e))
    try:
        return float(e.evalf(30))
    except TypeError:
        raise Violation('symbolic derivative is not a number: {}'.format(e))


def _resolve(e, point, jets, ps):
    import sympy
    if isinstance(e, sympy.Derivative):
        f = e.expr
        vs = [v.name for v in e.variables]
        name = getattr(f, 'name', None)
        if name in jets and isinstance(f, sympy.Symbol) and all(v in ps for v in vs):
            j = jets[name]
            idx = [ps.index(v) for v in vs]
            if len(idx) == 1:
                return sympy.Float(float(j.g[idx[0]].ravel()[0]), 30)
            if len(idx) == 2:
                return sympy.Float(float(j.h[idx[0], idx[1]].ravel()[0]), 30)
        raise Violation('symbolic derivative contains {}'.format(e))
    if isinstance(e, sympy.Symbol):
        if e.name not in point:
            raise Violation('symbolic derivative contains unknown symbol {}'.format(e))
        return sympy.Float(float(point[e.name]), 30)
    if e.is_Atom:
        return e
    return e.func(*[_resolve(a, point, jets, ps) for a in e.args])


def symbolic_point(case):
    sp = case['spec']
    data = {n: float(np.ravel(mg.arr(d))[0]) for n, d in case['data'].items()}
    jets, mag = mg.ref_jets(sp, data, case['p'], limit=2e4)
    vals, _ = mg.ref_values(sp, dict(data, **case['p']))
    point = dict(data, **case['p'])
    point.update({n: float(v) for n, v in vals.items()})
    return point, jets, mag


@facet(FACETS, 'symbolic', lambda: case_strategy(),
       'every entry of model.jacobian and of the Jacobian model, evaluated exactly with the true values and derivatives of '
       'the components it mentions; non-trivial: at least two components or parameters')
def symbolic(case):
    from symfit import D
    b = mg.build(case['spec'], cls=get_cls(case))
    point, jets, mag = symbolic_point(case)
    ps = b.params
    jac = b.model.jacobian
    require(len(jac) == len(b.comp_names), 'symbolic Jacobian has {} rows', len(jac))
    for n, row in zip(b.comp_names, jac):
        require(len(row) == len(ps), 'row of {} has {} entries', n, len(row))
        for i, e in enumerate(row):
            w = float(jets[n].g[i].ravel()[0])
            close(eval_symbolic(e, point, jets, ps), w, tol_of(mag), 'symbolic d{}/d{} = {}'.format(n, ps[i], e))
    jm = b.model.jacobian_model
    require([p.name for p in jm.params] == ps, 'parameters of the Jacobian model are {}', jm.params)
    out = jm(**{n: point[n] for n in b.vars + ps})
    for n in b.comp_names:
        for i, pn in enumerate(ps):
            close(out[D(b.table[n], b.table[pn])] if False else out._asdict()[D(b.table[n], b.table[pn])].ravel()[0],
                  jets[n].g[i].ravel()[0], tol_of(mag), 'Jacobian model d{}/d{}'.format(n, pn))
    return info(len(b.comp_names) * len(ps) > 1, 'comps=%d' % len(b.comp_names))


# ---- functions outside the expression grammar ---------------------------------

def _templates():
    import sympy as S
    m = mpmath
    return {
        # name: (sympy expr, mpmath function) of positive x, parameters a, b
        'power': (lambda x, a, b: x ** a + b, lambda x, a, b: x ** a + b),
        'decay': (lambda x, a, b: a * S.exp(-b * x), lambda x, a, b: a * m.exp(-b * x)),
        'ratio': (lambda x, a, b: a / (x + S.exp(b)), lambda x, a, b: a / (x + m.exp(b))),
        'base': (lambda x, a, b: S.exp(a) ** (b * x) + x, lambda x, a, b: m.exp(a) ** (b * x) + x),
        'roots': (lambda x, a, b: S.sqrt(x * S.exp(a)) * S.cosh(b), lambda x, a, b: m.sqrt(x * m.exp(a)) * m.cosh(b)),
        'logs': (lambda x, a, b: S.log(x + a ** 2) / S.log(x + 2 + b ** 2), lambda x, a, b: m.log(x + a ** 2) / m.log(x + 2 + b ** 2)),
        'tans': (lambda x, a, b: S.tan(a / 4) * S.sinh(b) + S.asinh(a * x), lambda x, a, b: m.tan(a / 4) * m.sinh(b) + m.asinh(a * x)),
        'gauss': (lambda x, a, b: S.exp(-(x - a) ** 2 / (2 * S.exp(b))) / S.sqrt(2 * S.pi * S.exp(b)),
                  lambda x, a, b: m.exp(-(x - a) ** 2 / (2 * m.exp(b))) / m.sqrt(2 * m.pi * m.exp(b))),
        'pieces': (lambda x, a, b: S.Piecewise((a * x ** 2 + b, x > 1), (a * b * x, True)),
                   lambda x, a, b: a * x ** 2 + b if x > 1 else a * b * x),
        'abs': (lambda x, a, b: abs(x + a ** 2) * b, lambda x, a, b: abs(x + a ** 2) * b),
        'kink': (lambda x, a, b: abs(x - 2 + a) * b - x * abs(b) ** 3, lambda x, a, b: abs(x - 2 + a) * b - x * abs(b) ** 3),
        'absval': (lambda x, a, b: b / (1 + abs(a)) + x, lambda x, a, b: b / (1 + abs(a)) + x),
        'selfpow': (lambda x, a, b: (x + b ** 2) ** (a * b), lambda x, a, b: (x + b ** 2) ** (a * b)),
        'atan2': (lambda x, a, b: S.atan2(a, x) + b ** 3, lambda x, a, b: m.atan2(a, x) + b ** 3),
    }


TEMPLATES = ['power', 'decay', 'ratio', 'base', 'roots', 'logs', 'tans', 'gauss', 'pieces', 'abs', 'kink', 'absval', 'selfpow', 'atan2']


@st.composite
def template_strategy(draw):
    return {'n': draw(exprs.names(6)), 't': draw(st.sampled_from(TEMPLATES)), 'x': draw(st.lists(exprs.positive(), min_size=1, max_size=3, unique=True)),
            'a': draw(exprs.number(-2, 2)), 'b': draw(exprs.number(-2, 2)), 'nest': draw(st.booleans()),
            'outer': draw(st.integers(0, 2))}


def template_case(case, which):
    from symfit import Model, Variable, Parameter
    nx, na, nb, ny, nz, nw = case['n']
    x, y, z = Variable(nx), Variable(ny), Variable(nz)
    a, b = Parameter(na), Parameter(nb)
    fs, fm = _templates()[case['t']]
    outer = [(lambda u, a: u ** 2 * a), (lambda u, a: u + a ** 2), (lambda u, a: u * a ** 2 + a)][case['outer']]
    e = fs(x, a, b)
    md = {z: e}
    full = {nz: fm}
    if case['nest']:
        md[y] = outer(z, a)
        full[ny] = lambda xx, aa, bb: outer(fm(xx, aa, bb), aa)
    used = {s.name for q in md.values() for s in q.free_symbols}
    if not {nx, na, nb} <= used:
        raise Reject('symbol cancels')
    model = Model(md)
    ps = sorted([na, nb])
    vals = {na: case['a'], nb: case['b']}
    xs = np.array(case['x'], dtype=float)
    if case['t'] == 'pieces' and 1.0 in case['x']:
        raise Reject('kink')
    if case['t'] == 'absval' and case['a'] == 0 or case['t'] == 'kink' and (case['b'] == 0 or any(v - 2 + case['a'] == 0 for v in case['x'])):
        raise Reject('kink')
    out = (model.eval_jacobian if which == 'j' else model.eval_hessian)(**{nx: xs, na: case['a'], nb: case['b']})
    with mpmath.workdps(40):
        for n, f in full.items():
            def g(xv, orders):
                return float(mpmath.diff(lambda aa, bb: f(mpmath.mpf(xv), aa, bb),
                                         (mpmath.mpf(case['a']), mpmath.mpf(case['b'])), orders))
            ia, ib = ps.index(na), ps.index(nb)
            if which == 'j':
                want = np.zeros((2, len(xs)))
                want[ia] = [g(v, (1, 0)) for v in xs]
                want[ib] = [g(v, (0, 1)) for v in xs]
            else:
                want = np.zeros((2, 2, len(xs)))
                want[ia, ia] = [g(v, (2, 0)) for v in xs]
                want[ib, ib] = [g(v, (0, 2)) for v in xs]
                want[ia, ib] = want[ib, ia] = [g(v, (1, 1)) for v in xs]
            scale = np.max(np.abs(want)) + 1
            if not scale < 1e6:
                raise Reject('magnitude')
            close(getattr(out, n), want, 1e-7 * scale, '{} of {} = {}'.format('Jacobian' if which == 'j' else 'Hessian', n, md))
    return info(True, case['t'], 'nested' if case['nest'] else 'flat')


@facet(FACETS, 'functions', template_strategy,
       'powers, exponentials, logs, hyperbolic and inverse functions, piecewise and absolute values, also nested in a '
       'second component, against numerical differentiation with 40 digits; all cases non-trivial')
def functions(case):
    return template_case(case, 'j')


@st.composite
def _complex_case(draw):
    import c01
    return dict(draw(c01._complex_case().filter(lambda c: not any(k[2] == 'num' for k in c['spec']['comps']))),
                cls=draw(st.sampled_from(['Model', 'GradientModel'])))


@facet(FACETS, 'complex', _complex_case,
       'Jacobians at complex parameters p + i h d: J(p) + i h (Hessian . d), with the derivatives by forward mode, as used by '
       'complex-step differentiation; non-trivial: a component depends on the parameters')
def complex_(case):
    import c01
    return c01.complex_step(case, 'jacobian')


# ---- size ------------------------------------------------------------------------

@st.composite
def _big(draw):
    return {'c': draw(big.case_(J=(1, 6))), 'cls': draw(st.sampled_from(['Model', 'GradientModel', 'HessianModel']))}


@facet(FACETS, 'big', _big,
       'Jacobians of models of 7-14 parameters, up to 6 components and thousands of points against numpy; non-trivial: all')
def big_(case):
    import symfit
    pr = big.Problem(case['c'])
    m = pr.build(getattr(symfit.core.models, case['cls']))
    out = m.eval_jacobian(**pr.kw(pr.p))
    want = pr.jac(pr.p)
    require(len(out) == pr.J, '{} components', len(out))
    for i, j in enumerate(pr.comps):
        close(out[i], want[j][pr.order], 1e-9 * pr.K, 'Jacobian of {} by {}'.format(case['c']['ys'][j], pr.names))
    return info(True, case['cls'], *pr.labels())
