"""C05: finite-difference Jacobians approximate the true derivatives."""
import numpy as np
from hypothesis import strategies as st

import big
import exprs
import models_gen as mg
import odes
from core import facet, info, close, require, Violation, Reject

FACETS = {}


@st.composite
def _case(draw, **kw):
    kw.setdefault('nparams', (1, 4))
    sp = draw(mg.spec(attrs=True, **kw))
    p = {n: draw(st.one_of(exprs.number(), exprs.number(), st.just(0.0), st.sampled_from([1e-9, 1e-4, -1e-3, 5e-8]))) for n in sp['params']}
    return {'spec': sp, 'data': draw(mg.data_for(sp['vars'])), 'p': p, 'style': draw(st.integers(0, 9)),
            'tuple': draw(st.booleans())}


def step(v):
    return 1e-8 * (abs(v) if abs(v) >= 1e-7 else 1.0)


def fd_class():
    from symfit import CallableNumericalModel
    from symfit.core.models import BaseGradientModel

    class FDModel(BaseGradientModel, CallableNumericalModel):
        pass
    return FDModel


def compare(out, want, names, ps, p, mag, what):
    require(len(out) == len(names), '{}: {} components', what, len(out))
    for i, n in enumerate(names):
        g = want[n].g
        tol = np.array([2e-14 * (1 + mag) ** 1.5 / step(p[q]) + 1e-7 * (1 + mag) for q in ps]).reshape((-1,) + (1,) * (g.ndim - 1))
        close(out[i], g, tol, '{}: d{} by {}'.format(what, n, ps))


@facet(FACETS, 'callable', lambda: _case(numeric=True),
       'callable-based gradient models (random acyclic systems, broadcast data, parameter values of any sign, zero and tiny) '
       'against forward-mode differentiation, error bound from the rounding of the differences; non-trivial: non-zero derivative')
def callable_(case):
    from symfit.core.models import ModelOutput
    sp = case['spec']
    b = mg.build(sp, cls=fd_class())
    data = {n: mg.arr(d) for n, d in case['data'].items()}
    p = case['p']
    want, mag = mg.ref_jets(sp, data, p, limit=300)
    before = {n: np.array(v, copy=True) for n, v in data.items()}
    order = [(n, data[n]) for n in b.vars] + [(n, p[n]) for n in b.params]
    k = case['style'] % (len(order) + 1)
    args, kwargs = tuple(v for _, v in order[:k]), dict(order[k:])
    kw0 = dict(kwargs)
    out = b.model.eval_jacobian(*args, **kwargs)
    require(isinstance(out, ModelOutput), 'eval_jacobian returned a {}', type(out))
    require([v.name for v in out._asdict()] == b.comp_names, 'components {}', list(out._asdict()))
    compare(out, want, b.comp_names, b.params, p, mag, 'eval_jacobian')
    out2 = b.model.finite_difference(*args, **kwargs)
    compare(out2, want, b.comp_names, b.params, p, mag, 'finite_difference')
    require(all(kwargs[n] is kw0[n] for n in kw0) and len(kwargs) == len(kw0), 'the arguments changed')
    for n in data:
        require(np.array_equal(before[n], data[n]), 'input array {} was modified', n)
    shapes = {tuple(want[n].v.shape) for n in want}
    return info(any(np.any(want[n].g != 0) for n in want), 'zero par' if 0.0 in p.values() else 'no zero', 'shapes=%d' % len(shapes),
                'neg' if any(v < 0 for v in p.values()) else 'pos', 'comps=%d' % len(want))


@facet(FACETS, 'of_symbolic', lambda: _case(),
       'finite_difference of symbolic models agrees with their own analytic Jacobian and with forward mode; non-trivial: '
       'non-zero derivative')
def of_symbolic(case):
    from symfit import Model
    sp = case['spec']
    b = mg.build(sp, cls=Model)
    data = {n: mg.arr(d) for n, d in case['data'].items()}
    p = case['p']
    want, mag = mg.ref_jets(sp, data, p, limit=300)
    out = b.model.finite_difference(**dict(data, **p))
    compare(out, want, b.comp_names, b.params, p, mag, 'finite_difference')
    ana = b.model.eval_jacobian(**dict(data, **p))
    for i, n in enumerate(b.comp_names):
        require(np.shape(out[i]) == np.shape(ana[i]), 'layout {} differs from the analytic one {}', np.shape(out[i]), np.shape(ana[i]))
    return info(any(np.any(want[n].g != 0) for n in want))


@st.composite
def _poly(draw):
    ns = draw(exprs.names(5))
    x, p1, p2, y1, y2 = ns

    def poly():
        return [[draw(exprs.nonzero(-2, 2)), draw(st.integers(0, 4)), draw(st.integers(0, 2)), draw(st.integers(0, 2))] for _ in range(draw(st.integers(1, 3)))]
    return {'n': ns, 'f': [poly(), poly()], 'p': [draw(st.one_of(exprs.number(-2, 2), st.just(0.0))) for _ in range(2)],
            'x': draw(st.lists(exprs.number(-2, 2), min_size=1, max_size=4)), 'dx': draw(st.sampled_from([1e-3, 1e-2, 0.1, 0.25])),
            'scalar': draw(st.booleans())}


@facet(FACETS, 'order', _poly,
       'sixth order: for polynomials of degree up to 6 in the parameters the differences are exact for every step size dx; '
       'non-trivial: degree of at least 2 in some parameter')
def order(case):
    from symfit import Variable, Parameter
    nx, n1, n2, ny1, ny2 = case['n']
    x, a, b, y1, y2 = Variable(nx), Parameter(n1), Parameter(n2), Variable(ny1), Variable(ny2)

    def make(poly):
        def f(xv, av, bv):
            return sum(c * xv ** k * av ** i * bv ** j for c, i, j, k in poly) + 0 * xv
        ns = {'f': f}
        return eval('lambda {0}, {1}, {2}: f({0}, {1}, {2})'.format(nx, n1, n2), ns), f
    g1, f1 = make(case['f'][0])
    g2, f2 = make(case['f'][1])
    model = fd_class()({y1: g1, y2: g2}, connectivity_mapping={y1: {x, a, b}, y2: {x, a, b}})
    xs = np.array(case['x']) if not case['scalar'] else case['x'][0]
    av, bv = case['p']
    out = model.finite_difference(**{nx: xs, n1: av, n2: bv, 'dx': case['dx']})
    out_e = model.eval_jacobian(**{nx: xs, n1: av, n2: bv, 'dx': case['dx']})
    ps = sorted([n1, n2])
    comps = sorted([(ny1, case['f'][0]), (ny2, case['f'][1])])
    xa = np.atleast_1d(xs)
    for i, (n, poly) in enumerate(comps):
        da = sum(c * xa ** k * q * av ** (q - 1) * bv ** j if q else 0 * xa for c, q, j, k in poly) + 0 * xa
        db = sum(c * xa ** k * av ** q * j * bv ** (j - 1) if j else 0 * xa for c, q, j, k in poly) + 0 * xa
        w = np.zeros((2,) + xa.shape)
        w[ps.index(n1)], w[ps.index(n2)] = da, db
        scale = 1 + sum(abs(c) * 2.5 ** (q + j + k) for c, q, j, k in poly)
        # step sizes are relative unless the value is (almost) zero
        h = case['dx'] * np.array([abs(dict(zip((n1, n2), (av, bv)))[q]) or 1.0 for q in ps])
        tol = (1e-13 * scale / h + 1e-12 * scale).reshape(2, 1)
        close(out[i], w, tol, 'finite_difference of {} with dx={}'.format(n, case['dx']))
        close(out_e[i], w, tol, 'eval_jacobian of {} with dx={}'.format(n, case['dx']))
    return info(any(i > 1 or j > 1 for f in case['f'] for _, i, j, _ in f), 'dx=%g' % case['dx'])


@st.composite
def _ode(draw):
    c = draw(odes.linear(maxk=2, attrs=True))
    return {'ode': c, 'ts': draw(odes.times(c['t0'], 1.0, 4)), 'style': draw(st.integers(0, 9))}


@facet(FACETS, 'ode', _ode,
       'Jacobians of ODE models (rates and initial values) with steps above the integrator tolerance against differences of the '
       'exact solution; non-trivial: a time other than the initial one')
def ode(case):
    c, ts = case['ode'], case['ts']
    g = odes.growth(c, ts)
    model, table = odes.build_linear(c, rtol=1e-10, atol=1e-11)
    p = c['p']
    t = np.array(ts, dtype=float)
    out = model.finite_difference(**dict(p, **{c['t']: t, 'dx': 1e-2}))
    out2 = model.eval_jacobian(**dict(p, **{c['t']: t}))
    names = sorted(c['ys'])
    for i, q in enumerate(c['pars']):
        h = 1e-4
        hi, lo = odes.solve_linear(c, ts, dict(p, **{q: p[q] + h})), odes.solve_linear(c, ts, dict(p, **{q: p[q] - h}))
        for k, n in enumerate(names):
            w = (hi[n] - lo[n]) / (2 * h)
            require(np.shape(out[k]) == (len(c['pars']), len(ts)), 'layout {} of the Jacobian of {}', np.shape(out[k]), n)
            require(np.shape(out2[k]) == (len(c['pars']), len(ts)), 'layout {} of eval_jacobian of {}', np.shape(out2[k]), n)
            close(out[k][i], w, 1e-4 * (1 + g) / min(1, abs(p[q])), 'd{}/d{} at {}'.format(n, q, ts))
    require(getattr(out2, names[0]) is not None, 'no component by name')
    return info(any(s != c['t0'] for s in ts), 'eqs=%d' % len(names))


# ---- large and small parameters ------------------------------------------------

@st.composite
def _magnitude(draw):
    ns = draw(exprs.names(5))
    terms = [[draw(st.integers(0, 3)), draw(st.integers(-2, 3)), draw(st.integers(-2, 3)), draw(st.sampled_from([1.0, -2.0, 0.5, 3.0]))]
             for _ in range(2)]
    return {'n': ns, 'terms': terms, 'x': draw(st.lists(exprs.positive(0.5, 3), min_size=1, max_size=3)),
            'p': [draw(exprs.positive(1, 5)) * draw(st.sampled_from([-1, 1])) * 10.0 ** draw(st.integers(-6, 9)) for _ in range(2)],
            'cls': draw(st.sampled_from(['symbolic', 'numeric'])), 'scalar': draw(st.booleans())}


@facet(FACETS, 'magnitude', _magnitude,
       'power laws of parameters of any sign and any magnitude from 1e-6 to 1e9: relative error of the differences; '
       'non-trivial: a parameter of more than a thousand or less than a thousandth')
def magnitude(case):
    import symfit
    from symfit import Variable, Parameter
    nx, na, nb, ny, nz = case['n']
    x, a, b, y, z = Variable(nx), Parameter(na), Parameter(nb), Variable(ny), Variable(nz)
    vals = dict(zip((na, nb), case['p']))
    xs = np.array(case['x']) if not case['scalar'] else case['x'][0]
    if case['cls'] == 'symbolic':
        rhs = {v: t[3] * x ** t[0] * a ** t[1] * b ** t[2] for v, t in zip((y, z), case['terms'])}
        if not {na, nb, nx} <= {s.name for e in rhs.values() for s in getattr(e, 'free_symbols', ())}:
            raise Reject('symbol cancels')
        if any(not getattr(e, 'free_symbols', ()) for e in rhs.values()):
            raise Reject('constant component')
        model = symfit.Model(rhs)
    else:
        def make(t):
            src = 'lambda {0}, {1}, {2}: {3!r} * {0} ** {4} * {1} ** {5} * {2} ** {6}'.format(nx, na, nb, t[3], t[0], t[1], t[2])
            return eval(src)
        model = fd_class()({v: make(t) for v, t in zip((y, z), case['terms'])}, connectivity_mapping={y: {x, a, b}, z: {x, a, b}})
    out = model.finite_difference(**dict(vals, **{nx: xs}))
    order = sorted([na, nb])
    for comp, (n, t) in enumerate(sorted(zip((ny, nz), case['terms']))):
        va, vb = case['p']
        f = t[3] * np.atleast_1d(xs) ** t[0] * va ** t[1] * vb ** t[2]
        for i, q in enumerate(order):
            k, v = (t[1], va) if q == na else (t[2], vb)
            want = k * f / v
            got = np.broadcast_to(out[comp][i], np.shape(f))
            close(got, want, 2e-6 * (np.abs(want) + np.abs(f / v)), 'd{}/d{} at {}'.format(n, q, v))
    return info(any(abs(v) > 1e3 or abs(v) < 1e-3 for v in case['p']), case['cls'], 'negative' if min(case['p']) < 0 else 'positive')


# ---- size ------------------------------------------------------------------------

@st.composite
def _big(draw):
    return {'c': draw(big.case_(J=(1, 4), points=(1, 2, 13, 257, 1001))), 'num': draw(st.booleans()), 'zero': draw(st.integers(0, 6))}


@facet(FACETS, 'big', _big,
       'differences for 7-14 parameters, up to 4 components and a thousand points against numpy; non-trivial: all')
def big_(case):
    pr = big.Problem(case['c'])
    if case['zero'] < pr.K:
        pr.p[case['zero']] = 0.0
    m = pr.build(fd_class() if case['num'] else None, numeric=case['num'])
    out = m.finite_difference(**pr.kw(pr.p))
    want = pr.jac(pr.p)
    require(len(out) == pr.J, '{} components', len(out))
    p = pr.p[pr.order]
    mag = max(np.abs(V).max() for V in pr.values(pr.p))
    tol = np.array([2e-14 * (10 + mag) / step(v) + 1e-7 * (1 + mag) for v in p])[:, None]
    for i, j in enumerate(pr.comps):
        close(out[i], want[j][pr.order], tol, 'differences of {} by {}'.format(case['c']['ys'][j], pr.names))
    return info(True, 'num' if case['num'] else 'sym', *pr.labels())
