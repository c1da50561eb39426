"""C10: a converged fit returns the true optimum and consistent fit quality."""
import numpy as np
from hypothesis import strategies as st

import big
import exprs
import models_gen as mg
import objgen
import fitgen as fg
from core import facet, info, close, require, Violation, Reject

FACETS = {}
# Allowed excess of the objective over its optimum (relative to 1 + optimum)
TOL = {'BFGS': 1e-8, 'LBFGSB': 1e-6, 'SLSQP': 1e-6, 'TrustConstr': 1e-6, 'COBYLA': 1e-4, 'NelderMead': 1e-5,
       'Powell': 1e-5, 'MINPACK': 1e-5, 'DifferentialEvolution': 1e-3, 'BasinHopping': 1e-6}


def check_optimum(case, res, popt, Sopt, H, name, loose=1.0, must=True):
    p = fg.result_params(res)
    require(list(p) == sorted(case['spec']['params']), '{}: parameters {}', name, list(p))
    for n, v in case['fixed'].items():
        require(p[n] == v, '{}: fixed parameter {} reported as {} instead of {}', name, n, p[n], v)
    g = fg.gap(case, p, Sopt)
    tol = TOL[name] * loose * (1 + Sopt)
    if not g <= tol:
        if not must and not res.minimizer_output.get('success', True):
            raise Reject('not converged')
        raise Violation('{}: objective exceeds its optimum {:.6g} by {:.3g} (allowed {:.3g}); parameters {} instead of {}; {}'.format(
            name, Sopt, g, tol, p, popt, res.status_message))


def check_gof(case, fit, res, name):
    """Fit quality recomputed from the data and the reported parameters."""
    p = fg.result_params(res)
    pc, mag = objgen.pieces(case, p, 1e12)
    parts = objgen.chi2_parts(pc)
    S = sum(q[0] for q in parts.values())
    tol = 1e-9 * (1 + S) + 1e-12 * mag ** 2
    close(res.chi_squared, 2 * S, 2 * tol, '{}: chi_squared'.format(name))
    if type(fit.objective).__name__ == 'VectorLeastSquares':
        r = 0
        for c, (y, s, j) in pc.items():
            r = r + ((j.v - y) / s) ** 2
        close(res.objective_value, np.sqrt(r).ravel(), 1e-7 * (1 + mag), '{}: objective_value'.format(name))
    else:
        close(res.objective_value, S, tol, '{}: objective_value'.format(name))
    res_, tot = 0.0, 0.0
    for c, (y, s, j) in pc.items():
        res_ += np.sum((y - j.v) ** 2)
        tot += np.sum((y - y.mean()) ** 2)
    if tot > 1e-6:
        want = 1 - res_ / tot
        close(res.r_squared, want, 1e-9 * (1 + abs(want)) + 1e-12 * mag ** 2 / tot, '{}: r_squared'.format(name))


@st.composite
def _linear(draw, **kw):
    c = draw(fg.linear_case(scalars=True, **kw))
    c['minimizer'] = draw(st.sampled_from(fg.LOCAL + [None]))
    c['model'] = draw(st.sampled_from(['Model', 'GradientModel', 'CallableModel']))
    return c


def run(case, name, model_cls, Sopt, **kw):
    objective = kw.pop('objective', None)
    m = None if case['minimizer'] is None else fg.minimizer(name)
    b, fit = fg.make_fit(case, model_cls, minimizer=m, objective=objective, **kw)
    return b, fit


def default_name(case):
    return 'LBFGSB' if case['fixed'] else 'BFGS'


@facet(FACETS, 'linear', lambda: _linear(),
       'linear least squares (1-3 parameters, 1-2 components, weights, intermediate components, missing data) with each local '
       'minimizer must reach the closed form optimum; gof numbers are recomputed; non-trivial: at least two parameters or components')
def linear(case):
    import symfit
    name = case['minimizer'] or default_name(case)
    popt, Sopt, H, n = fg.optimum(case)
    cls = getattr(symfit.core.models, case['model'])
    b, fit = run(case, name, cls, Sopt)
    res = fit.execute()
    check_gof(case, fit, res, name)
    check_optimum(case, res, popt, Sopt, H, name, must=name not in ('COBYLA', 'NelderMead', 'Powell', 'TrustConstr'))
    return info(len(case['spec']['params']) + len(case['y']) > 2, name, case['model'], 'P=%d' % len(case['spec']['params']))


@facet(FACETS, 'numeric', lambda: _linear(kinds=('num',)),
       'as linear, for models with python callables (finite difference or no derivatives)')
def numeric(case):
    import symfit
    name = case['minimizer'] or default_name(case)
    popt, Sopt, H, n = fg.optimum(case)
    b, fit = run(case, name, symfit.CallableNumericalModel, Sopt)
    res = fit.execute()
    check_gof(case, fit, res, name)
    check_optimum(case, res, popt, Sopt, H, name, loose=100, must=name not in ('COBYLA', 'NelderMead', 'Powell'))
    return info(len(case['spec']['params']) + len(case['y']) > 2, name)


@facet(FACETS, 'nonlinear', lambda: _linear(bij=True, guess=2),
       'least squares in monotone functions of the parameters: the only stationary point is known; non-trivial: a non-linear parameter')
def nonlinear(case):
    import symfit
    name = case['minimizer'] or default_name(case)
    popt, Sopt, H, n = fg.optimum(case, maxcond=50.0, big=3.0)
    cls = getattr(symfit.core.models, case['model'])
    b, fit = run(case, name, cls, Sopt)
    res = fit.execute()
    check_gof(case, fit, res, name)
    check_optimum(case, res, popt, Sopt, H, name, loose=10, must=name in ('BFGS', 'LBFGSB', 'MINPACK'))
    return info(any(case['nl'].values()), name, case['model'])


# ---- likelihood --------------------------------------------------------------

@st.composite
def _likelihood(draw):
    ns = draw(exprs.names(4))
    n = draw(st.integers(4, 30))
    return {'names': ns, 'kind': draw(st.sampled_from(['exp', 'exp_rate', 'gauss', 'laplace_like'])),
            'x': draw(st.lists(st.integers(1, 40).map(lambda k: k / 8), min_size=n, max_size=n)),
            'shape2': draw(st.booleans()), 'guess': [draw(exprs.positive(0.5, 3)), draw(exprs.positive(0.5, 3))],
            'minimizer': draw(st.sampled_from(['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'NelderMead', 'Powell', 'COBYLA', None])),
            'numeric': draw(st.booleans()), 'shift': draw(st.integers(-2, 2))}


@facet(FACETS, 'likelihood', _likelihood,
       'maximum likelihood for exponential and normal data: the optimum is the sample mean (and spread), likelihood numbers are '
       'recomputed; non-trivial: at least two distinct data values')
def likelihood(case):
    import sympy
    from symfit import Parameter, Variable, Fit, Model, CallableNumericalModel
    from symfit.distributions import Exp, Gaussian
    from symfit.core.objectives import LogLikelihood
    x, p, q, y = case['names']
    data = np.array(case['x'])
    if case['kind'] == 'gauss':
        data = data + case['shift']
        if np.std(data) < 0.3:
            raise Reject('no spread')
    if case['shape2'] and data.size % 2 == 0:
        data = data.reshape(2, -1)
    X, Y = Variable(x), Variable(y)
    g = case['guess']
    name = case['minimizer'] or 'BFGS'
    bounded = name in ('LBFGSB', 'SLSQP', 'TrustConstr')
    mean0, std0 = float(np.mean(data)) * (0.6 + 0.2 * g[0]), float(np.std(data)) * (0.6 + 0.2 * g[1])
    m = float(np.mean(data))
    kind = case['kind']
    if kind == 'gauss':
        # Spread as exp(q), unless bounds keep it positive
        P = Parameter(p, value=mean0)
        Q = Parameter(q, value=std0, min=1e-2) if bounded else Parameter(q, value=float(np.log(std0)))
        tr = (lambda v: v) if bounded else np.exp
        expr, want = Gaussian(X, P, Q if bounded else sympy.exp(Q)), {p: m, q: np.std(data) if bounded else np.log(np.std(data))}
        fun = lambda **k: np.exp(-(k[x] - k[p]) ** 2 / (2 * tr(k[q]) ** 2)) / np.sqrt(2 * np.pi) / tr(k[q])
        deps = {X, P, Q}
    else:
        opt = {'exp': m, 'exp_rate': 1 / m, 'laplace_like': m / 2}[kind]
        start = 1 / mean0 if kind == 'exp_rate' else mean0
        P = Parameter(p, value=start, min=1e-2) if bounded else Parameter(p, value=float(np.log(start)))
        S = P if bounded else sympy.exp(P)
        tr = (lambda v: v) if bounded else np.exp
        want = {p: opt if bounded else np.log(opt)}
        deps = {X, P}
        if kind == 'exp':
            expr = Exp(X, 1 / S)
            fun = lambda **k: np.exp(-k[x] / tr(k[p])) / tr(k[p])
        elif kind == 'exp_rate':
            expr = S * sympy.exp(-S * X)
            fun = lambda **k: tr(k[p]) * np.exp(-k[x] * tr(k[p]))
        else:
            expr = X * sympy.exp(-X / S) / S ** 2
            fun = lambda **k: k[x] * np.exp(-k[x] / tr(k[p])) / tr(k[p]) ** 2
    if case['numeric']:
        args = sorted(s.name for s in deps)
        f = eval('lambda {}: f({})'.format(', '.join(args), ', '.join('{0}={0}'.format(a) for a in args)), {'f': fun})
        model = CallableNumericalModel({Y: f}, connectivity_mapping={Y: deps})
    else:
        model = Model({Y: expr})
    fit = Fit(model, objective=LogLikelihood, minimizer=None if case['minimizer'] is None else fg.minimizer(name), **{x: data})
    res = fit.execute()
    got = fg.result_params(res)

    def logl(d):
        with np.errstate(all='ignore'):
            return float(np.sum(np.log(fun(**dict(d, **{x: data})))))
    L = logl(got)
    close(res.log_likelihood, L, 1e-8 * (1 + abs(L)), 'log_likelihood')
    close(res.objective_value, -L, 1e-8 * (1 + abs(L)), 'objective value')
    close(res.likelihood, np.exp(L), 1e-8 * np.exp(L) * (1 + abs(L)), 'likelihood')
    require(not hasattr(res, 'chi_squared') and not hasattr(res, 'r_squared'), 'a likelihood fit has chi-squared or R-squared')
    best = logl(want)
    require(L <= best + 1e-9 * (1 + abs(best)), 'harness: optimum')
    if not L >= best - 1e-4 * (1 + abs(best)):
        if name in ('COBYLA', 'NelderMead', 'Powell', 'TrustConstr') and not res.minimizer_output.get('success', True):
            raise Reject('not converged')
        raise Violation('{}: log likelihood {} at {} but {} at {}; {}'.format(name, L, got, best, want, res.status_message))
    return info(len(set(case['x'])) > 1, case['kind'], name, 'numeric' if case['numeric'] else 'symbolic')


# ---- scalar functions --------------------------------------------------------

@st.composite
def _quadratic(draw):
    n = draw(st.integers(1, 3))
    ns = draw(exprs.names(n + 1))
    return {'names': ns, 'L': [[draw(exprs.number(-1, 1)) for _ in range(n)] for _ in range(n)],
            'b': [draw(exprs.number()) for _ in range(n)], 'c': draw(exprs.number()),
            'guess': [draw(exprs.number(-4, 4)) for _ in range(n)],
            'minimizer': draw(st.sampled_from(['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'NelderMead', 'Powell', 'COBYLA', None])),
            'kind': draw(st.sampled_from(['expr', 'dict', 'maximise', 'numeric', 'objective', 'callable'])),
            'wrap': draw(st.sampled_from(['none', 'exp', 'log']))}


@facet(FACETS, 'quadratic', _quadratic,
       'minimising a convex scalar model (given as expression, dict, callable, maximised through its negative, or by a custom '
       'objective) must reach its closed form minimum; non-trivial: at least two parameters')
def quadratic(case):
    import sympy
    from symfit import Parameter, Variable, Fit, Model, CallableNumericalModel
    from symfit.core.objectives import MinimizeModel
    n = len(case['b'])
    names, yname = case['names'][:n], case['names'][n]
    L = np.array(case['L'])
    A = L @ L.T + 0.5 * np.eye(n)
    b, c = np.array(case['b']), case['c']
    ps = [Parameter(nm, value=v) for nm, v in zip(names, case['guess'])]
    quad = sum(A[i, j] * ps[i] * ps[j] / 2 for i in range(n) for j in range(n)) - sum(b[i] * ps[i] for i in range(n)) + c
    xopt = np.linalg.solve(A, b)
    vopt = float(c - b @ xopt / 2)
    g = np.array(case['guess'])
    start = float(g @ A @ g / 2 - b @ g + c)
    s = max(1.0, abs(start - vopt))
    wrap = case['wrap']
    if wrap == 'exp':
        e, f = sympy.exp((quad - vopt) / (2 * s)), lambda v: np.exp((v - vopt) / (2 * s))
    elif wrap == 'log':
        e, f = sympy.log(1 + (quad - vopt) / s), lambda v: np.log(1 + (v - vopt) / s)
    else:
        e, f = quad, lambda v: v

    def value(p):
        v = np.array([p[nm] for nm in names])
        return float(f(v @ A @ v / 2 - b @ v + c))
    Y = Variable(yname)
    name = case['minimizer'] or 'BFGS'
    kw = {} if case['minimizer'] is None else {'minimizer': fg.minimizer(name)}
    kind, sign = case['kind'], 1.0
    fun = eval('lambda {}: value(dict(locals()))'.format(', '.join(names)), {'value': value})
    if kind == 'maximise':
        fit, sign = Fit(-Model({Y: -e}), **kw), 1.0
    elif kind == 'dict':
        fit = Fit({Y: e}, **kw)
    elif kind == 'expr':
        fit = Fit(e, **kw)
    elif kind == 'objective':
        fit = Fit({Y: e}, objective=MinimizeModel, **kw)
    elif kind == 'callable' and case['minimizer']:
        fit = fg.minimizer(name)(fun, sorted(ps, key=lambda p: p.name))
    else:
        fit = Fit(CallableNumericalModel({Y: fun}, connectivity_mapping={Y: set(ps)}), **kw)
    res = fit.execute()
    p = fg.result_params(res)
    v = value(p)
    close(res.objective_value, v, 1e-9 * (1 + abs(v)), 'objective value')
    best = float(f(vopt))
    tol = (1e-4 if name in ('COBYLA', 'NelderMead', 'Powell') else 1e-5) * max(1, abs(start - vopt)) ** (0 if wrap != 'none' else 1)
    if not v <= best + tol:
        if name in ('COBYLA', 'NelderMead', 'Powell', 'TrustConstr') and not res.minimizer_output.get('success', True):
            raise Reject('not converged')
        raise Violation('{}: minimum {} at {} instead of {} at {}; {}'.format(name, v, p, best, dict(zip(names, xopt)), res.status_message))
    return info(n > 1, name, kind, wrap)


# ---- any model: never worse than the guess -----------------------------------

@st.composite
def _any(draw):
    c = draw(objgen.ls_case(fixed=True, scalars=True, spec_kw=dict(nvars=(1, 2))))
    c['route'] = 'fit'
    c['minimizer'] = draw(st.sampled_from(['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'NelderMead', 'Powell', 'COBYLA', 'MINPACK', None]))
    c['guess'] = c['points'][0]
    return c


@facet(FACETS, 'not_worse', _any,
       'fits of arbitrary smooth models: the reported objective is the objective at the reported parameters and not above that at '
       'the guess, fixed parameters keep their value; non-trivial: the objective decreased')
def not_worse(case):
    name = case['minimizer'] or default_name(case)
    if name in ('TrustConstr', 'MINPACK') and len({tuple(d['shape']) for d in case['y'].values() if d}) > 1:
        raise Reject('shapes')
    free = [p for p in case['spec']['params'] if p not in case['fixed']]
    if not free:
        raise Reject('nothing to fit')
    if name == 'MINPACK':
        case = dict(case, y={c: d for c, d in case['y'].items()})
        clo = objgen.base_closure(case['spec'])
        if any(d is not None and not clo[c] for c, d in case['y'].items()):
            raise Reject('constant component')
    start, _, _, _ = fg.chi2(case, case['guess'], limit=1e3)
    m = None if case['minimizer'] is None else fg.minimizer(name)
    case['nl'] = {}
    b, fit = fg.make_fit(case, minimizer=m)
    opts = {'options': {'maxiter': 60}} if name not in ('MINPACK',) else {'max_nfev': 60}
    res = fit.execute(**opts)
    p = fg.result_params(res)
    for n, v in case['fixed'].items():
        require(p[n] == v, '{}: fixed parameter {} reported as {} instead of {}', name, n, p[n], v)
    if max(abs(v) for v in p.values()) > 50:
        raise Reject('diverges')
    S, _, _, _ = fg.chi2(case, p, limit=1e5)
    if name == 'MINPACK':
        close(res.chi_squared, 2 * S, 1e-6 * (1 + S), '{}: chi squared'.format(name))
    else:
        close(res.objective_value, S, 1e-7 * (1 + S), '{}: objective value'.format(name))
        close(res.chi_squared, 2 * S, 1e-7 * (1 + S), '{}: chi squared'.format(name))
    if not S <= start + 1e-7 * (1 + start):
        raise Violation('{}: the reported objective {} exceeds that at the guess {}; {} -> {}; {}'.format(
            name, S, start, case['guess'], p, res.status_message))
    return info(S < start - 1e-6, name, 'fixed' if case['fixed'] else 'free')


# ---- size ------------------------------------------------------------------------

@st.composite
def _big(draw):
    mini = draw(st.sampled_from(['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'MINPACK', None, None]))
    c = draw(big.case_(K=(7, 14), J=(1, 3), pairs=False, points=(40, 257, 1001, 2500), share=True if mini == 'MINPACK' else None,
                       fixed=draw(st.integers(0, 2)) == 1, least=40))
    return {'c': c, 'minimizer': mini, 'sigma': draw(st.booleans()), 'num': draw(st.integers(0, 3)) == 2, 'absolute': draw(st.sampled_from([None, True, False]))}


def big_fit(case):
    """-> problem, fit, result, indices of the free parameters in order, optimum, inverse Hessian, minimum, number of points"""
    from symfit import Fit
    c = case['c']
    pr = big.Problem(c)
    guess = pr.p.copy()
    fixed = [c['ps'][k] for k in c['fixed']]
    attrs = {n: {'value': float(v), 'fixed': n in fixed} for n, v in zip(c['ps'], guess)}
    m = pr.build(attrs=attrs, numeric=case['num'])
    kw = {} if case['minimizer'] is None else {'minimizer': fg.minimizer(case['minimizer'])}
    if case['absolute'] is not None:
        kw['absolute_sigma'] = case['absolute']
    fit = Fit(m, **dict(pr.data(case['sigma']), **kw))
    free = [k for k in pr.order if c['ps'][k] not in fixed]
    S0, G0, H = pr.chi2(guess, case['sigma'])
    Hf = H[np.ix_(free, free)]
    if np.linalg.cond(Hf) > 1e4:
        raise Reject('ill conditioned')
    best = guess.copy()
    best[free] = guess[free] - np.linalg.solve(Hf, G0[free])
    S = pr.chi2(best, case['sigma'])[0]
    res = fit.execute()
    return pr, fit, res, free, best, np.linalg.inv(Hf), S, sum(y.size for y in pr.y)


@facet(FACETS, 'big', _big,
       'least squares with 7-14 parameters (some fixed), up to 3 components and thousands of points: optimum by linear algebra, objective '
       'value, r_squared and chi-squared; non-trivial: all')
def big_(case):
    pr, fit, res, free, best, inv, S, n = big_fit(case)
    c = case['c']
    tol = 2e-3 if case['num'] or case['minimizer'] in ('TrustConstr', 'SLSQP') else 2e-4
    if not res.minimizer_output.get('success', True) and pr.chi2([res.params[q] for q in c['ps']], case['sigma'])[0] > S * (1 + 1e-6):
        raise Reject('not converged')
    got = np.array([float(res.params[q]) for q in c['ps']])
    require(list(res.params) == pr.names, 'order of the parameters {}', list(res.params))
    sd = np.sqrt(np.diag(inv))
    gap = pr.chi2(got, case['sigma'])[0] - S
    require(gap <= 1e-5 * (1 + S), 'objective lies {} above the minimum {} at {} instead of {}', gap, S, got, best)
    close(got[free], best[free], tol * (1 + np.abs(best[free])) + 10 * np.sqrt(2 * max(gap, 0)) * sd, 'optimum for {}'.format([c['ps'][k] for k in free]))
    for k in c['fixed']:
        require(got[k] == pr.p[k], 'fixed {} reported as {}', c['ps'][k], got[k])
    V = pr.values(got)
    ss_res = sum(np.sum((V[j] - pr.y[j]) ** 2) for j in range(pr.J))
    ss_tot = sum(np.sum((pr.y[j] - pr.y[j].mean()) ** 2) for j in range(pr.J))
    close(res.r_squared, 1 - ss_res / ss_tot, 1e-8 * (1 + ss_res / ss_tot), 'r_squared')
    if case['minimizer'] != 'MINPACK':
        close(res.objective_value, S + gap, 1e-7 * (1 + S), 'objective value')
    return info(True, case['minimizer'], 'num' if case['num'] else 'sym', 'fixed=%d' % len(c['fixed']), *pr.labels())
