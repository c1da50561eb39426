"""C12: fixing a parameter equals replacing it by its value."""
import numpy as np
from hypothesis import strategies as st

import exprs
import models_gen as mg
import objgen
import fitgen as fg
from core import facet, info, close, require, Violation, Reject, Known

FACETS = {}


def subst(e, vals):
    if e[0] == 's' and e[1] in vals:
        return ['c', vals[e[1]]]
    return [e[0]] + [subst(x, vals) if isinstance(x, list) else x for x in e[1:]]


def constant_case(case):
    """The same problem with the fixed parameters written as numbers."""
    sp = case['spec']
    left = [p for p in sp['params'] if p not in case['fixed']]
    alln = sp['vars'] + sp['params'] + [c[0] for c in sp['comps']]
    new = sp['vars'] + left + [c[0] for c in sp['comps']]
    create = [new.index(alln[i]) for i in sp['create'] if alln[i] in new]
    comps = [[c, subst(a, case['fixed']), k] for c, a, k in sp['comps']]
    return dict(case, spec=dict(sp, params=left, comps=comps, create=create), fixed={},
                guess={p: case['guess'][p] for p in left})


def snapshot(params):
    return {p.name: (p.name, p.value, p.min, p.max, p.fixed) for p in params}


@st.composite
def _fit(draw):
    c = draw(fg.linear_case(nparams=(2, 4), fixed=True, bij=draw(st.booleans()), guess=2, npoints=(6, 8)))
    c['minimizer'] = draw(st.sampled_from(fg.LOCAL + ['BasinHopping', 'chain', None]))
    c['model'] = draw(st.sampled_from(['Model', 'Model', 'GradientModel', 'num']))
    if c['model'] == 'num':
        for comp in c['spec']['comps']:
            comp[2] = 'num'
    c['bounds'] = {p: draw(st.sampled_from([None, [-20, None], [None, 20], [-20, 20]])) for p in c['spec']['params']}
    for p in c['fixed']:  # bounds say nothing about a fixed parameter
        c['bounds'][p] = draw(st.sampled_from([None, [0.0, None], [None, 0.0], [1.5, 4.0], [-4.0, -1.5], [6.0, 5.0], [-20, 20]]))
    return c


def mini(case):
    m = case['minimizer']
    if m is None:
        return None
    if m == 'chain':
        return [fg.minimizer('NelderMead'), fg.minimizer('BFGS')]
    return fg.minimizer(m)


def attrs(case):
    return {p: {'min': b[0], 'max': b[1]} for p, b in case['bounds'].items() if b and p in case['spec']['params']}


@facet(FACETS, 'fit', _fit,
       'fits with fixed parameters against the same fit with the numbers in the model (and against the closed form) for every '
       'minimizer; declared attributes unchanged; non-trivial: at least two free or two fixed parameters')
def fit_(case):
    import symfit
    name = case['minimizer'] or ('LBFGSB' if any(case['bounds'].values()) else 'BFGS')
    popt, Sopt, H, n = fg.optimum(case, maxcond=50.0 if any(case['nl'].values()) else 100.0, big=6.0)
    cc = constant_case(case)
    cls = None if case['model'] == 'num' else getattr(symfit.core.models, case['model'])
    opts = {}
    if name == 'BasinHopping':
        opts = {'niter': 1}

    def run(c):
        np.random.seed(7)
        b, fit = fg.make_fit(c, cls, minimizer=mini(c), pattrs=attrs(c))
        before = snapshot(b.model.params)
        res = fit.execute(**opts)
        require(snapshot(b.model.params) == before, 'declared attributes changed: {} -> {}', before, snapshot(b.model.params))
        require(snapshot(fit.model.params) == before and snapshot(res.model.params) == before, 'attributes differ in the results')
        return b, fit, res
    b, fit, res = run(case)
    p = fg.result_params(res)
    require(list(p) == sorted(case['spec']['params']), '{}: parameters {}', name, list(p))
    for q, v in case['fixed'].items():
        require(p[q] == v, '{}: fixed {} reported as {} instead of {}', name, q, p[q], v)
    b2, fit2, res2 = run(cc)
    p2 = fg.result_params(res2)
    g1, g2 = fg.gap(case, p, Sopt), fg.gap(case, dict(p2, **case['fixed']), Sopt)
    if not g2 < 1e-4 * (1 + Sopt):
        raise Reject('not converged')
    tol = 1e-5 if name in ('COBYLA', 'NelderMead', 'Powell', 'chain') or case['model'] == 'num' else 1e-7
    # Both ended near the optimum, or the fit with fixed parameters is worse
    require(g1 <= 100 * g2 + tol * (1 + Sopt), '{}: objective with fixed parameters is {} above the optimum, with numbers {}; {} and {}',
            name, g1, g2, p, p2)
    obj, obj2 = np.asarray(res.objective_value), np.asarray(res2.objective_value)
    close(obj, obj2, 1e-2 * (1 + Sopt) ** 0.5 if obj.ndim else (g1 + g2 + 1e-7) * (1 + Sopt), '{}: objective value'.format(name))
    for q in cc['spec']['params']:
        s1, s2 = res.stdev(b.table[q]), res2.stdev(b2.table[q])
        require((s1 is None) == (s2 is None), '{}: stdev of {} is {} and with numbers {}', name, q, s1, s2)
        if s2 is not None and np.isfinite(s2):
            close(s1, s2, 3e-2 * s2 + 1e-9 if g1 + g2 > 1e-9 else 1e-3 * s2 + 1e-9, '{}: stdev of {}'.format(name, q))
    nfix = len(case['fixed'])
    if nfix == 0:
        raise Reject('nothing fixed')
    return info(nfix > 1 or len(p2) > 1, name, case['model'], 'fixed=%d' % nfix, 'free=%d' % len(p2))


@st.composite
def _handed(draw):
    c = draw(objgen.ls_case(vector=draw(st.integers(0, 3)) == 0, fixed=False, spec_kw=dict(nvars=(1, 2), nparams=(2, 4))))
    ps = c['spec']['params']
    if len(ps) < 2:
        pass
    nfix = draw(st.integers(1, max(1, len(ps) - 1)))
    c['fixed'] = {p: draw(exprs.number()) for p in draw(st.permutations(ps))[:nfix]} if len(ps) > 1 else {}
    c['points'] = [dict(q, **c['fixed']) for q in c['points']]
    c['guess'] = dict(c['points'][0])
    c['bounds'] = {p: draw(st.sampled_from([None, [-9, None], [None, 9], [-9, 9], [0, 9], [-9, 0]])) for p in ps}
    c['minimizer'] = draw(st.sampled_from(['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'TrustConstr', 'MINPACK', 'DifferentialEvolution', 'BasinHopping', None]))
    c['cons'] = draw(st.lists(st.lists(st.sampled_from(ps), min_size=1, max_size=3, unique=True), max_size=2))
    c['objective'] = draw(st.sampled_from(['LeastSquares', 'LeastSquares', 'LogLikelihood']))
    if c['objective'] == 'LogLikelihood':
        dep, _ = mg.roles(c['spec'])
        for comp in c['spec']['comps']:
            if comp[0] in dep:
                comp[1] = ['texp', comp[1]]
    return c


@facet(FACETS, 'handed', _handed,
       'what the minimizer holds for a model with fixed parameters (guesses, bounds, objective, gradient, Hessian and constraints with '
       'derivatives as functions of the free parameters in order) against forward mode; non-trivial: fixed and free parameters exist')
def handed(case):
    import symfit
    from symfit import Fit
    from symfit.core import minimizers as M, objectives
    name = case['minimizer']
    if not case['fixed']:
        raise Reject('nothing fixed')
    like = case['objective'] == 'LogLikelihood'
    if name == 'MINPACK' and (like or len({tuple(d['shape']) for d in case['y'].values() if d}) > 1):
        raise Reject('shapes')
    names = sorted(case['spec']['params'])
    free = [p for p in names if p not in case['fixed']]
    m = [p in free for p in names]
    pattrs = {}
    for p in names:
        bd = case['bounds'][p]
        v = case['guess'][p]
        pattrs[p] = {'value': v, 'fixed': p in case['fixed']}
        if bd and p in case['fixed']:
            pattrs[p].update(min=bd[0], max=bd[1])
        elif bd and (bd[0] is None or bd[0] <= v) and (bd[1] is None or v <= bd[1]):
            pattrs[p].update(min=bd[0], max=bd[1])
    b = mg.build(case['spec'], pattrs=pattrs, cls=symfit.Model)
    kw = fg.data_kwargs(case)
    if like:
        kw = {v: kw[v] for v in case['data']}
        kw['objective'] = objectives.LogLikelihood
    if name:
        kw['minimizer'] = fg.minimizer(name)
    constrained = name in ('SLSQP', 'TrustConstr', None) and case['cons']
    if constrained:
        cons = []
        for i, c in enumerate(case['cons']):
            e = sum((i + 1) * (k + 1) * b.table[q] ** (k + 1) for k, q in enumerate(c))
            cons.append(symfit.Eq(e, 1) if i == 0 else symfit.Ge(e, -50))
        kw['constraints'] = cons
    fit = Fit(b.model, **kw)
    mini = fit.minimizer
    require([p.name for p in mini.params] == free, 'free parameters of the minimizer {} instead of {}', mini.params, free)
    require([p.name for p in mini.parameters] == names, 'parameters of the minimizer {}', mini.parameters)
    close(mini.initial_guesses, [case['guess'][p] for p in free], 0, 'initial guesses')
    if isinstance(mini, M.BoundedMinimizer):
        want = [(pattrs[p].get('min'), pattrs[p].get('max')) for p in free]
        got = mini.bounds
        if name == 'MINPACK':
            require(len(got) == 2 and len(got[0]) == len(free) and len(got[1]) == len(free), 'bounds {}', got)
            got = [(None if l == -np.inf else l, None if h == np.inf else h) for l, h in zip(*got)]
        require([tuple(g) for g in got] == want, 'bounds {} instead of {}', got, want)
    if isinstance(mini, M.BasinHopping):
        inner = mini.local_minimizer
        require([p.name for p in inner.params] == free, 'free parameters of the local minimizer {}', inner.params)
        check_derivatives(case, inner, b, free, m, like)
    else:
        check_derivatives(case, mini, b, free, m, like)
    if constrained:
        check_constraints(case, mini, free, m, names)
    return info(True, name, case['objective'], 'fixed=%d' % len(case['fixed']), 'free=%d' % len(free), 'constraints=%d' % (len(case['cons']) if constrained else 0))


def reference(case, p, like):
    sp = case['spec']
    if not like:
        S, G, H, n = fg.chi2(case, p, 1000)
        _, mag = objgen.pieces(case, p, 1000)
        return S, G, H, mag
    data = {v: np.array(d['v'], dtype=float).reshape(d['shape']) for v, d in case['data'].items()}
    jets, mag = mg.ref_jets(sp, data, p, limit=200)
    dep, _ = mg.roles(sp)
    S, G, H = 0.0, 0.0, 0.0
    for c in dep:
        l = exprs.jlog(jets[c])
        S = S - np.sum(l.v)
        G = G - np.sum(l.g, axis=tuple(range(1, l.g.ndim)))
        H = H - np.sum(l.h, axis=tuple(range(2, l.h.ndim)))
    return S, G, H, mag


def check_derivatives(case, mini, b, free, m, like):
    for p in case['points']:
        S, G, H, mag = reference(case, p, like)
        x = np.array([p[q] for q in free])
        tol = 1e-9 * (1 + mag) ** 2
        if type(mini).__name__ == 'MINPACK':
            pc, _ = objgen.pieces(case, p, 1000)
            r = np.sqrt(sum(((j.v - y) / s) ** 2 for y, s, j in pc.values()))
            close(mini.objective(x), r.ravel(), tol, 'residuals')
            num = sum(j.g * ((j.v - y) / s ** 2) for y, s, j in pc.values())
            with np.errstate(all='ignore'):
                J = (num / r).reshape(len(m), -1)[m].T
            J[r.ravel() < 1e-6] = np.nan
            got = np.array(mini.wrapped_jacobian(x), dtype=float)
            require(got.shape == J.shape, 'Jacobian of the residuals has shape {} instead of {}', got.shape, J.shape)
            got[np.isnan(J)] = np.nan
            close(got, J, tol * 10 / max(1e-6, float(np.min(r[r > 1e-6])) if np.any(r > 1e-6) else 1), 'Jacobian of the residuals')
            continue
        close(mini.objective(x), S, tol * (1 + abs(S)), 'objective of the free parameters')
        if getattr(mini, 'wrapped_jacobian', None) is not None:
            close(mini.wrapped_jacobian(x), G[m], tol * (1 + np.abs(G).max() + abs(S)), 'gradient in the free parameters')
        elif type(mini).__name__ in ('BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr'):
            raise Violation('no gradient is handed to ' + type(mini).__name__)
        if type(mini).__name__ == 'TrustConstr':
            require(mini.wrapped_hessian is not None, 'no Hessian is handed to the minimizer')
            close(mini.wrapped_hessian(x), H[np.ix_(m, m)], tol * (1 + np.abs(H).max() + abs(S)) * 10, 'Hessian in the free parameters')


def check_constraints(case, mini, free, m, names):
    for i, (c, con) in enumerate(zip(case['cons'], mini.wrapped_constraints)):
        for p in case['points']:
            x = np.array([p[q] for q in free])
            v = sum((i + 1) * (k + 1) * p[q] ** (k + 1) for k, q in enumerate(c)) + (-1 if i == 0 else 50)
            g, h = np.zeros(len(names)), np.zeros((len(names),) * 2)
            for k, q in enumerate(c):
                g[names.index(q)] = (i + 1) * (k + 1) ** 2 * p[q] ** k
                h[names.index(q), names.index(q)] = (i + 1) * (k + 1) ** 2 * k * p[q] ** (k - 1) if k else 0
            tol = 1e-9 * (1 + abs(v) + np.abs(h).max())
            if isinstance(con, dict):
                fun, jac = con['fun'], con['jac']
            else:
                fun, jac = con.fun, con.jac
                if getattr(con, 'hess', None) is not None and callable(con.hess):
                    close(np.reshape(con.hess(x, np.array([2.0])), (len(free),) * 2), 2 * h[np.ix_(m, m)], tol * 10, 'Hessian of constraint %d' % i)
            close(np.ravel(fun(x)), [v], tol, 'value of constraint %d' % i)
            close(np.ravel(jac(x)), g[m], tol * 10, 'gradient of constraint %d' % i)
