"""C11: reported covariances equal the closed-form covariance at the optimum."""
import numpy as np
from hypothesis import strategies as st

import big
import c10
import exprs
import models_gen as mg
import objgen
import fitgen as fg
from c05 import fd_class, step
from core import facet, info, close, require, Violation, Reject, Known

FACETS = {}


def fd_tol(case, p, mag):
    """Relative error of finite differences at p."""
    t = max(2e-14 * (1 + mag) / step(v) for n, v in p.items()) * 10 + 1e-7
    if t > 1e-3:
        raise Reject('finite differences are too coarse here')
    return t


def expected(H, names, fixed):
    free = np.array([n not in fixed for n in names])
    Hf = H[np.ix_(free, free)]
    w = np.abs(np.linalg.eigvalsh(Hf))
    if not (w.min() > 1e-3 and w.max() / w.min() < 1e5):
        raise Reject('ill conditioned')
    cov = np.zeros(H.shape)
    cov[np.ix_(free, free)] = np.linalg.inv(Hf)
    return cov, w.max() / w.min()


def compare(case, got, H, chi2, ndata, absolute, tol, what):
    """The covariance matrix against inverse Hessian times scale."""
    names = sorted(case['spec']['params'])
    inv, cond = expected(H, names, case['fixed'])
    nfree = sum(n not in case['fixed'] for n in names)
    require(got is not None, '{}: no covariance matrix', what)
    if absolute:
        scale = 1.0
    else:
        if ndata - nfree <= 0:
            raise Reject('no degrees of freedom')
        scale = chi2 / (ndata - nfree)
    want = scale * inv
    try:
        close(got, want, tol * cond ** 0.5 * (np.abs(want).max() + 1e-12), '{}: covariance matrix'.format(what))
    except Violation:
        shapes = [tuple(d['shape']) for d in case['y'].values() if d is not None]
        if not absolute and len(set(shapes)) < len(shapes):
            dof = sum(int(np.prod(s)) for s in set(shapes)) - nfree
            if dof != 0:
                bad = chi2 / dof * inv
                if np.shape(got) == bad.shape and np.all(np.abs(got - bad) <= tol * cond ** 0.5 * (np.abs(bad).max() + 1e-12)):
                    return 'C11-dof'
            elif not np.all(np.isfinite(np.asarray(got, dtype=float))):
                return 'C11-dof'
        raise


def accessors(res, b, case, what):
    cov = res.covariance_matrix
    ps = b.model.params
    for i, p in enumerate(ps):
        for j, q in enumerate(ps):
            close(res.covariance(p, q), cov[i, j], 0, '{}: covariance({}, {})'.format(what, p, q))
        close(res.variance(p), cov[i, i], 0, '{}: variance({})'.format(what, p))
        if cov[i, i] >= 0:
            close(res.stdev(p), np.sqrt(cov[i, i]), 1e-14 * np.sqrt(cov[i, i]), '{}: stdev({})'.format(what, p))
        if p.name in case['fixed']:
            close(res.stdev(p), 0, 0, '{}: stdev of fixed {}'.format(what, p))


@st.composite
def _linear(draw, **kw):
    c = draw(fg.linear_case(fixed=draw(st.sampled_from([False, False, True])), scalars=True, **kw))
    c['minimizer'] = draw(st.sampled_from(fg.LOCAL + ['BFGS']))
    c['model'] = draw(st.sampled_from(['Model', 'GradientModel', 'num', 'fd']))
    if c['model'] in ('num', 'fd'):
        for comp in c['spec']['comps']:
            comp[2] = 'num'
    c['abs'] = draw(st.sampled_from([None, None, True, False]))
    if draw(st.integers(0, 2)):  # mostly one component, or absolute sigmas
        keep = draw(st.integers(0, 1))
        if keep and c['abs'] is not True and len(c['y']) > 1 and not any(v is not None for v in c['sigma'].values()):
            c['abs'] = True
    return c


@facet(FACETS, 'linear', _linear,
       'covariance of linear fits by every local minimizer (absolute, relative and default sigmas, vector valued, fixed parameters, '
       'symbolic or finite difference derivatives) against the textbook closed form; non-trivial: at least two free parameters')
def linear(case):
    import symfit
    name = case['minimizer']
    popt, Sopt, H, n = fg.optimum(case)
    cls = {'num': symfit.CallableNumericalModel, 'fd': fd_class()}.get(case['model']) or getattr(symfit.core.models, case['model'])
    extra = {} if case['abs'] is None else {'absolute_sigma': case['abs']}
    b, fit = fg.make_fit(case, cls, minimizer=fg.minimizer(name), **extra)
    res = fit.execute()
    p = fg.result_params(res)
    S = fg.chi2(case, p, 1e12)[0]
    if not S - Sopt < 1e-3 * (1 + Sopt):
        raise Reject('not converged')
    absolute = case['abs'] if case['abs'] is not None else any(s is not None for s in case['sigma'].values())
    if not absolute and Sopt < 1e-6:
        raise Reject('perfect fit')
    if case['model'] == 'num':
        # No derivatives at all
        require(res.covariance_matrix is None, '{}: covariance {} without derivatives', name, res.covariance_matrix)
        for q in b.model.params:
            require(res.stdev(q) is None and res.variance(q) is None, '{}: stdev without covariance', name)
        return info(True, 'no derivatives')
    known = compare(case, res.covariance_matrix, H, 2 * S, n, absolute, fd_tol(case, p, 10) if case['model'] == 'fd' else 1e-8, name)
    accessors(res, b, case, name)
    if known:
        raise Known(known)
    nfree = len(popt) - len(case['fixed'])
    return info(nfree > 1, name, case['model'], 'absolute' if absolute else 'relative', 'fixed' if case['fixed'] else 'free',
                'ncomp=%d' % sum(d is not None for d in case['y'].values()))


@st.composite
def _anywhere(draw):
    c = draw(objgen.ls_case(numeric=draw(st.integers(0, 4)) == 0, scalars=True, spec_kw=dict(nparams=(1, 3))))
    c['route'] = 'fit'
    c['model'] = draw(st.sampled_from(['Model', 'Model', 'GradientModel']))
    c['abs'] = draw(st.sampled_from([None, True, True, False]))
    c['objective'] = draw(st.sampled_from(['LeastSquares', 'LeastSquares', 'LeastSquares', 'MINPACK']))
    return c


@facet(FACETS, 'anywhere', _anywhere,
       'covariance_matrix of fits of arbitrary smooth models at arbitrary parameters against the inverse of the full (or, without '
       'second derivatives, J^T W J) Hessian from forward mode; non-trivial: at least two free parameters')
def anywhere(case):
    import symfit
    from symfit import Fit
    numeric = any(k == 'num' for _, _, k in case['spec']['comps'])
    case = dict(case, guess=case['points'][0], nl={})
    cls = fd_class() if numeric else getattr(symfit.core.models, case['model'])
    names = sorted(case['spec']['params'])
    nfree = len(names) - len(case['fixed'])
    if not nfree:
        raise Reject('nothing free')
    if case['objective'] == 'MINPACK' and len({tuple(d['shape']) for d in case['y'].values() if d}) > 1:
        raise Reject('shapes')
    refs = []
    for p in case['points']:
        pc, mag = objgen.pieces(case, p, 300)
        parts = objgen.chi2_parts(pc).values()
        if cls is symfit.Model and case['objective'] != 'MINPACK':
            H = sum(q[2] for q in parts)
        else:
            H = 0
            for y, s, j in pc.values():
                g = j.g / s
                H = H + np.sum(g[:, None] * g[None, :], axis=tuple(range(2, 2 + y.ndim)))
        expected(H, names, case['fixed'])
        refs.append((p, H, 2 * sum(q[0] for q in parts), sum(y.size for y, _, _ in pc.values()), mag))
    absolute = case['abs'] if case['abs'] is not None else any(s is not None for s in case['sigma'].values())
    extra = {} if case['abs'] is None else {'absolute_sigma': case['abs']}
    if case['objective'] == 'MINPACK':
        extra['minimizer'] = fg.minimizer('MINPACK')
    b, fit = fg.make_fit(case, cls, **extra)
    known = None
    for p, H, chi2, n, mag in refs:
        got = fit.covariance_matrix({b.table[k]: v for k, v in p.items()})
        tol = fd_tol(case, p, mag) if numeric else 1e-9
        known = compare(case, got, H, chi2, n, absolute, tol * (1 + mag), 'at {}'.format(p)) or known
    if known:
        raise Known(known)
    return info(nfree > 1, 'numeric' if numeric else case['model'], 'absolute' if absolute else 'relative',
                'fixed' if case['fixed'] else 'free', case['objective'], 'ncomp=%d' % sum(d is not None for d in case['y'].values()))


@st.composite
def _other(draw):
    np_ = draw(st.integers(1, 3))
    obj = draw(st.sampled_from(['LogLikelihood', 'MinimizeModel']))
    if obj == 'LogLikelihood':
        sp = draw(mg.spec(nvars=(1, 2), nparams=(np_, np_), ncomps=(1, 3), tidy=True, depth=2))
        dep, _ = mg.roles(sp)
        for c in sp['comps']:
            if c[0] in dep:
                c[1] = ['texp', c[1]]
    else:
        ns = draw(exprs.names(np_ + 1))
        sp = {'vars': [], 'params': ns[:-1], 'comps': [[ns[-1], draw(exprs.expr(ns[:-1], ns[:-1], 3)), 'sym']],
              'write': [0], 'create': draw(st.permutations(range(np_ + 1)))}
    s = draw(st.sampled_from([[5], [8], [3, 2], [12]]))
    fx = {}
    if draw(st.integers(0, 2)) == 0 and np_ > 1:
        fx = {draw(st.sampled_from(sp['params'])): draw(exprs.number())}
    return {'spec': sp, 'objective': obj, 'data': {v: draw(objgen.values(s, exprs.number())) for v in sp['vars']}, 'fixed': fx,
            'points': [dict(draw(mg.param_values(sp['params'])), **fx) for _ in range(2)],
            'model': draw(st.sampled_from(['Model', 'Model', 'GradientModel'])), 'y': {}, 'sigma': {}}


@facet(FACETS, 'other', _other,
       'covariance_matrix of likelihood fits and of minimised models at arbitrary parameters is the inverse Hessian of the objective; '
       'non-trivial: at least two free parameters')
def other(case):
    import symfit
    from symfit import Fit
    from symfit.core import objectives
    sp, names = case['spec'], sorted(case['spec']['params'])
    dep, _ = mg.roles(sp)
    data = {v: np.array(d['v'], dtype=float).reshape(d['shape']) for v, d in case['data'].items()}
    like = case['objective'] == 'LogLikelihood'
    if case['model'] == 'GradientModel' and not like:
        raise Reject('no Hessian')
    refs = []
    for p in case['points']:
        jets, mag = mg.ref_jets(sp, data, p, limit=100)
        H = 0
        for c in dep:
            j = jets[c]
            if not like:
                H = H + j.h.reshape(j.h.shape[:2])
            elif case['model'] == 'GradientModel':
                g = j.g / j.v
                H = H + np.sum(g[:, None] * g[None, :], axis=tuple(range(2, 1 + g.ndim)))
            else:
                H = H - np.sum(exprs.jlog(j).h, axis=tuple(range(2, j.h.ndim)))
        expected(H, names, case['fixed'])
        refs.append((p, H, mag))
    b = mg.build(sp, pattrs={p: {'value': v, 'fixed': True} for p, v in case['fixed'].items()}, cls=getattr(symfit.core.models, case['model']))
    fit = Fit(b.model, objective=getattr(objectives, case['objective']), **data)
    for p, H, mag in refs:
        got = fit.covariance_matrix({b.table[k]: v for k, v in p.items()})
        compare(case, got, H, 0, 0, True, 1e-9 * (1 + mag), 'at {}'.format(p))
    return info(len(names) - len(case['fixed']) > 1, case['objective'], case['model'], 'fixed' if case['fixed'] else 'free')


# ---- size ------------------------------------------------------------------------

@facet(FACETS, 'big', c10._big,
       'covariances of least squares with 7-14 parameters (some fixed), up to 3 components and thousands of points against linear '
       'algebra, with stdev and covariance of every pair; non-trivial: all')
def big_(case):
    if case['num']:
        raise Reject('no derivatives')
    pr, fit, res, free, best, inv, S, n = c10.big_fit(case)
    c = case['c']
    got = np.array([float(res.params[q]) for q in c['ps']])
    gap = pr.chi2(got, case['sigma'])[0] - S
    if not gap < 1e-3 * (1 + S):
        raise Reject('not converged')
    absolute = case['absolute'] if case['absolute'] is not None else case['sigma']
    want = np.zeros((pr.K, pr.K))
    idx = [pr.order.index(k) for k in free]
    want[np.ix_(idx, idx)] = inv * (1.0 if absolute else 2 * (S + gap) / (n - len(free)))
    tol = 1e-6
    m = np.abs(want).max()
    lengths = c['n'] if len(c['n']) > 1 else c['n'] * pr.J
    try:
        close(res.covariance_matrix, want, tol * m, 'covariance matrix of {}'.format(pr.names))
    except Violation:
        if not absolute and len(set(lengths)) < len(lengths):
            bad = want * (n - len(free)) / (sum(set(lengths)) - len(free))
            if np.shape(res.covariance_matrix) == bad.shape and np.all(np.abs(res.covariance_matrix - bad) <= tol * np.abs(bad).max()):
                raise Known('C11-dof')
        raise
    for i, k in enumerate(pr.order):
        if c['ps'][k] not in [c['ps'][q] for q in c['fixed']]:
            close(res.stdev(pr.P[k]), np.sqrt(want[i, i]), 10 * tol * m ** 0.5, 'stdev of {}'.format(c['ps'][k]))
        for i2, k2 in enumerate(pr.order[i:]):
            close(res.covariance(pr.P[k], pr.P[k2]), want[i, i + i2], tol * m, 'covariance of {} and {}'.format(c['ps'][k], c['ps'][k2]))
    return info(True, case['minimizer'], 'num' if case['num'] else 'sym', 'fixed=%d' % len(c['fixed']), *pr.labels())
