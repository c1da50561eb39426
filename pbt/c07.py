"""C07: least-squares objectives equal chi-squared and its derivatives."""
import numpy as np
from hypothesis import strategies as st

import big
import exprs
import models_gen as mg
import objgen
import odes
from core import facet, info, close, require, Violation, Reject

FACETS = {}


def lab(case):
    l = [case['route'], 'comps=%d' % len(case['y']), 'params=%d' % len(case['spec']['params'])]
    l += ['none' if any(v is None for v in case['y'].values()) else 'all data']
    l += ['fixed' if case['fixed'] else 'free']
    l += ['y%dd' % len(v['shape']) for v in case['y'].values() if v]
    return l


def unchanged(b):
    for a, c in zip(b.inputs, b.copies):
        require(np.array_equal(a, c), 'data was modified')


@facet(FACETS, 'chi2', lambda: objgen.ls_case(scalars=True),
       'LeastSquares of random symbolic models (also interdependent; components of different shapes; constant in the data; some '
       'without data; per-point, constant or no sigma) with gradient and Hessian against forward-mode results; directly and '
       'through Fit; non-trivial: non-zero gradient')
def chi2(case):
    from symfit import Model
    from symfit.core.objectives import LeastSquares
    refs = [objgen.pieces(case, p) for p in case['points']]
    b, obj = objgen.build_objective(case, LeastSquares, Model)
    free = [p for p in b.params if p not in case['fixed']]
    nz = False
    for (pc, mag), p in zip(refs, case['points']):
        parts = objgen.chi2_parts(pc)
        f = 1e-10 * (1 + mag)
        S = sum(v[0] for v in parts.values())
        G = sum(v[1] for v in parts.values())
        H = sum(v[2] for v in parts.values())
        sc = [sum(v[3][i] for v in parts.values()) for i in range(3)]
        for args, kw in objgen.point_calls(free, p, case['k']):
            got = obj(*args, **kw)
            require(np.ndim(got) == 0, 'objective is not a scalar: {}', got)
            close(got, S, f * sc[0], 'chi2/2 at {}'.format(p))
            close(obj.eval_jacobian(*args, **kw), G, f * sc[1], 'gradient at {}'.format(p))
            close(obj.eval_hessian(*args, **kw), H, f * sc[2], 'Hessian at {}'.format(p))
        # split over the components
        split = obj([p[n] for n in free], flatten_components=False)
        dep, _ = mg.roles(case['spec'])
        require(len(split) == len(dep), '{} components', len(split))
        for c, s in zip(dep, split):
            close(s, parts[c][0] if c in parts else 0.0, f * sc[0], 'chi2/2 of component ' + c)
        nz = nz or np.any(G != 0)
    unchanged(b)
    return info(nz, *lab(case))


@facet(FACETS, 'vector', lambda: objgen.ls_case(vector=True),
       'VectorLeastSquares: root of the summed squared weighted residuals per point and its Jacobian (where not zero); '
       'non-trivial: more than one point')
def vector(case):
    from symfit import Model
    from symfit.core.objectives import VectorLeastSquares
    refs = [objgen.pieces(case, p) for p in case['points']]
    if len({pc[0].shape for r, _ in refs for pc in r.values()}) > 1:
        raise Reject('different shapes')
    b, obj = objgen.build_objective(case, VectorLeastSquares, Model)
    free = [p for p in b.params if p not in case['fixed']]
    n = 0
    for (pc, mag), p in zip(refs, case['points']):
        f = 1e-9 * (1 + mag)
        chi = np.sqrt(sum(((j.v - y) / s) ** 2 for y, s, j in pc.values()))
        num = sum((j.v - y) / s ** 2 * j.g for y, s, j in pc.values())
        scale = sum(np.abs((j.v - y) / s ** 2 * j.g) + np.abs(j.g / s) for y, s, j in pc.values())
        flat = chi.ravel()
        n = max(n, flat.size)
        ok = flat > 1e-6 * mag
        smax = max(float(np.max(1 / s)) for y, s, j in pc.values())
        for args, kw in objgen.point_calls(free, p, case['k']):
            got = obj(*args, **kw)
            close(got, flat, f * (1 + flat) * (1 + smax), 'weighted residuals at {}'.format(p))
            jac = np.asarray(obj.eval_jacobian(*args, **kw))
            require(jac.shape == (flat.size, len(b.params)), 'Jacobian has shape {}', jac.shape)
            require(np.all(np.isfinite(jac)), 'Jacobian is not finite: {}', jac)
            with np.errstate(all='ignore'):
                want = (num / chi).reshape(len(b.params), -1).T
                tol = f * (1 + (scale / chi).reshape(len(b.params), -1).T) * (1 + 1 / flat[:, None]) * (1 + smax) ** 2
            close(jac[ok], want[ok], tol[ok], 'Jacobian of the residuals at {}'.format(p))
            close(obj(*args, **dict(kw, flatten_components=False)), chi, f * (1 + chi) * (1 + smax), 'unflattened residuals')
    unchanged(b)
    return info(n > 1, *lab(case))


@facet(FACETS, 'numeric', lambda: objgen.ls_case(numeric=True, scalars=True),
       'LeastSquares and VectorLeastSquares of callable-based models: exact values, and gradients from finite differences '
       'where the model has them; non-trivial: non-zero residual')
def numeric(case):
    from symfit import CallableNumericalModel
    from symfit.core.models import BaseGradientModel
    from symfit.core.objectives import LeastSquares

    class FDModel(BaseGradientModel, CallableNumericalModel):
        pass
    refs = [objgen.pieces(case, p, 100) for p in case['points']]
    b, obj = objgen.build_objective(case, LeastSquares, CallableNumericalModel)
    b2, obj2 = objgen.build_objective(case, LeastSquares, FDModel)
    free = [p for p in b.params if p not in case['fixed']]
    nz = False
    for (pc, mag), p in zip(refs, case['points']):
        parts = objgen.chi2_parts(pc)
        S = sum(v[0] for v in parts.values())
        G = sum(v[1] for v in parts.values())
        sc = [sum(v[3][i] for v in parts.values()) for i in range(3)]
        h = 1e-8 * min([1.0] + [abs(v) for v in p.values() if abs(v) >= 1e-7])
        r = sum(float(np.sum(np.abs((y - j.v) / s ** 2))) for y, s, j in pc.values())
        for args, kw in objgen.point_calls(free, p, case['k']):
            close(obj(*args, **kw), S, 1e-10 * (1 + mag) * sc[0], 'chi2/2 at {}'.format(p))
            close(obj2(*args, **kw), S, 1e-10 * (1 + mag) * sc[0], 'chi2/2 at {}'.format(p))
            close(obj2.eval_jacobian(*args, **kw), G, 1e-7 * sc[1] + 2e-14 * (1 + mag) ** 1.5 / h * r, 'gradient at {}'.format(p))
        nz = nz or S > 0
    unchanged(b)
    return info(nz, *lab(case))


@st.composite
def _ode(draw):
    c = draw(odes.linear(maxk=3))
    ts = sorted(set(draw(odes.times(c['t0'], 1.0, 5))))
    n = len(ts)
    y = {q: draw(objgen.values([n], exprs.number())) for q in c['ys']}
    for q in c['ys'][1:]:
        if draw(st.integers(0, 2)) == 0:
            y[q] = None
    sig = {q: draw(st.one_of(st.none(), objgen.values([n], exprs.positive()))) for q in c['ys']}
    return {'ode': c, 'ts': ts, 'y': y, 'sigma': sig}


@facet(FACETS, 'ode', _ode,
       'LeastSquares of ODE models with data for some of the components; non-trivial: some component without data or weighted')
def ode(case):
    from symfit import Fit
    from symfit.core.objectives import LeastSquares
    c, ts = case['ode'], case['ts']
    g = odes.growth(c, ts)
    model, table = odes.build_linear(c)
    kw = {c['t']: np.array(ts, dtype=float)}
    sol = odes.solve_linear(c, ts)
    S = 0.0
    tol = 0.0
    for q in c['ys']:
        d, s = case['y'][q], case['sigma'][q]
        kw[q] = None if d is None else np.array(d['v'])
        if s is not None:
            kw['sigma_' + q] = np.array(s['v'])
        if d is not None:
            r = (sol[q] - np.array(d['v'])) / (1.0 if s is None else np.array(s['v']))
            S += 0.5 * np.sum(r ** 2)
            tol += np.sum(np.abs(r) + 1e-3) * 3e-6 * g / (1.0 if s is None else min(s['v']))
    fit = Fit(model, **kw)
    require(type(fit.objective) is LeastSquares, 'objective {}', fit.objective)
    close(fit.objective(**c['p']), S, tol, 'chi2/2 of the ODE model')
    close(fit.objective([c['p'][n] for n in sorted(c['pars'])]), S, tol, 'chi2/2 of the ODE model (ordered)')
    return info(any(v is None for v in case['y'].values()) or any(case['sigma'].values()), 'eqs=%d' % len(c['ys']))


# ---- size ------------------------------------------------------------------------

@st.composite
def _big(draw):
    c = draw(big.case_(K=(7, 11), J=(1, 4), points=(2, 11, 257, 1001, 2500), fixed=draw(st.booleans())))
    return {'c': c, 'sigma': draw(st.booleans()), 'route': draw(st.sampled_from(['fit', 'direct'])), 'vector': draw(st.booleans()),
            'missing': draw(st.integers(0, 8))}


@facet(FACETS, 'big', _big,
       'chi-squared, gradient and Hessian for 7-11 parameters (some fixed), up to 4 components and thousands of points against '
       'numpy; non-trivial: all')
def big_(case):
    from symfit import Fit
    from symfit.core.objectives import LeastSquares, VectorLeastSquares
    pr = big.Problem(case['c'])
    c = case['c']
    fixed = [c['ps'][k] for k in c['fixed']]
    attrs = {n: {'value': float(v), 'fixed': n in fixed} for n, v in zip(c['ps'], pr.p)}
    m = pr.build(attrs=attrs)
    vector = case['vector'] and len(c['vs']) == 1
    cls = VectorLeastSquares if vector else LeastSquares
    data = pr.data(case['sigma'])
    drop = case['missing'] if case['missing'] < pr.J and pr.J > 1 else None
    if drop is not None:
        data[c['ys'][drop]] = None
        data.pop('sigma_' + c['ys'][drop], None)
        c2 = [j for j in range(pr.J) if j != drop]
    else:
        c2 = list(range(pr.J))
    if case['route'] == 'fit':
        obj = Fit(m, objective=cls, **data).objective
    else:
        table = {v.name: v for v in list(m.independent_vars) + list(m.dependent_vars) + list(m.sigmas.values())}
        full = {table[k]: v for k, v in data.items()}
        for j in range(pr.J):
            full.setdefault(m.sigmas[pr.Y[j]], np.ones_like(pr.y[j]) if j != drop else None)
        obj = cls(m, full)
    order = [k for k in pr.order if c['ps'][k] not in fixed]
    x = pr.p[order]
    order = pr.order
    V, Jc, Hs = pr.values(pr.p), pr.jac(pr.p), pr.hess(pr.p)
    sg = [pr.sigma[j] if case['sigma'] else np.ones_like(pr.y[j]) for j in range(pr.J)]
    r = {j: (V[j] - pr.y[j]) / sg[j] for j in c2}
    scale = sum(np.sum(v ** 2) for v in r.values()) + 1
    tol = 1e-9 * scale
    if vector:
        R = np.sqrt(sum(r[j] ** 2 for j in c2))
        close(obj(x), R, 1e-9 * (1 + R.max()), 'residuals')
        if R.min() > 1e-4:
            G = sum(r[j] * Jc[j][order] / sg[j] for j in c2) / R
            close(obj.eval_jacobian(x), G.T, 1e-8 * (1 + np.abs(G).max()) / min(1, R.min()), 'Jacobian of the residuals')
        return info(True, 'vector', *pr.labels())
    close(obj(x), sum(np.sum(r[j] ** 2) for j in c2) / 2, tol, 'chi-squared')
    G = sum((Jc[j][order] / sg[j]) @ r[j] for j in c2)
    close(obj.eval_jacobian(x), G, tol * 10, 'gradient by {}'.format([c['ps'][k] for k in order]))
    H = sum((Jc[j][order] / sg[j]) @ (Jc[j][order] / sg[j]).T + (Hs[j][np.ix_(order, order)] / sg[j]) @ r[j] for j in c2)
    close(obj.eval_hessian(x), H, tol * 10, 'Hessian by {}'.format([c['ps'][k] for k in order]))
    return info(True, 'scalar', case['route'], 'fixed=%d' % len(fixed), *pr.labels())
