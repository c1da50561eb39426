"""C08: likelihood and model-minimising objectives and their derivatives are exact."""
import json

import numpy as np
from hypothesis import strategies as st

import big
import exprs
import models_gen as mg
import objgen
from core import facet, info, close, require, Violation, Reject

FACETS = {}


@st.composite
def _ll(draw):
    ragged = draw(st.booleans())
    if ragged:
        sp = draw(objgen.ragged_spec())
        shapes = {v: draw(st.sampled_from(objgen.SHAPES)) for v in sp['vars']}
    else:
        sp = draw(mg.spec(nvars=(1, 2), nparams=(1, 3), ncomps=(1, 3), tidy=True, depth=2))
        s = draw(st.sampled_from(objgen.SHAPES))
        shapes = {v: s for v in sp['vars']}
    dep, _ = mg.roles(sp)
    for c in sp['comps']:
        if c[0] in dep:
            c[1] = ['texp', c[1]] if draw(st.booleans()) else ['+', ['c', 0.5], ['pow', ['tanh', c[1]], 2]]
    fx = {}
    if draw(st.integers(0, 2)) == 0:
        fx = {p: draw(exprs.number()) for p in draw(st.lists(st.sampled_from(sp['params']), max_size=2, unique=True))}
    return {'spec': sp, 'data': {v: draw(objgen.values(shapes[v], exprs.number())) for v in sp['vars']},
            'nan': draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 5)), max_size=2)) if draw(st.booleans()) else [],
            'fixed': fx, 'points': [dict(draw(mg.param_values(sp['params'])), **fx) for _ in range(2)],
            'k': draw(st.integers(0, 5)), 'route': draw(st.sampled_from(['fit', 'direct']))}


def _build(case, cls):
    from symfit import Fit, Model
    b = mg.build(case['spec'], pattrs={p: {'value': v, 'fixed': True} for p, v in case['fixed'].items()}, cls=Model)
    data = {v: np.array(d['v'], dtype=float).reshape(d['shape']) for v, d in case['data'].items()}
    for i, j in case.get('nan', []):
        v = sorted(data)[i % len(data)]
        data[v].ravel()[j % data[v].size] = np.nan
    if case['route'] == 'fit':
        obj = Fit(b.model, objective=cls, **data).objective
    else:
        obj = cls(b.model, {b.table[v]: a for v, a in data.items()})
    require(type(obj) is cls, 'objective is a {}', type(obj))
    return b, obj, data


@facet(FACETS, 'likelihood', _ll,
       'LogLikelihood of positive components (also interdependent, of different shapes, with undefined data points, fixed '
       'parameters) with gradient and Hessian against forward mode; non-trivial: non-zero gradient')
def likelihood(case):
    from symfit.core.objectives import LogLikelihood
    sp = case['spec']
    plain = {v: np.array(d['v'], dtype=float).reshape(d['shape']) for v, d in case['data'].items()}
    # magnitudes without the undefined points
    for p in case['points']:
        mg.ref_jets(sp, plain, p, limit=1000)
    b, obj, data = _build(case, LogLikelihood)
    if any(np.isnan(a).any() for a in data.values()) and 'gpow' in json.dumps(sp['comps']):
        raise Reject('undefined to the power zero is one')
    dep, _ = mg.roles(sp)
    free = [p for p in b.params if p not in case['fixed']]
    nz = False
    for p in case['points']:
        _, mag = mg.ref_jets(sp, plain, p, limit=1000)
        jets = _nan_jets(sp, data, p)
        V, G, H, sc = 0.0, 0.0, 0.0, 1.0
        for c in dep:
            j = jets[c]
            l = exprs.jlog(j)
            ax1, ax2 = tuple(range(1, l.g.ndim)), tuple(range(2, l.h.ndim))
            V -= np.nansum(l.v)
            G -= np.nansum(l.g, axis=ax1)
            H -= np.nansum(l.h, axis=ax2)
            sc += np.nansum(np.abs(l.v)) + np.nansum(np.abs(l.g)) + np.nansum(np.abs(l.h)) + np.nansum(np.abs(l.g)) ** 2
        tol = 1e-10 * (1 + mag) ** 1.5 * sc
        for args, kw in objgen.point_calls(free, p, case['k']):
            got = obj(*args, **kw)
            require(np.ndim(got) == 0, 'objective is not a scalar: {}', got)
            close(got, V, tol, 'minus log-likelihood at {}'.format(p))
            close(obj.eval_jacobian(*args, **kw), G, tol, 'gradient at {}'.format(p))
            close(obj.eval_hessian(*args, **kw), H, tol, 'Hessian at {}'.format(p))
        if len(dep) == 1:
            per = obj.eval_jacobian([p[n] for n in free], apply_func=lambda a: a)
            close(np.sum(np.nan_to_num(np.reshape(per, (len(b.params), -1))), axis=1), G, tol, 'gradient per point at {}'.format(p))
        nz = nz or np.any(G != 0)
    return info(nz, case['route'], 'nan' if case['nan'] else 'defined', 'fixed' if case['fixed'] else 'free', 'comps=%d' % len(dep),
                'params=%d' % len(b.params))


def _nan_jets(sp, data, p):
    ps = sorted(sp['params'])
    P = len(ps)
    env = {v: exprs.const_jet(data[v], P) for v in sp['vars']}
    for i, q in enumerate(ps):
        env[q] = exprs.param_jet(p[q], i, P)
    mag = exprs.Mag()
    with np.errstate(all='ignore'):
        for c, ast, _ in sp['comps']:
            env[c] = exprs.jet(ast, env, P, mag)
    out = {}
    for c, _, _ in sp['comps']:
        j = env[c]
        # a point is undefined when its value is
        bad = np.isnan(j.v)
        g, h = np.broadcast_to(j.g, (P,) + j.v.shape).copy(), np.broadcast_to(j.h, (P, P) + j.v.shape).copy()
        g[:, bad], h[:, :, bad] = np.nan, np.nan
        out[c] = exprs.Jet(j.v, g, h)
    return out


@st.composite
def _mm(draw):
    withx = draw(st.integers(0, 2)) == 0
    nc = draw(st.integers(1, 3))
    nv = 1 if withx else 0
    np_ = draw(st.integers(1, 4))
    ns = draw(exprs.names(nc + nv + np_))
    cs, vs, ps = ns[:nc], ns[nc:nc + nv], ns[nc + nv:]
    comps, used = [], set()
    for i in range(nc):
        d = draw(st.lists(st.sampled_from(ps + vs), min_size=1, max_size=3, unique=True))
        if i:
            d.append(cs[i - 1])
        comps.append([cs[i], d])
        used |= set(d)
    for s in ps + vs:
        if s not in used:
            comps[-1][1].append(s)
    comps = [[c, draw(exprs.expr(d, d, 2)), 'sym'] for c, d in comps]
    sp = {'vars': vs, 'params': ps, 'comps': comps, 'write': draw(st.permutations(range(nc))), 'create': draw(st.permutations(range(len(ns))))}
    fx = {}
    if draw(st.integers(0, 2)) == 0:
        fx = {p: draw(exprs.number()) for p in draw(st.lists(st.sampled_from(ps), max_size=2, unique=True))}
    shp = draw(st.sampled_from([[3], [2], [1]]))
    return {'spec': sp, 'data': {v: draw(objgen.values(shp, exprs.number())) for v in vs}, 'fixed': fx,
            'points': [dict(draw(mg.param_values(ps)), **fx) for _ in range(2)], 'k': draw(st.integers(0, 5)),
            'route': draw(st.sampled_from(['fit', 'direct']))}


@facet(FACETS, 'minimize_model', _mm,
       'MinimizeModel equals the model and its derivatives (also with intermediate components, data for an independent '
       'variable, fixed parameters); more than one dependent component is rejected; non-trivial: non-zero gradient')
def minimize_model(case):
    from symfit.core.objectives import MinimizeModel
    sp = case['spec']
    plain = {v: np.array(d['v'], dtype=float).reshape(d['shape']) for v, d in case['data'].items()}
    refs = [mg.ref_jets(sp, plain, p, limit=1000) for p in case['points']]
    b, obj, data = _build(case, MinimizeModel)
    top = sp['comps'][-1][0]
    free = [p for p in b.params if p not in case['fixed']]
    P = len(b.params)
    nz = False
    for (jets, mag), p in zip(refs, case['points']):
        j = jets[top]
        tol = 1e-9 * (1 + mag) ** 1.5
        for args, kw in objgen.point_calls(free, p, case['k']):
            close(np.ravel(obj(*args, **kw)), j.v.ravel(), tol, 'value at {}'.format(p))
            close(np.asarray(obj.eval_jacobian(*args, **kw)).reshape(P, -1), j.g.reshape(P, -1), tol, 'gradient at {}'.format(p))
            close(np.asarray(obj.eval_hessian(*args, **kw)).reshape(P, P, -1), j.h.reshape(P, P, -1), tol, 'Hessian at {}'.format(p))
            close(np.shape(obj.eval_jacobian(*args, **kw))[0], P, 0, 'rows of the gradient')
            require(np.shape(obj.eval_hessian(*args, **kw))[:2] == (P, P), 'layout of the Hessian')
        nz = nz or np.any(j.g != 0)
    return info(nz, case['route'], 'fixed' if case['fixed'] else 'free', 'comps=%d' % len(sp['comps']), 'params=%d' % P,
                'data' if data else 'no data')


@facet(FACETS, 'scalar_only', lambda: mg.spec(nvars=(0, 0), nparams=(1, 3), ncomps=(2, 3), tidy=True),
       'MinimizeModel of a model with several dependent components must raise TypeError; non-trivial: there are several')
def scalar_only(case):
    from symfit import Model, Fit
    from symfit.core.objectives import MinimizeModel
    b = mg.build(case, cls=Model)
    dep, _ = mg.roles(case)
    for make in (lambda: MinimizeModel(b.model, {}), lambda: Fit(b.model, objective=MinimizeModel)):
        try:
            make()
        except TypeError:
            require(len(dep) > 1, 'a scalar model was rejected')
        else:
            require(len(dep) == 1, '{} dependent components were accepted', len(dep))
    return info(len(dep) > 1)


# ---- size ------------------------------------------------------------------------

@st.composite
def _big(draw):
    like = draw(st.booleans())
    return {'like': like, 'c': draw(big.case_(K=(7, 10), J=(1, 3) if like else (1, 1), points=(1, 2, 13, 257, 1001) if like else (1,), fixed=draw(st.booleans())))}


@facet(FACETS, 'big', _big,
       'log-likelihood of 1 + y^2 and scalar models with 7-10 parameters and up to a thousand points, with gradient and Hessian, '
       'against numpy; non-trivial: all')
def big_(case):
    from symfit.core.objectives import LogLikelihood, MinimizeModel
    c = case['c']
    pr = big.Problem(c)
    fixed = [c['ps'][k] for k in c['fixed']]
    attrs = {n: {'value': float(v), 'fixed': n in fixed} for n, v in zip(c['ps'], pr.p)}
    m = pr.build(attrs=attrs, wrap=(lambda e: 1 + e ** 2) if case['like'] else None)
    data = {v: pr.xs[v.name] for v in m.independent_vars}
    x = pr.p[[k for k in pr.order if c['ps'][k] not in fixed]]
    V, Jc, Hs = pr.values(pr.p), pr.jac(pr.p), pr.hess(pr.p)
    o = pr.order
    if not case['like']:
        obj = MinimizeModel(m, {**data, pr.Y[0]: None})
        scale = 1 + np.abs(V[0]).max() + np.abs(Jc[0]).max()
        close(np.ravel(obj(x)), V[0], 1e-9 * scale, 'value')
        close(np.ravel(obj.eval_jacobian(x)), Jc[0][o][:, 0], 1e-9 * scale, 'gradient')
        close(np.reshape(obj.eval_hessian(x), (pr.K, pr.K)), Hs[0][np.ix_(o, o)][:, :, 0], 1e-9 * scale, 'Hessian')
        return info(True, 'scalar', 'fixed=%d' % len(fixed), *pr.labels())
    obj = LogLikelihood(m, {**data, **{y: None for y in pr.Y}})
    S, G, H = 0.0, 0.0, 0.0
    for j in range(pr.J):
        f = 1 + V[j] ** 2
        S -= np.sum(np.log(f))
        G = G - (2 * V[j] / f * Jc[j][o]).sum(axis=1)
        l2 = 2 / f - (2 * V[j] / f) ** 2
        H = H - (l2 * Jc[j][o]) @ Jc[j][o].T - (Hs[j][np.ix_(o, o)] * (2 * V[j] / f)).sum(axis=2)
    scale = 1 + abs(S) + np.abs(H).max()
    close(obj(x), S, 1e-9 * scale, 'log-likelihood')
    close(obj.eval_jacobian(x), G, 1e-8 * scale, 'gradient by {}'.format(pr.names))
    close(obj.eval_hessian(x), H, 1e-8 * scale, 'Hessian by {}'.format(pr.names))
    return info(True, 'likelihood', 'fixed=%d' % len(fixed), *pr.labels())


# ---- tails ---------------------------------------------------------------------

@st.composite
def _tails(draw):
    nms = draw(exprs.names(8))
    comps = []
    for k in range(draw(st.integers(1, 2))):
        kind = draw(st.sampled_from(['expo', 'gauss', 'power']))
        n = draw(st.sampled_from([1, 2, 5]))
        unit = {'gauss': st.integers(-176, 176).map(lambda i: i / 8), 'expo': st.integers(0, 4 * 250).map(lambda i: i / 4),
                'power': st.integers(0, 160).map(lambda i: 10 ** (i / 8))}[kind]
        comps.append({'kind': kind, 'u': draw(st.lists(unit, min_size=n, max_size=n)), 'par': [draw(exprs.number()), draw(exprs.positive(0.5, 2))],
                      'exp10': draw(st.permutations(range(-30, 31, 5)))[0]})
    return {'names': nms, 'comps': comps, 'shape2': draw(st.booleans()), 'route': draw(st.sampled_from(['fit', 'direct']))}


@facet(FACETS, 'tails', _tails,
       'log-likelihood with gradient and Hessian for Gaussian, exponential and power-law densities whose values at the data range from 1e-140 '
       'to 1e40, against closed forms; non-trivial: a density below 1e-20 or above 1e10')
def tails(case):
    import symfit
    from symfit import Fit, Model
    from symfit.core.objectives import LogLikelihood
    n = iter(case['names'])
    md, data, V = {}, {}, 0.0
    pts, parts, extreme = {}, [], False
    for c in case['comps']:
        x, y = symfit.Variable(next(n)), symfit.Variable(next(n))
        mu, w = c['par']
        u = np.array(c['u'])
        if c['kind'] == 'gauss':
            m, s = symfit.Parameter(next(n), mu), symfit.Parameter(next(n), w)
            e = symfit.exp(-(x - m) ** 2 / (2 * s ** 2)) / (s * symfit.sqrt(2 * symfit.pi))
            xs = mu + u * w
            z = xs - mu
            lf = -z ** 2 / (2 * w ** 2) - np.log(w) - np.log(2 * np.pi) / 2
            ps = [m, s]
            G = [z / w ** 2, z ** 2 / w ** 3 - 1 / w]
            H = [[-1 / w ** 2 + 0 * z, -2 * z / w ** 3], [-2 * z / w ** 3, -3 * z ** 2 / w ** 4 + 1 / w ** 2]]
        elif c['kind'] == 'expo':
            l = symfit.Parameter(next(n), w)
            e = l * symfit.exp(-l * x)
            xs = u / w
            lf = np.log(w) - w * xs
            ps, G, H = [l], [1 / w - xs], [[-1 / w ** 2 + 0 * xs]]
        else:
            a = symfit.Parameter(next(n), w)
            e = a * x ** (-a - 1)
            xs = u
            lf = np.log(w) - (w + 1) * np.log(xs)
            ps, G, H = [a], [1 / w - np.log(xs)], [[-1 / w ** 2 + 0 * xs]]
        md[y] = 10.0 ** c['exp10'] * e
        lf = lf + c['exp10'] * np.log(10)
        if np.any(lf < -140 * np.log(10)) or np.any(lf > 40 * np.log(10)):
            raise Reject('outside the range')
        extreme = extreme or np.any(lf < -20 * np.log(10)) or np.any(lf > 10 * np.log(10))
        if case['shape2'] and len(xs) == 2:
            xs = xs.reshape(2, 1)
        data[x.name] = xs
        V -= np.sum(lf)
        pts.update({p.name: p.value for p in ps})
        parts.append((ps, G, H))
    names = sorted(pts)
    N = len(names)
    G, H, sg, sh = np.zeros(N), np.zeros((N, N)), np.ones(N), np.ones((N, N))
    for ps, g, h in parts:
        idx = [names.index(p.name) for p in ps]
        for i, I in enumerate(idx):
            G[I] -= np.sum(g[i])
            sg[I] += np.sum(np.abs(g[i]))
            for j, J in enumerate(idx):
                H[I, J] -= np.sum(h[i][j])
                sh[I, J] += np.sum(np.abs(h[i][j]) + 4 * np.abs(g[i] * g[j]) + 10)
    model = Model(md)
    if case['route'] == 'fit':
        obj = Fit(model, objective=LogLikelihood, **data).objective
    else:
        obj = LogLikelihood(model, {v: data[v.name] for v in model.independent_vars})
    close(obj(**pts), V, 1e-9 * (1 + sum(np.sum(np.abs(d)) * 0 + 700 * np.size(d) for d in data.values())), 'log-likelihood in the tails', shape=False)
    close(obj.eval_jacobian(**pts), G, 1e-9 * sg, 'gradient in the tails')
    close(obj.eval_hessian(**pts), H, 1e-9 * sh, 'Hessian in the tails')
    return info(bool(extreme), *[c['kind'] for c in case['comps']])
