"""C23: fits transform correctly under renaming, reordering and rescaling."""
import numpy as np
from hypothesis import strategies as st

import exprs
import models_gen as mg
import objgen
import odes
import fitgen as fg
from core import facet, info, close, require, reset_state, Violation, Reject

FACETS = {}


# ---- transformations of cases -----------------------------------------------

def rename_ast(e, mp):
    if e[0] == 's':
        return ['s', mp[e[1]]]
    return [e[0]] + [rename_ast(x, mp) if isinstance(x, list) else x for x in e[1:]]


def rename(case, mp):
    sp = case['spec']
    out = dict(case)
    out['spec'] = dict(sp, vars=[mp[v] for v in sp['vars']], params=[mp[p] for p in sp['params']],
                       comps=[[mp[c], rename_ast(a, mp), k] for c, a, k in sp['comps']])
    for key in ('data', 'y', 'sigma', 'fixed', 'guess', 'nl'):
        if key in case:
            out[key] = {mp[k]: v for k, v in case[key].items()}
    if 'points' in case:
        out['points'] = [{mp[k]: v for k, v in p.items()} for p in case['points']]
    return out


def names_of(sp):
    return sp['vars'] + sp['params'] + [c[0] for c in sp['comps']]


@st.composite
def mapping(draw, sp):
    """New names (or the same ones handed round) and a new order of writing."""
    old = names_of(sp)
    if draw(st.booleans()):
        new = list(draw(st.permutations(old)))
    else:
        new = draw(exprs.names(len(old)))
    return {'names': dict(zip(old, new)), 'write': draw(st.permutations(range(len(sp['comps'])))),
            'create': draw(st.permutations(range(len(old))))}


def rewritten(case, m):
    out = rename(case, m['names'])
    out['spec'] = dict(out['spec'], write=m['write'], create=m['create'])
    return out


def take(d, idx, shape=None):
    """Some of the points of one entry; constants stay."""
    if d is None or d['shape'] == []:
        return d
    v = [d['v'][i] for i in idx]
    return {'shape': [len(v)] if shape is None else shape, 'v': v}


def points(case, idx, shape=None):
    out = dict(case)
    for key in ('data', 'y', 'sigma'):
        out[key] = {k: take(d, idx, shape) for k, d in case[key].items()}
    return out


def common_shape(case):
    s = {tuple(d['shape']) for key in ('data', 'y') for d in case[key].values() if d is not None}
    s |= {tuple(d['shape']) for d in case['sigma'].values() if d is not None and d['shape'] != []}
    return list(s.pop()) if len(s) == 1 else None


def aligned(a, old, mp, axes):
    """Reorder the parameter axes of a result with the new names."""
    new = sorted(mp[q] for q in old)
    k = [new.index(mp[q]) for q in old]
    a = np.asarray(a)
    for ax in axes:
        a = np.take(a, k, axis=ax)
    return a


# ---- objectives -------------------------------------------------------------

@st.composite
def _objective(draw):
    c = draw(objgen.ls_case(vector=draw(st.booleans())))
    shape = common_shape(c)
    n = int(np.prod(shape)) if shape else 1
    return {'c': c, 'map': draw(mapping(c['spec'])), 'perm': draw(st.permutations(range(n))), 'cut': draw(st.integers(0, 8)),
            'type': draw(st.sampled_from(['LeastSquares', 'LeastSquares', 'VectorLeastSquares', 'LogLikelihood']))}


@facet(FACETS, 'objective', _objective,
       'value, gradient and Hessian of least-squares (also vector) and likelihood objectives of random models before and after '
       'renaming, rewriting and permuting, and summed over two parts of the data; non-trivial: names or points change their order')
def objective(case):
    from symfit import Model
    from symfit.core import objectives as O
    c, mp = case['c'], case['map']['names']
    cls = getattr(O, case['type'])
    scales = []
    for p in c['points']:
        pc, mag = objgen.pieces(c, p)
        parts = objgen.chi2_parts(pc)
        scales.append(([sum(v[3][i] for v in parts.values()) for i in range(3)], mag))
    old = sorted(c['spec']['params'])
    free = [q for q in old if q not in c['fixed']]
    d = rewritten(c, case['map'])
    shape = common_shape(c)
    moved = False
    if shape:
        d = points(d, case['perm'], shape)
        moved = list(case['perm']) != sorted(case['perm'])
    if case['type'] == 'VectorLeastSquares' and not shape:
        raise Reject('different shapes')
    if case['type'] == 'LogLikelihood':
        if c['spec']['vars'] == [] or not shape:
            raise Reject('no data')
        jets, _ = mg.ref_jets(c['spec'], fg.data_kwargs(dict(c, y={}, sigma={})), c['points'][0])
        # logarithms need positive components
        comps = [[q, ['gsqrt', a] if q in mg.roles(c['spec'])[0] else a, k] for q, a, k in c['spec']['comps']]
        c = dict(c, spec=dict(c['spec'], comps=comps), route='direct')
        d = points(rewritten(c, case['map']), case['perm'], shape)
        d['route'] = 'direct'
    b1, o1 = objgen.build_objective(c, cls, Model) if case['type'] != 'LogLikelihood' else likelihood(c, cls)
    res = []
    for p in c['points']:
        vals = [p[q] for q in free]
        res.append((np.asarray(o1(vals)), np.asarray(o1.eval_jacobian(vals)), np.asarray(o1.eval_hessian(vals)) if hasattr(o1, 'eval_hessian') else None))
    reset_state()
    b2, o2 = objgen.build_objective(d, cls, Model) if case['type'] != 'LogLikelihood' else likelihood(d, cls)
    free2 = [q.name for q in b2.model.free_params]
    require(free2 == sorted(mp[q] for q in free), 'free parameters {} after renaming {} with {}', free2, free, mp)
    for p, (S, G, H), (sc, mag) in zip(c['points'], res, scales):
        f = 1e-10 * (1 + mag) ** (1 if case['type'] == 'LeastSquares' else 2)
        back = {mp[q]: q for q in mp}
        vals = [p[back[q]] for q in free2]
        S2, G2 = np.asarray(o2(vals)), np.asarray(o2.eval_jacobian(vals))
        if case['type'] == 'VectorLeastSquares':
            perm = list(case['perm']) if shape else list(range(S.size))
            if S.size != len(perm):
                perm = list(range(S.size))
            smax = 1 + max([0.0] + [1 / min(s['v']) for s in c['sigma'].values() if s is not None])
            close(S2, S[perm], f * (1 + S[perm]) * smax, 'residuals after renaming')
            ok = S[perm] > 1e-4 * mag
            close(aligned(G2, old, mp, [1])[ok], G[perm][ok], (f * 1e3 * (1 + sc[1]) * smax ** 2 * (1 + 1 / S[perm])[:, None])[ok], 'their Jacobian')
            continue
        close(S2, S, f * sc[0], 'objective after renaming')
        close(aligned(G2, old, mp, [0]), G, f * sc[1], 'gradient after renaming')
        close(aligned(o2.eval_hessian(vals), old, mp, [0, 1]), H, f * sc[2] * (1 + (mag if case['type'] != 'LeastSquares' else 0)), 'Hessian after renaming')
    if shape and case['type'] == 'LeastSquares' and len(case['perm']) > 1:
        k = 1 + case['cut'] % (len(case['perm']) - 1)
        total = [0.0] * len(c['points'])
        for idx in (case['perm'][:k], case['perm'][k:]):
            reset_state()
            part = points(c, idx)
            b3, o3 = objgen.build_objective(part, cls, Model)
            for i, p in enumerate(c['points']):
                total[i] += o3([p[q] for q in free])
        for t, (S, _, _), (sc, mag) in zip(total, res, scales):
            close(t, S, 1e-10 * (1 + mag) * sc[0], 'objective summed over two parts of the data')
    order_changed = [mp[q] for q in old] != sorted(mp[q] for q in old)
    return info(moved or order_changed, case['type'], 'order of parameters changed' if order_changed else 'same order',
                'permuted' if moved else 'in place', 'params=%d' % len(old))


def likelihood(c, cls):
    from symfit import Model
    sp = c['spec']
    b = mg.build(sp, pattrs={p: {'value': v, 'fixed': True} for p, v in c['fixed'].items()}, cls=Model)
    data = {b.table[v]: np.array(d['v'], dtype=float).reshape(d['shape']) for v, d in c['data'].items()}
    return b, cls(b.model, data)


# ---- outcomes of fits -------------------------------------------------------

ROUTES = ['rename', 'rename', 'rename', 'permute', 'positional', 'lists', 'dict', 'CallableModel', 'GradientModel', 'objective', 'sigma arrays',
          'ones', 'flat', 'ModelInstance', 'guess kept']


@st.composite
def _outcome(draw):
    bij = draw(st.integers(0, 3)) == 3
    route = draw(st.sampled_from(ROUTES))
    c = draw(fg.linear_case(bij=bij, fixed=draw(st.sampled_from([False, False, True])), guess=2 if bij else 4,
                            repeats=route not in ('permute', 'flat')))
    n = len(next(iter(c['data'].values()))['v'])
    return {'c': c, 'map': draw(mapping(c['spec'])), 'perm': draw(st.permutations(range(n))), 'route': route,
            'minimizer': draw(st.sampled_from([None, None, 'BFGS', 'LBFGSB', 'SLSQP', 'MINPACK', 'TrustConstr', 'NelderMead'])),
            'abs': draw(st.sampled_from([None, None, True, False])), 'bounds': draw(st.sampled_from([None, None, 'wide', 'lower']))}


def outcome_of(res, b):
    ps = b.model.params
    cov = res.covariance_matrix
    return {'p': {q.name: float(res.value(q)) for q in ps}, 'sd': {q.name: res.stdev(q) for q in ps},
            'cov': None if cov is None else np.asarray(cov, dtype=float), 'gof': {k: float(getattr(res, k)) for k in ('chi_squared', 'r_squared')},
            'abs': None}


def compare(o1, o2, back, case, Sopt, loose, factor=1.0, sdfactor=1.0, chifactor=1.0, r2=True, same=True):
    """o2 is the transformed outcome; back: new name -> old name."""
    old = sorted(o1['p'])
    ptol = 2e-2 if loose else 5e-3
    scale = max(1.0, max(abs(v) for v in o1['p'].values()))
    require(sorted(back[q] for q in o2['p']) == old, 'parameters {}', sorted(o2['p']))
    fwd = {v: k for k, v in back.items()}
    for q in old:
        if same:
            close(o2['p'][fwd[q]], o1['p'][q], ptol * scale, 'best-fit value of {} ({})'.format(q, fwd[q]))
    rel = 5e-2 if loose else 1e-2
    for q in old:
        s1, s2 = o1['sd'][q], o2['sd'][fwd[q]]
        if s1 is None or s2 is None:
            require(s1 is None and s2 is None, 'standard deviation of {}: {} and {}', q, s1, s2)
            continue
        close(s2, s1 * sdfactor, rel * abs(s1) * sdfactor + 1e-9, 'standard deviation of {} ({})'.format(q, fwd[q]))
    if o1['cov'] is not None and o2['cov'] is not None:
        new = sorted(o2['p'])
        k = [new.index(fwd[q]) for q in old]
        got = o2['cov'][np.ix_(k, k)]
        with np.errstate(all='ignore'):
            sd = np.sqrt(np.abs(np.diag(o1['cov'])))
        close(got, o1['cov'] * sdfactor ** 2, 2 * rel * sdfactor ** 2 * np.outer(sd, sd) + 1e-9, 'covariance matrix')
    close(o2['gof']['chi_squared'], o1['gof']['chi_squared'] * chifactor, (1e-3 * (1 + 2 * Sopt)) * chifactor, 'chi squared')
    if r2:
        close(o2['gof']['r_squared'], o1['gof']['r_squared'], 1e-2 * (1 + abs(1 - o1['gof']['r_squared'])), 'R squared')


def bounded(case, popt):
    """Bounds that leave the optimum inside."""
    if case['bounds'] is None:
        return {}
    out = {}
    for q, v in popt.items():
        if q in case['c']['fixed']:
            continue
        g = case['c']['guess'][q]
        lo, hi = min(v, g) - 3.0, max(v, g) + 3.0
        out[q] = {'min': lo} if case['bounds'] == 'lower' else {'min': lo, 'max': hi}
    return out


@facet(FACETS, 'outcome', _outcome,
       'fits of linear (and monotonically reparametrised) problems repeated with other names, order of the definition, order of the '
       'points, or the same data by another route: same values, standard deviations, covariances and fit quality for the same '
       'parameters; non-trivial: at least two parameters')
def outcome(case):
    import symfit
    from symfit import Fit
    from symfit.core.models import GradientModel
    from symfit.core.objectives import LeastSquares
    c, route = case['c'], case['route']
    popt, Sopt, H, n = fg.optimum(c)
    bij = any(c['nl'].values())
    attrs = bounded(case, popt)
    mini = case['minimizer']
    if mini in ('BFGS', 'NelderMead') and attrs:
        attrs = {}
    kw = {} if mini is None else {'minimizer': fg.minimizer(mini)}
    extra = {} if case['abs'] is None else {'absolute_sigma': case['abs']}
    if route == 'ones':
        # no sigma is the same as sigma of one (not absolute, unless said so)
        c = dict(c, sigma={k: None for k in c['sigma']})
        popt, Sopt, H, n = fg.optimum(c)
        extra.setdefault('absolute_sigma', False)
        attrs = bounded(case, popt) if attrs else {}
    b1, f1 = fg.make_fit(c, pattrs=attrs, **dict(kw, **extra))
    absolute = f1.absolute_sigma
    o1 = outcome_of(f1.execute(), b1)
    if not fg.gap(c, o1['p'], Sopt) < 1e-4 * (1 + Sopt):
        raise Reject('not converged')
    if not absolute and Sopt < 1e-3:
        raise Reject('perfect fit')
    reset_state()
    d, back, pattrs, mcls = c, {q: q for q in names_of(c['spec'])}, attrs, None
    shape = common_shape(c)
    if route == 'rename':
        mp = case['map']['names']
        d = rewritten(c, case['map'])
        back = {v: k for k, v in mp.items()}
        pattrs = {mp[q]: a for q, a in attrs.items()}
    elif route == 'permute':
        d = points(c, case['perm'], shape)
    elif route == 'flat':
        d = points(c, list(range(len(case['perm']))))
    elif route == 'sigma arrays':
        d = dict(c, sigma={k: s if s is None or s['shape'] else {'shape': c['y'][k]['shape'], 'v': s['v'] * len(c['y'][k]['v'])} for k, s in c['sigma'].items()})
    elif route == 'ones':
        d = dict(c, sigma={k: {'shape': [], 'v': [1.0]} if c['y'][k] is not None else None for k in c['sigma']})
    elif route == 'CallableModel':
        mcls = symfit.CallableModel if mini in ('NelderMead',) else symfit.Model
    elif route == 'GradientModel':
        mcls = GradientModel
    if route == 'objective':
        kw = dict(kw, objective=LeastSquares) if mini != 'MINPACK' else kw
    if route in ('positional', 'lists', 'dict', 'ModelInstance'):
        b2 = mg.build(d['spec'], pattrs={q: dict({'value': c['guess'][q]}, **dict(attrs.get(q, {}), **({'value': c['fixed'][q], 'fixed': True} if q in c['fixed'] else {})))
                                         for q in d['spec']['params']}, cls=symfit.Model)
        data = fg.data_kwargs(d)
        allkw = dict(kw, **extra)
        if route == 'positional':
            order = [v.name for v in b2.model.independent_vars] + [v.name for v in b2.model.dependent_vars] + \
                    [b2.model.sigmas[v].name for v in b2.model.dependent_vars]
            pos = [data[q] if q in data else None for q in order]
            while pos and order[len(pos) - 1] not in data:
                pos.pop()
            if any(order[i].startswith('sigma_') and order[i] not in data for i in range(len(pos))):
                raise Reject('sigma in between')
            f2 = Fit(b2.model, *pos, **allkw)
        elif route == 'lists':
            f2 = Fit(b2.model, **dict({k: v.tolist() if isinstance(v, np.ndarray) else v for k, v in data.items()}, **allkw))
        elif route == 'dict':
            f2 = Fit(b2.model_dict, **dict(data, **allkw))
        else:
            f2 = Fit(symfit.Model(b2.model_dict), **dict(data, **allkw))
    else:
        b2, f2 = fg.make_fit(d, mcls, pattrs=pattrs, **dict(kw, **extra))
    require(f2.absolute_sigma == absolute, 'absolute_sigma is {} instead of {}', f2.absolute_sigma, absolute)
    o2 = outcome_of(f2.execute(), b2)
    if route == 'CallableModel' and mcls is symfit.CallableModel:
        # without derivatives there is no covariance
        require(o2['cov'] is None, 'a covariance matrix without derivatives')
        o2['sd'] = {q: o1['sd'][back[q]] for q in o2['sd']}
    S2 = fg.chi2(c, {back[q]: v for q, v in o2['p'].items()}, 1e12)[0]
    require(S2 - Sopt < 1e-2 * (1 + Sopt), 'objective {} instead of {} after "{}"', S2, Sopt, route)
    compare(o1, o2, back, c, Sopt, bij or mini in ('NelderMead', 'TrustConstr', None))
    return info(len(popt) > 1, route, str(mini), 'bij' if bij else 'linear', 'absolute' if absolute else 'relative',
                'fixed' if c['fixed'] else 'free', 'bounds' if attrs else 'no bounds')


@st.composite
def _sigma(draw):
    c = draw(fg.linear_case(missing=False))
    for k, s in c['sigma'].items():
        if s is None:
            c['sigma'][k] = {'shape': [], 'v': [1.0]}
    return {'c': c, 'factor': draw(st.sampled_from([0.125, 0.5, 2.0, 4.0, 10.0, 3.0])), 'abs': draw(st.sampled_from([None, True, False, False])),
            'minimizer': draw(st.sampled_from([None, 'BFGS', 'LBFGSB', 'SLSQP', 'MINPACK']))}


@facet(FACETS, 'sigma', _sigma,
       'fits with all sigmas multiplied by a factor: same optimum and R squared, chi squared divided by its square, standard deviations '
       'multiplied by it if absolute and unchanged if relative; non-trivial: all')
def sigma(case):
    c, k = case['c'], case['factor']
    popt, Sopt, H, n = fg.optimum(c)
    if Sopt < 1e-2:
        raise Reject('perfect fit')
    kw = {} if case['minimizer'] is None else {'minimizer': fg.minimizer(case['minimizer'])}
    if case['abs'] is not None:
        kw['absolute_sigma'] = case['abs']
    outs = []
    for f in (1.0, k):
        reset_state()
        d = dict(c, sigma={q: {'shape': s['shape'], 'v': [v * f for v in s['v']]} for q, s in c['sigma'].items()})
        b, fit = fg.make_fit(d, **kw)
        outs.append(outcome_of(fit.execute(), b))
        absolute = fit.absolute_sigma
        require(absolute == (case['abs'] is not False), 'absolute_sigma {}', absolute)
    gaps = [fg.gap(c, o['p'], Sopt) for o in outs]
    if not gaps[0] < 1e-4 * (1 + Sopt):
        raise Reject('not converged')
    # looser sigmas make the objective flatter, and the solvers stop earlier
    require(gaps[1] < 1e-3 * max(1, k ** 2) * (1 + Sopt), 'optimum moved by a common factor of the sigmas: {} instead of {}', outs[1]['p'], outs[0]['p'])
    if gaps[1] < 1e-4 * (1 + Sopt):
        compare(outs[0], outs[1], {q: q for q in popt}, c, Sopt, False, sdfactor=k if absolute else 1.0, chifactor=1 / k ** 2)
    return info(True, 'absolute' if absolute else 'relative', str(case['minimizer']), 'factor=%g' % k, 'compared' if gaps[1] < 1e-4 * (1 + Sopt) else 'optimum only')


@st.composite
def _affine(draw):
    c = draw(fg.linear_case(missing=False, fixed=draw(st.sampled_from([False, False, True])), repeats=False))
    return {'c': c, 'shift': {q: draw(exprs.number(-2, 2)) for q in c['spec']['params']}, 'scale': draw(st.sampled_from([1.0, -1.0, 0.5, 2.0, -3.0])),
            'abs': draw(st.sampled_from([None, True, False])), 'minimizer': draw(st.sampled_from([None, 'BFGS', 'LBFGSB', 'SLSQP', 'MINPACK'])),
            'twice': draw(st.booleans())}


@facet(FACETS, 'affine', _affine,
       'dependent data of linear models scaled and shifted along the model (optimum scales and shifts), or given twice (same optimum, '
       'absolute standard deviations over root two); non-trivial: a real change')
def affine(case):
    c, k = case['c'], case['scale']
    popt, Sopt, H, n = fg.optimum(c)
    if Sopt < 1e-2:
        raise Reject('perfect fit')
    kw = {} if case['minimizer'] is None else {'minimizer': fg.minimizer(case['minimizer'])}
    if case['abs'] is not None:
        kw['absolute_sigma'] = case['abs']
    names = sorted(popt)
    free = [q for q in names if q not in c['fixed']]
    base = {q: c['fixed'].get(q, 0.0) for q in names}
    pc, _ = objgen.pieces(c, base, 1e4)
    y = {}
    for q, (yv, s, j) in pc.items():
        # y -> k (y - offset) + offset + J shift
        new = k * (yv - j.v) + j.v
        for i, nm in enumerate(names):
            if nm in free:
                new = new + case['shift'][nm] * j.g[i]
        y[q] = {'shape': list(yv.shape), 'v': [float(v) for v in new.ravel()]}
    d = dict(c, y=y)
    want = {q: popt[q] if q not in free else k * popt[q] + case['shift'][q] for q in names}
    if max(abs(v) for v in want.values()) > 12:
        raise Reject('far away')
    b1, f1 = fg.make_fit(c, **kw)
    o1 = outcome_of(f1.execute(), b1)
    if not fg.gap(c, o1['p'], Sopt) < 1e-5 * (1 + Sopt):
        raise Reject('not converged')
    reset_state()
    b2, f2 = fg.make_fit(d, **kw)
    o2 = outcome_of(f2.execute(), b2)
    gap2 = fg.gap(d, o2['p'], Sopt * k ** 2)
    require(gap2 < 1e-3 * (1 + Sopt) * max(1, k ** 2), 'the optimum of the transformed data is {}, not {}', want, o2['p'])
    if gap2 < 1e-5 * (1 + Sopt):
        for q in names:
            close(o2['p'][q], want[q] if q not in free else k * o1['p'][q] + case['shift'][q], 2e-2 * (1 + abs(k)), 'value of ' + q)
            close(o2['sd'][q], o1['sd'][q] * (1 if f1.absolute_sigma else abs(k)), 1e-2 * o1['sd'][q] * max(1, abs(k)) + 1e-9, 'standard deviation of ' + q)
        close(o2['gof']['chi_squared'], k ** 2 * o1['gof']['chi_squared'], 1e-3 * (1 + Sopt) * max(1, k ** 2), 'chi squared')
    if case['twice']:
        reset_state()
        nn = len(next(iter(c['data'].values()))['v'])
        e = points(c, list(range(nn)) * 2)
        b3, f3 = fg.make_fit(e, **kw)
        o3 = outcome_of(f3.execute(), b3)
        require(fg.gap(c, o3['p'], Sopt) < 1e-3 * (1 + Sopt), 'the optimum moved when all data were given twice')
        close(o3['gof']['chi_squared'], 2 * o1['gof']['chi_squared'], 4e-3 * (1 + Sopt), 'chi squared of doubled data')
        if f1.absolute_sigma:
            for q in free:
                close(o3['sd'][q], o1['sd'][q] / np.sqrt(2), 1e-2 * o1['sd'][q], 'standard deviation of {} with doubled data'.format(q))
    return info(k != 1.0 or any(case['shift'][q] for q in free), 'scale=%g' % k, str(case['minimizer']),
                'absolute' if f1.absolute_sigma else 'relative', 'twice' if case['twice'] else 'once')


# ---- scalar problems with bounds and constraints ------------------------------

@st.composite
def _scalar(draw):
    n = draw(st.integers(2, 4))
    ns = draw(exprs.names(2 * n + 2))
    guess = [draw(exprs.number(-2, 2)) for _ in range(n)]
    fix = draw(st.lists(st.integers(0, n - 1), max_size=n - 2, unique=True)) if n > 2 and draw(st.booleans()) else []
    bd = []
    for g in guess:
        k = draw(st.sampled_from(['none', 'lo', 'hi', 'both']))
        bd.append([g - draw(st.sampled_from([0.5, 2.0])) if k in ('lo', 'both') else None, g + draw(st.sampled_from([0.5, 2.0])) if k in ('hi', 'both') else None])
    con = None
    if draw(st.booleans()):
        con = {'a': [draw(st.sampled_from([-1.0, 0.0, 1.0, 2.0])) for _ in range(n)], 'slack': draw(st.sampled_from([0.0, 0.5, 2.0])),
               'type': draw(st.sampled_from(['Ge', 'Le', 'Eq']))}
    return {'n': n, 'names': ns[:n], 'new': draw(st.one_of(st.just(ns[n:2 * n]), st.permutations(ns[:n]))), 'y': ns[2 * n], 'y2': ns[2 * n + 1],
            'w': [draw(exprs.positive(0.5, 2)) for _ in range(n)], 'c': [draw(exprs.number(-3, 3)) for _ in range(n)],
            'mix': [draw(exprs.number(-1, 1)) for _ in range(n)], 'guess': guess, 'bounds': bd, 'fixed': fix, 'con': con,
            'create': [draw(st.permutations(range(n))) for _ in range(2)], 'minimizer': draw(st.sampled_from([None, 'SLSQP', 'TrustConstr']))}


@facet(FACETS, 'scalar', _scalar,
       'convex scalar problems with bounds, fixed parameters and a linear constraint, solved under two sets of names: same optimum for '
       'the same parameters; non-trivial: the order of the names changes')
def scalar(case):
    from symfit import Fit, Model, Parameter, Variable, Ge, Le, Eq
    n = case['n']

    def f(v):
        return sum(w * (p - c) ** 2 for w, p, c in zip(case['w'], v, case['c'])) + sum(m * p for m, p in zip(case['mix'], v)) ** 2
    con = case['con']
    free = [i for i in range(n) if i not in case['fixed']]
    if con and not any(con['a'][i] for i in free):
        con = None
    if not free:
        raise Reject('nothing free')
    outs = []
    for names, y, create in ((case['names'], case['y'], case['create'][0]), (case['new'], case['y2'], case['create'][1])):
        reset_state()
        ps = [None] * n
        for i in create:
            ps[i] = Parameter(names[i], value=case['guess'][i], min=case['bounds'][i][0], max=case['bounds'][i][1], fixed=i in case['fixed'])
        kw = {}
        if con:
            rhs = sum(a * g for a, g in zip(con['a'], case['guess']))
            rhs += {'Ge': -con['slack'], 'Le': con['slack'], 'Eq': 0.0}[con['type']]
            kw['constraints'] = [{'Ge': Ge, 'Le': Le, 'Eq': Eq}[con['type']](sum(a * p for a, p in zip(con['a'], ps)), rhs)]
        if case['minimizer']:
            kw['minimizer'] = fg.minimizer(case['minimizer'])
        res = Fit(Model({Variable(y): f(ps)}), **kw).execute()
        require(list(res.params) == sorted(names), 'parameters {}', list(res.params))
        outs.append(([float(res.value(p)) for p in ps], res))
    v1, v2 = outs[0][0], outs[1][0]
    f1, f2 = f(v1), f(v2)
    for i in case['fixed']:
        require(v1[i] == v2[i] == case['guess'][i], 'fixed {} at {} and {}', case['names'][i], v1[i], v2[i])
    # the objective is strongly convex: nearby values mean nearby points
    tol = 1e-3 * (1 + abs(f1))
    ok = [bool('uccess' in str(r.status_message) or 'CONVERG' in str(r.status_message) or 'erminat' in str(r.status_message)) for _, r in outs]
    if not all(ok):
        raise Reject('not converged')
    close(f2, f1, tol, 'optimal value under other names')
    close(v2, v1, 0.06 * (1 + abs(f1)) ** 0.5, 'optimum under other names')
    ch = sorted(range(n), key=lambda i: case['names'][i]) != sorted(range(n), key=lambda i: case['new'][i])
    return info(ch, str(case['minimizer']), con['type'] if con else 'unconstrained', 'fixed' if case['fixed'] else 'free', 'n=%d' % n)


# ---- ODE models ---------------------------------------------------------------

@st.composite
def _ode(draw):
    c = draw(odes.linear(maxk=3))
    ns = c['all']
    new = draw(st.one_of(st.permutations(ns), st.lists(st.sampled_from(odes.POOL), min_size=len(ns), max_size=len(ns), unique=True)))
    ts = sorted(set(draw(odes.times(c['t0'], 1.0, 5))))
    k = len(c['ys'])
    return {'c': c, 'map': dict(zip(ns, new)), 'ts': ts, 'y': {q: draw(objgen.values([len(ts)], exprs.number())) for q in c['ys']},
            'write': draw(st.permutations(range(k))), 'create': draw(st.permutations(range(len(ns)))), 'perm': draw(st.permutations(range(len(ts))))}


def rename_ode(c, mp, write, create):
    mpe = lambda e: [e[0], mp[e[1]] if e[1] else None]
    # the system itself in another order of the equations
    return dict(c, ys=[mp[y] for y in c['ys']], t=mp[c['t']], pars=sorted(mp[p] for p in c['pars']),
                A=[[mpe(e) for e in row] for row in c['A']], b=[mpe(e) for e in c['b']],
                init={mp[y]: mp[v] if isinstance(v, str) else v for y, v in c['init'].items()}, p={mp[k]: v for k, v in c['p'].items()},
                all=[mp[n] for n in c['all']], write=write, create=create)


@facet(FACETS, 'ode', _ode,
       'ODE models under other names, order of equations and data points: same components and least-squares objective; non-trivial: '
       'the order of the components or parameters changes')
def ode(case):
    from symfit import Fit
    c, mp = case['c'], case['map']
    ts = np.array(case['ts'], dtype=float)
    g = odes.growth(c, case['ts'])
    outs = []
    d = rename_ode(c, mp, case['write'], case['create'])
    perm = list(case['perm'])
    for q, m, t in ((c, {k: k for k in mp}, ts), (d, mp, ts[perm])):
        reset_state()
        model, table = odes.build_linear(q)
        kw = {q['t']: t}
        ev = model(**dict(kw, **q['p']))
        for k, v in case['y'].items():
            kw[m[k]] = np.array(v['v'])[perm] if t is not ts else np.array(v['v'])
        fit = Fit(model, **kw)
        outs.append((ev, fit.objective([q['p'][n] for n in sorted(q['pars'])]), fit.objective.eval_jacobian([q['p'][n] for n in sorted(q['pars'])])
                     if hasattr(fit.objective, 'eval_jacobian') else None))
    (e1, S1, G1), (e2, S2, G2) = outs
    r = 0
    for y in c['ys']:
        close(getattr(e2, mp[y]), np.asarray(getattr(e1, y))[perm], 1e-5 * g, 'component {} under the name {}'.format(y, mp[y]))
        r += np.sum(np.abs(np.asarray(getattr(e1, y)) - np.array(case['y'][y]['v'])))
    close(S2, S1, 1e-5 * g * (1 + r), 'least-squares objective under other names')
    if G1 is not None:
        close(aligned(G2, sorted(c['pars']), mp, [0]), G1, 1e-2 * g * (1 + r) / min(1, min(abs(v) for v in c['p'].values())) + 0.05 * np.abs(G1).max(), 'its gradient')
    ch = any(sorted(s) != [x for _, x in sorted((mp[k], k) for k in s)] for s in (c['ys'], c['pars']))
    return info(ch, 'k=%d' % len(c['ys']), 'pars=%d' % len(c['pars']))
