"""Fit problems with a known optimum, as plain data (same layout as objgen)."""
import numpy as np
from hypothesis import strategies as st

import exprs
import models_gen as mg
import objgen
from core import Reject

# All minimizers that solve smooth unconstrained problems.
LOCAL = ['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'COBYLA', 'NelderMead', 'Powell', 'MINPACK']
GRADIENT = ['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'MINPACK']
BOUNDED = ['LBFGSB', 'SLSQP', 'TrustConstr', 'MINPACK']
CONSTRAINED = ['SLSQP', 'TrustConstr', 'COBYLA']


def minimizer(name):
    from symfit.core import minimizers
    return getattr(minimizers, name)


def basis(k, xs):
    """k-th basis function of the independent variables."""
    x = ['s', xs[0]]
    z = ['s', xs[-1]]
    return [None, x, ['pow', z, 2], ['sin', x], ['cos', z], ['*', x, z], ['gexp', x], ['tanh', z]][k % 8]


@st.composite
def linear_case(draw, nparams=(1, 3), ncomps=(1, 2), nvars=(1, 2), kinds=('sym',), bij=False, inter=True,
                fixed=False, npoints=(5, 8), missing=True, guess=4, given=None, repeats=True, scalars=False):
    """Model linear in its parameters (bij: in monotone functions of them).
    given: (variables, parameters, components, [intermediate]) to use the names of."""
    if given is not None:
        nvars, nparams, ncomps = [(len(g), len(g)) for g in given[:3]]
    nv, np_, nc = draw(st.integers(*nvars)), draw(st.integers(*nparams)), draw(st.integers(*ncomps))
    use_inter = inter and draw(st.integers(0, 3)) == 0
    ns = draw(exprs.names(nv + np_ + nc + 1)) if given is None else sum(map(list, given), [])
    vs, ps, cs, u = ns[:nv], ns[nv:nv + np_], ns[nv + np_:nv + np_ + nc], ns[-1]
    kind = draw(st.sampled_from(kinds))
    terms = {c: {} for c in cs}
    for p in ps:
        for c in cs:
            if draw(st.booleans()):
                terms[c][p] = draw(st.integers(0, 7))
        if not any(p in terms[c] for c in cs):
            terms[draw(st.sampled_from(cs))][p] = draw(st.integers(0, 7))
    for c in cs:
        if not terms[c]:
            terms[c][draw(st.sampled_from(ps))] = draw(st.integers(0, 7))
    nl = {p: draw(st.sampled_from([0, 1, 2])) if bij else 0 for p in ps}

    def par(p):
        s = ['s', p]
        if nl[p] == 1:
            return ['+', s, ['*', ['c', 0.125], ['pow', s, 3]]]
        if nl[p] == 2:
            return ['+', ['*', ['c', 2.0], s], ['tanh', s]]
        return s
    comps, used_u = [], False
    xs_all = list(vs)
    if use_inter:
        comps.append([u, draw(exprs.expr(vs, (), 2)), kind])
    for c in cs:
        ast = None
        for p, k in sorted(terms[c].items()):
            pool = xs_all + ([u] if use_inter else [])
            b = basis(k, draw(st.permutations(pool)))
            t = par(p) if b is None else ['*', par(p), b]
            if draw(st.booleans()):
                t = ['*', ['c', draw(st.sampled_from([-2.0, 0.5, 3.0]))], t]
            ast = t if ast is None else [draw(st.sampled_from(['+', '-'])), ast, t]
        if draw(st.integers(0, 2)) == 0:
            ast = ['+', ast, draw(st.sampled_from([['c', 1.5], ['s', vs[0]], ['sin', ['s', vs[-1]]]]))]
        comps.append([c, ast, kind])
    # every variable occurs
    seen = set().union(*[exprs.symbols_of(a) for _, a, _ in comps])
    for v in vs:
        if v not in seen:
            comps[-1][1] = ['+', comps[-1][1], ['cos', ['s', v]]]
    if use_inter:
        for c in comps[1:]:
            if u not in exprs.symbols_of(c[1]):  # keep the outputs at one level
                c[1] = ['+', c[1], ['s', u]]
    for c in comps[1 if use_inter else 0:]:
        if not any(v in exprs.symbols_of(c[1]) for v in vs + ([u] if use_inter else [])):
            c[1] = ['+', c[1], ['s', vs[0]]]
    sp = {'vars': vs, 'params': ps, 'comps': comps, 'write': draw(st.permutations(range(len(comps)))),
          'create': draw(st.permutations(range(len(vs) + len(ps) + len(comps))))}
    n = draw(st.integers(*npoints))
    shape = draw(st.sampled_from([[n], [n], [n], [n, 2], [2, n]]))
    shapes = {v: shape for v in vs}
    if scalars:
        shapes = draw(objgen.scalar_shapes(sp, shapes))
    data = {v: draw(objgen.scalar(shapes[v], exprs.number(-2, 2), True)) for v in vs}
    shp = shape
    if repeats and draw(st.integers(0, 7)) == 3:  # several data per point of the components
        shp = shape + [draw(st.sampled_from([1, 2, 3, shape[-1]]))]
    y, sig = {}, {}
    for c in cs:
        y[c] = draw(objgen.values(shp, exprs.number(), True))
        sig[c] = draw(st.sampled_from([None, 'const', 'point', 'point']))
        if sig[c] is not None:
            sig[c] = draw(objgen.values([] if sig[c] == 'const' else shp, exprs.positive(), True))
    if missing and nc > 1 and draw(st.integers(0, 3)) == 0:
        y[cs[0]] = sig[cs[0]] = None
    fx = {}
    if fixed:
        nfix = draw(st.integers(1, max(1, len(ps) - 1)))
        fx = {p: draw(exprs.number()) for p in draw(st.permutations(ps))[:nfix]}
        if len(fx) == len(ps):
            fx = {}
    guesses = draw(mg.param_values(ps, -guess, guess))
    return {'spec': sp, 'data': data, 'y': y, 'sigma': sig, 'fixed': fx, 'nl': nl, 'guess': dict(guesses, **fx),
            'route': 'fit', 'kworder': draw(st.integers(0, 1))}


def chi2(case, p, limit=1e4):
    """(S, G, H, number of data points) by the reference, all parameters sorted."""
    pc, mag = objgen.pieces(case, p, limit)
    parts = objgen.chi2_parts(pc).values()
    n = sum(y.size for y, _, _ in pc.values())
    return sum(q[0] for q in parts), sum(q[1] for q in parts), sum(q[2] for q in parts), n


def unlinear(case, name, q):
    """Parameter value at which its monotone function is q."""
    from scipy.optimize import brentq
    k = case['nl'][name]
    if k == 0:
        return float(q)
    f = (lambda s: s + s ** 3 / 8 - q) if k == 1 else (lambda s: 2 * s + np.tanh(s) - q)
    return float(brentq(f, -abs(q) - 2, abs(q) + 2, xtol=1e-14))


def linearised(case):
    """The case with every parameter function replaced by the parameter."""
    def strip(e, ps):
        if e[0] == '+' and e[1][0] == 's' and e[1][1] in ps and e[2][0] == '*' and e[2][1] == ['c', 0.125]:
            return e[1]
        if e[0] == '+' and e[1][0] == '*' and e[1][1] == ['c', 2.0] and e[1][2][0] == 's' and e[1][2][1] in ps and e[2][0] == 'tanh' and e[2][1] == e[1][2]:
            return e[1][2]
        return [e[0]] + [strip(x, ps) if isinstance(x, list) else x for x in e[1:]]
    sp = dict(case['spec'], comps=[[c, strip(a, case['spec']['params']), k] for c, a, k in case['spec']['comps']])
    return dict(case, spec=sp)


def transform(case, name, p):
    k = case['nl'][name]
    return p if k == 0 else p + p ** 3 / 8 if k == 1 else 2 * p + np.tanh(p)


def optimum(case, free=None, maxcond=300.0, big=8.0):
    """Unique optimum over the free parameters: {name: value}, S, H (linear)."""
    lin = linearised(case) if any(case['nl'].values()) else case
    names = sorted(case['spec']['params'])
    start = {n: transform(case, n, case['fixed'].get(n, 0.0)) for n in names}
    S, G, H, n = chi2(lin, start)
    m = np.array([q not in case['fixed'] for q in names]) if free is None else np.array([q in free for q in names])
    Hf = H[np.ix_(m, m)]
    w = np.linalg.eigvalsh(Hf)
    if not (w[0] > 0.05 and w[-1] / w[0] < maxcond):
        raise Reject('ill conditioned')
    step = np.zeros(len(names))
    step[m] = -np.linalg.solve(Hf, G[m])
    q = {nm: start[nm] + step[i] for i, nm in enumerate(names)}
    popt = {nm: (case['fixed'][nm] if nm in case['fixed'] else unlinear(case, nm, q[nm])) for nm in names}
    if max(abs(v) for v in popt.values()) > big:
        raise Reject('optimum far away')
    S2, _, _, _ = chi2(lin, q)
    return popt, S2, H, n


def gap(case, p, Sopt):
    """How far chi2/2 at p lies above its optimum."""
    return chi2(case, p, limit=1e12)[0] - Sopt


def data_kwargs(case):
    kw = {v: objgen.arr(d) for v, d in case['data'].items()}
    for c, d in case['y'].items():
        kw[c] = None if d is None else objgen.arr(d)
    for c, s in case['sigma'].items():
        if s is not None:
            kw['sigma_' + c] = objgen.arr(s, scalar=True)
    return kw


def make_fit(case, model_cls=None, pattrs=None, names=None, objective=None, minimizer=None, constraints=None, **extra):
    """-> (built, fit)"""
    import symfit
    from symfit import Fit
    if model_cls is None:
        model_cls = symfit.CallableNumericalModel if any(k == 'num' for _, _, k in case['spec']['comps']) else symfit.Model
    attrs = {}
    for p in case['spec']['params']:
        attrs[p] = {'value': case['guess'][p]}
        if p in case['fixed']:
            attrs[p] = {'value': case['fixed'][p], 'fixed': True}
        attrs[p].update((pattrs or {}).get(p, {}))
    b = mg.build(case['spec'], pattrs=attrs, cls=model_cls)
    kw = data_kwargs(case)
    if case.get('kworder'):
        kw = dict(reversed(list(kw.items())))
    for k, v in (('objective', objective), ('minimizer', minimizer), ('constraints', constraints)):
        if v is not None:
            kw[k] = v(b) if k == 'constraints' else v
    kw.update(extra)
    b.kw = kw
    b.fit = Fit(b.model, **kw)
    return b, b.fit


def result_params(res):
    return {k: float(v) for k, v in res.params.items()}
