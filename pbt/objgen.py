"""Models with data for objectives, as plain data, and reference objectives."""
import numpy as np
from hypothesis import strategies as st

import exprs
import models_gen as mg
from core import Reject


def base_closure(sp):
    """component -> set of independent variables it (indirectly) depends on."""
    out = {}
    for c, ast, _ in sp['comps']:
        s = set()
        for n in exprs.symbols_of(ast):
            if n in out:
                s |= out[n]
            elif n in sp['vars']:
                s.add(n)
        out[c] = s
    return out


@st.composite
def values(draw, shape, strat, ints=False):
    """ints: perhaps whole numbers, given as integers."""
    k = int(np.prod(shape)) if shape else 1
    out = {'shape': list(shape), 'v': draw(st.lists(strat, min_size=k, max_size=k))}
    if ints and draw(st.integers(0, 7)) == 5:
        out['v'] = [int(np.sign(v) * np.ceil(abs(v))) for v in out['v']]
        out['int'] = True
    return out


def arr(d, scalar=False):
    """The array a user would give (scalar: plain number where there is no shape)."""
    if d['shape'] == [] and (scalar or d.get('num')):
        return d['v'][0]
    return np.array(d['v'], dtype=int if d.get('int') else float).reshape(d['shape'])


SHAPES = [[3], [4], [1], [2], [5], [2, 3], [3, 1], [1, 2], [2, 2], [2, 1], [1, 1], [3, 2], [2, 1, 2], [1, 3, 1]]


@st.composite
def ragged_spec(draw):
    """Independent components with an independent variable (and shape) each."""
    nc, np_ = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    ns = draw(exprs.names(2 * nc + np_))
    cs, vs, ps = ns[:nc], ns[nc:2 * nc], ns[2 * nc:]
    comps = []
    for i in range(nc):
        d = [vs[i]] + draw(st.lists(st.sampled_from(ps), max_size=2, unique=True))
        comps.append([cs[i], d])
    for p in ps:
        if not any(p in d for _, d in comps):
            comps[draw(st.integers(0, nc - 1))][1].append(p)
    comps = [[c, draw(exprs.expr(d, d, 2)), 'sym'] for c, d in comps]
    return {'vars': vs, 'params': ps, 'comps': comps, 'write': draw(st.permutations(range(nc))),
            'create': draw(st.permutations(range(len(ns))))}


@st.composite
def scalar_shapes(draw, sp, shapes):
    """Perhaps one of the independent variables is a number, if all components
    that depend on it get their shape from another one."""
    clo = base_closure(sp)
    can = [v for v in sp['vars'] if all(len(d) > 1 for d in clo.values() if v in d)]
    if can and draw(st.integers(0, 4)) == 2:
        shapes = dict(shapes, **{draw(st.sampled_from(can)): []})
    return shapes


@st.composite
def scalar(draw, shape, strat, ints=False):
    """values(), numbers as such or as 0-d array."""
    out = draw(values(shape, strat, ints))
    if shape == [] and draw(st.booleans()):
        out['num'] = True
    return out


@st.composite
def ls_case(draw, vector=False, numeric=False, fixed=True, spec_kw=None, scalars=False):
    """scalars: numbers as data too."""
    ragged = not vector and not numeric and draw(st.integers(0, 2)) == 0
    if ragged:
        sp = draw(ragged_spec())
        shapes = {v: draw(st.sampled_from(SHAPES)) for v in sp['vars']}
    else:
        kw = dict(nvars=(0, 2), nparams=(1, 3), ncomps=(1, 3), tidy=True, numeric=numeric, depth=2)
        kw.update(spec_kw or {})
        sp = draw(mg.spec(**kw))
        s = draw(st.sampled_from(SHAPES))
        shapes = {v: s for v in sp['vars']}
        if scalars:
            shapes = draw(scalar_shapes(sp, shapes))
    data = {v: draw(scalar(shapes[v], exprs.number(), True)) for v in sp['vars']}
    clo = base_closure(sp)
    route = draw(st.sampled_from(['direct', 'fit']))
    dep, _ = mg.roles(sp)
    y, sig = {}, {}
    common = draw(st.sampled_from(SHAPES))
    trail = [draw(st.sampled_from([1, 2, 3]))] if vector and shapes and draw(st.integers(0, 4)) == 3 else []
    for c in dep:
        if clo[c]:
            shp = max((shapes[v] for v in sorted(clo[c])), key=len)
            if not vector and draw(st.integers(0, 4)) == 3:
                # several data per point of the component: further axes at the end
                shp = shp + [draw(st.sampled_from([1, 2, 3, shp[-1], shp[-1]]))]
            shp = shp + trail
        elif vector:
            shp = (next(iter(shapes.values())) if shapes else common) + trail
        else:
            P = len(sp['params'])
            shp = draw(st.sampled_from(SHAPES + 3 * [[P, 1], [P, P, 1], [P]]))
            if scalars and route == 'fit' and draw(st.integers(0, 2)) == 1:
                shp = []
        y[c] = draw(scalar(shp, exprs.number(), True))
        k = draw(st.integers(0, 3))
        if k == 0:
            sig[c] = None
        elif k == 1:
            sig[c] = draw(values([], exprs.positive(), True))
        else:
            sig[c] = draw(values(shp, exprs.positive(), True))
    if vector and shapes and not any(clo[c] for c in dep):
        pass
    if len(dep) > 1:
        for c in dep:
            if draw(st.integers(0, 3)) == 0 and sum(v is not None for v in y.values()) > 1:
                y[c] = None
                if sig[c] is not None and draw(st.booleans()):
                    sig[c] = None
    fx = {}
    if fixed and draw(st.integers(0, 2)) == 0:
        fx = {p: draw(exprs.number()) for p in draw(st.lists(st.sampled_from(sp['params']), max_size=2, unique=True))}
    pts = [dict(draw(mg.param_values(sp['params'])), **fx) for _ in range(2)]
    return {'spec': sp, 'data': data, 'y': y, 'sigma': sig, 'fixed': fx, 'points': pts, 'k': draw(st.integers(0, 5)),
            'route': route}


def build_objective(case, cls, model_cls, minimizer=None):
    """-> (built, objective, kwargs of the Fit)"""
    from symfit import Fit
    sp = case['spec']
    b = mg.build(sp, pattrs={p: {'value': v, 'fixed': True} for p, v in case['fixed'].items()}, cls=model_cls)
    indep = {b.table[v]: arr(d) for v, d in case['data'].items()}
    ydat = {c: None if d is None else arr(d) for c, d in case['y'].items()}
    sdat = {}
    for c, d in case['sigma'].items():
        if d is not None:
            sdat[c] = arr(d, scalar=True)
    b.inputs = [a for a in list(indep.values()) + list(ydat.values()) + list(sdat.values()) if isinstance(a, np.ndarray)]
    b.copies = [a.copy() for a in b.inputs]
    if case['route'] == 'fit':
        kw = {v.name: a for v, a in indep.items()}
        kw.update(ydat)
        kw.update({'sigma_' + c: s for c, s in sdat.items()})
        extra = {'minimizer': minimizer} if minimizer else {}
        fit = Fit(b.model, objective=cls, **dict(kw, **extra))
        b.fit = fit
        return b, fit.objective
    full = dict(indep)
    for v in b.model.dependent_vars:
        full[v] = ydat[v.name]
        s = sdat.get(v.name)
        if ydat[v.name] is None:
            s = None
        elif s is None:
            s = np.ones(ydat[v.name].shape)
        elif not isinstance(s, np.ndarray):
            s = np.full(ydat[v.name].shape, s)
        full[b.model.sigmas[v]] = s
    b.fit = None
    return b, cls(b.model, full)


def pieces(case, p, limit=2000):
    """-> list over dependent components with data of (y, sigma, jet), magnitude"""
    sp = case['spec']
    data = {v: np.array(d['v'], dtype=float).reshape(d['shape']) for v, d in case['data'].items()}
    jets, mag = mg.ref_jets(sp, data, p, limit=limit)
    dep, _ = mg.roles(sp)
    P = len(sp['params'])
    out = {}
    for c in dep:
        d = case['y'][c]
        if d is None:
            continue
        y = np.array(d['v'], dtype=float).reshape(d['shape'])
        s = case['sigma'][c]
        s = np.ones(y.shape) if s is None else np.broadcast_to(np.array(s['v'], dtype=float).reshape(s['shape']), y.shape)
        j = jets[c]
        if j.v.shape == y.shape[:-1] and y.ndim > 1:  # several data per point
            j = exprs.Jet(*[np.broadcast_to(a[..., np.newaxis], a.shape + y.shape[-1:]) for a in (j.v, j.g, j.h)])
        elif j.v.shape != y.shape:  # constant in the data
            v = float(j.v.ravel()[0])
            j = exprs.Jet(np.full(y.shape, v),
                          np.broadcast_to(j.g.reshape((P,) + (1,) * y.ndim), (P,) + y.shape),
                          np.broadcast_to(j.h.reshape((P, P) + (1,) * y.ndim), (P, P) + y.shape))
        out[c] = (y, s, j)
    return out, mag


def chi2_parts(pc):
    """component -> (S, gradient, Hessian, scales)"""
    out = {}
    for c, (y, s, j) in pc.items():
        r = (j.v - y) / s
        g, h = j.g / s, j.h / s
        ax1, ax2 = tuple(range(1, 1 + y.ndim)), tuple(range(2, 2 + y.ndim))
        S = 0.5 * np.sum(r ** 2)
        G = np.sum(r * g, axis=ax1)
        H = np.sum(g[:, None] * g[None, :] + r * h, axis=ax2)
        sc = (np.sum(r ** 2) + 1, np.sum(np.abs(r * g)) + 1,
              np.sum(np.abs(g[:, None] * g[None, :])) + np.sum(np.abs(r * h)) + 1)
        out[c] = (S, G, H, sc)
    return out


def point_calls(names_free, p, k):
    """Ways of passing parameters: ordered, by name, partly ordered."""
    vals = [p[n] for n in names_free]
    yield (vals,), {}
    yield (), dict(p)
    yield (np.array(vals),), {}
    k = k % (len(vals) + 1)
    yield (vals[:k],), {n: p[n] for n in names_free[k:]}
