"""C13: bounds on parameters are always respected."""
import itertools

import numpy as np
from hypothesis import strategies as st

import big
import exprs
import models_gen as mg
import objgen
import fitgen as fg
from core import facet, info, close, require, Violation, Reject

FACETS = {}
# May leave the bounds between iterations / by rounding at the end
SLACK = {'TrustConstr': 1e-6}


def box_qp(H, g, lo, hi):
    """Minimum of g.x + x.H.x/2 in a box, by trying all active sets."""
    n = len(g)
    best = None
    for act in itertools.product((0, 1, 2), repeat=n):
        x = np.zeros(n)
        bad = False
        for i, a in enumerate(act):
            if a == 1:
                x[i] = lo[i]
            elif a == 2:
                x[i] = hi[i]
            bad = bad or not np.isfinite(x[i])
        if bad:
            continue
        f = [i for i in range(n) if act[i] == 0]
        if f:
            c = [i for i in range(n) if act[i]]
            x[f] = np.linalg.solve(H[np.ix_(f, f)], -(g[f] + H[np.ix_(f, c)] @ x[c]))
        if np.any(x < lo - 1e-12) or np.any(x > hi + 1e-12):
            continue
        v = g @ x + x @ H @ x / 2
        if best is None or v < best[0]:
            best = (v, x)
    return best


@st.composite
def bounds_for(draw, names, guess, two_sided=False):
    """Bounds containing the guess: {name: [lo, hi]} with None for none."""
    out = {}
    for n in names:
        kind = 'both' if two_sided else draw(st.sampled_from(['none', 'lo', 'hi', 'both', 'both']))
        lo = guess[n] - draw(st.sampled_from([0.0, 0.125, 0.5, 1.0, 3.0]))
        hi = guess[n] + draw(st.sampled_from([0.125, 0.0, 0.5, 1.0, 3.0]))
        if kind == 'both' and not two_sided and draw(st.integers(0, 4)) == 2:
            lo = hi = guess[n]
        elif hi <= lo:
            hi = lo + 0.25
        if lo < 0 < hi and draw(st.integers(0, 2)) == 1:  # a bound at exactly zero
            lo, hi = (lo, 0.0) if guess[n] <= 0 else (0.0, hi)
        out[n] = [lo if kind in ('lo', 'both') else None, hi if kind in ('hi', 'both') else None]
    return out


def interior(b, v, name):
    """least_squares with bounds wants a strictly feasible start."""
    return v


def inside(p, bounds, slack, what):
    for n, (lo, hi) in bounds.items():
        v = p[n]
        require(np.isfinite(v), '{}: {} = {}', what, n, v)
        require(lo is None or v >= lo - slack * (1 + abs(lo)), '{}: {} = {!r} is below its minimum {}', what, n, v, lo)
        require(hi is None or v <= hi + slack * (1 + abs(hi)), '{}: {} = {!r} is above its maximum {}', what, n, v, hi)


class spying:
    """Records the parameters at which objectives of a type are evaluated."""
    def __init__(self, cls, log):
        self.cls, self.log = cls, log

    def __enter__(self):
        self.saved = {k: getattr(self.cls, k) for k in ('__call__', 'eval_jacobian') if hasattr(self.cls, k)}
        for k, f in self.saved.items():
            setattr(self.cls, k, self.wrap(f))

    def wrap(self, f):
        import functools

        @functools.wraps(f)
        def spy(obj, ordered_parameters=[], **kw):
            if len(ordered_parameters):
                self.log.append(np.array(ordered_parameters))
            return f(obj, ordered_parameters, **kw)
        return spy

    def __exit__(self, *a):
        for k, f in self.saved.items():
            setattr(self.cls, k, f)


def check_log(log, free, bounds, name):
    if name == 'TrustConstr':
        return 0
    lo = np.array([-np.inf if bounds[p][0] is None else bounds[p][0] for p in free])
    hi = np.array([np.inf if bounds[p][1] is None else bounds[p][1] for p in free])
    for x in log:
        x = np.real(x)
        require(x.shape == lo.shape, '{}: evaluated with {} parameters', name, x.shape)
        tol = 1e-12 * (1 + np.abs(x))
        if not (np.all(x >= lo - tol) and np.all(x <= hi + tol)):
            raise Violation('{}: the objective was evaluated at {}, outside the bounds {} of {}'.format(
                name, x.tolist(), [bounds[p] for p in free], free))
    return len(log)


MINIS = ['LBFGSB', 'SLSQP', 'TrustConstr', 'MINPACK', None, 'BasinHopping', 'DifferentialEvolution']


@st.composite
def _linear(draw):
    c = draw(fg.linear_case(nparams=(1, 3), fixed=draw(st.sampled_from([False, False, True])), bij=draw(st.integers(0, 3)) == 0, guess=2))
    c['minimizer'] = draw(st.sampled_from(MINIS[:-1] + MINIS[:5]))
    c['kind'] = draw(st.sampled_from(['sym', 'sym', 'num']))
    if c['kind'] == 'num':
        for comp in c['spec']['comps']:
            comp[2] = 'num'
    c['bounds'] = draw(bounds_for(c['spec']['params'], c['guess']))
    return c


@facet(FACETS, 'linear', _linear,
       'bounded (one/two sided) linear and monotone least squares with every bounded minimizer: result and (except trust-constr) all '
       'evaluations within bounds, optimum equal to the closed form of the box-constrained problem; non-trivial: a bound is active')
def linear(case):
    import symfit
    from symfit.core import objectives
    free = sorted(p for p in case['spec']['params'] if p not in case['fixed'])
    if all(case['bounds'][p] == [None, None] for p in free):
        raise Reject('no bounds')
    name = case['minimizer'] or 'LBFGSB'
    equal = any(case['bounds'][p][0] is not None and case['bounds'][p][0] == case['bounds'][p][1] for p in free)
    if equal and name == 'MINPACK':
        raise Reject('least_squares refuses equal bounds')
    popt, Sopt, H, n = fg.optimum(case, maxcond=50.0, big=6.0)
    names = sorted(case['spec']['params'])
    m = np.array([q in free for q in names])
    q0 = np.array([fg.transform(case, q, popt[q]) for q in names])
    lo = np.array([-np.inf if case['bounds'][p][0] is None else fg.transform(case, p, case['bounds'][p][0]) for p in free])
    hi = np.array([np.inf if case['bounds'][p][1] is None else fg.transform(case, p, case['bounds'][p][1]) for p in free])
    Hf = H[np.ix_(m, m)]
    v, x = box_qp(Hf, -Hf @ q0[m], lo, hi)
    want = dict(popt)
    for i, p in enumerate(free):
        want[p] = fg.unlinear(case, p, x[i])
    Swant = fg.chi2(case, want)[0]
    active = any(abs(x[i] - b[i]) < 1e-12 for b in (lo, hi) for i in range(len(free)))
    log = []
    base = objectives.VectorLeastSquares if name == 'MINPACK' else objectives.LeastSquares
    pattrs = {p: {'min': b[0], 'max': b[1]} for p, b in case['bounds'].items()}
    before = dict(case['guess'])
    if name == 'MINPACK':
        # needs a start strictly inside
        for p in free:
            l, h = case['bounds'][p]
            g = case['guess'][p]
            if g == l:
                pattrs[p]['value'] = g + (0.0625 if h is None else (h - l) / 4)
            elif g == h:
                pattrs[p]['value'] = g - (0.0625 if l is None else (h - l) / 4)
    np.random.seed(3)
    with spying(base, log):
        b, fit = fg.make_fit(case, minimizer=None if case['minimizer'] is None else fg.minimizer(name), pattrs=pattrs)
        res = fit.execute(**({'niter': 2} if name == 'BasinHopping' else {}))
    require(type(fit.objective) is base, 'objective is a {}', type(fit.objective))
    p = fg.result_params(res)
    inside({q: p[q] for q in free}, {q: case['bounds'][q] for q in free}, SLACK.get(name, 1e-14), name)
    for q, val in case['fixed'].items():
        require(p[q] == val, '{}: fixed {} = {}', name, q, p[q])
    nev = check_log(log, free, case['bounds'], name)
    require(nev > 0 or name == 'TrustConstr', 'harness: no evaluations seen')
    S = fg.chi2(case, p, 1e12)[0]
    tol = {'TrustConstr': 1e-3, 'MINPACK': 1e-3}.get(name, 1e-5 if case['kind'] == 'sym' else 1e-4)
    if case['kind'] == 'num' and name == 'TrustConstr' and not res.minimizer_output.get('success', True):
        raise Reject('not converged')
    if any(case['nl'].values()) and name == 'TrustConstr' and S > Swant + tol:
        if not res.minimizer_output.get('success', True):
            raise Reject('not converged')
    require(S <= Swant + tol * (1 + Swant), '{}: objective {} at {} exceeds the bounded optimum {} at {}; {}',
            name, S, p, Swant, want, res.status_message)
    return info(active, name, case['kind'], 'equal' if equal else 'unequal', 'active' if active else 'inactive', 'fixed' if case['fixed'] else 'free')


@st.composite
def _scalar(draw):
    n = draw(st.integers(1, 4))
    ns = draw(exprs.names(n + 1))
    ps = ns[:n]
    guess = {p: draw(exprs.number(-3, 3)) for p in ps}
    mini = draw(st.sampled_from(MINIS))
    fixed = draw(st.lists(st.sampled_from(ps), max_size=n - 1, unique=True)) if draw(st.booleans()) else []
    return {'names': ps, 'y': ns[-1], 'centre': [draw(exprs.number(-4, 4)) for _ in ps], 'w': [draw(exprs.positive(0.5, 2)) for _ in ps],
            'guess': guess, 'bounds': draw(bounds_for(ps, guess, mini == 'DifferentialEvolution')), 'minimizer': mini,
            'fixed': fixed[:n - 1], 'form': draw(st.sampled_from(['expr', 'num', 'negated', 'chain']))}


@facet(FACETS, 'scalar', _scalar,
       'separable convex scalar functions with random bounds, fixed parameters and minimizers (also differential evolution and '
       'chains): the optimum is the centre clipped to the bounds; non-trivial: at least one active bound')
def scalar(case):
    from symfit import Parameter, Variable, Fit, Model, CallableNumericalModel
    from symfit.core import objectives, minimizers as M
    names, mini = case['names'], case['minimizer']
    name = mini or 'LBFGSB'
    if mini == 'MINPACK':
        raise Reject('needs residuals')
    if any(not case['bounds'][n] != [None, None] for n in names) and mini == 'DifferentialEvolution':
        raise Reject('needs bounds')
    free = sorted(n for n in names if n not in case['fixed'])
    if mini is None and all(case['bounds'][p] == [None, None] for p in names):
        raise Reject('no bounds')
    ps = {n: Parameter(n, value=case['guess'][n], min=case['bounds'][n][0], max=case['bounds'][n][1], fixed=n in case['fixed']) for n in names}
    w, c = dict(zip(names, case['w'])), dict(zip(names, case['centre']))
    e = sum(w[n] * (ps[n] - c[n]) ** 2 for n in names)
    Y = Variable(case['y'])
    f = eval('lambda {}: value(dict(locals()))'.format(', '.join(names)), {'value': lambda d: sum(w[n] * (d[n] - c[n]) ** 2 for n in names)})
    log = []
    kw = {}
    form = case['form']
    if form == 'num':
        model = CallableNumericalModel({Y: f}, connectivity_mapping={Y: set(ps.values())})
    elif form == 'negated':
        model = -Model({Y: -e})
    else:
        model = Model({Y: e})
    opts = {}
    if mini == 'DifferentialEvolution':
        opts = {'seed': 1, 'popsize': 8, 'maxiter': 60, 'tol': 1e-8}
    elif mini == 'BasinHopping':
        opts = {'niter': 2}
    cls = None if mini is None else fg.minimizer(name)
    if form == 'chain' and mini not in (None, 'BasinHopping'):
        opts = {name: opts} if opts else {}
        cls = [cls, M.LBFGSB] if name != 'LBFGSB' else [M.LBFGSB, M.SLSQP]
    if cls is not None:
        kw['minimizer'] = cls
    np.random.seed(11)
    with spying(objectives.MinimizeModel, log):
        fit = Fit(model, **kw)
        res = fit.execute(**opts)
    p = fg.result_params(res)
    fb = {n: case['bounds'][n] for n in free}
    inside({n: p[n] for n in free}, fb, SLACK.get(name, 1e-14), name)
    for n in case['fixed']:
        require(p[n] == case['guess'][n], '{}: fixed {} reported as {}', name, n, p[n])
    check_log(log, free, case['bounds'], name)
    want = dict(case['guess'])
    active = False
    for n in free:
        lo, hi = case['bounds'][n]
        want[n] = min(max(c[n], -np.inf if lo is None else lo), np.inf if hi is None else hi)
        active = active or want[n] != c[n]
    v, v0 = f(**p), f(**want)
    tol = 1e-3 if name in ('TrustConstr',) else 2e-2 if name == 'DifferentialEvolution' and form != 'chain' else 1e-5
    require(v <= v0 + tol * (1 + v0), '{}: {} at {} exceeds the bounded optimum {} at {}; {}', name, v, p, v0, want, res.status_message)
    return info(active, name, form, 'fixed=%d' % len(case['fixed']), 'n=%d' % len(names))


@st.composite
def _single(draw):
    """Every parameter wants to leave through one given bound."""
    n = draw(st.integers(1, 3))
    ns = draw(exprs.names(n + 2))
    ps = {}
    for p in ns[:n]:
        bound = draw(st.sampled_from([0, 0.0, 1, -1, 0.5, -0.25, 1e-3, 40.0, -300.0]))
        side = draw(st.sampled_from(['max', 'min']))
        away = draw(st.sampled_from([0.25, 1.0, 3.0])) * max(1.0, abs(bound) / 4)
        room = draw(st.sampled_from([0.5, 1.0, 2.0])) * max(1.0, abs(bound) / 4)
        other = draw(st.sampled_from([None, None, 3.0, 8.0]))
        ps[p] = {'bound': bound, 'side': side, 'away': away, 'room': room, 'other': other}
    return {'ps': ps, 'x': ns[-1], 'y': ns[-2], 'minimizer': draw(st.sampled_from(['MINPACK', 'LBFGSB', 'MINPACK', 'SLSQP', 'TrustConstr', None, 'BasinHopping'])),
            'set': draw(st.sampled_from(['init', 'later', 'numpy']))}


@facet(FACETS, 'single', _single,
       'polynomials in orthogonal terms in which every parameter is pulled through one of its bounds (zero, integers, small and large '
       'values), for every bounded minimizer: it must end at that bound; non-trivial: a bound of zero')
def single(case):
    import symfit
    from symfit import Parameter, Variable, Fit, Model
    x, y = Variable(case['x']), Variable(case['y'])
    names = sorted(case['ps'])
    # orthonormal basis on these points
    xs = np.array([-1.5, -0.5, 0.5, 1.5])
    basis = [lambda v: v / np.sqrt(5), lambda v: 0.5 + 0 * v, lambda v: (v ** 2 - 1.25) / 2]
    target, ps = {}, {}
    for p in names:
        d = case['ps'][p]
        sgn = 1 if d['side'] == 'max' else -1
        target[p] = d['bound'] + sgn * d['away']
        conv = np.float64 if case['set'] == 'numpy' else (lambda v: v)
        a = {'value': conv(d['bound'] - sgn * d['room']), d['side']: conv(d['bound'])}
        if d['other'] is not None:
            a['min' if sgn == 1 else 'max'] = conv(d['bound'] - sgn * d['room'] * d['other'])
        if case['set'] == 'later':
            ps[p] = Parameter(p)
            for k, v in a.items():
                setattr(ps[p], k, v)
        else:
            ps[p] = Parameter(p, **a)
    model = Model({y: sum(ps[p] * f(x) for p, f in zip(names, basis))})
    data = sum(target[p] * f(xs) for p, f in zip(names, basis))
    name = case['minimizer'] or 'LBFGSB'
    kw = {} if case['minimizer'] is None else {'minimizer': fg.minimizer(name)}
    np.random.seed(3)
    fit = Fit(model, **dict({x.name: xs, y.name: data}, **kw))
    res = fit.execute(**({'niter': 1} if name == 'BasinHopping' else {}))
    got = fg.result_params(res)
    for p in names:
        d = case['ps'][p]
        b = {'min': None, 'max': None, d['side']: d['bound']}
        inside({p: got[p]}, {p: [b['min'], b['max']]}, SLACK.get(name, 1e-14), name)
        close(got[p], d['bound'], (2e-2 if name in ('TrustConstr', 'MINPACK') else 1e-5) * max(1, abs(d['bound'])),
              '{}: {} pulled through its {}'.format(name, p, d['side']))
    return info(any(d['bound'] == 0 for d in case['ps'].values()), name, case['set'], 'n=%d' % len(names))


# ---- size ------------------------------------------------------------------------

@st.composite
def _big(draw):
    c = draw(big.case_(K=(7, 14), J=(1, 1), pairs=False, points=(40, 257, 1001), share=True, least=40, fixed=draw(st.integers(0, 2)) == 1))
    c['dense'] = True
    return {'c': c, 'minimizer': draw(st.sampled_from(['LBFGSB', 'SLSQP', 'TrustConstr', 'MINPACK', None])), 'num': draw(st.integers(0, 3)) == 2,
            'kinds': [draw(st.sampled_from(['none', 'lo', 'hi', 'both', 'both'])) for _ in c['ps']],
            'where': [draw(st.sampled_from([-1.0, 0.25, 1.0, 2.0])) for _ in c['ps']]}


@facet(FACETS, 'big', _big,
       'orthogonal least squares with 7-14 parameters (some fixed) and any bounds on each: bounds handed over, evaluations and result '
       'within the bounds, the optimum is the unconstrained one clipped; non-trivial: at least one active bound')
def big_(case):
    from symfit import Fit
    from symfit.core import objectives
    c = case['c']
    pr = big.Problem(c)
    S0, G0, H = pr.chi2(0 * pr.p, False)
    free = [k for k in pr.order if k not in c['fixed']]
    require(np.abs(H - np.diag(np.diag(H))).max() < 1e-6 * H.max(), 'harness: not orthogonal')
    best = -G0 / np.diag(H)
    attrs, bounds, want = {}, {}, {}
    active = False
    for k, n in enumerate(c['ps']):
        if k in c['fixed']:
            attrs[n] = {'value': float(pr.p[k]), 'fixed': True}
            want[n] = float(pr.p[k])
            continue
        # room on the side of the bound: negative makes it active
        lo, hi = best[k] - case['where'][k], best[k] + case['where'][(k + 1) % pr.K]
        if hi <= lo:
            hi = lo + 0.5
        lo, hi = np.round(lo, 3), np.round(hi, 3)
        kind = case['kinds'][k]
        lo, hi = (float(lo) if kind in ('lo', 'both') else None), (float(hi) if kind in ('hi', 'both') else None)
        start = (lo + hi) / 2 + 0.125 * (hi - lo) if kind == 'both' else lo + 0.75 if kind == 'lo' else hi - 0.75 if kind == 'hi' else 1.0
        attrs[n] = {'value': float(start), 'min': lo, 'max': hi}
        bounds[n] = [lo, hi]
        want[n] = float(min(max(best[k], -np.inf if lo is None else lo), np.inf if hi is None else hi))
        active = active or want[n] != best[k]
    if all(b == [None, None] for b in bounds.values()):
        raise Reject('no bounds')
    name = case['minimizer'] or 'LBFGSB'
    m = pr.build(attrs=attrs, numeric=case['num'])
    base = objectives.VectorLeastSquares if name == 'MINPACK' else objectives.LeastSquares
    log = []
    with spying(base, log):
        fit = Fit(m, **dict(pr.data(), **({} if case['minimizer'] is None else {'minimizer': fg.minimizer(name)})))
        res = fit.execute()
    names = [c['ps'][k] for k in free]
    p = fg.result_params(res)
    inside({n: p[n] for n in names}, bounds, SLACK.get(name, 1e-14), name)
    for k in c['fixed']:
        require(p[c['ps'][k]] == pr.p[k], '{}: fixed {} = {}', name, c['ps'][k], p[c['ps'][k]])
    check_log(log, names, bounds, name)
    if not res.minimizer_output.get('success', True):
        raise Reject('not converged')
    got, opt = np.array([p[n] for n in c['ps']]), np.array([want[n] for n in c['ps']])
    gap = pr.chi2(got, False)[0] - pr.chi2(opt, False)[0]
    tol = 1e-2 if name in ('TrustConstr', 'MINPACK') or case['num'] else 1e-4
    require(gap <= tol * (1 + S0), '{}: objective lies {} above the bounded optimum; {} instead of {}', name, gap, p, want)
    return info(active, name, 'num' if case['num'] else 'sym', 'fixed=%d' % len(c['fixed']), *pr.labels())
