"""C06: ODE models evaluate to the solution of the initial value problem."""
import numpy as np
from hypothesis import strategies as st

import exprs
import odes
from core import facet, info, close, require, Violation, Reject

FACETS = {}
TOL = 3e-6  # times growth; the default tolerances of the integrator are 1.5e-8


@st.composite
def _lin(draw):
    c = draw(odes.linear(attrs=True))
    return {'ode': c, 'ts': draw(odes.times(c['t0'])), 'form': draw(st.sampled_from(['array', 'array', 'list', 'scalar', 'tuple'])),
            'style': draw(st.integers(0, 9)), 'sub': draw(st.integers(0, 63))}


def call(model, c, t, p, style):
    """Time and parameters partly by position, partly by name."""
    order = [(c['t'], t)] + [(n, p[n]) for n in sorted(c['pars'])]
    k = style % (len(order) + 1)
    return model(*[v for _, v in order[:k]], **dict(order[k:]))


def make_t(ts, form):
    if form == 'scalar':
        return ts[0], ts[:1]
    return {'array': np.array(ts, dtype=float), 'list': list(ts), 'tuple': tuple(ts)}[form], ts


def lab(c, ts):
    t0 = c['t0']
    return ['eqs=%d' % len(c['ys']), 'before' if min(ts) < t0 else 'not before', 'after' if max(ts) > t0 else 'not after',
            't0 in' if t0 in ts else 't0 out', 'dups' if len(set(ts)) < len(ts) else 'unique',
            'sorted' if sorted(ts) == list(ts) else 'unsorted', 'n=%d' % len(ts),
            'ipar=%d' % sum(isinstance(v, str) for v in c['init'].values())]


@facet(FACETS, 'linear', _lin,
       'linear systems of 1-3 equations with parameters as rates and initial values, any initial time, times before, at and '
       'after it in any order with repetitions, against the matrix exponential; non-trivial: a time other than the initial one')
def linear(case):
    c = case['ode']
    t, ts = make_t(case['ts'], case['form'])
    g = odes.growth(c, ts)
    model, table = odes.build_linear(c)
    want = odes.solve_linear(c, ts)
    keep = np.array(t, copy=True)
    out = call(model, c, t, c['p'], case['style'])
    require(np.array_equal(keep, np.asarray(t)), 'times were modified')
    names = sorted(c['ys'])
    require([v.name for v in out._asdict()] == names, 'components {}', list(out._asdict()))
    for i, n in enumerate(names):
        close(out[i], want[n], TOL * g, 'solution {} at {} by position'.format(n, ts))
        close(getattr(out, n), want[n], TOL * g, 'solution {} by name'.format(n))
        close(out._asdict()[table[n]], want[n], TOL * g, 'solution {} by variable'.format(n))
    # The value at a time does not depend on the others.
    sub = [s for i, s in enumerate(ts) if case['sub'] >> i & 1] or ts[:1]
    out2 = call(model, c, np.array(sub), c['p'], 1)
    w2 = odes.solve_linear(c, sub)
    for i, n in enumerate(names):
        close(out2[i], w2[n], TOL * g, 'solution {} at the subset {} of the times'.format(n, sub))
    return info(any(s != c['t0'] for s in ts), case['form'], *lab(c, ts))


# ---- non-linear and time dependent equations with closed solutions ------------

def _closed():
    import symfit as s
    from symfit import exp, sin, cos
    return {
        'logistic': (lambda y, t, r, q: r * y * (1 - y), lambda y0, t0, t, r, q: y0 * np.exp(r * (t - t0)) / (1 + y0 * (np.exp(r * (t - t0)) - 1))),
        'gauss': (lambda y, t, r, q: -2 * r * t * y, lambda y0, t0, t, r, q: y0 * np.exp(-r * (t ** 2 - t0 ** 2))),
        'poly': (lambda y, t, r, q: r * t ** 2 + q * t, lambda y0, t0, t, r, q: y0 + r * (t ** 3 - t0 ** 3) / 3 + q * (t ** 2 - t0 ** 2) / 2),
        'sine': (lambda y, t, r, q: r * cos(q * t), lambda y0, t0, t, r, q: y0 + r / q * (np.sin(q * t) - np.sin(q * t0))),
        'modulated': (lambda y, t, r, q: r * cos(t) * y, lambda y0, t0, t, r, q: y0 * np.exp(r * (np.sin(t) - np.sin(t0)))),
        'forced': (lambda y, t, r, q: -y + r * exp(-t), lambda y0, t0, t, r, q: np.exp(-t) * (y0 * np.exp(t0) + r * (t - t0))),
        'constant': (lambda y, t, r, q: r + q, lambda y0, t0, t, r, q: y0 + (r + q) * (t - t0)),
        'atan': (lambda y, t, r, q: r / (1 + t ** 2), lambda y0, t0, t, r, q: y0 + r * (np.arctan(t) - np.arctan(t0))),
    }


KINDS = ['logistic', 'gauss', 'poly', 'sine', 'modulated', 'forced', 'constant', 'atan']


@st.composite
def _nonlin(draw):
    k = draw(st.integers(1, 2))
    ns = draw(st.lists(st.sampled_from(odes.POOL), min_size=2 * k + 3, max_size=2 * k + 3, unique=True))
    t0 = draw(st.sampled_from([0.0, 0.5, -0.25, 1, 2.0]))
    return {'ys': ns[:k], 't': ns[k], 'r': ns[k + 1], 'q': ns[k + 2], 'ip': ns[k + 3:k + 3 + k],
            'kinds': [draw(st.sampled_from(KINDS)) for _ in range(k)], 't0': t0, 'ts': draw(odes.times(t0, 1.25)),
            'rv': draw(exprs.nonzero(-1, 1)), 'qv': draw(exprs.nonzero(-2, 2)),
            'y0': [draw(st.sampled_from([0.25, 0.5, 0.75])) for _ in range(k)],
            'ipar': [draw(st.booleans()) for _ in range(k)], 'write': draw(st.permutations(range(k))),
            'opts': draw(st.sampled_from([{}, {'method': 'RK45', 'rtol': 1e-9, 'atol': 1e-10}, {'method': 'Radau', 'rtol': 1e-8, 'atol': 1e-9},
                                          {'method': 'DOP853', 'rtol': 1e-9, 'atol': 1e-9}, {'rtol': 1e-9}, {'atol': 1e-10}, {'method': 'BDF', 'rtol': 1e-9, 'atol': 1e-10}]))}


@facet(FACETS, 'closed', _nonlin,
       'non-linear and explicitly time dependent equations (1-2 decoupled, common parameters) with closed solutions under '
       'several integrators; non-trivial: a time other than the initial one')
def closed(case):
    from symfit import ODEModel, Variable, Parameter, D
    t = Variable(case['t'])
    r, q = Parameter(case['r']), Parameter(case['q'])
    table = _closed()
    md, init, sol = {}, {t: case['t0']}, {}
    vals = {case['r']: case['rv'], case['q']: case['qv']}
    ts = np.array(case['ts'], dtype=float)
    for i in case['write']:
        y = Variable(case['ys'][i])
        f, s = table[case['kinds'][i]]
        rhs = f(y, t, r, q)
        md[D(y, t)] = rhs
        if case['ipar'][i]:
            init[y] = Parameter(case['ip'][i])
            vals[case['ip'][i]] = case['y0'][i]
        else:
            init[y] = case['y0'][i]
        sol[y.name] = s(case['y0'][i], case['t0'], ts, case['rv'], case['qv'])
    model = ODEModel(md, initial=init, **case['opts'])
    want_pars = sorted({case['r'], case['q']} & {s.name for e in md.values() for s in e.free_symbols} |
                       {case['ip'][i] for i in range(len(case['ys'])) if case['ipar'][i]})
    require([p.name for p in model.params] == want_pars, 'params {}', model.params)
    out = model(**{case['t']: ts}, **{n: vals[n] for n in want_pars})
    for n, w in sol.items():
        close(getattr(out, n), w, 2e-5 * (1 + np.max(np.abs(w))), '{} of {} at {}'.format(n, md, ts))
    return info(any(s != case['t0'] for s in ts), *case['kinds'], str(case['opts'].get('method', 'default')))


@st.composite
def _scale(draw):
    c = draw(odes.linear(maxk=2))
    return {'ode': c, 'ts': draw(odes.times(c['t0'])), 'e': draw(st.sampled_from([1e-12, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9])),
            'zero': draw(st.sampled_from([True, True, False]))}


@facet(FACETS, 'timescale', _scale,
       'linear systems in units of time from 1e-12 to 1e9 (rates scaled inversely, mostly starting at time 0) against the '
       'matrix exponential; non-trivial: a time other than the initial one')
def timescale(case):
    c, e = case['ode'], case['e']
    t0 = 0 if case['zero'] else c['t0'] * e
    ts = [(t - c['t0']) * e + t0 for t in case['ts']]
    g = odes.growth(c, case['ts'])
    want = odes.solve_linear(c, case['ts'])
    s = dict(c, t0=t0, A=[[[x[0] / e, x[1]] for x in row] for row in c['A']], b=[[x[0] / e, x[1]] for x in c['b']])
    model, table = odes.build_linear(s)
    out = model(**dict(c['p'], **{c['t']: np.array(ts)}))
    for n in want:
        close(getattr(out, n), want[n], TOL * g, 'solution {} at {} from {}'.format(n, ts, t0))
    return info(any(t != t0 for t in ts), 'e=%g' % e, 'from zero' if t0 == 0 else 'not from zero')


@st.composite
def _random(draw):
    k, npar = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    ns = draw(st.lists(st.sampled_from(odes.POOL), min_size=k + 1 + npar, max_size=k + 1 + npar, unique=True))
    ys, t, ps = ns[:k], ns[k], ns[k + 1:]
    use = [draw(st.lists(st.sampled_from(ys + ps + [t]), min_size=1, max_size=3, unique=True)) for _ in range(k)]
    for p in ps:
        if not any(p in u for u in use):
            use[draw(st.integers(0, k - 1))].append(p)
    t0 = draw(st.sampled_from([0.0, 0, 0.5, -1.0]))
    return {'ys': ys, 't': t, 'ps': ps, 'rhs': [draw(exprs.expr(u, u, 2)) for u in use], 't0': t0,
            'y0': [draw(st.sampled_from(ps + [1.0, 0.5, -0.5, 0.25])) for _ in range(k)],
            'p': draw(st.fixed_dictionaries({p: exprs.nonzero(-1, 1) for p in ps})), 'ts': draw(odes.times(t0, 0.75)),
            'write': draw(st.permutations(range(k))),
            'opts': draw(st.sampled_from([{'rtol': 1e-9, 'atol': 1e-10}, {'rtol': 1e-9, 'atol': 1e-10}, {'method': 'DOP853', 'rtol': 1e-9, 'atol': 1e-10},
                                          {'method': 'Radau', 'rtol': 1e-9, 'atol': 1e-10}])),
            'style': draw(st.integers(0, 9))}


@facet(FACETS, 'random', _random,
       'systems of 1-3 coupled equations with random non-linear right hand sides (in all variables, time and parameters) against '
       'an independent integration of independently evaluated right hand sides; ill-conditioned ones are rejected; non-trivial: '
       'coupled or time dependent and a time other than the initial one')
def random_(case):
    from scipy.integrate import solve_ivp
    from symfit import ODEModel, Variable, Parameter, D
    import sympy
    ys, p, t0 = case['ys'], case['p'], case['t0']

    def f(t, y):
        env = dict(p, **dict(zip(ys, map(float, y))))
        env[case['t']] = t
        return [float(exprs.value(a, env, exprs.Mag())) for a in case['rhs']]

    def solve(y0):
        out = {}
        for side in (1, -1):
            te = sorted({t for t in case['ts'] if (t - t0) * side > 0}, reverse=side < 0)
            if te:
                try:
                    r = solve_ivp(f, (t0, te[-1]), y0, t_eval=te, method='DOP853', rtol=1e-10, atol=1e-11)
                except (ArithmeticError, ValueError):
                    raise Reject('not defined')
                if not r.success or not np.all(np.isfinite(r.y)) or np.max(np.abs(r.y)) > 50 or r.nfev > 5000:
                    raise Reject('wild')
                out.update(zip(te, r.y.T))
        out[t0] = np.array(y0, dtype=float)
        return np.array([out[t] for t in case['ts']]).T
    y0 = [float(p[v]) if isinstance(v, str) else v for v in case['y0']]
    with np.errstate(all='ignore'):
        want = solve(y0)
        near = [solve([v + 1e-6 * (-1) ** (i * s) for i, v in enumerate(y0)]) for s in (0, 1)]
    K = max(np.max(np.abs(w - want)) for w in near) / 1e-6
    if K > 100:
        raise Reject('conditioning')
    table = {n: Variable(n) for n in ys + [case['t']]}
    table.update({n: Parameter(n) for n in case['ps']})
    md = {}
    for i in case['write']:
        e = sympy.sympify(exprs.to_sympy(case['rhs'][i], table))
        if sorted(s.name for s in e.free_symbols) != sorted(exprs.symbols_of(case['rhs'][i])):
            raise Reject('a symbol cancels')
        md[D(table[ys[i]], table[case['t']])] = e
    init = {table[y]: table[v] if isinstance(v, str) else v for y, v in zip(ys, case['y0'])}
    init[table[case['t']]] = t0
    model = ODEModel(md, initial=init, **case['opts'])
    c = {'t': case['t'], 'pars': case['ps']}
    out = call(model, c, np.array(case['ts'], dtype=float), p, case['style'])
    require([v.name for v in out._asdict()] == sorted(ys), 'components {}', list(out._asdict()))
    for n, w in zip(ys, want):
        close(getattr(out, n), w, 1e-6 * (1 + K) * (1 + np.max(np.abs(want))), 'solution {} of {} at {}'.format(n, md, case['ts']))
    used = [exprs.symbols_of(a) for a in case['rhs']]
    return info(any(t != t0 for t in case['ts']) and any(case['t'] in u or len(set(u) & set(ys)) > 0 for u in used),
                'eqs=%d' % len(ys), 'time' if any(case['t'] in u for u in used) else 'autonomous', str(case['opts'].get('method', 'default')))


@st.composite
def _opts(draw):
    c = draw(odes.linear(maxk=2))
    o = draw(st.dictionaries(st.sampled_from(['rtol', 'atol', 'max_step', 'first_step']), st.sampled_from([1e-4, 1e-5, 1e-6, 2e-4]), max_size=4))
    if 'max_step' in o:
        o['max_step'] = 0.125
    return {'ode': c, 'ts': draw(odes.times(c['t0'])), 'opts': o, 'base': draw(st.sampled_from(['RK45', 'RK23', 'LSODA', 'Radau', 'DOP853', 'BDF']))}


@facet(FACETS, 'options', _opts,
       'integrator options (a recording integrator class, tolerances, step sizes) reach every integration, for the model and '
       'its negative, and the Jacobian of the system handed to it is that of the equations; non-trivial: some option besides the method is given')
def options(case):
    import scipy.integrate
    c = case['ode']
    ts = case['ts']
    g = odes.growth(c, ts)
    seen = []
    base = getattr(scipy.integrate, case['base'])

    class Recorder(base):
        def __init__(self, fun, t0, y0, t_bound, **kw):
            seen.append(dict(kw, t0=t0, t_bound=t_bound, y0=list(np.ravel(y0)), fun=fun))
            super(Recorder, self).__init__(fun, t0, y0, t_bound, **kw)

    opts = dict(case['opts'])
    model, table = odes.build_linear(c, method=Recorder, **opts)
    before = dict(model.integrator_kwargs)
    call(model, c, np.array(ts), c['p'], 0)
    sides = (min(ts) < c['t0']) + (max(ts) > c['t0'])
    jacs = 0
    require(len(seen) == sides, '{} integrations for times {} around {}', len(seen), ts, c['t0'])
    for s in seen:
        for k, v in opts.items():
            require(s.get(k) == v, 'option {} is {} instead of {}', k, s.get(k), v)
        for k in ('rtol', 'atol', 'max_step', 'first_step'):
            if k not in opts:
                require(k not in s or s[k] is None, 'option {}={} was not given', k, s.get(k))
        require(s['t0'] == c['t0'], 'integration starts at {} instead of {}', s['t0'], c['t0'])
        require(s['t_bound'] in (min(ts), max(ts)), 'integration ends at {}', s['t_bound'])
        if callable(s.get('jac')):
            # the equations are linear: differences are exact
            y = np.array([0.5 + 0.25 * i for i in range(len(s['y0']))])
            f0 = np.array(s['fun'](s['t0'], y), dtype=float)
            J = np.array([np.array(s['fun'](s['t0'], y + e), dtype=float) - f0 for e in np.eye(len(y))]).T
            close(np.array(s['jac'](s['t0'], y), dtype=float), J, 1e-9 * (1 + np.abs(J).max()), 'Jacobian of the system')
            jacs += 1
    require(model.integrator_kwargs == before, 'options of the model changed')
    return info(bool(opts) and bool(sides), case['base'], 'jacobian' if jacs else 'no jacobian', *sorted(opts))


@st.composite
def _bad(draw):
    return {'n': draw(st.lists(st.sampled_from(odes.POOL), min_size=4, max_size=4, unique=True)),
            't0': draw(st.sampled_from([0.0, 1.0])), 'y0': draw(st.sampled_from([1.0, 2.0])), 'lo': draw(st.booleans()),
            'more': draw(st.lists(st.sampled_from([-1.5, -0.25, 0.0, 0.25, 0.5, 1.5, 2.0]), max_size=4))}


@facet(FACETS, 'failure', _bad,
       'integrations that cannot succeed (solution with a pole between the initial and requested time) raise instead of '
       'returning numbers; two independent variables are rejected; all cases non-trivial')
def failure(case):
    from symfit import ODEModel, Variable, Parameter, D
    from symfit.core.models import ModelError
    ny, nt, nx, nk = case['n']
    y, t, x, k = Variable(ny), Variable(nt), Variable(nx), Parameter(nk)
    s = -1 if case['lo'] else 1
    model = ODEModel({D(y, t): s * k * y ** 2}, initial={t: case['t0'], y: case['y0']}, method='RK45')
    pole = case['t0'] + s / case['y0']
    at = [pole + s * 0.5] + [case['t0'] + q * (pole - case['t0']) for q in case['more']]
    try:
        out = model(**{nt: np.array(sorted(at)), nk: 1.0})
    except Exception:
        pass
    else:
        raise Violation('values at {} beyond the pole {} of the solution: {}'.format(at, pole, out))
    t1 = case['t0'] + 0.5 * (pole - case['t0'])
    out = model(**{nt: np.array([t1]), nk: 1.0})
    close(out[0], [case['y0'] / (1 - s * case['y0'] * (t1 - case['t0']))], 2e-2, 'before the pole')
    try:
        ODEModel({D(y, t): k * y, D(x, Variable('other')): k}, initial={t: 0, y: 1, x: 1})
    except ModelError:
        pass
    else:
        raise Violation('two independent variables were accepted')
    return info(True)


# ---- size ------------------------------------------------------------------------

@st.composite
def _big(draw):
    n = draw(st.integers(4, 8))
    ys = draw(st.permutations(['c%d' % (i + 3) for i in range(n)])) if draw(st.booleans()) else draw(st.permutations(['A', 'B', 'a', 'X_1', 'b', 'zz', 'C', 'y']))[:n]
    style = draw(st.sampled_from(['k%d', 'k_%d', 'r%02d', 'w%dq']))
    return {'ys': list(ys), 'ks': [style % i for i in draw(st.permutations(range(n + 3)))], 'seed': draw(st.integers(0, 10 ** 6)),
            'ipar': draw(st.lists(st.integers(0, n - 1), max_size=3, unique=True)), 't0': draw(st.sampled_from([0.0, 1.5, -2.0])),
            'points': draw(st.sampled_from([1, 30, 400, 1500])), 'back': draw(st.booleans()), 'order': draw(st.permutations(range(n)))}


@facet(FACETS, 'big', _big,
       'linear reaction networks of 4-8 species with 7-11 rates, up to three initial values as parameters and up to 1500 times, against '
       'the eigenvalue solution; non-trivial: all')
def big_(case):
    from symfit import Parameter, Variable, ODEModel, D
    rng = np.random.RandomState(case['seed'])
    n = len(case['ys'])
    t = Variable('t')
    Y = [Variable(q) for q in case['ys']]
    rates = np.round(rng.uniform(0.2, 1.5, len(case['ks'])), 3)
    P = [Parameter(q, value=float(v)) for q, v in zip(case['ks'], rates)]
    M = np.zeros((n, n))
    rhs = [0] * n
    # a chain, and some other transfers
    moves = [(i, (i + 1) % n) for i in range(n)] + [tuple(rng.choice(n, 2, replace=False)) for _ in range(3)]
    for (i, j), k, v in zip(moves, P, rates):
        rhs[i], rhs[j] = rhs[i] - k * Y[i], rhs[j] + k * Y[i]
        M[i, i] -= v
        M[j, i] += v
    y0 = np.round(rng.uniform(0, 3, n), 3)
    I = {i: Parameter('y0_' + case['ys'][i], value=9.0) for i in case['ipar']}
    initial = {Y[i]: I.get(i, float(y0[i])) for i in case['order']}
    initial[t] = case['t0']
    model = ODEModel({D(Y[i], t): rhs[i] for i in case['order']}, initial=initial)
    ts = case['t0'] + np.sort(rng.uniform(-1.0 if case['back'] else 0.0, 4.0, case['points']))
    kw = dict(zip(case['ks'], rates), **{I[i].name: float(y0[i]) for i in I})
    out = model(t=ts, **kw)
    w, U = np.linalg.eig(M)
    if np.linalg.cond(U) > 1e4:
        raise Reject('defective')
    want = np.real((U * np.exp(np.multiply.outer(ts - case['t0'], w))[:, None, :]) @ np.linalg.solve(U, y0.astype(complex)))
    names = sorted(case['ys'])
    require([v.name for v in out._asdict()] == names, 'components {}', list(out._asdict()))
    for i, q in enumerate(names):
        close(out[i], want[:, case['ys'].index(q)], 3e-6 * (1 + np.abs(want).max()), 'solution for {}'.format(q))
    require([p.name for p in model.params] == sorted(kw), 'parameters {}', model.params)
    return info(True, 'species=%d' % n, 'points=%d' % case['points'], 'ipar=%d' % len(I), 'back' if case['back'] else 'forth')
