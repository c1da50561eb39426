"""C22: the distribution helpers are the densities they claim to be."""
import numpy as np
from hypothesis import strategies as st

import exprs
import models_gen as mg
import objgen
from core import facet, info, close, require, Violation, Reject

FACETS = {}
ARITY = {'Gaussian': ['x', 'mu', 'sig'], 'Exp': ['x', 'l'],
         'BivariateGaussian': ['x', 'y', 'mu_x', 'mu_y', 'sig_x', 'sig_y', 'rho']}


def kind_of(arg):
    return 'scale' if arg.startswith('sig') or arg == 'l' else 'rho' if arg == 'rho' else 'loc'


# ---- reference densities: plain numbers, and jets ---------------------------

def density(name, a):
    """Textbook density and the size of the terms in its exponent."""
    if name == 'Gaussian':
        x, m, s = a
        z = ((x - m) / s) ** 2 / 2
        return np.exp(-z) / (np.abs(s) * np.sqrt(2 * np.pi)), z
    if name == 'Exp':
        x, l = a
        return l * np.exp(-l * x), np.abs(l * x)
    x, y, mx, my, sx, sy, r = a
    u, v, q = (x - mx) / sx, (y - my) / sy, 1 - r * r
    return (np.exp(-(u * u - 2 * r * u * v + v * v) / (2 * q)) / (2 * np.pi * sx * sy * np.sqrt(q)),
            (u * u + v * v) / q)


def _c(v, P):
    return exprs.const_jet(v, P)


def _sub(a, b):
    return exprs.jadd(a, b, -1.0)


def _div(a, b):
    return exprs.jmul(a, exprs.jinv(b))


def _sqrt(q):
    r = np.sqrt(q.v)
    return exprs.jfun(q, r, 0.5 / r, -0.25 / (r * q.v))


def density_jet(name, a, P):
    mul, exp, add = exprs.jmul, exprs.jexp, exprs.jadd
    if name == 'Gaussian':
        x, m, s = a
        s = mul(s, _c(np.sign(s.v), P))
        z = _div(_sub(x, m), s)
        return _div(exp(mul(_c(-0.5, P), mul(z, z))), mul(s, _c(np.sqrt(2 * np.pi), P)))
    if name == 'Exp':
        x, l = a
        return mul(l, exp(mul(_c(-1.0, P), mul(l, x))))
    x, y, mx, my, sx, sy, r = a
    u, v, q = _div(_sub(x, mx), sx), _div(_sub(y, my), sy), _sub(_c(1.0, P), mul(r, r))
    num = _sub(add(mul(u, u), mul(v, v)), mul(_c(2.0, P), mul(r, mul(u, v))))
    e = exp(_div(num, mul(_c(-2.0, P), q)))
    return _div(e, mul(_c(2 * np.pi, P), mul(mul(sx, sy), _sqrt(q))))


# ---- arguments --------------------------------------------------------------

@st.composite
def argument(draw, kind, pool):
    """["num", value, type] | ["sym", name] | ["expr", ast]"""
    k = draw(st.sampled_from(['num', 'sym', 'sym', 'expr']))
    if k == 'num':
        v = draw(exprs.positive() if kind == 'scale' else st.integers(-7, 7).map(lambda i: i / 8) if kind == 'rho' else exprs.number())
        t = draw(st.sampled_from(['float', 'int', 'np', 'sympy']))
        if t == 'int':
            v = 0 if kind == 'rho' else float(max(1, round(v)) if kind == 'scale' else round(v))
        return ['num', v, t]
    if k == 'sym':
        return ['sym', draw(st.sampled_from(pool[kind]))]
    names = draw(st.lists(st.sampled_from(pool['loc'] + pool[kind]), min_size=1, max_size=2, unique=True))
    e = draw(exprs.expr(names, (), 2))
    if kind == 'scale':
        e = [draw(st.sampled_from(['gsqrt', 'texp'])), e]
    if kind == 'rho':
        e = ['*', ['c', draw(st.sampled_from([0.5, -0.75]))], ['sin', e]]
    return ['expr', e]


@st.composite
def _call(draw, name, pool):
    return {'name': name, 'args': [draw(argument(kind_of(a), pool)) for a in ARITY[name]]}


def build_arg(a, table):
    import sympy
    if a[0] == 'num':
        v = a[1]
        return {'float': float, 'int': int, 'np': np.float64, 'sympy': lambda q: sympy.Rational(q)}[a[2]](v)
    if a[0] == 'sym':
        return table[a[1]]
    return sympy.sympify(exprs.to_sympy(a[1], table))


def build_call(c, table, keyword=False):
    from symfit import distributions
    f = getattr(distributions, c['name'])
    args = [build_arg(a, table) for a in c['args']]
    return f(**dict(zip(ARITY[c['name']], args))) if keyword else f(*args)


def syms_of(c):
    out = set()
    for a in c['args']:
        out |= {a[1]} if a[0] == 'sym' else exprs.symbols_of(a[1]) if a[0] == 'expr' else set()
    return out


def value_args(c, env, mag):
    return [a[1] if a[0] == 'num' else env[a[1]] if a[0] == 'sym' else exprs.value(a[1], env, mag) for a in c['args']]


@st.composite
def _pool(draw):
    """Names with their role (variable or parameter) and their domain."""
    ns = draw(exprs.names(8))
    kinds = {'loc': ns[:4], 'scale': ns[4:6], 'rho': ns[6:7]}
    role = {n: draw(st.sampled_from(['var', 'par'])) for n in ns[:7]}
    role[ns[0]] = 'var'
    return kinds, role, ns[7]


@st.composite
def env_for(draw, names, pool, arrays, n):
    out = {}
    for s in sorted(names):
        strat = exprs.positive(0.375) if s in pool['scale'] else st.integers(-6, 6).map(lambda i: i / 8) if s in pool['rho'] else exprs.number(-2, 2)
        out[s] = draw(st.lists(strat, min_size=n, max_size=n)) if s in arrays else draw(strat)
    return out


@st.composite
def _values(draw):
    pool, role, _ = draw(_pool())
    name = draw(st.sampled_from(sorted(ARITY)))
    c = draw(_call(name, pool))
    used = syms_of(c)
    n = draw(st.integers(1, 4))
    arr = [s for s in used if role[s] == 'var' and draw(st.booleans())]
    env = draw(env_for(used, pool, arr, n))
    w = c['args'][2] if name == 'Gaussian' else None
    if w and draw(st.integers(0, 3)) == 2:  # only the square of the width of a Gaussian matters
        if w[0] == 'num':
            w[1] = -w[1]
        elif w[0] == 'sym':
            env[w[1]] = [-v for v in env[w[1]]] if isinstance(env[w[1]], list) else -env[w[1]]
    return {'call': c, 'role': role, 'env': env, 'kw': draw(st.booleans()), 'extra': draw(st.booleans())}


def table_of(role):
    from symfit import Parameter, Variable
    return {n: (Variable if r == 'var' else Parameter)(n) for n, r in sorted(role.items())}


def tol_for(v, z, mag, peak):
    return 1e-11 * np.abs(v) * (1 + z) * (1 + mag) ** 2 + 1e-15 * peak + 1e-300


@facet(FACETS, 'values', _values,
       'Gaussian, BivariateGaussian and Exp with random mixtures of symbols, expressions and numbers (Python, numpy, sympy) as '
       'positional or keyword arguments, evaluated directly, against textbook densities; non-trivial: not only numbers')
def values(case):
    import sympy
    table = table_of(case['role'])
    c = case['call']
    e = build_call(c, table, case['kw'])
    env = {k: np.array(v) if isinstance(v, list) else v for k, v in case['env'].items()}
    mag = exprs.Mag()
    a = value_args(c, env, mag)
    want, z = density(c['name'], [np.asarray(q, dtype=float) for q in a])
    if not np.max(z) < 300 or not mag.m < 1e4:
        raise Reject('far out')
    tol = tol_for(want, z, mag.m, 1.0)
    used = syms_of(c)
    require(isinstance(e, sympy.Expr), '{} gives {!r}', c['name'], type(e))
    require({s.name for s in e.free_symbols} <= used, 'symbols {} out of nowhere', e.free_symbols)
    if not e.free_symbols:
        close(float(e), np.ravel(want)[0], np.ravel(tol)[0], '{} of numbers'.format(c['name']))
        return info(False, c['name'], 'numbers')
    kw = dict(env)
    if case['extra']:
        kw['surplus'] = 3.0
    got = e(**kw)
    close(np.broadcast_to(got, np.shape(want)), want, tol, '{} called'.format(c['name']))
    sub = e.subs({table[k]: v for k, v in env.items()}) if not any(np.ndim(v) for v in env.values()) else None
    if sub is not None and not e.has(sympy.Function):
        close(float(sub), float(want), tol, '{} substituted'.format(c['name']))
    return info(True, c['name'], *sorted({a[0] for a in c['args']}))


# ---- moments ----------------------------------------------------------------

@st.composite
def _moments(draw):
    name = draw(st.sampled_from(sorted(ARITY)))
    p = {a: draw(exprs.positive(0.25, 5) if kind_of(a) == 'scale' else st.integers(-15, 15).map(lambda i: i / 16)
                 if kind_of(a) == 'rho' else exprs.number(-5, 5)) for a in ARITY[name] if a not in 'xy'}
    return {'name': name, 'p': p, 'how': draw(st.sampled_from(['model', 'call', 'numbers']))}


@facet(FACETS, 'moments', _moments,
       'quadrature of the helpers over their domain: total probability one, stated mean, spread and correlation; non-trivial: all')
def moments(case):
    from symfit import Variable, Parameter, Model, distributions
    name, p = case['name'], case['p']
    f = getattr(distributions, name)
    x, y, out = Variable('x'), Variable('y'), Variable('out')
    args = []
    for a in ARITY[name]:
        args.append({'x': x, 'y': y}.get(a) if a in 'xy' else p[a] if case['how'] == 'numbers' else Parameter(a))
    e = f(*args)

    def ev(**data):
        kw = dict(data)
        if case['how'] != 'numbers':
            kw.update(p)
        return np.asarray(Model({out: e})(**kw).out if case['how'] == 'model' else e(**kw), dtype=float)
    if name == 'Exp':
        l = p['l']
        t, w = np.polynomial.legendre.leggauss(120)
        xs, ws = (t + 1) / 2 * 40 / l, w / 2 * 40 / l
        d = ev(x=xs)
        mean = np.sum(ws * xs * d)
        close(np.sum(ws * d), 1.0, 1e-9, 'total probability')
        close(mean, 1 / l, 1e-9 / l, 'mean')
        close(np.sum(ws * (xs - mean) ** 2 * d), 1 / l ** 2, 1e-8 / l ** 2, 'variance')
    elif name == 'Gaussian':
        m, s = p['mu'], p['sig']
        h = s / 8
        xs = m + h * np.arange(-80, 81)
        d = ev(x=xs)
        close(np.sum(d) * h, 1.0, 1e-9, 'total probability')
        close(np.sum(d * xs) * h, m, 1e-9 * (1 + s + abs(m)), 'mean')
        close(np.sum(d * (xs - m) ** 2) * h, s ** 2, 1e-8 * s ** 2, 'variance')
    else:
        r, sx, sy = p['rho'], p['sig_x'], p['sig_y']
        # principal axes of the correlation ellipse resolve the narrow direction
        k = np.arange(-36, 37) / 4.0
        A, B = np.meshgrid(k, k)
        u = np.sqrt((1 + r) / 2) * A + np.sqrt((1 - r) / 2) * B
        v = np.sqrt((1 + r) / 2) * A - np.sqrt((1 - r) / 2) * B
        jac = np.sqrt(1 - r * r) * sx * sy / 16
        X, Y = p['mu_x'] + sx * u, p['mu_y'] + sy * v
        d = ev(x=X, y=Y) * jac
        close(np.sum(d), 1.0, 1e-9, 'total probability')
        for q, want, what in ((X, p['mu_x'], 'mean of x'), (Y, p['mu_y'], 'mean of y')):
            close(np.sum(d * q), want, 1e-8 * (1 + abs(want) + sx + sy), what)
        dx, dy = X - p['mu_x'], Y - p['mu_y']
        close(np.sum(d * dx ** 2), sx ** 2, 1e-7 * sx ** 2, 'variance of x')
        close(np.sum(d * dy ** 2), sy ** 2, 1e-7 * sy ** 2, 'variance of y')
        close(np.sum(d * dx * dy) / (sx * sy), r, 1e-7, 'correlation')
    return info(True, name, case['how'])


# ---- inside models ----------------------------------------------------------

@st.composite
def _model(draw):
    pool, role, out = draw(_pool())
    k = draw(st.integers(1, 2))
    calls = [draw(_call(draw(st.sampled_from(sorted(ARITY))), pool)) for _ in range(k)]
    used = set().union(*[syms_of(c) for c in calls])
    if not any(role[s] == 'par' for s in used):
        for s in sorted(used)[:1]:
            role[s] = 'par'
    n = draw(st.integers(1, 4))
    arr = [s for s in used if role[s] == 'var']
    return {'calls': calls, 'role': role, 'out': out, 'env': draw(env_for(used, pool, arr, n)), 'n': n,
            'w': draw(st.lists(exprs.nonzero(-2, 2), min_size=k, max_size=k)),
            'join': draw(st.sampled_from(['+', '*'])), 'layer': draw(st.booleans())}


@facet(FACETS, 'model', _model,
       'sums and products of distributions (also as intermediate components) as models: values, Jacobian and Hessian against '
       'forward-mode derivatives of the textbook densities; non-trivial: several parameters')
def model(case):
    import sympy
    from symfit import Model, Variable
    table = table_of(case['role'])
    used = sorted(set().union(*[syms_of(c) for c in case['calls']]))
    ps = [s for s in used if case['role'][s] == 'par']
    if not ps:
        raise Reject('no parameter')
    P = len(ps)
    env = {}
    for s in used:
        v = case['env'][s]
        if s in ps:
            env[s] = exprs.param_jet(v if not isinstance(v, list) else v[0], ps.index(s), P)
        else:
            env[s] = exprs.const_jet(np.array(v, dtype=float), P)
    mag = exprs.Mag()
    total, zmax = None, 0.0
    for c, w in zip(case['calls'], case['w']):
        a = [_c(q[1], P) if q[0] == 'num' else env[q[1]] if q[0] == 'sym' else exprs.jet(q[1], env, P, mag) for q in c['args']]
        _, z = density(c['name'], [q.v for q in a])
        zmax = max(zmax, float(np.max(z)))
        j = density_jet(c['name'], a, P)
        for q in a:
            mag.see(q.v), mag.see(q.g), mag.see(q.h)
        mag.see(j.v), mag.see(j.g), mag.see(j.h)
        j = exprs.jmul(_c(w, P), j)
        total = j if total is None else exprs.jadd(total, j) if case['join'] == '+' else exprs.jmul(total, j)
    mag.see(total.g), mag.see(total.h)
    if not zmax < 60 or not mag.m < 2e3:
        raise Reject('far out')
    es = [sympy.Rational(w) * build_call(c, table) for c, w in zip(case['calls'], case['w'])]
    if sorted({s.name for e in es for s in e.free_symbols}) != used:
        raise Reject('a symbol cancels')
    out = Variable(case['out'])
    if case['layer'] and not case['calls'][0]['args'][0][0] == 'num' and es[0].free_symbols:
        u = Variable('inner_0')
        rest = es[1] if len(es) > 1 else None
        md = {u: es[0], out: u if rest is None else u + rest if case['join'] == '+' else u * rest}
    else:
        md = {out: es[0] if len(es) == 1 else es[0] + es[1] if case['join'] == '+' else es[0] * es[1]}
    if any(not e.free_symbols for e in md.values()):
        raise Reject('a symbol cancels')
    m = Model(md)
    if sorted(s.name for s in m.independent_vars) + sorted(s.name for s in m.params) != sorted(s for s in used if s not in ps) + ps:
        raise Reject('a symbol cancels')
    kw = {s: float(np.ravel(env[s].v)[0]) if s in ps else env[s].v for s in used}
    tol = 1e-10 * (1 + mag.m) ** 2
    shape = (case['n'],) if len(ps) < len(used) else (1,)
    w = lambda a, lead: np.broadcast_to(exprs._pad(a, lead, 1), a.shape[:lead] + shape)
    got, jac, hes = m(**kw), m.eval_jacobian(**kw), m.eval_hessian(**kw)
    close(getattr(got, out.name), w(total.v, 0), tol, 'value of the model')
    close(getattr(jac, out.name), w(total.g, 1), tol, 'Jacobian of the model')
    close(getattr(hes, out.name), w(total.h, 2), tol, 'Hessian of the model')
    return info(P > 1, *([c['name'] for c in case['calls']] + [case['join'], 'layered' if len(md) > 1 else 'flat', 'params=%d' % P]))


# ---- fits -------------------------------------------------------------------

@st.composite
def _fit(draw):
    name = draw(st.sampled_from(['Exp', 'Gaussian', 'BivariateGaussian', 'curve']))
    n = draw(st.integers(5, 12))
    return {'name': name, 'x': draw(st.lists(st.integers(-24, 24).map(lambda i: i / 8), min_size=n, max_size=n, unique=True)),
            'y': draw(st.lists(st.integers(-24, 24).map(lambda i: i / 8), min_size=n, max_size=n, unique=True)),
            'p': [draw(exprs.number(-1, 1)), draw(exprs.positive(0.75, 1.5)), draw(exprs.positive(0.5, 3))],
            'tilt': draw(st.sampled_from([0.0, 0.5, -0.75])),
            'scale': draw(exprs.positive(0.5, 2))}


@facet(FACETS, 'fit', _fit,
       'maximum-likelihood fits of the helpers give the closed-form estimates (sample mean, spread, correlation, rate), and a '
       'least-squares fit of samples of a Gaussian curve recovers it; non-trivial: all')
def fit(case):
    from symfit import Fit, Parameter, Variable, parameters, variables, distributions as D
    from symfit.core.objectives import LogLikelihood
    name = case['name']
    X = np.array(case['x'])
    if name == 'Exp':
        X = np.abs(X) + 0.125
        x, l = Variable('x'), Parameter('l', value=1 / X.mean() * case['scale'], min=1e-3)
        r = Fit(D.Exp(x, l), X, objective=LogLikelihood).execute()
        close(r.value(l), 1 / X.mean(), 1e-3 / X.mean(), 'rate')
        close(r.stdev(l), 1 / X.mean() / np.sqrt(len(X)), 1e-2 / X.mean(), 'its standard deviation')
        close(r.log_likelihood, np.sum(np.log(1 / X.mean()) - X / X.mean()), 1e-4 * len(X), 'log-likelihood')
        return info(True, name)
    if X.std() < 0.3:
        raise Reject('narrow')
    if name == 'Gaussian':
        x = Variable('x')
        s, m = X.std(), X.mean()
        # (no densities that underflow on the way)
        mu = Parameter('mu', value=m + (case['scale'] - 1) * s, min=m - 2 * s, max=m + 2 * s)
        sig = Parameter('sig', value=s * (0.5 + case['scale']), min=0.4 * s)
        r = Fit(D.Gaussian(x, mu, sig), X, objective=LogLikelihood).execute()
        close(r.value(mu), X.mean(), 5e-3 * X.std(), 'mean')
        close(r.value(sig), X.std(), 5e-3 * X.std(), 'spread')
        close(r.stdev(mu), X.std() / np.sqrt(len(X)), 3e-2 * X.std(), 'stdev of the mean')
        close(r.stdev(sig), X.std() / np.sqrt(2 * len(X)), 3e-2 * X.std(), 'stdev of the spread')
        return info(True, name)
    if name == 'BivariateGaussian':
        Y = np.array(case['y'][:len(X)]) + case['tilt'] * X
        if Y.std() < 0.3:
            raise Reject('narrow')
        rr = np.corrcoef(X, Y)[0, 1]
        if abs(rr) > 0.9:
            raise Reject('line')
        x, y = variables('x, y')
        pars = []
        for nm, D0 in (('x', X), ('y', Y)):
            m, s = D0.mean(), D0.std()
            pars.append(Parameter('m' + nm, value=m + 0.1 * s, min=m - s, max=m + s))
            pars.append(Parameter('s' + nm, value=s * 1.2, min=0.5 * s))
        pars = [pars[0], pars[2], pars[1], pars[3], Parameter('rho', value=rr / 2, min=-0.95, max=0.95)]
        r = Fit(D.BivariateGaussian(x, y, *pars), X, Y, objective=LogLikelihood).execute()
        for p, want in zip(pars, [X.mean(), Y.mean(), X.std(), Y.std(), rr]):
            close(r.value(p), want, 2e-2 * max(X.std(), Y.std()), p.name)
        return info(True, name)
    mu0, s0, A0 = case['p']
    xs = np.linspace(-3, 3, 25)
    ys = A0 / (s0 * np.sqrt(2 * np.pi)) * np.exp(-((xs - mu0) / s0) ** 2 / 2)
    x, A = Variable('x'), Parameter('A', value=A0 * case['scale'])
    mu, sig = Parameter('mu', value=mu0 + 0.2), Parameter('sig', value=s0 * 1.2, min=0.1)
    r = Fit(A * D.Gaussian(x, mu, sig), xs, ys).execute()
    for p, want in ((A, A0), (mu, mu0), (sig, s0)):
        close(r.value(p), want, 2e-3 * (1 + abs(want)), p.name)
    return info(True, name)


# ---- relations between densities ---------------------------------------------

@st.composite
def _relations(draw):
    name = draw(st.sampled_from(['Gaussian', 'Gaussian', 'BivariateGaussian', 'BivariateGaussian', 'Exp']))
    num = st.integers(-16, 16).map(lambda i: i / 8)
    c = {'name': name, 'names': draw(exprs.names(8)), 'role': [draw(st.booleans()) for _ in range(7)], 'n': draw(st.sampled_from([1, 2, 4])), 'at': {}}
    for a in ARITY[name]:
        c['at'][a] = ([draw(num) for _ in range(c['n'])] if a in 'xy' else draw(st.integers(-7, 7)) / 8 if a == 'rho'
                      else draw(st.sampled_from([0.25, 0.5, 1.0, 1.5, 2.0, 3.0])) if kind_of(a) == 'scale' else draw(num))
    if name == 'Exp':
        c['at']['x'] = [abs(v) for v in c['at']['x']]
    # dyadic, so nothing is rounded when it is applied
    c['offset'] = [draw(st.sampled_from([0.0, 1024.0, -1024.0, 2.0 ** 20, -2.0 ** 20, 2.0 ** 30])) for _ in 'xy']
    c['scale'] = [2.0 ** draw(st.sampled_from([0, 1, -1, 10, -10, 40, -40])) for _ in 'xy']
    c['flip'] = [draw(st.booleans()) for _ in 'xy']
    return c


@facet(FACETS, 'relations', _relations,
       'densities far from the origin, of large and tiny scale, reflected and with exchanged variables equal the plain one up to '
       'the Jacobian of the transformation; independent components multiply; non-trivial: an offset or a scale')
def relations(case):
    from symfit import Variable, Parameter, CallableModel
    from symfit import distributions
    name = case['name']
    args = ARITY[name]
    nm = dict(zip(args, case['names']))
    table = {a: Variable(nm[a]) if a in 'xy' else Parameter(nm[a]) for a in args}
    f = getattr(distributions, name)
    model = CallableModel({Variable(case['names'][7]): f(*[table[a] for a in args])})

    def at(v):
        with np.errstate(all='ignore'):
            return np.array(model(**{nm[a]: np.array(v[a]) if a in 'xy' else v[a] for a in args})[0])

    plain = {a: np.array(v) if a in 'xy' else v for a, v in case['at'].items()}
    moved = dict(plain)
    factor = 1.0
    for i, v in enumerate('xy'):
        if v not in args:
            continue
        mu, sig = ('mu', 'sig') if name == 'Gaussian' else ('mu_' + v, 'sig_' + v)
        s, o = case['scale'][i], case['offset'][i]
        if name == 'Exp':
            moved['x'], moved['l'] = plain['x'] * s, plain['l'] / s
        else:
            fl = -1 if case['flip'][i] else 1
            moved[v], moved[mu] = s * (fl * plain[v] + o), s * (fl * plain[mu] + o)
            moved[sig] = s * plain[sig]
            if 'rho' in args:
                moved['rho'] = fl * moved['rho']
        factor *= s
    one = at(plain)
    close(at(moved) * factor, one, 1e-9 * (1e-6 + np.abs(one).max()), '{} at {} against {}'.format(name, moved, plain))
    if name == 'BivariateGaussian':
        swapped = {a: plain[{'x': 'y', 'y': 'x'}.get(a, a[:-1] + {'x': 'y', 'y': 'x'}[a[-1]] if a != 'rho' else a)] for a in args}
        close(at(swapped), one, 1e-9 * (1e-6 + np.abs(one).max()), 'exchanged variables')
        ind = dict(plain, rho=0.0)
        prod = density('Gaussian', [plain['x'], plain['mu_x'], plain['sig_x']])[0] * density('Gaussian', [plain['y'], plain['mu_y'], plain['sig_y']])[0]
        close(at(ind), prod, 1e-9 * (1e-6 + np.abs(prod).max()), 'uncorrelated variables')
    return info(any(case['offset']) or any(s != 1 for s in case['scale']), name, 'offset' if any(case['offset']) else 'at the origin')
