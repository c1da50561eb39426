"""C16: chained and global minimizers run their steps in order on the same problem."""
import collections

import numpy as np
from hypothesis import strategies as st

import exprs
import models_gen as mg
import objgen
import fitgen as fg
from c13 import inside
from c15 import scipy_spy, METHOD, BOUNDED, CONSTRAINED, sameish, scipy_trouble
from core import facet, info, close, require, expect_raises, Violation, Reject

FACETS = {}
LOCALS = ['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'COBYLA', 'NelderMead', 'Powell']
FUN = {'DifferentialEvolution': 'differential_evolution', 'BasinHopping': 'basinhopping', 'MINPACK': 'least_squares'}


def step_names(steps):
    """Documented keyword of every step: the name, numbered from its second occurrence on."""
    seen = collections.Counter()
    out = []
    for s in steps:
        seen[s] += 1
        out.append(s if seen[s] == 1 else '{}_{}'.format(s, seen[s]))
    return out


@st.composite
def problem(draw, nparams=(1, 4), bounds=True, fixed=True, allbounds=False):
    """Scalar smooth function of named parameters."""
    n = draw(st.integers(*nparams))
    ns = draw(exprs.names(n + 1))
    ps = ns[:n]
    fx = []
    if fixed and n > 1 and draw(st.integers(0, 2)) == 0:
        fx = draw(st.lists(st.sampled_from(ps), min_size=1, max_size=n - 1, unique=True))
    guess = [draw(exprs.number(-2, 2)) for _ in ps]
    bd = []
    for g in guess:
        k = 'both' if allbounds else draw(st.sampled_from(['none', 'none', 'lo', 'hi', 'both'])) if bounds else 'none'
        bd.append([g - draw(st.sampled_from([0.25, 1.0, 4.0])) if k in ('lo', 'both') else None,
                   g + draw(st.sampled_from([0.25, 1.0, 4.0])) if k in ('hi', 'both') else None])
    return {'names': ps, 'y': ns[-1], 'w': [draw(exprs.positive(0.5, 2)) for _ in ps], 'c': [draw(exprs.number(-2, 2)) for _ in ps],
            'guess': guess, 'bounds': bd, 'fixed': fx, 'wave': draw(st.sampled_from([0.0, 0.0, 0.5, 1.5]))}


def build(case):
    """-> (parameters by name, model, reference function)"""
    import sympy
    from symfit import Parameter, Variable, Model
    ps = {}
    for nm, g, bd in zip(case['names'], case['guess'], case['bounds']):
        ps[nm] = Parameter(nm, value=g, min=bd[0], max=bd[1], fixed=nm in case['fixed'])
    w, c = dict(zip(case['names'], case['w'])), dict(zip(case['names'], case['c']))
    e = sum(w[q] * (ps[q] - c[q]) ** 2 for q in case['names'])
    if case['wave']:
        e = e + sum(case['wave'] * sympy.sin(3 * ps[q]) for q in case['names'])

    def val(d):
        return sum(w[q] * (d[q] - c[q]) ** 2 + case['wave'] * np.sin(3 * d[q]) for q in case['names'])
    return ps, Model({Variable(case['y']): e}), val


@st.composite
def _chain(draw):
    steps = draw(st.lists(st.sampled_from(LOCALS + ['BFGS', 'NelderMead', 'LBFGSB', 'DifferentialEvolution', 'BasinHopping']), min_size=1, max_size=4))
    if len(steps) > 1 and draw(st.booleans()):
        steps[-1] = steps[0]
    c = draw(problem(allbounds='DifferentialEvolution' in steps))
    c['steps'] = steps
    c['cons'] = draw(st.integers(0, 2)) == 0
    c['form'] = draw(st.sampled_from(['list', 'tuple', 'instances', 'mixed']))
    c['answers'] = [[draw(exprs.number()) for _ in c['names']] for _ in steps]
    c['nits'] = [draw(st.sampled_from([0, 1, 5, 12, None])) for _ in steps]
    c['opts'] = [draw(st.integers(0, 2)) for _ in steps]
    c['data'] = draw(st.booleans())
    return c


@facet(FACETS, 'chain', _chain,
       'random chains (repeated kinds, lists, tuples, ready instances, fixed, bounded and constrained parameters, scalar models or data) '
       'with a recorder in place of scipy: number and order of calls, starting points, options per step, bounds and constraints per step, '
       'summed iterations, executing twice, unknown step names; non-trivial: at least two steps')
def chain(case):
    import symfit
    from symfit import Fit, Ge, Model, Variable
    from scipy.optimize import OptimizeResult
    ps, model, val = build(case)
    names = sorted(ps)
    free = [q for q in names if q not in case['fixed']]
    steps = case['steps']
    cls = [fg.minimizer(s) for s in steps]
    kw = {}
    if case['data']:
        X = Variable('xdat_')
        (Y, e), = model.model_dict.items()
        model = Model({Y: e * X})
        kw = {'xdat_': np.array([1.0, 2.0, -1.0]), Y.name: np.array([0.5, 1.5, 2.0])}

        def f(d):
            return 0.5 * np.sum((val(d) * kw['xdat_'] - kw[Y.name]) ** 2)
    else:
        f = val
    if case['cons']:
        kw['constraints'] = [Ge(ps[free[0]], -50.0)]
    minis = cls if case['form'] != 'tuple' else tuple(cls)
    if case['form'] in ('instances', 'mixed'):
        minis = []
        for i, c in enumerate(cls):
            if case['form'] == 'mixed' and i % 2:
                minis.append(c)
            else:
                minis.append(Fit(model, minimizer=c, **kw).minimizer)
    fit = Fit(model, minimizer=minis, **kw)
    require(len(fit.minimizer.minimizers) == len(steps) and all(type(m) is c for m, c in zip(fit.minimizer.minimizers, cls)),
            'steps {} instead of {}', fit.minimizer.minimizers, steps)
    for m, given in zip(fit.minimizer.minimizers, minis):
        if not isinstance(given, type):
            require(m is given, 'an instance given by the user was replaced')
    kwnames = step_names(steps)
    options = {}
    for k, s, o, in zip(kwnames, steps, case['opts']):
        if o:
            options[k] = {'DifferentialEvolution': {'maxiter': 10 + o}, 'BasinHopping': {'niter': 3 + o}}.get(s, {'tol': 10.0 ** -o})
    for run in range(2):
        calls = []

        def handler(call, original):
            i = len(calls)
            calls.append(call)
            x = np.array(case['answers'][i][:len(free)])
            res = OptimizeResult(x=x, fun=float(f(dict(zip(case['names'], case['guess']), **dict(zip(free, x))))), success=True,
                                 message='step %d' % i, nfev=7)
            if case['nits'][i] is not None or steps[i] in ('TrustConstr',):
                res['niter' if steps[i] == 'TrustConstr' else 'nit'] = case['nits'][i] or 0
            if steps[i] == 'COBYLA':
                res.nfev = case['nits'][i] or 0
                res.pop('nit', None)
            return res
        mine = {k: dict(v) for k, v in options.items()}
        with scipy_spy(handler):
            res = fit.execute(**mine)
        require(mine == options, 'the options were modified')
        require(len(calls) == len(steps), '{} steps were run instead of {}', len(calls), len(steps))
        prev = [dict(zip(case['names'], case['guess']))[q] for q in free]
        for i, (call, s) in enumerate(zip(calls, steps)):
            require(call.name == FUN.get(s, 'minimize'), 'step {} ({}) used {}', i, s, call.name)
            inner = call.get('minimizer_kwargs') if s == 'BasinHopping' else call.a
            if s in METHOD:
                require(call.get('method') == METHOD[s], 'step {} used {} instead of {}', i, call.get('method'), s)
            if s != 'DifferentialEvolution':
                close(call.get('x0'), prev, 0, 'starting point of step {} ({})'.format(i, s))
            if s in BOUNDED:
                want = [(ps[q].min, ps[q].max) for q in free]
                require([tuple(b) for b in inner['bounds']] == want, 'bounds of step {}: {}', i, inner['bounds'])
            if s in CONSTRAINED:
                require(len(list(inner.get('constraints') or ())) == int(case['cons']), 'constraints of step {}', i)
            got = {k: call.get(k) for k in ('tol', 'maxiter', 'niter') if call.get(k) is not None}
            want = options.get(kwnames[i], {})
            require(sameish(want, got), 'options {} of step {} reached it as {}', want, kwnames[i], got)
            for k in ('maxiter', 'niter'):
                require(k in want or k not in got, 'step {} got option {} of another step', kwnames[i], k)
            if 'tol' not in want and 'tol' in got:
                require(got['tol'] not in (0.1, 0.01), 'step {} got tol {} of another step', kwnames[i], got['tol'])
            d = dict(zip(case['names'], case['guess']), **dict(zip(free, case['answers'][0])))
            close(np.ravel(call.fun(np.array([d[q] for q in free]))), [f(d)], 1e-9 * (1 + abs(f(d))), 'objective of step {}'.format(i))
            prev = case['answers'][i][:len(free)]
        want = dict(zip(case['names'], case['guess']), **dict(zip(free, case['answers'][-1])))
        for q in names:
            require(res.params[q] == want[q], 'parameter {} is reported as {} instead of {}', q, res.params[q], want[q])
        nit = sum((n or 0) for n in case['nits'])
        require(res.iterations == nit, '{} iterations instead of the sum {} of {}', res.iterations, nit, case['nits'])
        require(res.status_message == 'step %d' % (len(steps) - 1), 'status of {}', res.status_message)
        for q, g in zip(case['names'], case['guess']):
            require(ps[q].value == g, 'the initial guess of {} was changed to {}', q, ps[q].value)
    # names that do not denote a step
    bad = [k for k in LOCALS if k not in steps][:1] + ['tol', 'nonsense', steps[0] + '_%d' % (steps.count(steps[0]) + 1)]
    bad.append(steps[0] + '_1')
    for k in bad:
        calls = []
        with scipy_spy(handler):
            expect_raises(TypeError, lambda: fit.execute(**{k: {}}), 'options for the unknown step ' + k)
        require(not calls, 'steps were run in spite of unknown options')
    return info(len(steps) > 1, case['form'], 'steps=%d' % len(steps), 'repeated' if len(set(steps)) < len(steps) else 'distinct',
                'fixed' if case['fixed'] else 'free', 'constrained' if case['cons'] else 'unconstrained', *sorted(set(steps)))


@st.composite
def _sequence(draw):
    c = draw(problem())
    c['steps'] = draw(st.lists(st.sampled_from(LOCALS), min_size=2, max_size=3))
    c['cons'] = draw(st.integers(0, 2)) == 0
    c['tols'] = [draw(st.sampled_from([None, 1e-2, 1e-4])) for _ in c['steps']]
    return c


@facet(FACETS, 'sequence', _sequence,
       'real chains of local minimizers against running the steps one by one, each in a fresh fit that starts at the previous result; '
       'non-trivial: a later step changes the result')
def sequence(case):
    from symfit import Fit, Ge
    steps = case['steps']
    try:
        ps, model, val = build(case)
        kw = {'constraints': [Ge(ps[q] + 1, -20.0) for q in sorted(ps)[:1]]} if case['cons'] else {}
        names = step_names(steps)
        opts = {k: {'tol': t} for k, t in zip(names, case['tols']) if t is not None}
        fit = Fit(model, minimizer=[fg.minimizer(s) for s in steps], **kw)
        res = fit.execute(**opts)
        guess = list(case['guess'])
        total, moved = 0, False
        for s, t in zip(steps, case['tols']):
            c = dict(case, guess=guess)
            # the guess of one step may lie outside the bounds if the step before ignores them
            from core import reset_state
            reset_state()
            ps2, model2, _ = build(c)
            kw2 = {'constraints': [Ge(ps2[q] + 1, -20.0) for q in sorted(ps2)[:1]]} if case['cons'] else {}
            one = Fit(model2, minimizer=fg.minimizer(s), **kw2).execute(**({} if t is None else {'tol': t}))
            new = [one.params[q] for q in case['names']]
            moved = moved or new != guess
            guess = new
            total += one.iterations or 0
    except Exception as err:
        if scipy_trouble(err) or 'violates bound' in str(err) or 'x0' in str(err):
            raise Reject('scipy failed')
        raise
    for q, g in zip(case['names'], guess):
        close(res.params[q], g, 1e-7 * (1 + abs(g)), 'parameter {} after {} instead of after the single steps'.format(q, steps), shape=False)
    require(res.iterations == total, '{} iterations instead of {}', res.iterations, total)
    require(res.status_message == one.status_message, 'status {} instead of {}', res.status_message, one.status_message)
    close(res.objective_value, one.objective_value, 1e-9 * (1 + abs(one.objective_value)), 'objective value', shape=False)
    return info(moved, 'fixed' if case['fixed'] else 'free', 'steps=%d' % len(steps), *sorted(set(steps)))


@st.composite
def _global(draw):
    mini = draw(st.sampled_from(['BasinHopping', 'BasinHopping', 'DifferentialEvolution', 'chain']))
    c = draw(problem(nparams=(1, 3), allbounds=mini in ('DifferentialEvolution', 'chain')))
    c['wave'] = draw(st.sampled_from([0.5, 1.5, 3.0]))
    c['minimizer'] = mini
    c['cons'] = draw(st.booleans()) and mini == 'BasinHopping'
    c['seed'] = draw(st.integers(0, 3))
    c['niter'] = draw(st.sampled_from([0, 1, 3]))
    c['local'] = draw(st.sampled_from([None, None, 'NelderMead', 'BFGS', 'SLSQP', 'LBFGSB'])) if mini == 'BasinHopping' else None
    c['via_user'] = draw(st.booleans())
    return c


@facet(FACETS, 'global', _global,
       'multimodal functions with bounds, fixed parameters and constraints: results of basin hopping, differential evolution and chains '
       'obey bounds and constraints, keep fixed values, report the value they found, and basin hopping is at least as good as its local '
       'minimizer alone; non-trivial: several minima, bounds or constraints')
def global_(case):
    from symfit import Fit, Ge
    from symfit.core import minimizers as M
    name = case['minimizer']
    ps, model, val = build(case)
    names = sorted(ps)
    free = [q for q in names if q not in case['fixed']]
    bounded = {n: b for n, b in zip(case['names'], case['bounds']) if n in free}
    kw = {}
    if case['cons']:
        s0 = sum(dict(zip(case['names'], case['guess']))[q] for q in free)
        kw['constraints'] = [Ge(sum(ps[q] for q in free), s0 - 0.5)]
    opts = {}
    if name == 'BasinHopping':
        opts = {'niter': case['niter'], 'seed': case['seed']}
        mini = M.BasinHopping
        if case['local'] and not case['cons']:
            # the documented way of choosing the local minimizer
            loc = fg.minimizer(case['local'])
            base = Fit(model, minimizer=loc).minimizer
            mini = M.BasinHopping(base.objective, model.params, local_minimizer=base if case['via_user'] else loc)
    elif name == 'chain':
        mini = [M.DifferentialEvolution, M.LBFGSB]
        opts = {'DifferentialEvolution': {'seed': case['seed'], 'maxiter': 15, 'popsize': 6}}
    else:
        mini = M.DifferentialEvolution
        opts = {'seed': case['seed'], 'maxiter': 40, 'popsize': 8}
    fit = Fit(model, minimizer=mini, **kw)
    res = fit.execute(**opts)
    p = fg.result_params(res)
    for q, g in zip(case['names'], case['guess']):
        if q in case['fixed']:
            require(p[q] == g, '{}: fixed {} is reported as {}', name, q, p[q])
    localname = case['local'] if case['local'] and not case['cons'] else None
    if localname in (None, 'SLSQP', 'LBFGSB'):
        inside({q: p[q] for q in free}, bounded, 1e-9 if case['cons'] or localname == 'SLSQP' else 1e-14, name)
    if case['cons']:
        sm = sum(p[q] for q in free)
        require(sm >= s0 - 0.5 - 1e-5, '{}: constraint violated: {} < {}', name, sm, s0 - 0.5)
    v = val(p)
    close(res.objective_value, v, 1e-9 * (1 + abs(v)), 'objective value', shape=False)
    if name == 'BasinHopping':
        from core import reset_state
        reset_state()
        ps2, model2, _ = build(case)
        if case['cons']:
            kw['constraints'] = [Ge(sum(ps2[q] for q in free), s0 - 0.5)]
        loc = None if localname is None else fg.minimizer(localname)
        one = Fit(model2, **dict(kw, **({} if loc is None else {'minimizer': loc}))).execute(tol=None)
        v1 = val(fg.result_params(one))
        ok1 = one.minimizer_output.get('success', True)
        if case['cons'] and sum(one.params[q] for q in free) < s0 - 0.5 - 1e-6:
            ok1 = False
        require(not ok1 or v <= v1 + 1e-5 * (1 + abs(v1)), 'basin hopping found {} at {}, its local minimizer alone {} at {}',
                v, p, v1, dict(one.params))
    else:
        # The search is stochastic, so all that can be asked for is a value no worse than what a population
        # spread over the box contains (with its good points for all but a negligible fraction of populations).
        rng = np.random.RandomState(0)
        grid, total = 0.0, 0.0
        for q, g in zip(case['names'], case['guess']):
            i = case['names'].index(q)
            f = lambda t: case['w'][i] * (t - case['c'][i]) ** 2 + case['wave'] * np.sin(3 * t)
            if q in free:
                lo, hi = bounded[q]
                grid += np.min(f(np.linspace(lo, hi, 2001)))
                total = total + f(lo + (hi - lo) * rng.rand(4000))
            else:
                grid += f(g)
                total = total + f(g)
        worst = np.percentile(total, 75)
        require(v <= worst + 1e-9 * (1 + abs(worst)), '{} found {} at {}, three quarters of the box are better (minimum {})', name, v, p, grid)
        require(v >= grid - 1e-2, 'harness: below the global minimum')
    return info(True, name, localname, 'fixed' if case['fixed'] else 'free', 'constrained' if case['cons'] else 'unconstrained')
