"""C19: fit results are internally consistent and refer to the right parameters."""
import re

import numpy as np
from hypothesis import strategies as st

import exprs
import models_gen as mg
import fitgen as fg
from core import facet, info, close, require, Violation, Reject, short

FACETS = {}
LONG = ['temperature_of_the_bath', 'k_on_forward', 'p', 'Amplitude0', 'sigma_x_1', 'z9']


# ---- the oracle: everything a result says, from params and covariance_matrix ----

def check_result(res, params, values, cov, gof, message, nit, cons, raw=None):
    """params: declared parameters; values: {name: value}; cons: [(kind, f(values) = lhs - rhs)]."""
    names = sorted(p.name for p in params)
    by = {p.name: p for p in params}
    require(list(res.params) == names, 'params lists {} instead of {}', list(res.params), names)
    for nm in names:
        require(float(res.params[nm]) == values[nm], 'params[{}] = {!r} instead of {!r}', nm, res.params[nm], values[nm])
        require(float(res.value(by[nm])) == values[nm], 'value({}) = {!r} instead of {!r}', nm, res.value(by[nm]), values[nm])
    m = res.covariance_matrix
    if cov is None:
        require(m is None, 'covariance matrix {} instead of None', short(m))
    else:
        require(np.shape(m) == (len(names),) * 2, 'covariance matrix of shape {} for {} parameters', np.shape(m), len(names))
        close(m, cov, 0.0, 'covariance_matrix')
    for i, nm in enumerate(names):
        v, s = res.variance(by[nm]), res.stdev(by[nm])
        if cov is None:
            require(v is None and s is None, 'variance {!r} and stdev {!r} of {} without covariance matrix', v, s, nm)
        else:
            close(v, cov[i, i], 0.0, 'variance({})'.format(nm))
            with np.errstate(all='ignore'):
                close(s, np.sqrt(cov[i, i]), 1e-14 * abs(cov[i, i]) ** 0.5, 'stdev({})'.format(nm))
        for j, other in enumerate(names):
            c = res.covariance(by[nm], by[other])
            if cov is None:
                require(c is None, 'covariance({}, {}) = {!r} without covariance matrix', nm, other, c)
            else:
                close(c, cov[i, j], 0.0, 'covariance({}, {})'.format(nm, other))
    for k, v in res.gof_qualifiers.items():
        got = getattr(res, k)
        require(got is v or np.array_equal(got, v, equal_nan=True), 'attribute {} is {} instead of {}', k, short(got), short(v))
    for k, v in gof.items():
        require(k in res.gof_qualifiers, 'no {} among {}', k, sorted(res.gof_qualifiers))
        if v is not None:
            close(np.asarray(getattr(res, k), dtype=float).ravel(), np.ravel(v), 1e-9 * (1 + np.abs(np.ravel(v))), k)
    try:
        res.no_such_quality
    except AttributeError:
        pass
    else:
        raise Violation('an unknown attribute was found')
    if message is not None:
        require(res.status_message == message, 'status {!r} instead of {!r}', res.status_message, message)
    if nit != 'any':
        require(res.iterations == nit, 'iterations {!r} instead of {!r}', res.iterations, nit)
    check_report(str(res), names, values, cov, res, cons)


def number_in(text, what):
    try:
        return None if text == 'None' else float(text)
    except ValueError:
        raise Violation('{}: {!r} is not a number'.format(what, text))


def about(shown, v, what):
    """A printed number with at least five digits."""
    if v is None or shown is None:
        require(v is None and shown is None, '{}: report shows {!r} instead of {!r}', what, shown, v)
        return
    require((np.isnan(v) and np.isnan(shown)) or shown == v or abs(shown - v) <= 2e-5 * abs(v), '{}: report shows {!r} instead of {!r}', what, shown, v)


def check_report(text, names, values, cov, res, cons):
    lines = text.split('\n')
    head = [i for i, l in enumerate(lines) if l.startswith('Parameter') and 'Value' in l and 'Standard Deviation' in l]
    require(len(head) == 1, 'report without a table of parameters:\n{}', text)
    rows = {}
    for i, nm in enumerate(names):
        l = lines[head[0] + 1 + i]
        require(l.startswith(nm), 'line {} of the report is {!r}, expected {}', i, l, nm)
        cells = l[len(nm):].split()
        require(len(cells) == 2, 'line of {}: {!r}', nm, l)
        about(number_in(cells[0], nm), values[nm], 'value of ' + nm)
        var = None if cov is None else cov[i, i]
        with np.errstate(all='ignore'):
            about(number_in(cells[1], nm), None if var is None else float(np.sqrt(var)), 'standard deviation of ' + nm)
    rest = '\n'.join(lines[head[0] + 1 + len(names):])

    def line(label):
        got = [l for l in rest.split('\n') if l.startswith(label)]
        require(len(got) == 1, 'report has {} lines for {}', len(got), label)
        return got[0][len(label):].strip()
    require(str(res.status_message) in rest, 'status {!r} is not in the report', res.status_message)
    require(line('Number of iterations') == str(res.iterations), 'iterations {!r} instead of {!r}', line('Number of iterations'), res.iterations)
    body = rest.split('Constraints:')[0]
    for k, v in res.gof_qualifiers.items():
        got = [l for l in body.split('\n') if re.match(re.escape(k) + r'\s', l)]
        require(len(got) == 1, '{} is not in the report', k)
        if np.size(v) == 1:
            about(number_in(got[0][len(k):].strip().strip('[]'), k), float(np.ravel(v)[0]), k)
    qs = re.findall(r'Question: (.*) (==|>=|<=) 0\?', rest)
    ans = re.findall(r'Answer:\s+(\S+)', rest)
    require(len(qs) == len(ans) == len(cons), 'report has {} questions and {} answers for {} constraints:\n{}', len(qs), len(ans), len(cons), text)
    if not cons:
        require('Constraint' not in rest, 'constraints in the report of an unconstrained fit')
    for (q, op), a, (kind, f) in zip(qs, ans, cons):
        v = float(f(values))
        try:
            shown = float(eval(q, {'__builtins__': {}}, dict(values)))
        except NameError:
            shown = None    # shows intermediate variables
        a = number_in(a, 'answer')
        tol = 1e-7 * (1 + abs(v) + sum(abs(x) ** 2 for x in values.values()))
        if shown is not None:
            about_abs(a, shown, tol, 'answer to {} {} 0'.format(q, op))
        if kind == 'Eq':
            require(op == '==', 'an equality is shown as {}', op)
            about_abs(abs(a), abs(v), tol, 'answer to {}'.format(q))
        else:
            s = {'Ge': 1, 'Le': -1}[kind] * {'>=': 1, '<=': -1, '==': 0}[op]
            require(s != 0, '{} is shown as equality', kind)
            about_abs(s * a, v, tol, 'answer to {} {} 0 for {}'.format(q, op, kind))


def about_abs(a, b, tol, what):
    require(abs(a - b) <= tol, '{}: {} instead of {}', what, a, b)


# ---- results made from given numbers ---------------------------------------------

@st.composite
def cons_for(draw, names, most=2):
    out = []
    for _ in range(draw(st.integers(0, most))):
        terms = {q: draw(st.sampled_from([1.0, -1.0, 2.0, 0.5])) for q in draw(st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True))}
        out.append([draw(st.sampled_from(['Eq', 'Ge', 'Le'])), terms, draw(exprs.number(-4, 4)), draw(st.sampled_from([1, 2])), draw(st.booleans())])
    return out


def con_sides(c, p):
    """(lhs, rhs) for numbers or symbols p."""
    kind, terms, rhs, power, swap = c
    l = sum(k * p[q] ** power for q, k in sorted(terms.items()))
    return (rhs, l) if swap else (l, rhs)


def con_symbolic(c, table):
    import sympy
    import symfit
    l, r = con_sides(c, table)
    out = getattr(symfit, c[0])(l, r, evaluate=False) if c[4] else getattr(symfit, c[0])(l, r)
    if not isinstance(out, sympy.core.relational.Relational):
        raise Reject('sympy decides the constraint')
    return out


def cons_ref(cons):
    def f(c):
        # sympy may turn Ge(number, expression) around; the truth is the same
        return lambda p: con_sides(c, p)[0] - con_sides(c, p)[1]
    return [(c[0], f(c)) for c in cons]


@st.composite
def _made(draw):
    n = draw(st.integers(1, 6))
    names = draw(st.one_of(exprs.names(n), st.permutations(LONG).map(lambda l: list(l)[:n])))
    big = st.sampled_from([1.0, 1.0, 1e-12, 1e9, -1e-3])
    vals = [draw(exprs.number()) * draw(big) for _ in names]
    k = draw(st.sampled_from(['none', 'posdef', 'posdef', 'any', 'nan', 'zeros', 'inf']))
    cov = [[draw(exprs.number()) for _ in names] for _ in names]
    c = {'names': names, 'vals': vals, 'popt': draw(st.sampled_from(['list', 'array', 'tuple'])), 'cov': k, 'entries': cov,
         'fixed': draw(st.lists(st.sampled_from(names), max_size=n - 1, unique=True)),
         'objective': draw(st.sampled_from(['LeastSquares', 'VectorLeastSquares', 'LogLikelihood', 'MinimizeModel'])),
         'message': draw(st.sampled_from(['Optimization terminated.', 'p 1.0 2.0', '', 3, None])), 'bytes': draw(st.booleans()),
         'nit': draw(st.sampled_from([None, 0, 7, 120])), 'fun': draw(exprs.number()), 'cons': draw(cons_for(names)),
         'minimizer': draw(st.sampled_from(['SLSQP', 'BFGS', 'COBYLA', 'chain'])), 'scalar_con': draw(st.booleans())}
    return c


@facet(FACETS, 'made', _made,
       'results of random parameters (long and short names in any order of creation, some fixed), values, covariance matrices (absent, '
       'positive definite, arbitrary, not finite), objectives, statuses and constraints: accessors and report against the given numbers; '
       'non-trivial: at least two parameters')
def made(case):
    import sympy
    import symfit
    from symfit import Parameter, Variable, Fit
    from symfit.core import objectives, minimizers as M
    from symfit.core.fit_results import FitResults
    names = case['names']
    table = {nm: Parameter(nm, fixed=nm in case['fixed'], value=v) for nm, v in zip(names, case['vals'])}
    srt = sorted(names)
    if set(names) & {'xq', 'yq'}:
        raise Reject('name')
    X, Y = Variable('xq'), Variable('yq')
    kind = case['objective']
    if kind == 'MinimizeModel':
        model, data = {Y: sum((table[q] - i) ** 2 for i, q in enumerate(srt))}, {}
    elif kind == 'LogLikelihood':
        model, data = {Y: sympy.exp(-X ** 2 * sum(table[q] ** 2 for q in srt))}, {'xq': np.array([0.5, 1.0])}
    else:
        model, data = {Y: sum(table[q] * X ** (i + 1) for i, q in enumerate(srt))}, {'xq': np.array([0.0, 0.5, 1.0, 1.5]), 'yq': np.array([1.0, 0.5, 2.0, 1.0])}
    cls = M.SLSQP if case['cons'] and case['minimizer'] == 'BFGS' else [M.BFGS, M.SLSQP] if case['minimizer'] == 'chain' else getattr(M, case['minimizer'])
    cons = [c for c in case['cons'] if set(c[1]) & set(srt)]
    if case['minimizer'] == 'COBYLA' and any(c[0] == 'Eq' for c in cons):
        raise Reject('COBYLA has no equalities')
    fit = Fit(model, objective=getattr(objectives, kind), minimizer=cls, constraints=[con_symbolic(c, table) for c in cons] or None, **data)
    fm = fit.minimizer
    minimizer_cons = (fm.minimizers[-1] if case['minimizer'] == 'chain' else fm).constraints if cons else None
    order = np.argsort(names)
    vals = [case['vals'][i] for i in order]
    popt = {'list': list, 'array': np.array, 'tuple': tuple}[case['popt']](vals)
    n = len(names)
    E = np.array(case['entries'])
    cov = {'none': None, 'posdef': E @ E.T + np.eye(n), 'any': E, 'nan': np.where(np.eye(n) > 0, np.nan, E), 'zeros': np.zeros((n, n)),
           'inf': np.full((n, n), np.inf)}[case['cov']]
    out = {'fun': np.array([case['fun'], 1.0, -2.0, 0.5]) if kind == 'VectorLeastSquares' else case['fun']}
    if case['nit'] is not None:
        out['nit'] = case['nit']
    msg = case['message']
    sent = msg.encode() if isinstance(msg, str) and case['bytes'] else msg
    res = FitResults(model=fit.model, popt=popt, covariance_matrix=cov, minimizer=fm, objective=fit.objective, message=sent,
                     constraints=minimizer_cons, **out)
    gof = {'objective_value': out['fun']}
    values = dict(zip(srt, vals))
    if kind == 'LeastSquares':
        gof['chi_squared'] = 2 * case['fun']
    elif kind == 'VectorLeastSquares':
        gof['chi_squared'] = np.sum(out['fun'] ** 2)
    elif kind == 'LogLikelihood':
        gof['log_likelihood'], gof['likelihood'] = -case['fun'], np.exp(-case['fun'])
    if 'LeastSquares' in kind:
        f = sum(values[q] * data['xq'] ** (i + 1) for i, q in enumerate(srt))
        gof['r_squared'] = 1 - np.sum((data['yq'] - f) ** 2) / np.sum((data['yq'] - data['yq'].mean()) ** 2)
    else:
        require('chi_squared' not in res.gof_qualifiers and 'r_squared' not in res.gof_qualifiers, 'chi-squared or R-squared for {}', kind)
    check_result(res, list(table.values()), values, cov, gof, msg, case['nit'], cons_ref(cons))
    ans = res.model(**dict({k: v for k, v in data.items() if k == 'xq'}, **res.params))
    want = {'MinimizeModel': lambda: sum((values[q] - i) ** 2 for i, q in enumerate(srt)),
            'LogLikelihood': lambda: np.exp(-data['xq'] ** 2 * sum(v ** 2 for v in values.values()))}.get(
                kind, lambda: sum(values[q] * data['xq'] ** (i + 1) for i, q in enumerate(srt)))()
    close(np.ravel(ans[0]), np.ravel(want), 1e-9 * (1 + np.max(np.abs(want)) + max(abs(v) for v in vals) ** 2), 'model at the reported parameters')
    return info(n > 1, kind, 'cov ' + case['cov'], 'constraints=%d' % len(cons), 'fixed' if case['fixed'] else 'free', case['minimizer'])


# ---- results of fits -----------------------------------------------------------

MINIS = ['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'COBYLA', 'NelderMead', 'Powell', 'MINPACK', 'BasinHopping', 'DifferentialEvolution', 'chain', None]


@st.composite
def _fits(draw):
    c = draw(fg.linear_case(nparams=(1, 4), fixed=draw(st.sampled_from([False, True])), guess=2))
    c['minimizer'] = draw(st.sampled_from(MINIS))
    c['steps'] = draw(st.lists(st.sampled_from(['BFGS', 'NelderMead', 'LBFGSB', 'SLSQP', 'COBYLA', 'TrustConstr']), min_size=1, max_size=3))
    c['cons'] = draw(cons_for(sorted(c['spec']['params']))) if draw(st.booleans()) else []
    c['numeric'] = draw(st.integers(0, 4)) == 0
    c['abs'] = draw(st.sampled_from([None, True, False]))
    c['model'] = draw(st.sampled_from(['Model', 'Model', 'GradientModel', 'CallableModel']))
    c['how'] = draw(st.sampled_from(['fit', 'fit', 'fit', 'scalar', 'callable']))
    return c


@facet(FACETS, 'fits', _fits,
       'results of fits, scalar minimisations and minimizers used directly on callables, with every minimizer, fixed parameters, bounds and '
       'constraints: reported numbers against the raw output of the optimiser and each other; non-trivial: at least two parameters')
def fits(case):
    import symfit
    from symfit import Fit
    from symfit.core import minimizers as M, objectives
    names = sorted(case['spec']['params'])
    name = case['minimizer']
    free = [p for p in names if p not in case['fixed']]
    fg.optimum(case, maxcond=100.0, big=6.0)
    cls = getattr(symfit, case['model'], None) or getattr(symfit.core.models, case['model'])
    spec = case['spec']
    if case['numeric']:
        cls = symfit.CallableNumericalModel
        spec = dict(spec, comps=[[c, a, 'num'] for c, a, _ in spec['comps']])
    attrs = {p: {'value': case['guess'][p], 'fixed': p in case['fixed']} for p in names}
    if name == 'DifferentialEvolution':
        for p in names:
            attrs[p].update(min=case['guess'][p] - 3, max=case['guess'][p] + 4)
    steps = case['steps'] if name == 'chain' else [name or 'auto']
    cons = []
    for c in case['cons']:
        if c[0] == 'Eq' and ('COBYLA' in steps or cons) or not set(c[1]) & set(free):
            continue
        # keep the problem feasible at the guess
        l, r = con_sides(c, case['guess'])
        k, terms, rhs, power, swap = c
        v = l - r
        if (c[0] == 'Ge' and v < 0) or (c[0] == 'Le' and v > 0) or c[0] == 'Eq':
            rhs = rhs + (-v if swap else v)
        cons.append([k, terms, rhs, power, swap])
    if not any(s in ('SLSQP', 'TrustConstr', 'COBYLA', 'auto', 'BasinHopping') for s in steps):
        cons = []
    how = case['how'] if name not in ('MINPACK',) else 'fit'
    if how == 'callable' and (name is None or name == 'chain'):
        how = 'fit'
    opts = {'DifferentialEvolution': {'seed': 1, 'maxiter': 3, 'popsize': 4}, 'BasinHopping': {'niter': 1}}.get(name, {})
    if name in ('NelderMead', 'COBYLA', 'Powell', 'TrustConstr'):
        opts = {'options': {'maxiter': 40}}
    np.random.seed(2)
    b = mg.build(spec, pattrs=attrs, cls=cls)
    P = [b.table[q] for q in names]
    symcons = [con_symbolic(c, b.table) for c in cons]
    kw = {}
    if name == 'chain':
        kw['minimizer'] = [getattr(M, s) for s in case['steps']]
    elif name:
        kw['minimizer'] = getattr(M, name)
    if symcons:
        kw['constraints'] = symcons
    fun = lambda p: sum((i + 1) * (p[q] - 0.25 * i) ** 2 for i, q in enumerate(names))
    try:
        if how == 'fit':
            data = fg.data_kwargs(case)
            fit = Fit(b.model, absolute_sigma=case['abs'], **dict(data, **kw))
            res = fit.execute(**opts)
            model = b.model
        elif how == 'scalar':
            fit = Fit({b.table[spec['vars'][0]]: fun(b.table)}, **kw)
            res = fit.execute(**opts)
            model = fit.model
        else:
            f = eval('lambda {}: fun(dict(locals()))'.format(', '.join(names)), {'fun': fun})
            if symcons:
                raise Reject('constraints need a symbolic objective')
            fit = None
            res = getattr(M, name)(f, list(reversed(P))).execute(**opts)
    except np.linalg.LinAlgError:
        raise Reject('scipy failed')
    vals = {q: float(res.params[q]) if q in res.params else None for q in names}
    require(all(v is not None for v in vals.values()) and all(np.isfinite(v) for v in vals.values()), 'params {}', dict(res.params))
    for q, v in case['fixed'].items():
        require(vals[q] == v, 'fixed {} reported as {}', q, vals[q])
    raw = res.minimizer_output.get('x')
    gof = {'objective_value': None}
    if how == 'fit':
        S = fg.chi2(case, vals, 1e12)[0]
        gof.update(chi_squared=None, r_squared=None)
        close(res.chi_squared, 2 * S, 1e-7 * (1 + S), 'chi_squared')
    else:
        gof['objective_value'] = None
        close(float(np.ravel(res.objective_value)[0]), fun(vals), 1e-7 * (1 + fun(vals)), 'objective_value')
        require('chi_squared' not in res.gof_qualifiers, 'chi-squared of a function')
    cov = res.covariance_matrix
    if how == 'callable':
        require(cov is None, 'covariance of a minimizer used directly')
    shown = cons_ref(cons) if not name == 'chain' or steps[-1] in ('SLSQP', 'TrustConstr', 'COBYLA') else []
    if name == 'BasinHopping':
        shown = None
    if shown is None:
        shown = cons_ref(cons) if res.constraints else []
    check_result(res, P, vals, cov, gof, None, 'any', shown)
    if how == 'fit':
        env = dict({v: np.array(case['data'][v]['v'], dtype=float).reshape(case['data'][v]['shape']) for v in spec['vars']})
        want, mag = mg.ref_values(spec, dict(env, **vals))
        ans = res.model(**dict(env, **res.params))._asdict()
        for v, got in ans.items():
            close(np.broadcast_to(got, np.shape(want[v.name])), want[v.name], 1e-9 * mag, 'model(**params): ' + v.name)
    elif how == 'scalar':
        close(float(np.ravel(res.model(**res.params)[0])[0]), fun(vals), 1e-9 * (1 + fun(vals)), 'model(**params)')
    if how == 'fit' and fit is not None:
        require(res.model is fit.model or res.model == fit.model, 'model of the result')
    require(isinstance(res.minimizer, M.BaseMinimizer), 'minimizer {!r}', res.minimizer)
    return info(len(names) > 1, how, name, 'constraints=%d' % len(cons), 'fixed' if case['fixed'] else 'free', 'cov' if cov is not None else 'no cov',
                'numeric' if case['numeric'] else case['model'])
