"""C15: the optimiser is handed exactly the problem the user posed."""
import contextlib

import numpy as np
from hypothesis import strategies as st

import exprs
import models_gen as mg
import objgen
import fitgen as fg
from core import facet, info, close, require, expect_raises, Violation, Reject

FACETS = {}
METHOD = {'BFGS': 'BFGS', 'LBFGSB': 'L-BFGS-B', 'SLSQP': 'SLSQP', 'TrustConstr': 'trust-constr', 'COBYLA': 'COBYLA',
          'NelderMead': 'Nelder-Mead', 'Powell': 'Powell'}
GRADIENT = ['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'MINPACK']
BOUNDED = ['LBFGSB', 'SLSQP', 'TrustConstr', 'MINPACK', 'DifferentialEvolution']
CONSTRAINED = ['SLSQP', 'TrustConstr', 'COBYLA']


class Call:
    """One call of a scipy optimiser."""
    def __init__(self, name, args, kw):
        import inspect
        import scipy.optimize as so
        self.name = name
        sig = inspect.signature(ORIGINAL[name])
        self.bound = sig.bind(*args, **kw)
        self.given = dict(kw)
        a = dict(self.bound.arguments)
        for k, prm in sig.parameters.items():
            if prm.kind is prm.VAR_KEYWORD and k in a:
                a.update(a.pop(k))
        self.a = a

    def get(self, k, default=None):
        return self.a.get(k, default)

    @property
    def fun(self):
        return self.a['fun'] if 'fun' in self.a else self.a['func']


ORIGINAL = {}
NAMES = ['minimize', 'differential_evolution', 'basinhopping', 'least_squares']


@contextlib.contextmanager
def scipy_spy(handler):
    """Replace scipy's optimisers, wherever the tested code refers to them, by
    handler(call, original)."""
    import sys
    import functools
    import scipy.optimize as so
    for n in NAMES:
        ORIGINAL.setdefault(n, getattr(so, n))
    depth = [0]

    def make(n):
        orig = ORIGINAL[n]

        @functools.wraps(orig)
        def spy(*args, **kw):
            if depth[0]:  # basinhopping using minimize
                return orig(*args, **kw)
            depth[0] += 1
            try:
                return handler(Call(n, args, kw), lambda: orig(*args, **kw))
            finally:
                depth[0] -= 1
        return spy
    spies = {n: make(n) for n in NAMES}
    patched = []
    for mname, mod in list(sys.modules.items()):
        if mod is so or mname == 'symfit' or mname.startswith('symfit.'):
            for k, v in list(vars(mod).items()):
                for n in NAMES:
                    if v is ORIGINAL[n]:
                        patched.append((mod, k, v))
                        setattr(mod, k, spies[n])
    try:
        yield
    finally:
        for mod, k, v in patched:
            setattr(mod, k, v)


def scipy_trouble(err):
    return isinstance(err, (np.linalg.LinAlgError, ZeroDivisionError)) or 'infs or NaNs' in str(err)


def fake_result(case, n, call=None, fun=1.25):
    from scipy.optimize import OptimizeResult
    x = np.array(case['answer'][:n], dtype=float)
    return OptimizeResult(x=x, fun=fun, success=True, message='made up', nit=17, niter=17, nfev=23, status=0)


# ---- the posed problem -------------------------------------------------------

@st.composite
def _posed(draw):
    c = draw(objgen.ls_case(vector=draw(st.integers(0, 3)) == 0, fixed=False, spec_kw=dict(nvars=(1, 2), nparams=(1, 4))))
    ps = c['spec']['params']
    c['kind'] = draw(st.sampled_from(['Model', 'Model', 'GradientModel', 'CallableModel', 'CallableNumericalModel']))
    if c['kind'] == 'CallableNumericalModel':
        for comp in c['spec']['comps']:
            comp[2] = draw(st.sampled_from(['num', 'num', 'sym']))
        c['spec']['comps'][0][2] = 'num'
    if len(ps) > 1 and draw(st.integers(0, 2)) == 0:
        c['fixed'] = {p: draw(exprs.number()) for p in draw(st.permutations(ps))[:draw(st.integers(1, len(ps) - 1))]}
    c['points'] = [dict(q, **c['fixed']) for q in c['points']]
    c['guess'] = dict(c['points'][0])
    c['bounds'] = {p: draw(st.sampled_from([None, [-9, None], [None, 9], [-9, 9], [0, 9], [-9, 0]])) for p in ps}
    # (a permutation, as its first element is spread evenly)
    c['minimizer'] = draw(st.permutations(['BFGS', 'LBFGSB', 'SLSQP', 'SLSQP', 'TrustConstr', 'TrustConstr', 'COBYLA', 'NelderMead', 'Powell',
                                           'MINPACK', 'MINPACK', 'DifferentialEvolution', 'BasinHopping', 'BasinHopping', None]))[0]
    c['cons'] = [[draw(st.sampled_from(['Eq', 'Ge', 'Le'])), draw(st.lists(st.sampled_from(ps), min_size=1, max_size=3, unique=True))]
                 for _ in range(draw(st.integers(0, 3)))]
    c['objective'] = draw(st.sampled_from(['LeastSquares', 'LeastSquares', 'LogLikelihood']))
    if c['minimizer'] == 'MINPACK':
        c['objective'] = 'LeastSquares'
    if c['objective'] == 'LogLikelihood':
        dep, _ = mg.roles(c['spec'])
        for comp in c['spec']['comps']:
            if comp[0] in dep:
                comp[1] = ['texp', comp[1]]
    c['answer'] = [draw(exprs.number()) for _ in ps]
    # strategies for derivatives chosen upon execution
    c['jacobian'] = draw(st.sampled_from([None, None, None, '2-point', '3-point']))
    c['hessian'] = draw(st.sampled_from([None, None, 'SR1', 'BFGS']))
    c['options'] = [[i, draw(st.integers(0, 6))] for i in draw(st.permutations(range(12)))[:draw(st.sampled_from([0, 2, 3, 5, 8]))]]
    return c


def con_expr(i, which, table):
    return sum((i + 1) * (k + 1) * table[q] ** (k + 1) for k, q in enumerate(which))


CON_RHS = [1.0, -5.0, 2.5]


def con_ref(i, kind, which, p, names):
    v = sum((i + 1) * (k + 1) * p[q] ** (k + 1) for k, q in enumerate(which)) - CON_RHS[i]
    g, h = np.zeros(len(names)), np.zeros((len(names),) * 2)
    for k, q in enumerate(which):
        g[names.index(q)] = (i + 1) * (k + 1) ** 2 * p[q] ** k
        if k:
            h[names.index(q), names.index(q)] = (i + 1) * (k + 1) ** 2 * k * p[q] ** (k - 1)
    s = -1 if kind == 'Le' else 1
    return s * v, s * g, s * h


def reference(case, p):
    """Value, gradient and Hessian of the posed objective in all parameters."""
    from c12 import reference as ref
    return ref(case, p, case['objective'] == 'LogLikelihood')


# every option with values scipy accepts; a case draws any subset of them
OPTIONS = {
    'minimize': {'tol': [1e-5, 1e-3], 'callback': [print], 'options': [{}, {'maxiter': 3}, {'maxiter': 7, 'disp': False}, {'disp': False}]},
    'least_squares': {'ftol': [1e-5], 'xtol': [1e-4], 'gtol': [1e-6], 'max_nfev': [9], 'loss': ['soft_l1', 'linear', 'cauchy'], 'f_scale': [0.5],
                      'method': ['dogbox', 'trf'], 'x_scale': [2.0, 'jac'], 'tr_solver': ['exact', 'lsmr'], 'verbose': [0]},
    'differential_evolution': {'maxiter': [3], 'popsize': [5], 'seed': [4, 0], 'polish': [True, False], 'strategy': ['best1bin', 'rand1bin'],
                               'mutation': [(0.2, 0.5), 0.7], 'recombination': [0.3, 0.9], 'init': ['random', 'latinhypercube'],
                               'tol': [0.1, 0.0], 'atol': [0.5], 'disp': [False], 'callback': [print]},
    'basinhopping': {'niter': [2, 0], 'T': [0.5], 'stepsize': [0.25], 'seed': [3, 0], 'interval': [7], 'niter_success': [1], 'disp': [False],
                     'callback': [print], 'minimizer_kwargs': [None, {}, {'tol': 1e-3}, {'options': {'maxiter': 4}}, {'method': 'TNC'},
                                                              {'tol': 1e-3, 'options': {}}, {'method': 'CG', 'options': {'maxiter': 4}}]},
}


def options_of(which, code):
    """Options from a list of [name, value] numbers."""
    table = OPTIONS[which]
    names = sorted(table)
    out = {}
    for i, j in code:
        k = names[i % len(names)]
        if k not in out:
            out[k] = table[k][j % len(table[k])]
    return out


def sameish(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return all(k in b and sameish(v, b[k]) for k, v in a.items())
    return a is b or a == b


@facet(FACETS, 'posed', _posed,
       'scipy is replaced by a recorder that returns a made-up answer: starting point, method, bounds, options, objective, gradient, '
       'Hessian and constraints (type, value, derivatives) it was given against forward mode at several points, and the answer in the '
       'results; non-trivial: fixed parameters, bounds or constraints present')
def posed(case):
    import copy
    import symfit
    from symfit import Fit
    from symfit.core import objectives
    name = case['minimizer']
    like = case['objective'] == 'LogLikelihood'
    shapes = {tuple(d['shape']) for d in case['y'].values() if d}
    if name == 'MINPACK' and (like or len(shapes) > 1):
        raise Reject('shapes')
    names = sorted(case['spec']['params'])
    free = [p for p in names if p not in case['fixed']]
    m = np.array([p in free for p in names])
    pattrs = {}
    for p in names:
        bd, v = case['bounds'][p], case['guess'][p]
        pattrs[p] = {'value': v, 'fixed': p in case['fixed']}
        if name == 'DifferentialEvolution':
            bd = [-9, 9]
        if bd and (bd[0] is None or bd[0] <= v) and (bd[1] is None or v <= bd[1]):
            pattrs[p].update(min=bd[0], max=bd[1])
    cls = getattr(symfit, case['kind'], None) or getattr(symfit.core.models, case['kind'])
    b = mg.build(case['spec'], pattrs=pattrs, cls=cls)
    kw = fg.data_kwargs(case)
    if like:
        kw = {v: kw[v] for v in case['data']}
        kw['objective'] = objectives.LogLikelihood
    if name:
        kw['minimizer'] = fg.minimizer(name)
    cons = []
    takes = name in CONSTRAINED or name in (None, 'BasinHopping')
    if takes:
        for i, (kind, which) in enumerate(case['cons']):
            if name == 'COBYLA' and kind == 'Eq':
                kind = 'Ge'
            cons.append((kind, which))
        kw['constraints'] = [getattr(symfit, k)(con_expr(i, w, b.table), CON_RHS[i]) for i, (k, w) in enumerate(cons)]
    bounded = any(('min' in a and a['min'] is not None) or ('max' in a and a['max'] is not None) for a in pattrs.values())
    bounded = bounded or bool(case['fixed'])  # documented: a minimizer that supports bounds
    effective = name
    if name in (None, 'BasinHopping'):
        effective = 'SLSQP' if cons else 'LBFGSB' if bounded else 'BFGS'
    S0 = [reference(case, p) for p in case['points']]   # also rejects
    has_jac = case['kind'] in ('Model', 'GradientModel')
    has_jac = has_jac or case['kind'] == 'CallableNumericalModel' and hasattr(b.model, 'eval_jacobian')
    has_hess = case['kind'] == 'Model'
    fit = Fit(b.model, **kw)
    calls = []
    which_fun = {'MINPACK': 'least_squares', 'DifferentialEvolution': 'differential_evolution', 'BasinHopping': 'basinhopping'}.get(name, 'minimize')
    opts = options_of(which_fun, case['options'])
    mine = copy.deepcopy(opts)
    own = {}
    if case['jacobian'] and name in GRADIENT:
        own['jacobian'] = case['jacobian']
    if case['hessian'] and name == 'TrustConstr':
        import scipy.optimize
        own['hessian'] = getattr(scipy.optimize, case['hessian'])()
    fun = 1.25
    if name == 'MINPACK':
        fun = np.array([3.0, 4.0])

    def handler(call, original):
        calls.append(call)
        return fake_result(case, len(free), fun=fun)
    with scipy_spy(handler):
        res = fit.execute(**mine, **own)
    require(mine == opts, 'the options were modified to {}', mine)
    require(len(calls) == 1, 'scipy was called {} times', len(calls))
    call = calls[0]
    require(call.name == which_fun, '{} used scipy function {}', name, call.name)
    # options
    for k, v in opts.items():
        got = call.get(k)
        if k == 'minimizer_kwargs' and v is None:
            v = {}
        require(sameish(v, got), 'option {} = {} reached the optimiser as {}', k, v, got)
    if name != 'DifferentialEvolution':
        close(call.get('x0'), [case['guess'][p] for p in free], 0, 'starting point')
    # bounds
    want = [(pattrs[p].get('min'), pattrs[p].get('max')) for p in free]
    inner = call.get('minimizer_kwargs') if name == 'BasinHopping' else call.a
    if name == 'MINPACK':
        lo, hi = inner['bounds']
        close(lo, [-np.inf if l is None else l for l, h in want], 0, 'lower bounds')
        close(hi, [np.inf if h is None else h for l, h in want], 0, 'upper bounds')
    elif effective in BOUNDED:
        got = [tuple(q) for q in inner['bounds']]
        require(got == want, 'bounds {} instead of {}', got, want)
    elif name != 'BasinHopping':
        require(inner.get('bounds') is None, '{} got bounds', name)
    if effective in METHOD and 'method' not in (opts.get('minimizer_kwargs') or {}):
        require(str(inner.get('method')).lower() == METHOD[effective].lower(), 'method {} for {}', inner.get('method'), name)
    # functions
    jac = inner.get('jac')
    hess = inner.get('hess')
    grads = effective in GRADIENT
    if 'jacobian' in own:
        require(jac == own['jacobian'], 'jacobian={} reached the optimiser as {}', own['jacobian'], jac)
    if 'hessian' in own:
        require(hess is own['hessian'], 'the hessian given upon execution reached the optimiser as {}', hess)
    if has_jac and grads and 'jacobian' not in own:
        require(callable(jac), '{}: no gradient was passed although the model has one: {}', effective, jac)
    if has_hess and effective == 'TrustConstr' and 'hessian' not in own:
        require(callable(hess), 'no Hessian was passed although the model has one: {}', hess)
    pts = list(zip(case['points'], S0))
    for p, (S, G, H, mag) in pts + pts[:1]:
        x = np.array([p[q] for q in free])
        tol = 1e-9 * (1 + mag) ** 2 * (1 + abs(S))
        kept = x.copy()
        got = call.fun(x)
        if name == 'MINPACK':
            pc, _ = objgen.pieces(case, p, 1000)
            r = np.sqrt(sum(((j.v - y) / s) ** 2 for y, s, j in pc.values()))
            close(got, r.ravel(), tol, 'residuals')
            if callable(jac):
                num = sum(j.g * ((j.v - y) / s ** 2) for y, s, j in pc.values())
                with np.errstate(all='ignore'):
                    J = (num / r).reshape(len(m), -1)[m].T
                bad = r.ravel() < 1e-6
                J[bad] = np.nan
                gj = np.array(jac(x), dtype=float)
                require(gj.shape == J.shape, 'Jacobian of the residuals has shape {} instead of {}', gj.shape, J.shape)
                gj[bad] = np.nan
                rm = float(np.min(r.ravel()[~bad])) if np.any(~bad) else 1.0
                close(gj, J, tol * 10 / max(1e-6, rm), 'Jacobian of the residuals')
            continue
        close(np.ravel(got), [S], tol, 'objective')
        if callable(jac):
            close(jac(x), G[m], 10 * tol * (1 + np.abs(G).max()), 'gradient')
        if callable(hess) and 'hessian' not in own:
            close(hess(x), H[np.ix_(m, m)], 100 * tol * (1 + np.abs(H).max()), 'Hessian')
        require(np.array_equal(kept, x), 'the point was modified')
    # constraints
    if effective in CONSTRAINED:
        got = list(inner.get('constraints') or ())
        require(len(got) == len(cons), '{} constraints were passed instead of {}', len(got), len(cons))
        for i, (con, (kind, which)) in enumerate(zip(got, cons)):
            cj = ch = None
            if isinstance(con, dict):
                require(con['type'] == ('eq' if kind == 'Eq' else 'ineq'), 'constraint {} ({}) is passed as {}', i, kind, con['type'])
                cf, cj = con['fun'], con.get('jac')
            else:
                close(np.ravel(con.lb), [0], 0, 'lower bound of constraint {}'.format(i))
                close(np.ravel(con.ub), [0 if kind == 'Eq' else np.inf], 0, 'upper bound of constraint {}'.format(i))
                cf, cj, ch = con.fun, con.jac, con.hess
            if case['kind'] in ('Model', 'GradientModel') and effective != 'COBYLA':
                require(callable(cj), 'no gradient of constraint {} was passed', i)
            if case['kind'] == 'Model' and effective == 'TrustConstr':
                require(callable(ch), 'no Hessian of constraint {} was passed', i)
            for p in case['points']:
                x = np.array([p[q] for q in free])
                v, g, h = con_ref(i, kind, which, p, names)
                tol = 1e-9 * (1 + abs(v) + np.abs(h).max() + np.abs(g).max())
                close(np.ravel(cf(x)), [v], tol, 'value of constraint {}'.format(i))
                if callable(cj):
                    close(np.ravel(cj(x)), g[m], tol, 'gradient of constraint {}'.format(i))
                if callable(ch):
                    for lam in (2.0, -0.5):
                        close(np.reshape(ch(x, np.array([lam])), (len(free),) * 2), lam * h[np.ix_(m, m)], tol, 'Hessian of constraint {}'.format(i))
    # outcome
    p = fg.result_params(res)
    want = dict(case['guess'])
    want.update(zip(free, case['answer']))
    require(list(p) == names, 'parameters of the result {}', list(p))
    for q in names:
        require(p[q] == want[q], 'parameter {} is reported as {} instead of {}', q, p[q], want[q])
    require(res.status_message == 'made up', 'status {}', res.status_message)
    close(res.objective_value, fun, 0, 'objective value')
    require(res.minimizer_output.get('success') is True, 'success {}', res.minimizer_output.get('success'))
    if name not in ('COBYLA',):
        require(res.iterations == 17, 'iterations {}', res.iterations)
    return info(bool(case['fixed']) or bounded or bool(cons), name, case['kind'], case['objective'], 'effective=' + effective,
                'fixed' if case['fixed'] else 'free', 'bounded' if bounded else 'unbounded', 'constraints=%d' % len(cons),
                'options=%d' % len(opts), *['option ' + k for k in opts], *['own ' + k for k in own])


# ---- every point a real optimiser probes -------------------------------------

@st.composite
def _probe(draw):
    c = draw(_posed())
    c['minimizer'] = draw(st.sampled_from(['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'COBYLA', 'NelderMead', 'Powell', 'MINPACK',
                                           'BasinHopping', 'DifferentialEvolution']))
    c['objective'] = 'LeastSquares'
    c['again'] = draw(st.booleans())
    return c


@facet(FACETS, 'probe', _probe,
       'real optimiser runs (few iterations): at every point the optimiser probes, objective, gradient, Hessian and constraints are '
       'compared with forward mode; non-trivial: at least three points probed')
def probe(case):
    import symfit
    from symfit import Fit
    name = case['minimizer']
    shapes = {tuple(d['shape']) for d in case['y'].values() if d}
    if name == 'MINPACK' and len(shapes) > 1:
        raise Reject('shapes')
    names = sorted(case['spec']['params'])
    free = [p for p in names if p not in case['fixed']]
    m = np.array([p in free for p in names])
    pattrs = {p: {'value': case['guess'][p], 'fixed': p in case['fixed']} for p in names}
    if name in BOUNDED:
        for p in free:
            pattrs[p].update(min=case['guess'][p] - 1, max=case['guess'][p] + 2)
    cls = getattr(symfit, case['kind'], None) or getattr(symfit.core.models, case['kind'])
    b = mg.build(case['spec'], pattrs=pattrs, cls=cls)
    kw = dict(fg.data_kwargs(case), minimizer=fg.minimizer(name))
    cons = []
    if name in CONSTRAINED:
        cons = [('Ge' if name == 'COBYLA' and k == 'Eq' else k, w) for k, w in case['cons']][:2]
        # more equations than unknowns are beyond the optimisers
        cons = [('Ge' if k == 'Eq' and (i or not set(w) & set(free)) else k, w) for i, (k, w) in enumerate(cons)]
        kw['constraints'] = [getattr(symfit, k)(con_expr(i, w, b.table), CON_RHS[i]) for i, (k, w) in enumerate(cons)]
    reference(case, case['guess'])
    fit = Fit(b.model, **kw)
    seen = []

    def at(x):
        p = dict(zip(free, np.real(np.atleast_1d(x))))
        return dict(p, **case['fixed'])

    def ref(x):
        try:
            return reference(case, at(x))
        except Reject:
            return None

    def wrap(f, what, pick):
        def g(x, *args):
            x = np.array(x)
            out = f(x.copy(), *args)
            if len(seen) < 60 and not np.iscomplexobj(x):
                r = ref(x)
                if r is not None:
                    seen.append(what)
                    S, G, H, mag = r
                    tol = 1e-9 * (1 + mag) ** 2 * (1 + abs(S) + np.abs(G).max() + np.abs(H).max()) * 10
                    if pick != 'residuals':
                        v = {'S': S, 'G': G[m], 'H': H[np.ix_(m, m)]}[pick]
                        close(np.reshape(out, np.shape(v)), v, tol, '{} at probed point {}'.format(what, x.tolist()))
                    else:
                        pc, _ = objgen.pieces(case, at(x), 1000)
                        rr = np.sqrt(sum(((j.v - y) / s) ** 2 for y, s, j in pc.values()))
                        close(out, rr.ravel(), tol, '{} at probed point {}'.format(what, x.tolist()))
            return out
        return g

    def wrapcon(f, what, i, kind, which, pick):
        def g(x, *args):
            x = np.array(x)
            out = f(x.copy(), *args)
            if not np.iscomplexobj(x) and np.all(np.abs(x) < 100):
                v, gr, h = con_ref(i, kind, which, at(x), names)
                tol = 1e-9 * (1 + abs(v) + np.abs(h).max() + np.abs(gr).max())
                close(np.ravel(out), np.ravel([v] if pick == 'v' else gr[m] if pick == 'g' else h[np.ix_(m, m)] * args[0]), tol,
                      '{} at probed point {}'.format(what, x.tolist()))
            return out
        return g

    def handler(call, original):
        a = dict(call.a)
        key = 'fun' if 'fun' in a else 'func'
        f = wrap(a.pop(key), 'objective', 'residuals' if name == 'MINPACK' else 'S')
        if callable(a.get('jac')) and name != 'MINPACK':
            a['jac'] = wrap(a['jac'], 'gradient', 'G')
        if callable(a.get('hess')):
            a['hess'] = wrap(a['hess'], 'Hessian', 'H')
        mk = a.get('minimizer_kwargs')
        if mk:
            a['minimizer_kwargs'] = mk = dict(mk)
            if callable(mk.get('jac')):
                mk['jac'] = wrap(mk['jac'], 'gradient', 'G')
        cl = a.get('constraints')
        if cl:
            out = []
            for i, (con, (kind, which)) in enumerate(zip(cl, cons)):
                if isinstance(con, dict):
                    con = dict(con, fun=wrapcon(con['fun'], 'constraint %d' % i, i, kind, which, 'v'))
                    if callable(con.get('jac')):
                        con['jac'] = wrapcon(con['jac'], 'gradient of constraint %d' % i, i, kind, which, 'g')
                else:
                    con.fun = wrapcon(con.fun, 'constraint %d' % i, i, kind, which, 'v')
                    if callable(con.jac):
                        con.jac = wrapcon(con.jac, 'gradient of constraint %d' % i, i, kind, which, 'g')
                    if callable(con.hess):
                        con.hess = wrapcon(con.hess, 'Hessian of constraint %d' % i, i, kind, which, 'h')
                out.append(con)
            a['constraints'] = out
        return ORIGINAL[call.name](f, **a)
    opts = {'options': {'maxiter': 6}}
    if name == 'MINPACK':
        opts = {'max_nfev': 8}
    elif name == 'DifferentialEvolution':
        opts = {'maxiter': 2, 'popsize': 4, 'seed': 3}
    elif name == 'BasinHopping':
        opts = {'niter': 1, 'minimizer_kwargs': {'options': {'maxiter': 4}}}
    np.random.seed(5)
    try:
        with scipy_spy(handler):
            fit.execute(**opts)
            if case['again']:
                fit.execute(**opts)
    except Exception as err:
        if isinstance(err, (Violation, Reject)) or not scipy_trouble(err):
            raise
        raise Reject('scipy failed')
    return info(len(seen) >= 3, name, case['kind'], 'fixed' if case['fixed'] else 'free', 'constraints=%d' % len(cons), *sorted(set(seen)))


# ---- minimizers used without Fit ---------------------------------------------

@st.composite
def _direct(draw):
    n = draw(st.integers(1, 4))
    ns = draw(exprs.names(n + 1))
    ps = ns[:n]
    fixed = draw(st.lists(st.sampled_from(ps), max_size=n - 1, unique=True)) if draw(st.integers(0, 2)) == 0 else []
    return {'names': ps, 'y': ns[-1], 'w': [draw(exprs.positive(0.5, 2)) for _ in ps], 'c': [draw(exprs.number()) for _ in ps],
            'guess': [draw(exprs.number()) for _ in ps], 'bounds': [draw(st.sampled_from([None, [-9, None], [None, 9], [-9, 9]])) for _ in ps],
            'fixed': fixed[:n - 1], 'form': draw(st.sampled_from(['callable', 'callable', 'num_model', 'model', 'objective'])),
            'jac': draw(st.booleans()), 'hess': draw(st.booleans()), 'tuple': draw(st.booleans()),
            'minimizer': draw(st.sampled_from(['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'COBYLA', 'NelderMead', 'Powell', 'DifferentialEvolution',
                                               'BasinHopping', 'BasinHopping'])),
            'local': draw(st.sampled_from([None, 'LBFGSB', 'SLSQP', 'NelderMead', 'BFGS'])), 'instance': draw(st.booleans()),
            'cons': [[draw(st.sampled_from(['Eq', 'Ge', 'Le'])), draw(st.lists(st.sampled_from(ps), min_size=1, max_size=2, unique=True)),
                      draw(st.sampled_from(['rel', 'model', 'objective']))] for _ in range(draw(st.integers(0, 2)))],
            'answer': [draw(exprs.number()) for _ in ps], 'x': [[draw(exprs.number()) for _ in ps] for _ in range(2)]}


@facet(FACETS, 'direct', _direct,
       'minimizers used without Fit, with custom functions, models or objectives, own derivatives, constraints in several forms and the '
       'parameters listed in any order: recorded call against the posed problem, then a real run against the closed form; non-trivial: '
       'two or more parameters')
def direct(case):
    import symfit
    from symfit import Parameter, Variable, Model, CallableNumericalModel
    from symfit.core import minimizers as M, objectives
    name = case['minimizer']
    cls = fg.minimizer(name)
    ps = {}
    for nm, g, bd in zip(case['names'], case['guess'], case['bounds']):
        if name == 'DifferentialEvolution':
            bd = [-9, 9]
        bd = bd or [None, None]
        ps[nm] = Parameter(nm, value=g, min=bd[0], max=bd[1], fixed=nm in case['fixed'])
    names = sorted(ps)
    free = [q for q in names if q not in case['fixed']]
    m = np.array([q in free for q in names])
    w, c = dict(zip(case['names'], case['w'])), dict(zip(case['names'], case['c']))
    G0 = dict(zip(case['names'], case['guess']))

    def val(d):
        return sum(w[q] * (d[q] - c[q]) ** 2 for q in names) + np.prod([d[q] for q in names[:2]]) * 0.25

    def grad(d):
        g = np.array([2 * w[q] * (d[q] - c[q]) for q in names])
        for i, q in enumerate(names[:2]):
            g[i] += 0.25 * np.prod([d[r] for r in names[:2] if r != q])
        return g

    def hessian(d):
        h = np.diag([2 * w[q] for q in names])
        if len(names) > 1:
            h[0, 1] = h[1, 0] = 0.25
        return h

    def named(func):
        return eval('lambda {}: _f(dict(locals()))'.format(', '.join(case['names'])), {'_f': func})
    Y = Variable(case['y'])
    form = case['form']
    e = sum(w[q] * (ps[q] - c[q]) ** 2 for q in names)
    t = 0.25
    for q in names[:2]:
        t = t * ps[q]
    e = e + t
    data = {}
    if form == 'callable':
        target = named(val)
    elif form == 'num_model':
        target = CallableNumericalModel({Y: named(val)}, connectivity_mapping={Y: set(ps.values())})
    elif form == 'model':
        target = Model({Y: e})
    else:
        target = objectives.MinimizeModel(Model({Y: e}), data=data)
    kw = {}
    if name in ('BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr') and (case['jac'] or name == 'TrustConstr' and case['hess']):
        kw['jacobian'] = target.eval_jacobian if form == 'objective' else named(grad)
    if name == 'TrustConstr' and case['hess']:
        kw['hessian'] = target.eval_hessian if form == 'objective' else named(hessian)
    cons = []
    if name in CONSTRAINED and form in ('model', 'objective'):
        model = target if form == 'model' else target.model
        given = []
        for i, (kind, which, how) in enumerate(case['cons']):
            if name == 'COBYLA' and kind == 'Eq':
                kind = 'Ge'
            rel = getattr(symfit, kind)(con_expr(i, which, ps), CON_RHS[i])
            if how != 'rel':
                rel = Model.as_constraint(rel, model)
                if how == 'objective':
                    rel = objectives.MinimizeModel(rel, data=data)
            given.append(rel)
            cons.append((kind, which))
        if given:
            kw['constraints'] = given
    order = [ps[q] for q in case['names']]
    local = None
    if name == 'BasinHopping' and case['local']:
        local = fg.minimizer(case['local'])
        kw['local_minimizer'] = local(target, order) if case['instance'] else local
    mini = cls(target, tuple(order) if case['tuple'] and form not in ('model', 'objective') else order, **kw)
    calls = []

    def handler(call, original):
        calls.append(call)
        return fake_result(case, len(free))
    with scipy_spy(handler):
        res = mini.execute()
    require(len(calls) == 1, 'scipy was called {} times', len(calls))
    call = calls[0]
    if name != 'DifferentialEvolution':
        close(call.get('x0'), [G0[q] for q in free], 0, 'starting point')
    inner = call.get('minimizer_kwargs') if name == 'BasinHopping' else call.a
    effective = (case['local'] or 'BFGS') if name == 'BasinHopping' else name
    if effective in METHOD:
        require(str(inner.get('method')).lower() == METHOD[effective].lower(), 'method {} for {}', inner.get('method'), name)
    if effective in BOUNDED:
        got, want = [tuple(q) for q in inner['bounds']], [(ps[q].min, ps[q].max) for q in free]
        require(got == want, 'bounds {} instead of {}', got, want)
    for x in case['x'] + case['x'][:1]:
        d = dict(zip(case['names'], x))
        d.update({q: G0[q] for q in case['fixed']})
        v = np.array([d[q] for q in free])
        S, G, H = val(d), grad(d), hessian(d)
        tol = 1e-10 * (1 + abs(S) + np.abs(G).max()) * 10
        close(np.ravel(call.fun(v)), [S], tol, 'objective')
        if 'jacobian' in kw:
            require(callable(inner.get('jac')), 'the gradient given by the user is not passed')
            close(inner['jac'](v), G[m], tol, 'gradient')
        if 'hessian' in kw:
            require(callable(inner.get('hess')), 'the Hessian given by the user is not passed')
            close(inner['hess'](v), H[np.ix_(m, m)], tol, 'Hessian')
        got = list(inner.get('constraints') or ())
        if effective in CONSTRAINED and name != 'BasinHopping':
            require(len(got) == len(cons), '{} constraints were passed instead of {}', len(got), len(cons))
            for i, (con, (kind, which)) in enumerate(zip(got, cons)):
                cv, g, h = con_ref(i, kind, which, d, names)
                tl = 1e-9 * (1 + abs(cv) + np.abs(h).max() + np.abs(g).max())
                if isinstance(con, dict):
                    require(con['type'] == ('eq' if kind == 'Eq' else 'ineq'), 'constraint {} ({}) is passed as {}', i, kind, con['type'])
                    cf, cj = con['fun'], con.get('jac')
                else:
                    close(np.ravel(con.ub), [0 if kind == 'Eq' else np.inf], 0, 'upper bound of constraint {}'.format(i))
                    cf, cj = con.fun, con.jac
                close(np.ravel(cf(v)), [cv], tl, 'value of constraint {}'.format(i))
                if callable(cj):
                    close(np.ravel(cj(v)), g[m], tl, 'gradient of constraint {}'.format(i))
    want = dict(G0)
    want.update(zip(free, case['answer']))
    for q in names:
        require(res.value(ps[q]) == want[q] and res.params[q] == want[q], 'parameter {} is reported as {} instead of {}', q, res.params[q], want[q])
    # a real run
    if not cons and name not in ('DifferentialEvolution', 'COBYLA'):
        np.random.seed(2)
        res = mini.execute(**({'niter': 1} if name == 'BasinHopping' else {}))
        h0, z = hessian(G0), dict({q: 0.0 for q in names}, **{q: G0[q] for q in case['fixed']})
        x = np.linalg.solve(h0[np.ix_(m, m)], -grad(z)[m]) if np.all(np.linalg.eigvalsh(h0[np.ix_(m, m)]) > 0.2) else None
        if x is not None:
            best = val(dict(z, **dict(zip(free, x))))
            got = val({q: res.params[q] for q in names})
            require(abs(got - best) <= 1e-4 * (1 + abs(best)), '{}: minimum {} at {} instead of {}', name, got, dict(res.params), best)
    return info(len(names) > 1, name, form, 'sorted' if case['names'] == names else 'unsorted', 'fixed' if case['fixed'] else 'free',
                'constraints=%d' % len(cons), *sorted(k for k in kw))
