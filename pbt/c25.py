"""C25: results do not depend on what was evaluated before."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

import exprs
import models_gen as mg
import objgen
import odes
import fitgen as fg
from c15 import scipy_spy, scipy_trouble
from core import facet, info, close, require, short, reset_state, Violation, Reject

FACETS = {}


# ---- things that must not change -----------------------------------------------

def frozen(x):
    """Deep description of an object made of containers, arrays and anything else."""
    if isinstance(x, np.ndarray):
        return ('array', x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, dict):
        return (type(x).__name__, [(id(k), frozen(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [frozen(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(id(v) for v in x))
    if isinstance(x, (int, float, str, bool, type(None))):
        return (type(x).__name__, repr(x))
    return ('object', id(x))


def attributes(p):
    return (p.name, repr(p.value), repr(p.min), repr(p.max), p.fixed)


class Watch:
    """Remembers the state of objects of the user."""
    def __init__(self):
        self.items = []

    def add(self, what, x):
        self.items.append((what, x, frozen(x)))
        return x

    def check(self, when):
        for what, x, f in self.items:
            if frozen(x) != f:
                raise Violation('{} of the user were modified after {}: now {}'.format(what, when, short(x)))


def roles_of(m):
    import sympy
    out = {k: [str(s) for s in getattr(m, k)] for k in ('params', 'free_params', 'independent_vars', 'dependent_vars', 'interdependent_vars', 'vars')}
    out['sig'] = list(m.__signature__.parameters)
    out['sigmas'] = sorted((k.name, v.name) for k, v in m.sigmas.items())
    out['def'] = [(str(k), sympy.srepr(v) if isinstance(v, sympy.Basic) else id(v)) for k, v in m.items()]
    out['conn'] = {str(k): sorted(str(s) for s in v) for k, v in m.connectivity_mapping.items()}
    return out


# ---- histories on models that share symbols ------------------------------------

MODEL_OPS = ['call', 'call', 'jac', 'jac', 'hess', 'hess', 'fd', 'str', 'pickle', 'neg', 'negjac', 'eq', 'fail', 'expr', 'con', 'obj', 'touch',
             'copy', 'objhess']


@st.composite
def _models(draw):
    a = draw(mg.spec(nvars=(1, 2), nparams=(1, 3), ncomps=(1, 3), tidy=True, depth=2))
    names = (a['vars'], a['params'], [c[0] for c in a['comps']])
    given = (names[0], names[1], draw(st.permutations(names[2])))
    b = draw(mg.spec(tidy=True, depth=2, given=given))
    # the same names in other roles: variables exchanged with components
    swap = draw(st.integers(0, 3)) == 3
    if swap:
        pool = draw(st.permutations(a['vars'] + names[2]))
        b = draw(mg.spec(tidy=True, depth=2, given=(pool[:len(a['vars'])], a['params'], pool[len(a['vars']):])))
    specs = [a, b]
    if draw(st.booleans()):
        specs.append(dict(draw(mg.spec(tidy=True, depth=2, numeric=True, given=given)), num=True))
    data = []
    for _ in range(2):
        shape = draw(st.sampled_from([[3], [1], [4], [2, 2], [2]]))
        data.append({v: draw(objgen.values(shape, exprs.number())) for v in a['vars'] + names[2]})
    points = [draw(mg.param_values(a['params'])) for _ in range(2)]
    ops = draw(st.lists(st.tuples(st.sampled_from(MODEL_OPS), st.integers(0, len(specs) - 1), st.integers(0, 1), st.integers(0, 1)),
                        min_size=3, max_size=10))
    return {'specs': specs, 'data': data, 'points': points, 'ops': [list(o) for o in ops]}


def shared_build(specs, fdcls):
    """Models over one set of symbols."""
    from symfit import Model, Parameter, Variable
    import sympy
    a = specs[0]
    table = {n: Parameter(n) for n in a['params']}
    for n in a['vars'] + [c[0] for c in a['comps']]:
        table[n] = Variable(n)
    out = []
    for sp in specs:
        md, conn = {}, {}
        for i in sp['write']:
            c, ast, kind = sp['comps'][i]
            syms = sorted(exprs.symbols_of(ast))
            if kind == 'num':
                md[table[c]] = exprs.to_callable(ast, syms)
                conn[table[c]] = {table[s] for s in syms}
            else:
                e = sympy.sympify(exprs.to_sympy(ast, table))
                if sorted(s.name for s in e.free_symbols) != syms:
                    raise Reject('a symbol cancels')
                md[table[c]] = e
        m = fdcls(md, connectivity_mapping=conn) if conn else Model(md)
        out.append((sp, md, conn, m))
    return table, out


@facet(FACETS, 'models', _models,
       'histories of evaluations, derivatives, finite differences, objectives, constraints, negation, comparison, printing, pickling and '
       'failing calls over two or three models sharing all symbols (also in other roles): every number against forward mode, definitions '
       'and data unchanged; non-trivial: at least two models evaluated')
def models(case):
    import symfit
    from symfit import Model
    from symfit.core.objectives import LeastSquares
    from c05 import fd_class, step
    table, built = shared_build(case['specs'], fd_class())
    watch = Watch()
    arrays = []
    for d in case['data']:
        arrays.append({n: np.array(v['v'], dtype=float).reshape(v['shape']) for n, v in d.items()})
    watch.add('data', arrays)
    for sp, md, conn, m in built:
        watch.add('model dict', md)
        watch.add('connectivity mapping', conn)
    models_ = [m for _, _, _, m in built]
    roles0 = [roles_of(m) for m in models_]
    attrs0 = {n: attributes(table[n]) for n in case['specs'][0]['params']}
    evaluated = set()
    labels = []
    ps = sorted(case['specs'][0]['params'])
    for n_op, (op, i, k, d) in enumerate(case['ops']):
        sp, md, conn, _ = built[i]
        m = models_[i]
        num = bool(conn)
        pv, dv = case['points'][k], arrays[d]
        jets, mag = mg.ref_jets(sp, {v: dv[v] for v in sp['vars']}, pv, limit=2000)
        names = sorted(c[0] for c in sp['comps'])
        dep, inter = mg.roles(sp)
        kw = dict({v: dv[v] for v in sp['vars']}, **pv)
        tol = 1e-9 * mag ** 2
        what = 'step {} of {}: {} of model {}'.format(n_op + 1, [o[0] for o in case['ops']], op, i)
        labels.append(op)

        def values(out, sign=1):
            require(len(out) == len(names), '{}: {} components', what, len(out))
            for c, got in zip(names, out):
                s = sign if c in dep else 1
                close(np.broadcast_to(np.asarray(got, dtype=float), jets[c].v.shape) if np.size(got) == 1 else got,
                      s * jets[c].v, tol, what + ' component ' + c)

        def derivs(out, which, sign=1, tol=tol):
            for c, got in zip(names, out):
                want = (jets[c].g if which == 1 else jets[c].h) * (sign if c in dep else 1)
                got = np.asarray(got, dtype=float)
                if got.shape != want.shape:
                    try:
                        got = np.broadcast_to(got, want.shape)
                    except ValueError:
                        raise Violation('{}: shape {} instead of {}'.format(what, got.shape, want.shape))
                close(got, want, tol, what + ' component ' + c)

        if op == 'call':
            values(m(**kw))
            evaluated.add(i)
        elif op == 'jac':
            derivs(m.eval_jacobian(**kw), 1, tol=1e-6 * mag ** 2 if num else tol)
            evaluated.add(i)
        elif op == 'hess' and not num:
            derivs(m.eval_hessian(**kw), 2)
            evaluated.add(i)
        elif op == 'fd':
            derivs(m.finite_difference(**kw), 1, tol=1e-6 * mag ** 2)
            evaluated.add(i)
        elif op == 'str':
            s1 = str(m)
            require(str(m) == s1, '{}: printing twice differs', what)
        elif op == 'pickle' and not num:
            m2 = pickle.loads(pickle.dumps(m))
            values(m2(**kw))
            require(m2 == m, '{}: restored model differs', what)
        elif op == 'copy':
            m2 = copy.copy(m)
            values(m2(**kw))
        elif op == 'neg':
            values((-m)(**kw), -1)
            values(m(**kw))
        elif op == 'negjac':
            derivs((-m).eval_jacobian(**kw), 1, -1, tol=1e-6 * mag ** 2 if num else tol)
            derivs(m.eval_jacobian(**kw), 1, tol=1e-6 * mag ** 2 if num else tol)
        elif op == 'eq':
            j = (i + 1) % len(models_)
            if not num and not built[j][2]:
                require(m == m, '{}: not equal to itself', what)
                if i != j:
                    m == models_[j]
        elif op == 'fail':
            bad = [dict(kw, surplus_=1.0), {q: v for q, v in kw.items() if q != ps[0]}][k]
            try:
                m(**bad)
            except (TypeError, KeyError):
                pass
            else:
                raise Violation('{}: call with {} accepted'.format(what, 'surplus' if k == 0 else 'missing value'))
        elif op == 'expr':
            for c, ast, kind in sp['comps']:
                e = md[table[c]]
                if kind == 'sym':
                    env = dict(kw, **{x: jets[x].v for x in names})
                    want = exprs.value(ast, env)
                    close(np.broadcast_to(np.asarray(e(**{s: env[s] for s in exprs.symbols_of(ast)}), dtype=float), np.shape(want)),
                          want, tol, what + ' expression ' + c)
                    break
        elif op == 'con' and not num:
            con = Model.as_constraint(symfit.Ge(table[ps[0]], 2), m)
            out = con(**{q.name: kw[q.name] for q in con.independent_vars + con.params})
            got = out._asdict()[con.dependent_vars[0]]
            close(got, pv[ps[0]] - 2, 1e-12, what, shape=False)
            require(con.params == m.params, '{}: constraint over {}', what, con.params)
        elif op in ('obj', 'objhess'):
            obj = LeastSquares(m, {**{table[v]: dv[v] for v in sp['vars']},
                                   **{table[c]: np.array(dv[c]) for c in dep},
                                   **{m.sigmas[table[c]]: np.ones(dv[c].shape) for c in dep}})
            S, G, H = 0.0, np.zeros(len(ps)), np.zeros((len(ps), len(ps)))
            for c in dep:
                y = dv[c]
                j = jets[c]
                v = np.broadcast_to(j.v, y.shape)
                g = np.broadcast_to(j.g.reshape(j.g.shape[:1] + (1,) * (y.ndim - j.v.ndim) + j.v.shape), (len(ps),) + y.shape)
                h = np.broadcast_to(j.h.reshape(j.h.shape[:2] + (1,) * (y.ndim - j.v.ndim) + j.v.shape), (len(ps), len(ps)) + y.shape)
                r = v - y
                S += 0.5 * np.sum(r ** 2)
                G += np.sum(r * g, axis=tuple(range(1, 1 + y.ndim)))
                H += np.sum(g[:, None] * g[None] + r * h, axis=tuple(range(2, 2 + y.ndim)))
            t = 1e-8 * mag ** 2 * 20
            close(obj(**pv), S, t, what + ' value', shape=False)
            if op == 'obj':
                close(obj.eval_jacobian(**pv), G, 1e-5 * mag ** 3 if num else t * mag, what + ' gradient', shape=False)
            elif not num:
                close(obj.eval_hessian(**pv), H, t * mag, what + ' Hessian', shape=False)
            evaluated.add(i)
        elif op == 'touch':
            for attr in ('jacobian', 'hessian', 'connectivity_mapping', 'function_dict', 'vars_as_functions', 'numerical_components', 'ordered_symbols'):
                if not num and hasattr(m, attr):
                    getattr(m, attr)
            m.bounds, repr(m), bool(num or m.shared_parameters)
        watch.check(what)
    for i, m in enumerate(models_):
        require(roles_of(m) == roles0[i], 'model {} changed from {} to {} during {}', i, roles0[i], roles_of(m), [o[0] for o in case['ops']])
    for n in ps:
        require(attributes(table[n]) == attrs0[n], 'parameter {} changed from {} to {}', n, attrs0[n], attributes(table[n]))
    return info(len(evaluated) > 1, 'models=%d' % len(models_), 'swap' if case['specs'][1]['vars'] != case['specs'][0]['vars'] else 'same roles', *labels)


# ---- histories on fits that share parameters -----------------------------------

FIT_MINIS = ['BFGS', 'BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'MINPACK', 'NelderMead', 'Powell', 'COBYLA', 'BasinHopping', 'chain', 'chain_boxed', 'chain_own', 'chain_own',
             'DifferentialEvolution', 'default']
CHAINS = {'chain': ['Powell', 'SLSQP'], 'chain_boxed': ['NelderMead', 'LBFGSB', 'NelderMead'], 'chain_own': ['BFGS', 'NelderMead']}
FIT_OPS = ['exec', 'exec', 'exec', 'exec', 'guess', 'guess', 'fixval', 'obj', 'grad', 'hess', 'cov', 'str', 'pickle', 'eq', 'model', 'result']


@st.composite
def _fits(draw):
    a = draw(fg.linear_case(nparams=(1, 3), fixed=draw(st.booleans()), bij=draw(st.booleans()), missing=False))
    sp = a['spec']
    nv, nc = sp['vars'], [c for c in a['y']]
    u = [c[0] for c in sp['comps'] if c[0] not in nc]
    b = draw(fg.linear_case(bij=draw(st.booleans()), inter=bool(u), missing=False, given=(nv, sp['params'], nc, u or ['unused_'])))
    fits = draw(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(FIT_MINIS), st.integers(0, 2)), min_size=1, max_size=3))
    con = draw(st.integers(0, 3)) == 3
    ops = draw(st.lists(st.tuples(st.sampled_from(FIT_OPS), st.integers(0, len(fits) - 1), st.integers(0, len(sp['params']) - 1), exprs.number(-3, 3)),
                        min_size=2, max_size=8))
    ops.append(('exec', draw(st.integers(0, len(fits) - 1)), 0, 0.0))
    # Executions are often followed by a new guess.
    more = []
    for i, o in enumerate(ops):
        more.append(o)
        if o[0] == 'exec' and i + 1 < len(ops) and draw(st.booleans()):
            more.append(('guess', o[1], draw(st.integers(0, len(sp['params']) - 1)), draw(exprs.number(-3, 3))))
    ops = more
    return {'a': a, 'b': b, 'fits': [list(f) for f in fits], 'con': con, 'ops': [list(o) for o in ops],
            'bounds': draw(st.sampled_from([None, [-9.0, 9.0], [-9.0, None]]))}


def mini_of(name):
    from symfit.core import minimizers as M
    if name == 'default':
        return None
    if name.startswith('chain'):
        return [getattr(M, s) for s in CHAINS[name]]
    return getattr(M, name)


def options_of(name, k):
    """Options in fresh containers."""
    if name == 'BasinHopping':
        return {'niter': k, 'minimizer_kwargs': {'options': {}}}
    if name == 'DifferentialEvolution':
        return {'maxiter': 3 + k, 'popsize': 4, 'seed': 3}
    if name == 'MINPACK':
        return [{}, {'xtol': 1e-6}, {'max_nfev': 20}][k]
    if name.startswith('chain'):
        first = CHAINS[name][0]
        return [{}, {first: {'tol': 1e-3}}, {first: {'options': {'maxiter': 3}}}][k]
    if name == 'default':
        return {}
    return [{}, {'tol': 1e-4}, {'options': {'maxiter': 5}}][k]


def set_up(case, attrs):
    """All fits of a case with parameters as in attrs."""
    from symfit import Fit, Ge, Model
    cases = [case['a'], case['b']]
    params = None
    fits, models_ = [], []
    watch = Watch()
    table = None
    for c in cases:
        if table is None:
            b = mg.build(c['spec'], pattrs=attrs)
            table, md = b.table, b.model_dict
        else:
            import sympy
            md = {}
            for i in c['spec']['write']:
                n, ast, _ = c['spec']['comps'][i]
                md[table[n]] = sympy.sympify(exprs.to_sympy(ast, table))
        for (n, ast, _) in c['spec']['comps']:
            if {s.name for s in md[table[n]].free_symbols} != exprs.symbols_of(ast):
                raise Reject('a symbol cancels')
        models_.append(Model(watch.add('model dict', md)))
    given = []
    for which, mini, k in case['fits']:
        c = cases[which]
        kw = watch.add('data', fg.data_kwargs(c))
        extra = {}
        m = mini_of(mini)
        if mini == 'chain_own':
            # A minimizer the user also has other uses for
            m[0] = Fit(models_[which], minimizer=m[0], **kw).minimizer
        if m is not None:
            extra['minimizer'] = watch.add('minimizers', m)
        if case['con'] and mini in fg.CONSTRAINED:
            extra['constraints'] = watch.add('constraints', [Ge(table[sorted(c['spec']['params'])[0]], -20)])
        fits.append(Fit(models_[which], **dict(kw, **extra)))
        given.append((mini, k))
    return table, models_, fits, watch


def run_fit(fit, mini, k, watch=None):
    """-> (calls, result or exception)"""
    calls = []

    def handler(call, original):
        calls.append((call.name, np.array(call.get('x0'), dtype=float).ravel().tolist() if call.get('x0') is not None else None,
                      None if call.get('bounds') is None or mini == 'MINPACK' else [tuple(q) for q in call.get('bounds')]))
        return original()
    opts = options_of(mini, k)
    if watch is not None:
        watch.items = [w for w in watch.items if w[0] != 'options']
        watch.add('options', opts)
    np.random.seed(7)
    with scipy_spy(handler):
        try:
            return calls, fit.execute(**opts)
        except Exception as err:
            if scipy_trouble(err) or 'violates bound' in str(err) or 'x0' in str(err) or 'nfeasible' in str(err):
                return calls, err
            raise


def outcome(res):
    out = {'params': dict(res.params), 'cov': None if res.covariance_matrix is None else np.array(res.covariance_matrix),
           'obj': np.array(res.objective_value, dtype=float), 'nit': res.iterations, 'msg': str(res.status_message)}
    for k in ('r_squared', 'chi_squared'):
        out[k] = getattr(res, k, None)
    return out


def same_outcome(o, w, what, tol=1e-8):
    require(list(o['params']) == list(w['params']), '{}: parameters {} instead of {}', what, list(o['params']), list(w['params']))
    for q in o['params']:
        close(o['params'][q], w['params'][q], tol * (1 + abs(w['params'][q])), '{}: parameter {}'.format(what, q), shape=False)
    require((o['cov'] is None) == (w['cov'] is None), '{}: covariance {} instead of {}', what, o['cov'], w['cov'])
    if w['cov'] is not None:
        close(o['cov'], w['cov'], 10 * tol * (1 + np.nan_to_num(np.abs(w['cov'])).max()), what + ': covariance')
    close(o['obj'], w['obj'], tol * (1 + np.abs(w['obj'])), what + ': objective value')
    require(o['nit'] == w['nit'], '{}: {} iterations instead of {}', what, o['nit'], w['nit'])
    require(o['msg'] == w['msg'], '{}: status {} instead of {}', what, o['msg'], w['msg'])
    for k in ('r_squared', 'chi_squared'):
        require((o[k] is None) == (w[k] is None), '{}: {} {} instead of {}', what, k, o[k], w[k])
        if w[k] is not None and np.isfinite(w[k]):
            close(o[k], w[k], 10 * tol * (1 + abs(w[k])), what + ': ' + k, shape=False)


@facet(FACETS, 'fits', _fits,
       'histories on one to three fits sharing parameters, models and data (every minimizer, chains, options, bounds, constraints, fixed '
       'parameters): executions between changes of guesses and fixed values, evaluations, covariances, printing, pickling, comparing; every '
       'execution against the same fit built anew with the present guesses (calls into scipy and result), earlier results, user data, options '
       'and definitions unchanged; non-trivial: at least two executions')
def fits(case):
    names = sorted(case['a']['spec']['params'])
    fixed = case['a']['fixed']
    attrs = {}
    for p in names:
        attrs[p] = {'value': case['a']['guess'][p]}
        if p in fixed:
            attrs[p] = {'value': fixed[p], 'fixed': True}
        elif case['bounds'] or any(f[1] == 'DifferentialEvolution' for f in case['fits']):
            lo, hi = case['bounds'] or (None, None)
            if any(f[1] == 'DifferentialEvolution' for f in case['fits']):
                lo, hi = -9.0, 9.0
            if lo is not None:
                attrs[p]['min'] = lo
            if hi is not None:
                attrs[p]['max'] = hi
    table, models_, fits_, watch = set_up(case, attrs)
    params = {p: table[p] for p in names}
    cases = [case['a'], case['b']]
    roles0 = [roles_of(m) for m in models_]
    results = []
    labels, changed = [], False
    n_exec = 0
    for n_op, (op, i, ip, val) in enumerate(case['ops']):
        which, mini, k = case['fits'][i]
        fit = fits_[i]
        p = names[ip]
        what = 'step {} of {}: {} of fit {} ({})'.format(n_op + 1, [o[0] for o in case['ops']], op, i, mini)
        free = [q for q in names if q not in fixed]
        point = {q: attrs[q]['value'] for q in names}
        c = dict(cases[which], fixed={q: attrs[q]['value'] for q in fixed})
        if op in ('guess', 'fixval'):
            pool = [q for q in names if (q in fixed) == (op == 'fixval')]
            if not pool:
                continue
            q = pool[ip % len(pool)]
            attrs[q]['value'] = params[q].value = val
            changed = changed or n_exec > 0
            if op == 'guess':
                for f, (_, mini2, _) in zip(fits_, case['fits']):
                    if mini2 == 'chain_own':
                        calls, _ = run_fit(f.minimizer.minimizers[0], 'BFGS', 2)
                        close(calls[0][1], [attrs[q]['value'] for q in free], 1e-12,
                              what + ': starting point of a minimizer of the user that is also part of a chain')
        elif op == 'exec':
            n_exec += 1
            calls, res = run_fit(fit, mini, k, watch)
            watch.check(what)
            for q in names:
                require(params[q].value == attrs[q]['value'], '{}: value of {} changed from {} to {}', what, q, attrs[q]['value'], params[q].value)
            ok = not isinstance(res, Exception)
            got = outcome(res) if ok else str(res)
            # The same fit, with everything built anew.
            reset_state()
            _, _, fresh, _ = set_up(case, {q: dict(v) for q, v in attrs.items()})
            calls2, res2 = run_fit(fresh[i], mini, k)
            reset_state()
            require(ok == (not isinstance(res2, Exception)), '{}: {} instead of {}', what, res, res2)
            require(len(calls) == len(calls2), '{}: {} optimisations instead of {}', what, len(calls), len(calls2))
            for c1, c2 in zip(calls, calls2):
                require(c1[0] == c2[0] and c1[2] == c2[2] and (c1[1] is None) == (c2[1] is None), '{}: optimised {} instead of {}', what, c1, c2)
                if c1[1] is not None:
                    close(c1[1], c2[1], 1e-9 * (1 + np.max(np.abs(c2[1]))), what + ': starting point')
            if calls and calls[0][1] is not None:
                close(calls[0][1], [attrs[q]['value'] for q in free], 1e-12, what + ': first starting point')
            if ok:
                same_outcome(got, outcome(res2), what)
                for q in fixed:
                    require(got['params'][q] == attrs[q]['value'], '{}: fixed parameter {} became {}', what, q, got['params'][q])
                results.append((what, res, got, str(res)))
        elif op in ('obj', 'grad', 'hess'):
            S, G, H, _ = fg.chi2(c, point, limit=1e6)
            o = fit.objective
            sc = 1e-8 * (1 + abs(S)) * (1 + np.abs(G).max()) * (1 + np.abs(H).max())
            vals = [attrs[q]['value'] for q in free]
            if mini == 'MINPACK':
                r = np.asarray(o(vals), dtype=float)
                close(0.5 * np.sum(r ** 2), S, sc, what, shape=False)
            elif op == 'obj':
                close(o(vals), S, sc, what, shape=False)
            elif op == 'grad':
                close(o.eval_jacobian(vals), G, sc, what, shape=False)
            else:
                close(o.eval_hessian(vals), H, sc, what, shape=False)
        elif op == 'cov':
            _, _, H, _ = fg.chi2(c, point, limit=1e6)
            m = np.array([q in free for q in names])
            Hf = H[np.ix_(m, m)]
            w = np.linalg.eigvalsh(Hf)
            if w[0] > 1e-2 and w[-1] / w[0] < 1e6 and fit.absolute_sigma and mini != 'MINPACK':
                close(np.asarray(fit.covariance_matrix(point))[np.ix_(m, m)], np.linalg.inv(Hf), 1e-6 * (1 + 1 / w[0]), what)
            else:
                fit.covariance_matrix(point)
        elif op == 'str':
            str(fit.minimizer), str(fit.model), repr(fit)
        elif op == 'pickle':
            s = pickle.dumps(fit)
            # Symbols are shared by name within a process: restoring brings back the attributes they had then.
            pickle.loads(s)
        elif op == 'eq':
            require(fit.objective == fit.objective, '{}: not equal to itself', what)
            fit.objective == fits_[0].objective
        elif op == 'model':
            fit.model.eval_jacobian(**dict({v: np.array(d['v'], dtype=float).reshape(d['shape']) for v, d in c['data'].items()}, **point))
            str(-fit.model)
        elif op == 'result' and results:
            w, res, got, text = results[-1]
            str(res)
            for q in names:
                res.stdev(params[q]), res.value(params[q])
        labels.append(op)
        watch.check(what)
        for q in names:
            require(attributes(params[q]) == (q, repr(attrs[q]['value']), repr(attrs[q].get('min')), repr(attrs[q].get('max')), q in fixed),
                    '{}: parameter {} changed to {}', what, q, attributes(params[q]))
    for j, m in enumerate(models_):
        require(roles_of(m) == roles0[j], 'model {} changed from {} to {}', j, roles0[j], roles_of(m))
    for what, res, got, text in results:
        same_outcome(outcome(res), got, 'result of ' + what + ', after the history', tol=0)
        now = str(res)
        if any(o[0] == 'fixval' for o in case['ops']):
            # Constraints are evaluated when printing, with the present values of fixed parameters.
            now, text = now.split('Constraints:')[0], text.split('Constraints:')[0]
        require(now == text, 'report of {} changed from {} to {}', what, text, now)
    return info(n_exec > 1, 'execs=%d' % min(n_exec, 4), 'changed' if changed else 'same guesses', 'fits=%d' % len(fits_),
                *(['fixed'] if fixed else []) + ['m:' + f[1] for f in case['fits']] + ['op:' + l for l in labels])


# ---- one model in several fits -------------------------------------------------

REFIT_MINIS = ['LBFGSB', 'LBFGSB', 'SLSQP', 'TrustConstr', 'MINPACK', 'BFGS', 'NelderMead', 'Powell', 'COBYLA', 'chain', 'BasinHopping', 'default', 'none', 'none']


@st.composite
def _refit(draw):
    a = draw(fg.linear_case(nparams=(2, 3), bij=draw(st.booleans()), missing=False))
    ps = sorted(a['spec']['params'])
    stages = []
    for _ in range(draw(st.integers(2, 4))):
        at = {}
        for q in ps:
            t = draw(mg.attributes())
            at[q] = {'value': t.get('value', 1.0), 'min': t.get('min'), 'max': t.get('max'), 'fixed': t.get('fixed', False)}
        if all(t['fixed'] for t in at.values()):
            at[draw(st.sampled_from(ps))]['fixed'] = False
        stages.append({'attrs': at, 'mini': draw(st.sampled_from(REFIT_MINIS)), 'k': draw(st.integers(0, 2)), 'data': draw(st.integers(0, 1)),
                       'before': draw(st.booleans()), 'via': draw(st.sampled_from(['fit', 'fit', 'objective']))})
    d2 = {c: draw(objgen.values(d['shape'], exprs.number())) for c, d in a['y'].items()}
    return {'a': a, 'y2': d2, 'stages': stages}


@facet(FACETS, 'refit', _refit,
       'one model used in two to four fits or objectives, between which the parameters are freed, fixed, bounded or get other values, '
       'with the same or other data: each fit has the free parameters, bounds, guesses, objective values and outcome of one made from '
       'new symbols; non-trivial: the set of free parameters changes')
def refit(case):
    from symfit import Fit, Model
    from symfit.core.objectives import LeastSquares
    a = case['a']
    b = mg.build(a['spec'], pattrs=case['stages'][0]['attrs'])
    names = b.params
    par = [b.table[q] for q in names]
    model = Model(b.model_dict)
    sets, execs = [], 0

    def make(mod, table, stage):
        c = dict(a, y=case['y2'] if stage['data'] else a['y'], fixed={q: t['value'] for q, t in stage['attrs'].items() if t['fixed']})
        kw = fg.data_kwargs(c)
        m = mini_of(stage['mini']) if stage['mini'] != 'none' else None
        return c, Fit(mod, **dict(kw, **({} if m is None else {'minimizer': m})))
    for n, stage in enumerate(case['stages']):
        at = stage['attrs']
        what = 'fit {} ({}, {})'.format(n + 1, stage['mini'], {q: 'fixed' if at[q]['fixed'] else 'free' for q in names})
        for q, s in zip(names, par):
            for k, v in at[q].items():
                setattr(s, k, v)
        free = [q for q in names if not at[q]['fixed']]
        sets.append(free)
        if stage['before']:
            require([s.name for s in model.free_params] == free, '{}: free_params {} of the model', what, model.free_params)
        c, fit = make(model, b.table, stage)
        obj = fit.objective
        require([s.name for s in model.free_params] == free, '{}: free_params {} instead of {}', what, model.free_params, free)
        require([s.name for s in model.params] == names, '{}: params {}', what, model.params)
        bounds = [(at[q]['min'], at[q]['max']) for q in free]
        require([tuple(w) for q, w in zip(names, model.bounds) if q in free] == bounds, '{}: bounds {} of the model instead of {}', what, model.bounds, bounds)
        vals = [at[q]['value'] for q in free]
        if stage['via'] == 'objective' and isinstance(obj, LeastSquares):
            obj = LeastSquares(model, fit.data)
        point = {q: at[q]['value'] for q in names}
        S, G, H, _ = fg.chi2(c, point, limit=1e6)
        m = np.array([q in free for q in names])
        sc = 1e-8 * (1 + abs(S)) * (1 + np.abs(G).max()) * (1 + np.abs(H).max())
        if isinstance(obj, LeastSquares):
            close(obj(vals), S, sc, what + ': objective', shape=False)
            close(np.ravel(obj.eval_jacobian(vals)), G, sc, what + ': gradient', shape=False)
            close(obj.eval_hessian(vals), H, sc, what + ': Hessian', shape=False)
        else:
            close(0.5 * np.sum(np.asarray(obj(vals), dtype=float) ** 2), S, sc, what + ': residuals', shape=False)
        if stage['mini'] == 'none':
            continue
        execs += 1
        calls, res = run_fit(fit, stage['mini'], stage['k'])
        ok = not isinstance(res, Exception)
        got = outcome(res) if ok else str(res)
        reset_state()
        b2 = mg.build(a['spec'], pattrs=at)
        _, fresh = make(Model(b2.model_dict), b2.table, stage)
        calls2, res2 = run_fit(fresh, stage['mini'], stage['k'])
        reset_state()
        require(ok == (not isinstance(res2, Exception)), '{}: {} instead of {}', what, res, res2)
        require(len(calls) == len(calls2), '{}: {} optimisations instead of {}', what, len(calls), len(calls2))
        for c1, c2 in zip(calls, calls2):
            require(c1[0] == c2[0] and c1[2] == c2[2], '{}: optimised {} instead of {}', what, c1, c2)
            if c1[1] is not None and c2[1] is not None:
                close(c1[1], c2[1], 1e-9 * (1 + np.max(np.abs(c2[1]))), what + ': starting point')
        if calls and calls[0][1] is not None:
            close(calls[0][1], vals, 1e-12, what + ': first starting point')
        if ok:
            same_outcome(got, outcome(res2), what)
            for q in names:
                if at[q]['fixed']:
                    require(got['params'][q] == at[q]['value'], '{}: fixed parameter {} became {}', what, q, got['params'][q])
        for q, s in zip(names, par):
            require(attributes(s) == (q, repr(at[q]['value']), repr(at[q]['min']), repr(at[q]['max']), at[q]['fixed']),
                    '{}: parameter {} changed to {}', what, q, attributes(s))
    return info(len({tuple(f) for f in sets}) > 1, 'stages=%d' % len(case['stages']), 'execs=%d' % execs, *['m:' + s['mini'] for s in case['stages']])


# ---- histories on ODE models ---------------------------------------------------

@st.composite
def _ode(draw):
    c = draw(odes.linear(maxk=2))
    ts = [draw(odes.times(c['t0'], span=1.0, maxn=4)) for _ in range(3)]
    pts = [c['p'], {p: draw(exprs.nonzero(-1.5, 1.5)) for p in c['pars']}]
    ops = draw(st.lists(st.tuples(st.sampled_from(['call', 'call', 'call', 'scalar', 'jac', 'neg', 'pickle', 'str', 'fail', 'fit', 'fit', 'guess', 'touch']),
                                  st.integers(0, 2), st.integers(0, 1)), min_size=3, max_size=8))
    return {'ode': c, 'ts': ts, 'points': pts, 'ops': [list(o) for o in ops], 'tol': draw(st.sampled_from([None, 1e-10]))}


@facet(FACETS, 'ode', _ode,
       'histories on a linear ODE model (evaluation at changing times and parameters, derivatives, negation, pickling, failing calls, fits, '
       'changed guesses) against the matrix exponential; initial values, times and integrator options unchanged; non-trivial: at least two '
       'evaluations')
def ode(case):
    from symfit import Fit, ODEModel
    from c05 import step
    c = case['ode']
    opts = {} if case['tol'] is None else {'rtol': case['tol'], 'atol': case['tol']}
    odes.growth(c, [t for ts in case['ts'] for t in ts] or [c['t0']])
    odes.growth(c, [t for ts in case['ts'] for t in ts], case['points'][1])
    model, table = odes.build_linear(c, pattrs={p: {'value': v} for p, v in c['p'].items()}, **opts)
    watch = Watch()
    watch.add('initial values', model.initial)
    watch.add('model dict', model.model_dict)
    times = [watch.add('times', np.array(ts)) for ts in case['ts']]
    roles0 = [str(x) for x in (model.params, model.independent_vars, model.dependent_vars, list(model.__signature__.parameters), model)]
    tolerance = 2e-5 if case['tol'] is None else 1e-6
    guesses = dict(c['p'])
    evals = 0
    for n_op, (op, i, k) in enumerate(case['ops']):
        what = 'step {} of {}: {}'.format(n_op + 1, [o[0] for o in case['ops']], op)
        p, ts = case['points'][k], case['ts'][i]
        g = odes.growth(c, ts, p)
        want = odes.solve_linear(c, ts, p)

        def values(m, arr=None, sign=1):
            out = m(**dict(p, **{c['t']: times[i] if arr is None else arr}))
            for y, got in zip(sorted(c['ys']), out):
                w = want[y] if arr is None else want[y][:1]
                close(np.ravel(got), sign * w, tolerance * g, what + ' component ' + y, shape=False)
        if op == 'call':
            evals += 1
            values(model)
        elif op == 'scalar':
            evals += 1
            values(model, float(ts[0]))
        elif op == 'jac':
            evals += 1
            model.eval_jacobian(**dict(p, **{c['t']: times[i]}))
        elif op == 'neg':
            str(-model)
            (-model)(**dict(p, **{c['t']: times[i]}))
            values(model)
        elif op == 'pickle':
            values(pickle.loads(pickle.dumps(model)))
        elif op == 'str':
            str(model), repr(model)
        elif op == 'fail':
            try:
                model(**{c['t']: times[i]})
            except (TypeError, KeyError):
                pass
        elif op == 'guess':
            q = c['pars'][i % len(c['pars'])]
            guesses[q] = table[q].value = case['points'][1 - k][q]
        elif op == 'touch':
            model.bounds, model.free_params, getattr(model, 'jacobian', None)
        elif op == 'fit':
            data = {c['t']: times[i]}
            for y in c['ys']:
                data[y] = odes.solve_linear(c, ts, case['points'][1 - k])[y]
            fit = Fit(model, **data)
            S = sum(0.5 * np.sum((want[y] - data[y]) ** 2) for y in c['ys'])
            sc = 1 + sum(np.sum(np.abs(want[y] - data[y])) for y in c['ys'])
            close(fit.objective(**p), S, 4 * tolerance * g * sc + 10 * tolerance ** 2 * g ** 2, what + ': objective', shape=False)
            calls = []

            def handler(call, original):
                calls.append(call)
                raise RuntimeError('stop')
            with scipy_spy(handler):
                try:
                    fit.execute()
                except RuntimeError as err:
                    if str(err) != 'stop':
                        raise
            require(len(calls) == 1, '{}: {} optimisations', what, len(calls))
            close(np.asarray(calls[0].get('x0'), dtype=float), [guesses[q] for q in sorted(c['pars'])], 0, what + ': starting point')
        watch.check(what)
        for q in c['pars']:
            require(table[q].value == guesses[q], '{}: value of {} changed to {}', what, q, table[q].value)
    now = [str(x) for x in (model.params, model.independent_vars, model.dependent_vars, list(model.__signature__.parameters), model)]
    require(now == roles0, 'the model changed from {} to {}', roles0, now)
    return info(evals > 1, *['op:' + o[0] for o in case['ops']])


# ---- what the user passes in ---------------------------------------------------

@st.composite
def _inputs(draw):
    kind = draw(st.sampled_from(['fit', 'fit', 'callable', 'scalar', 'likelihood', 'minimizer']))
    c = draw(fg.linear_case(nparams=(1, 3), kinds=('num', 'sym') if kind == 'callable' else ('sym',), fixed=draw(st.booleans()), missing=draw(st.booleans())))
    mini = draw(st.sampled_from([m for m in FIT_MINIS if m not in ('DifferentialEvolution',)]))
    return {'fit': c, 'kind': kind, 'mini': mini, 'k': draw(st.integers(0, 2)), 'form': draw(st.sampled_from(['readonly', 'array', 'list', 'tuple', 'fortran', 'view', 'int'])),
            'cons': draw(st.lists(st.sampled_from(['Ge', 'Le', 'Eq']), max_size=2)), 'con_form': draw(st.sampled_from(['list', 'tuple'])),
            'dict': draw(st.sampled_from(['dict', 'ordered', 'model']))}


def as_form(a, form):
    """The same numbers in another container."""
    if a is None or not isinstance(a, np.ndarray):
        return a
    if form == 'list':
        return a.tolist()
    if form == 'tuple':
        return tuple(map(tuple, a)) if a.ndim == 2 else tuple(a.tolist())
    if form == 'fortran':
        return np.asfortranarray(a)
    if form == 'view':
        big = np.zeros(tuple(2 * n for n in a.shape))
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        big[sl] = a
        return big[sl]
    a = a.copy()
    if form == 'readonly':
        a.setflags(write=False)
    return a


@facet(FACETS, 'inputs', _inputs,
       'data (arrays of any layout, read-only, lists, tuples), model dicts, models, connectivity mappings, callables, constraints, minimizer '
       'sequences, nested options and parameter lists given by the user are the same objects with the same content after building, executing, '
       'evaluating, printing and pickling; emptying the dicts afterwards changes nothing; results as with plain arrays; non-trivial: all')
def inputs(case):
    import collections
    import symfit
    from symfit import Fit, Model, CallableNumericalModel, Ge, Le, Eq
    from symfit.core.objectives import LogLikelihood, MinimizeModel
    from symfit.core import minimizers as M
    c = case['fit']
    kind, mini = case['kind'], case['mini']
    attrs = {p: {'value': c['guess'][p], 'fixed': p in c['fixed']} for p in c['spec']['params']}
    b = mg.build(c['spec'], pattrs=attrs)
    ps = [b.table[p] for p in sorted(c['spec']['params'])]
    free = [p for p in ps if not p.fixed]
    watch = Watch()
    md = dict(b.model_dict)
    if case['dict'] == 'ordered':
        md = collections.OrderedDict(md)
    watch.add('model dict', md)
    extra, conn = {}, None
    if b.conn:
        conn = watch.add('connectivity mapping', {k: set(v) for k, v in b.conn.items()})
        model = CallableNumericalModel(md, connectivity_mapping=conn)
    elif kind == 'scalar':
        md = watch.add('model dict', {b.table[sorted(c['y'])[0]]: sum((p - 1) ** 2 for p in ps)})
        model = Model(md)
    else:
        model = Model(md)
    r0 = roles_of(model)
    data = fg.data_kwargs(c)
    if kind == 'scalar':
        data = {}
    elif kind == 'likelihood':
        pos = {}
        for y in md:
            pos[y] = 1 / (1 + md[y] ** 2) if y.name in c['y'] else md[y]
        md = watch.add('model dict', pos)
        model = Model(md)
        r0 = roles_of(model)
        data = {k: v for k, v in data.items() if k in c['data']}
        extra['objective'] = LogLikelihood
    form = case['form']
    data = {k: as_form(v, form) for k, v in data.items()}
    watch.add('data', data)
    if mini == 'MINPACK' and kind in ('scalar', 'likelihood'):
        mini = 'BFGS'
    if b.conn and mini == 'TrustConstr':
        mini = 'SLSQP'
    m = mini_of(mini)
    if isinstance(m, list) and case['k'] == 1:
        m = tuple(m)
    if m is not None:
        extra['minimizer'] = watch.add('minimizers', m)
    if mini in fg.CONSTRAINED and case['cons'] and not b.conn:
        cons = []
        for i, t in enumerate(case['cons'][:max(1, len(free) - 1)]):
            p = free[i % len(free)]
            if t == 'Eq' and mini == 'COBYLA':
                t = 'Ge'
            cons.append({'Ge': Ge(p, -20), 'Le': Le(p, 20), 'Eq': Eq(p, p.value)}[t])
        extra['constraints'] = watch.add('constraints', cons if case['con_form'] == 'list' else tuple(cons))
    given = md if case['dict'] != 'model' and not b.conn else model
    before = [attributes(p) for p in ps]
    if kind == 'minimizer' and mini in ('BFGS', 'LBFGSB', 'SLSQP', 'NelderMead', 'Powell', 'COBYLA', 'BasinHopping'):
        seq = list(reversed(ps))
        watch.add('parameters', seq)
        obj = MinimizeModel(Model({b.table[sorted(c['y'])[0]]: sum((p - 1) ** 2 for p in ps)}), watch.add('data', {}))
        jac = {} if mini in ('NelderMead', 'Powell', 'COBYLA', 'BasinHopping') else {'jacobian': obj.eval_jacobian}
        fit = getattr(M, mini)(obj, seq, **jac)
        is_fit = False
    else:
        fit = Fit(given, **dict(data, **extra))
        is_fit = True
    watch.check('building')
    k = case['k']
    if mini == 'BasinHopping':
        opts = {'niter': k, 'minimizer_kwargs': {'options': {'maxiter': 50}}}
    elif mini.startswith('chain') and is_fit:
        opts = {CHAINS[mini][0]: {'tol': 1e-3, 'options': {'maxiter': 30}}}
    elif mini == 'MINPACK':
        opts = {'xtol': 1e-8}
    elif mini == 'default':
        opts = {}
    else:
        opts = {'options': {'maxiter': 40}, 'tol': 1e-6}
    watch.add('options', opts)
    for run in range(2):
        np.random.seed(5)
        try:
            res = fit.execute(**opts)
        except Exception as err:
            if not (scipy_trouble(err) or 'nfeasible' in str(err)):
                raise
            res = None
        watch.check('executing')
        if res is None:
            continue
        if run == 0:
            first = outcome(res)
        else:
            same_outcome(outcome(res), first, 'executing again')
        str(res)
        frozen_params = dict(res.params)
        if is_fit:
            cov = fit.covariance_matrix(res.params)
            fit.objective(**{str(q): v for q, v in res.params.items()})
            if hasattr(fit.objective, 'eval_jacobian') and hasattr(fit.model, 'eval_jacobian'):
                fit.objective.eval_jacobian(**{str(q): v for q, v in res.params.items()})
        require(dict(res.params) == frozen_params, 'parameters of a result changed')
        watch.check('evaluating')
        pickle.dumps(res) if not b.conn else None
        pickle.dumps(fit) if not b.conn else None
        watch.check('pickling')
    require(roles_of(model) == r0, 'the model changed from {} to {}', r0, roles_of(model))
    require([attributes(p) for p in ps] == before, 'parameters changed from {} to {}', before, [attributes(p) for p in ps])
    # The user goes on with the containers for something else
    if is_fit:
        at = {q.name: q.value for q in ps}
        was = np.array(fit.objective(**at))
        for container in (md, conn):
            if isinstance(container, dict):
                container.clear()
        require(roles_of(model) == r0, 'emptying the dicts given to the model changed it from {} to {}', r0, roles_of(model))
        close(fit.objective(**at), was, 0, 'objective after emptying the dicts given to the model')
    # The same numbers whatever the container
    if is_fit and res is not None and form != 'int' and kind == 'fit' and not b.conn:
        plain = {k: v for k, v in fg.data_kwargs(c).items()}
        reset_state()
        b2 = mg.build(c['spec'], pattrs=attrs, cls=Model)
        np.random.seed(5)
        ex = dict(extra)
        if 'constraints' in ex:
            ex['constraints'] = [type(q)(b2.table[next(iter(q.lhs.free_symbols)).name], q.rhs) for q in ex['constraints']]
        plain_fit = Fit(b2.model, **dict(plain, **ex))
        # Another order of the elements in memory changes the order of
        # summation, and so the last digits of everything that follows.
        rounding = form in ('fortran', 'view')
        at = {q.name: q.value for q in ps}
        close(fit.objective(**at), plain_fit.objective(**at), 1e-9 * (1 + np.max(np.abs(plain_fit.objective(**at)))), 'objective with data as {}'.format(form), shape=False)
        try:
            want = outcome(plain_fit.execute(**options_copy(opts)))
        except Exception as err:
            if not scipy_trouble(err):
                raise
            want = None
        if want is not None:
            require(list(first['params']) == list(want['params']), 'parameters {} instead of {}', first['params'], want['params'])
            for q in want['params']:
                if not rounding:
                    close(first['params'][q], want['params'][q], 1e-6 * (1 + abs(want['params'][q])), 'parameter {} with data as {}'.format(q, form), shape=False)
            at = dict(want['params'])
            close(fit.objective(**at), plain_fit.objective(**at), 1e-9 * (1 + np.max(np.abs(plain_fit.objective(**at)))), 'objective at the best fit with data as {}'.format(form), shape=False)
    return info(True, kind, mini, form, 'cons' if 'constraints' in extra else 'free', case['dict'])


def options_copy(o):
    return {k: options_copy(v) for k, v in o.items()} if isinstance(o, dict) else o


# ---- models with dependencies ------------------------------------------------

@st.composite
def _dependencies(draw):
    import c01
    return draw(c01._dependencies_case())


@facet(FACETS, 'dependencies', _dependencies,
       'with_dependencies leaves the mapping of components, the connectivity mapping and the model of the dependencies as they were, with '
       'the same numbers as one model; non-trivial: lower components are used')
def dependencies(case):
    import c01
    return c01.with_dependencies(case, False)
