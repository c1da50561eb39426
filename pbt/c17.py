"""C17: pickling round trips preserve behaviour, also in a fresh interpreter."""
import pickle
import re

import numpy as np
from hypothesis import strategies as st

import exprs
import models_gen as mg
import objgen
import odes
import fitgen as fg
from core import facet, info, close, require, Violation, Reject

FACETS = {}


class Fn:
    """Picklable function of an expression, called by name like any component."""
    def __init__(self, ast, args):
        self.ast, self.args = ast, tuple(args)

    def __call__(self, *args, **kw):
        env = dict(zip(self.args, args))
        env.update(kw)
        if sorted(env) != sorted(self.args):
            raise TypeError('wants {}, got {}'.format(self.args, sorted(env)))
        return exprs.value(self.ast, env)

    def __eq__(self, other):
        return isinstance(other, Fn) and (self.ast, self.args) == (other.ast, other.args)

    def __hash__(self):
        return hash(repr(self.ast))

    def __repr__(self):
        return 'Fn({!r}, {!r})'.format(self.ast, self.args)


def scrub(text):
    """Text without the addresses of objects."""
    return re.sub('0x[0-9a-f]+', '0x', text)


# ---- observations: plain data that say how an object behaves -------------------

def num(x):
    if x is None or isinstance(x, (str, bool)):
        return x
    a = np.asarray(x)
    if a.dtype.kind not in 'biufc':
        return [num(v) for v in x]
    if a.dtype.kind == 'c':
        return {'re': num(a.real), 'im': num(a.imag)}
    return {'shape': list(a.shape), 'v': [repr(float(v)) for v in a.ravel()]}


def see_symbol(s):
    out = {'type': type(s).__name__, 'name': s.name, 'str': str(s), 'real': s.is_real, 'commutative': s.is_commutative}
    for k in ('value', 'min', 'max', 'fixed'):
        if hasattr(s, k):
            v = getattr(s, k)
            out[k] = v if v is None or isinstance(v, bool) else repr(float(v))
    out['eq_self'] = bool(s == s)
    out['square'] = str(s ** 2 + 1)
    import sympy
    out['diff'] = str(sympy.diff(s ** 3, s))
    return out


def see_model(m, points=(), data=(), deep=True):
    out = {'type': type(m).__name__}
    for k in ('independent_vars', 'dependent_vars', 'interdependent_vars', 'params', 'free_params', 'vars'):
        out[k] = [s.name for s in getattr(m, k)]
    out['param_attrs'] = [see_symbol(p) for p in m.params]
    out['bounds'] = [[None if b is None else repr(float(b)) for b in pair] for pair in m.bounds]
    out['sigmas'] = [[k.name, v.name] for k, v in m.sigmas.items()]
    out['keys'] = [str(k) for k in m]
    out['len'] = len(m)
    if not hasattr(m, 'initial'):
        out['ordered'] = sorted(s.name for s in m.ordered_symbols)
    if hasattr(m, 'constraint_type'):
        out['constraint_type'] = m.constraint_type.__name__
    if hasattr(m, 'initial'):
        out['initial'] = sorted((k.name, str(v)) for k, v in m.initial.items())
        out['integrator'] = repr(sorted(m.integrator_kwargs.items()))
    else:
        out['signature'] = str(m.__signature__)
        try:
            out['str'] = scrub(str(m))
        except Exception as err:
            out['str'] = type(err).__name__
    for p in points:
        kw = dict(data, **p)
        kw = {k: np.array(v) if isinstance(v, list) else v for k, v in kw.items()}
        ans = m(**kw)
        out.setdefault('values', []).append([[v.name for v in ans.variables] if hasattr(ans, 'variables') else None, [num(c) for c in ans]])
        for k in ('eval_jacobian', 'eval_hessian'):
            if hasattr(m, k):
                out.setdefault(k, []).append([num(c) for c in getattr(m, k)(**kw)])
    out['eq'] = bool(m == m)
    return out


def see_objective(o, points, free):
    out = {'type': type(o).__name__, 'data': sorted((getattr(k, 'name', k), num(v)) for k, v in o.data.items()),
           'model': see_model(o.model), 'eq': bool(o == o)}
    for p in points:
        out.setdefault('ordered', []).append(num(o([p[q] for q in free])))
        out.setdefault('named', []).append(num(o(**p)))
        for k in ('eval_jacobian', 'eval_hessian'):
            if hasattr(o, k) and hasattr(o.model, k):
                out.setdefault(k, []).append(num(getattr(o, k)(**p)))
                out.setdefault(k, []).append(num(getattr(o, k)([p[q] for q in free])))
    return out


def see_minimizer(m, points, free, run=True, opts=None, guesses=True):
    out = {'type': type(m).__name__, 'params': [p.name for p in m.params], 'parameters': [see_symbol(p) for p in m.parameters]}
    if guesses:
        out['guesses'] = num(m.initial_guesses)
    if hasattr(m, 'bounds') and not isinstance(m.bounds, tuple):
        out['bounds'] = [[None if b is None else repr(float(b)) for b in pair] for pair in m.bounds]
    if hasattr(m, 'bounds') and isinstance(m.bounds, tuple):
        out['bounds'] = num(m.bounds)
    if hasattr(m, 'minimizers'):
        out['steps'] = [see_minimizer(s, points, free, False, guesses=not i) for i, s in enumerate(m.minimizers)]
        out['signature'] = str(m.__signature__)
    if hasattr(m, 'local_minimizer'):
        out['local'] = see_minimizer(m.local_minimizer, points, free, False)
    out['constraints'] = [see_model(c.model) for c in getattr(m, 'constraints', None) or []]
    for i, c in enumerate(getattr(m, 'constraints', None) or []):
        out.setdefault('constraint_values', []).append([num(c(**p)) for p in points])
    w = getattr(m, 'wrapped_constraints', None)
    for p in points:
        x = np.array([p[q] for q in free])
        out.setdefault('fun', []).append(num(m.objective(x)))
        if getattr(m, 'wrapped_jacobian', None) is not None:
            out.setdefault('jac', []).append(num(m.wrapped_jacobian(x)))
        if getattr(m, 'wrapped_hessian', None) is not None:
            out.setdefault('hess', []).append(num(m.wrapped_hessian(x)))
        for c in w or []:
            if isinstance(c, dict):
                out.setdefault('con', []).append([c['type'], num(c['fun'](x)), num(c['jac'](x)) if c.get('jac') else None])
            else:
                out.setdefault('con', []).append([num(c.lb), num(c.ub), num(c.fun(x)), num(c.jac(x)) if callable(c.jac) else None])
    if run:
        np.random.seed(4)
        out['result'] = see_result(m.execute(**(opts or {})), final=False)
    return out


def see_result(r, final=True):
    out = {'params': [[k, repr(float(v))] for k, v in r.params.items()], 'cov': num(r.covariance_matrix), 'status': str(r.status_message),
           'iterations': repr(r.iterations), 'gof': sorted((k, num(v)) for k, v in r.gof_qualifiers.items()),
           'minimizer': type(r.minimizer).__name__, 'objective': type(r.objective).__name__, 'nconstraints': len(r.constraints)}
    for k, v in r.gof_qualifiers.items():
        require(getattr(r, k) is v or np.array_equal(getattr(r, k), v, equal_nan=True), 'attribute {}', k)
    for p in r.model.params:
        out.setdefault('entries', []).append([repr(float(r.value(p))), num(r.stdev(p)), num(r.variance(p))])
    if hasattr(r.minimizer, 'minimizers'):
        out['steps'] = [type(m).__name__ for m in r.minimizer.minimizers]
    if final:
        text = [l for l in scrub(str(r)).split('\n') if not any(l.startswith(k) for k in ('Objective', 'Minimizer'))]
        out['text'] = text
        out['model'] = see_model(r.model)
        if not r.model.independent_vars:
            ans = r.model(**r.params)
            out['at_optimum'] = [num(c) for c in ans]
    return out


def see_fit(f, points, free, run=True, opts=None):
    out = {'model': see_model(f.model), 'minimizer': see_minimizer(f.minimizer, points, free, False), 'absolute_sigma': f.absolute_sigma,
           'objective': see_objective(f.objective, points, free), 'constraints': [see_model(c) for c in f.constraints],
           'data': sorted((getattr(k, 'name', k), num(v)) for k, v in f.data.items())}
    if run:
        np.random.seed(4)
        out['result'] = see_result(f.execute(**(opts or {})))
    return out


SEE = {'symbol': see_symbol, 'model': see_model, 'objective': see_objective, 'minimizer': see_minimizer, 'fit': see_fit, 'result': see_result}


def observe(kind, obj, args):
    return SEE[kind](obj, *args)


def observe_blob(blob, kind, args, again):
    """In a fresh interpreter: restore, perhaps restore once more, observe."""
    obj = pickle.loads(blob)
    if again:
        obj = pickle.loads(pickle.dumps(obj, again))
    import json
    return json.loads(json.dumps(observe(kind, obj, args)))


def same(a, b, path, rtol):
    """Observations agree; numbers up to rounding."""
    if isinstance(a, dict) and isinstance(b, dict):
        require(a.keys() == b.keys(), '{}: {} instead of {}', path, sorted(b), sorted(a))
        if set(a) == {'shape', 'v'}:
            require(a['shape'] == b['shape'], '{}: shape {} instead of {}', path, b['shape'], a['shape'])
            x, y = np.array([float(v) for v in a['v']]), np.array([float(v) for v in b['v']])
            scale = max([1e-300] + [abs(v) for v in x[np.isfinite(x)]])
            close(y, x, rtol * (np.abs(x) + scale), path)
            return
        for k in a:
            same(a[k], b[k], path + '.' + str(k), rtol)
        return
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        require(len(a) == len(b), '{}: {} instead of {}', path, b, a)
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, '{}[{}]'.format(path, i), rtol)
        return
    if a != b and isinstance(a, str) and isinstance(b, str) and rtol:
        try:
            x, y = float(a), float(b)
            if x == y or (x != x and y != y) or abs(x - y) <= rtol * (1 + abs(x)):
                return
        except ValueError:
            # numbers inside a line of the report
            ta, tb = a.split(), b.split()
            if len(ta) == len(tb) > 1:
                for x, y in zip(ta, tb):
                    same(x, y, path, max(rtol, 1e-5))
                return
    require(a == b and type(a) == type(b), '{}: {} instead of {}', path, b, a)


def check(obj, kind, args, case, rtol=1e-9):
    """Round trips in this process and into a fresh interpreter."""
    import json
    from zygote import fresh
    plain = lambda o: json.loads(json.dumps(observe(kind, o, args)))
    proto = case['protocol']
    blob = pickle.dumps(obj, proto)     # before anything was evaluated (and cached)
    first = plain(obj)
    if case['late']:
        blob = pickle.dumps(obj, proto)
    before = plain(obj)
    same(first, before, 'the original after pickling', rtol)
    there = pickle.loads(blob)
    same(first, plain(there), 'restored', rtol)
    if case['again']:
        same(first, plain(pickle.loads(pickle.dumps(there, proto))), 'restored twice', rtol)
    same(first, plain(obj), 'the original after restoring', rtol)
    kindf, res = fresh('c17', 'observe_blob', blob, kind, args, proto if case['again'] else 0)
    if kindf != 'ok':
        raise Violation('in a fresh interpreter: {}'.format(res))
    same(first, res, 'restored in a fresh interpreter', rtol)
    return there


HOW = {'protocol': st.sampled_from([2, 3, 4, 5]), 'late': st.booleans(), 'again': st.booleans()}


def how(draw):
    return {k: draw(v) for k, v in HOW.items()}


# ---- facets ------------------------------------------------------------------

@st.composite
def _symbols(draw):
    n = draw(st.integers(1, 4))
    out = []
    for nm in draw(exprs.names(n)):
        kind = draw(st.sampled_from(['Parameter', 'Parameter', 'Variable']))
        d = {'kind': kind, 'name': nm if draw(st.integers(0, 4)) else None}
        if kind == 'Parameter':
            d['value'] = draw(exprs.number())
            d['min'], d['max'] = draw(st.sampled_from([(None, None), (-5.0, None), (None, 5), (-5, 5.5), (0, 0)]))
            d['fixed'] = draw(st.booleans())
        out.append(d)
    return dict({'symbols': out, 'together': draw(st.booleans())}, **how(draw))


@facet(FACETS, 'symbols', _symbols,
       'named and unnamed parameters and variables with any attributes, alone and together, pickled with protocols 2-5 into this and a '
       'fresh interpreter; unnamed symbols created afterwards keep distinct names; all non-trivial')
def symbols_(case):
    from symfit import Parameter, Variable
    from zygote import fresh
    syms = []
    for d in case['symbols']:
        kw = {k: d[k] for k in ('value', 'min', 'max', 'fixed') if k in d}
        args = (d['name'],) if d['name'] else ()
        syms.append({'Parameter': Parameter, 'Variable': Variable}[d['kind']](*args, **kw))
    for s in syms:
        t = check(s, 'symbol', (), case)
        require(t == s and hash(t) == hash(s), 'the restored {} is not equal to the original', s)
        require((t - s) == 0, '{} - {} does not vanish', t, s)
    back = pickle.loads(pickle.dumps(syms, case['protocol']))
    require([see_symbol(s) for s in back] == [see_symbol(s) for s in syms], 'symbols restored together differ')
    kind, res = fresh('c17', 'unnamed', pickle.dumps(syms, case['protocol']))
    require(kind == 'ok', 'fresh interpreter: {}', res)
    auto = {s.name for s, d in zip(syms, case['symbols']) if not d['name']}
    require(not set(res) & auto, 'unnamed symbols {} created next to the restored {}', res, [s.name for s in syms])
    require(len(set(res)) == len(res), 'unnamed symbols share a name: {}', res)
    return info(True, *[d['kind'] + ('' if d['name'] else ' unnamed') for d in case['symbols']])


def unnamed(blob):
    from symfit import Parameter, Variable
    syms = pickle.loads(blob)
    return [Parameter().name, Variable().name, Parameter().name, Variable().name]


@st.composite
def _model(draw):
    kind = draw(st.sampled_from(['Model', 'Model', 'GradientModel', 'CallableModel', 'CallableNumericalModel', 'ODEModel']))
    if kind == 'ODEModel':
        c = draw(odes.linear(maxk=2))
        return dict({'kind': kind, 'ode': c, 'ts': draw(odes.times(c['t0'], maxn=4)), 'opts': draw(st.sampled_from([{}, {'method': 'RK45'}, {'rtol': 1e-9}])),
                     'negate': draw(st.booleans())}, **how(draw))
    sp = draw(mg.spec(nvars=(0, 2), nparams=(1, 3), ncomps=(1, 3), tidy=True, depth=2, numeric=kind == 'CallableNumericalModel'))
    return dict({'kind': kind, 'spec': sp, 'shape': draw(st.sampled_from([[3], [2, 2]])), 'x': draw(st.lists(exprs.number(), min_size=4, max_size=4)),
                 'points': [draw(mg.param_values(sp['params'])) for _ in range(2)], 'negate': draw(st.integers(0, 2)) == 0,
                 'constraint': draw(st.sampled_from([None, None, 'Eq', 'Ge', 'Le']))}, **how(draw))


def pickle_build(sp, pattrs=None, cls=None):
    """models_gen.build with picklable functions."""
    b = mg.build(sp, pattrs=pattrs)
    b.model_dict = {v: (Fn(next(a for c, a, k in sp['comps'] if c == v.name), sorted(exprs.symbols_of(next(a for c, a, k in sp['comps'] if c == v.name))))
                        if v in b.conn else e) for v, e in b.model_dict.items()}
    b.model = cls(b.model_dict, connectivity_mapping=dict(b.conn)) if b.conn else cls(b.model_dict)
    return b


@facet(FACETS, 'model', _model,
       'models of every class (ODE models with integrator options, negated models, constraint models): roles, parameters, values, '
       'Jacobians and Hessians before and after round trips; non-trivial: more than one component or a parameter with attributes')
def model(case):
    import symfit
    if case['kind'] == 'ODEModel':
        c = case['ode']
        odes.growth(c, case['ts'])
        m, table = odes.build_linear(c, {p: {'value': v, 'min': -9} for p, v in c['p'].items()}, **case['opts'])
        if case['negate']:
            m = -m
        ts = [float(t) for t in case['ts']]
        check(m, 'model', ([c['p']], {c['t']: ts}), case, 1e-7)
        return info(True, 'ODEModel', 'negated' if case['negate'] else 'plain', case['protocol'])
    sp = case['spec']
    cls = getattr(symfit, case['kind'], None) or getattr(symfit.core.models, case['kind'])
    attrs = {}
    for i, p in enumerate(sorted(sp['params'])):
        attrs[p] = [{'value': case['points'][0][p], 'fixed': True}, {'value': 0.5, 'min': -4}, {'value': case['points'][1][p], 'min': -9, 'max': 9}][i % 3]
    b = pickle_build(sp, attrs, cls)
    m = b.model
    n = int(np.prod(case['shape']))
    data = {v: [[q + i for q in case['x'][:n]]] for i, v in enumerate(sp['vars'])}
    data = {v: np.array(d).reshape(case['shape']).tolist() for v, d in data.items()}
    for p in case['points']:
        mg.ref_jets(sp, {v: np.array(d) for v, d in data.items()}, p, limit=1e3)
    if case['constraint']:
        P = b.table[sp['params'][0]]
        if b.conn:
            f = Fn(['-', ['s', P.name], ['c', 1.5]], [P.name])
            q = symfit.Variable('con_')
            m = cls.as_constraint({q: f}, b.model, constraint_type=getattr(symfit, case['constraint']), connectivity_mapping={q: {P}})
        else:
            m = cls.as_constraint(getattr(symfit, case['constraint'])(P ** 2, 1.5), b.model)
        data = {}
        require([p.name for p in m.params] == b.params, 'parameters of the constraint {}', m.params)
    elif case['negate']:
        m = -m
    check(m, 'model', (case['points'], data), case)
    return info(len(sp['comps']) > 1 or len(sp['params']) > 1, case['kind'], 'constraint' if case['constraint'] else 'negated' if case['negate'] else 'plain',
                case['protocol'])


@st.composite
def _objective(draw):
    kind = draw(st.sampled_from(['LeastSquares', 'LeastSquares', 'VectorLeastSquares', 'LogLikelihood', 'MinimizeModel']))
    scalar = kind == 'MinimizeModel'
    c = draw(objgen.ls_case(vector=kind == 'VectorLeastSquares', numeric=draw(st.integers(0, 3)) == 0, spec_kw=dict(nvars=(0, 0), ncomps=(1, 2)) if scalar else None))
    c['objective'] = kind
    c['model'] = draw(st.sampled_from(['Model', 'Model', 'GradientModel', 'CallableModel']))
    c.update(how(draw))
    return c


@facet(FACETS, 'objective', _objective,
       'every objective over random models and data (fixed parameters, missing components, weights): value, gradient and Hessian before '
       'and after round trips; all non-trivial')
def objective(case):
    import symfit
    from symfit import Fit
    from symfit.core import objectives
    kind = case['objective']
    sp = case['spec']
    dep, _ = mg.roles(sp)
    if kind == 'MinimizeModel' and len(dep) > 1:
        raise Reject('several components')
    numeric = any(k == 'num' for _, _, k in sp['comps'])
    cls = getattr(symfit, case['model'], None) or getattr(symfit.core.models, case['model'])
    if numeric:
        cls = symfit.CallableNumericalModel
    b = pickle_build(sp, {p: {'value': v, 'fixed': True} for p, v in case['fixed'].items()}, cls)
    for p in case['points']:
        objgen.pieces(case, p, 1000)
    ocls = getattr(objectives, kind)
    kw = fg.data_kwargs(case)
    if kind in ('MinimizeModel', 'LogLikelihood'):
        kw = {v: kw[v] for v in sp['vars']}
    o = Fit(b.model, objective=ocls, **kw).objective
    free = [p for p in sorted(sp['params']) if p not in case['fixed']]
    there = check(o, 'objective', (case['points'], free), case)
    require(there == o or numeric, 'the restored objective is not equal to the original')
    return info(True, kind, 'numeric' if numeric else case['model'], 'fixed' if case['fixed'] else 'free', case['protocol'])


MINIS = ['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'COBYLA', 'NelderMead', 'Powell', 'MINPACK', 'BasinHopping', 'DifferentialEvolution',
         'chain', 'chain', None]


@st.composite
def _fit(draw):
    c = draw(fg.linear_case(nparams=(1, 3), fixed=draw(st.sampled_from([False, True])), guess=2))
    c['minimizer'] = draw(st.sampled_from(MINIS))
    c['steps'] = draw(st.lists(st.sampled_from(['BFGS', 'NelderMead', 'LBFGSB', 'SLSQP', 'COBYLA']), min_size=1, max_size=3))
    c['cons'] = [draw(st.sampled_from(['Eq', 'Ge', 'Le'])) for _ in range(draw(st.integers(0, 2)))]
    c['numeric'] = draw(st.integers(0, 3)) == 0
    c['what'] = draw(st.sampled_from(['fit', 'minimizer', 'result']))
    c['bounded'] = draw(st.booleans())
    c['abs'] = draw(st.sampled_from([None, True, False]))
    c['model'] = draw(st.sampled_from(['Model', 'Model', 'GradientModel', 'CallableModel']))
    c.update(how(draw))
    return c


@facet(FACETS, 'fit', _fit,
       'fits, minimizers and results with every minimizer, chains, bounds, fixed parameters, constraints and numerical models: '
       'everything they hold, the functions handed to the optimizer and the outcome of executing them before and after round trips; '
       'non-trivial: constraints, bounds, fixed parameters or a chain')
def fit_(case):
    import symfit
    from symfit import Fit
    from symfit.core import minimizers as M
    popt, Sopt, H, n = fg.optimum(case, maxcond=100.0)
    names = sorted(case['spec']['params'])
    free = [p for p in names if p not in case['fixed']]
    name = case['minimizer']
    cls = getattr(symfit, case['model'], None) or getattr(symfit.core.models, case['model'])
    if case['numeric']:
        cls = symfit.CallableNumericalModel
        for comp in case['spec']['comps']:
            comp[2] = 'num'
    bounded = case['bounded'] or name == 'DifferentialEvolution'
    attrs = {p: dict({'value': case['guess'][p], 'fixed': p in case['fixed']}, **({'min': case['guess'][p] - 3, 'max': case['guess'][p] + 4} if bounded and p in free else {}))
             for p in names}
    b = pickle_build(case['spec'], attrs, cls)
    kw = dict(fg.data_kwargs(case), absolute_sigma=case['abs'])
    if name == 'chain':
        kw['minimizer'] = [getattr(M, s) for s in case['steps']]
    elif name:
        kw['minimizer'] = getattr(M, name)
    cons = []
    if case['cons'] and (name in ('SLSQP', 'TrustConstr', 'COBYLA', None, 'BasinHopping') or name == 'chain' and 'SLSQP' in case['steps']):
        P = b.table[free[0]]
        for i, k in enumerate(case['cons']):
            if k == 'Eq' and (i or 'COBYLA' in (name, *case['steps'])):
                k = 'Ge'
            cons.append(getattr(symfit, k)(P + 0.25 * i, {'Eq': 0.5, 'Ge': -2.5, 'Le': 6.5}[k]))
        kw['constraints'] = cons
    opts = {}
    if name == 'DifferentialEvolution':
        opts = {'seed': 1, 'maxiter': 4, 'popsize': 5}
    elif name == 'BasinHopping':
        opts = {'niter': 1, 'seed': 2}
    elif name in ('NelderMead', 'COBYLA', 'Powell', 'TrustConstr'):
        opts = {'options': {'maxiter': 60}}
    fit = Fit(b.model, **kw)
    pts = [dict({q: popt[q] + 0.25 for q in names}, **case['fixed']), dict({q: 0.5 - i for i, q in enumerate(names)}, **case['fixed'])]
    rtol = 1e-6 if name is not None or case['numeric'] else 1e-7
    try:
        if case['what'] == 'fit':
            check(fit, 'fit', (pts, free, True, opts), case, rtol)
        elif case['what'] == 'minimizer':
            check(fit.minimizer, 'minimizer', (pts, free, True, opts), case, rtol)
        else:
            np.random.seed(4)
            res = fit.execute(**opts)
            there = check(res, 'result', (), case, rtol)
            for p in b.model.params:
                require(there.value(p) == res.value(p), 'value of {} in the restored result', p)
            ans = there.model(**dict({v: np.array([0.5, 1.5]) for v in case['spec']['vars']}, **there.params))
            want = fit.model(**dict({v: np.array([0.5, 1.5]) for v in case['spec']['vars']}, **res.params))
            for x, y in zip(ans, want):
                close(x, y, 1e-9 * (1 + np.abs(y).max()), 'restored model at the optimum')
    except np.linalg.LinAlgError:
        raise Reject('scipy failed')
    return info(bool(cons) or bounded or bool(case['fixed']) or name == 'chain', case['what'], name, 'numeric' if case['numeric'] else case['model'],
                'constraints=%d' % len(cons), 'bounded' if bounded else 'unbounded', 'fixed' if case['fixed'] else 'free', case['protocol'])
