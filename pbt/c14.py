"""C14: constraints mean what they say and hold at the reported optimum."""
import itertools

import numpy as np
from hypothesis import strategies as st

import big
import exprs
import models_gen as mg
import objgen
import fitgen as fg
from c13 import bounds_for, inside
from core import facet, info, close, require, expect_raises, Violation, Reject

FACETS = {}


# ---- what a constraint evaluates to ------------------------------------------

@st.composite
def _value(draw):
    scalar = draw(st.booleans())
    sp = draw(mg.spec(nvars=(0, 0) if scalar else (1, 2), nparams=(1, 4), ncomps=(1, 3), tidy=True, depth=2))
    pool = list(sp['params'])
    comps = [c[0] for c in sp['comps']]

    def side():
        k = draw(st.integers(0, 3))
        if k == 0:
            return ['c', draw(exprs.number())]
        must = draw(st.lists(st.sampled_from(pool + (comps if scalar else [])), min_size=1, max_size=3, unique=True))
        return draw(exprs.expr(must, must, 2))
    rels = []
    for _ in range(draw(st.integers(1, 3))):
        rels.append([draw(st.sampled_from(['Eq', 'Ge', 'Le'])), side(), side()])
    fx = {}
    if draw(st.integers(0, 2)) == 0 and len(pool) > 1:
        fx = {draw(st.sampled_from(pool)): draw(exprs.number())}
    shape = draw(st.sampled_from([[3], [2, 2], [1]]))
    dep, _ = mg.roles(sp)
    y = {}
    if not scalar:
        clo = objgen.base_closure(sp)
        y = {c: draw(objgen.values(shape, exprs.number())) for c in dep}
    return {'spec': sp, 'rels': rels, 'route': draw(st.sampled_from(['relation', 'python', 'model', 'model_dict', 'model_list'])),
            'points': [dict(draw(mg.param_values(pool)), **fx) for _ in range(2)], 'fixed': fx,
            'data': {v: draw(objgen.values(shape, exprs.number())) for v in sp['vars']}, 'y': y, 'sigma': {},
            'minimizer': draw(st.sampled_from(['SLSQP', 'TrustConstr', 'COBYLA', None])),
            'model': draw(st.sampled_from(['Model', 'Model', 'GradientModel', 'CallableModel']))}


def relation(kind, lhs, rhs, table, route):
    import sympy
    import symfit
    l, r = (sympy.sympify(exprs.to_sympy(e, table)) for e in (lhs, rhs))
    if not l.free_symbols and not r.free_symbols:
        raise Reject('no symbols')
    if route == 'python' and kind != 'Eq':
        return l >= r if kind == 'Ge' else l <= r
    return {'Eq': symfit.Eq, 'Ge': symfit.Ge, 'Le': symfit.Le}[kind](l, r)


def ref_constraint(sp, data, p, kind, lhs, rhs):
    """Jet of the condition (>= 0 or == 0) over all parameters of the model."""
    ps = sorted(sp['params'])
    P = len(ps)
    mag = exprs.Mag()
    jets, m = mg.ref_jets(sp, data, p, limit=100)
    env = {c: exprs.Jet(j.v[0], j.g[:, 0], j.h[:, :, 0]) for c, j in jets.items() if j.v.size == 1 and j.v.ndim == 1}
    for i, n in enumerate(ps):
        env[n] = exprs.param_jet(p[n], i, P)
    l, r = exprs.jet(lhs, env, P, mag), exprs.jet(rhs, env, P, mag)
    j = exprs.jadd(l, r, -1.0)
    if not mag.m < 1000:
        raise Reject('magnitude')
    s = -1.0 if kind == 'Le' else 1.0
    return s * j.v, s * j.g, s * j.h, mag.m


@facet(FACETS, 'value', _value,
       'relations (==, >=, <=) over parameters and scalar components, given to Fit or as_constraint in several forms: type, value, '
       'sign, gradient and Hessian of the resulting constraint over all parameters of the model against forward mode, also as the '
       'optimizer sees them; non-trivial: at least one inequality or component involved')
def value(case):
    import sympy
    import symfit
    from symfit import Fit, Eq, Ge, Le
    from symfit.core.objectives import MinimizeModel
    sp = case['spec']
    data = {v: np.array(d['v'], dtype=float).reshape(d['shape']) for v, d in case['data'].items()}
    refs = [[ref_constraint(sp, data, p, *rel) for rel in case['rels']] for p in case['points']]
    cls = getattr(symfit.core.models, case['model'])
    b = mg.build(sp, pattrs={p: {'value': v, 'fixed': True} for p, v in case['fixed'].items()}, cls=cls)
    pn = b.params
    free = [p for p in pn if p not in case['fixed']]
    given, originals = [], []
    types = {'Eq': Eq, 'Ge': Ge, 'Le': Le}
    for i, (kind, lhs, rhs) in enumerate(case['rels']):
        rel = relation(kind, lhs, rhs, b.table, case['route'])
        if not isinstance(rel, sympy.core.relational.Relational):
            raise Reject('sympy decided the relation')
        expr = rel.lhs - rel.rhs
        if not expr.free_symbols:
            raise Reject('sympy cancelled everything')
        if case['route'].startswith('model'):
            arg = {'model': expr, 'model_dict': {symfit.Variable('con%d' % i): expr}, 'model_list': [expr]}[case['route']]
            given.append(cls.as_constraint(arg, b.model, constraint_type=type(rel)))
        else:
            given.append(rel)
        originals.append(type(rel))
    keys = [c.copy() if isinstance(c, dict) else c for c in given]
    kw = {} if case['minimizer'] is None else {'minimizer': fg.minimizer(case['minimizer'])}
    before = list(given)
    if not sp['vars']:
        # neither needs data for the components
        kw['objective'] = MinimizeModel if len(mg.roles(sp)[0]) == 1 else symfit.core.objectives.LogLikelihood
    fit = Fit(b.model, constraints=given, **dict(fg.data_kwargs(case), **kw))
    require(given == before and len(fit.constraints) == len(given), 'the list of constraints was modified')
    require(not hasattr(b.model, 'constraint_type'), 'the model became a constraint')
    require(len(fit.minimizer.constraints) == len(given), 'constraints of the minimizer: {}', fit.minimizer.constraints)
    for i, (con, (kind, lhs, rhs)) in enumerate(zip(fit.constraints, case['rels'])):
        require([p.name for p in con.params] == pn, 'constraint {} has parameters {} instead of {}', i, con.params, pn)
        require(con.constraint_type is (Eq if kind == 'Eq' else Ge), 'constraint {} ({}) became of type {}', i, kind, con.constraint_type)
        require(len(con.dependent_vars) == 1, 'constraint {} has components {}', i, con.dependent_vars)
        obj = fit.minimizer.constraints[i]
        require(isinstance(obj, MinimizeModel) and obj.model is con, 'constraint of the minimizer is {}', obj)
        wrapped = fit.minimizer.wrapped_constraints[i]
        for p, rs in zip(case['points'], refs):
            v, g, h, mag = rs[i]
            tol = 1e-9 * (1 + mag) ** 2
            x = np.array([p[q] for q in free])
            names = {q: p[q] for q in [s.name for s in con.params]}
            got = con(**names)
            close(np.ravel(getattr(got, con.dependent_vars[0].name)), [v], tol,
                  'value of constraint {} ({})'.format(i, kind))
            close(np.ravel(obj(x)), [v], tol, 'constraint function {} ({})'.format(i, kind))
            if case['minimizer'] in (None, 'SLSQP', 'COBYLA'):
                require(wrapped['type'] == ('eq' if kind == 'Eq' else 'ineq'), 'constraint {} has type {}', i, wrapped['type'])
                close(np.ravel(wrapped['fun'](x)), [v], tol, 'constraint function {} of the optimizer'.format(i))
                jac = wrapped.get('jac')
                hess = None
            else:
                close(np.ravel(wrapped.fun(x)), [v], tol, 'constraint function {} of the optimizer'.format(i))
                close(np.ravel(wrapped.lb), [0], 0, 'lower bound of constraint {}'.format(i))
                close(np.ravel(wrapped.ub), [0 if kind == 'Eq' else np.inf], 0, 'upper bound of constraint {}'.format(i))
                jac, hess = wrapped.jac, wrapped.hess
            m = [q in free for q in pn]
            if case['model'] != 'CallableModel':
                close(obj.eval_jacobian(x)[:, 0] if np.ndim(obj.eval_jacobian(x)) > 1 else obj.eval_jacobian(x), g, tol * 10,
                      'gradient of constraint {}'.format(i))
                if case['minimizer'] != 'COBYLA':
                    close(np.ravel(jac(x)), g[m], tol * 10, 'gradient of constraint {} of the optimizer'.format(i))
            if case['model'] == 'Model':
                close(np.reshape(obj.eval_hessian(x), h.shape), h, tol * 100, 'Hessian of constraint {}'.format(i))
                if callable(hess):
                    got = np.reshape(hess(x, np.array([-1.5])), (len(free),) * 2)
                    close(got, -1.5 * h[np.ix_(m, m)], tol * 100, 'Hessian of constraint {} of the optimizer'.format(i))
                elif case['minimizer'] == 'TrustConstr':
                    raise Violation('no Hessian of constraint {} is passed'.format(i))
    comps = {c[0] for c in sp['comps']}
    uses = any((exprs.symbols_of(l) | exprs.symbols_of(r)) & comps for _, l, r in case['rels'])
    return info(uses or any(k != 'Eq' for k, _, _ in case['rels']), case['route'], case['model'], case['minimizer'],
                'component' if uses else 'parameters', 'fixed' if case['fixed'] else 'free', *[k for k, _, _ in case['rels']])


# ---- constraints with data ---------------------------------------------------

@st.composite
def _data(draw):
    ns = draw(exprs.names(6))
    return {'names': ns, 'x': [draw(exprs.number()) for _ in range(draw(st.integers(3, 5)))],
            'scalar': draw(exprs.nonzero()), 'p': [draw(exprs.number()) for _ in range(2)],
            'kind': draw(st.sampled_from(['scalar', 'sum', 'component_sum'])), 'type': draw(st.sampled_from(['Eq', 'Ge', 'Le'])),
            'route': draw(st.booleans()), 'minimizer': draw(st.sampled_from([None, 'COBYLA']))}


@facet(FACETS, 'data', _data,
       'constraints with data of their own: a scalar variable, or a callable summing over the data or over a component of the model; '
       'all non-trivial')
def data_(case):
    import symfit
    from symfit import Parameter, Variable, Model, Fit, CallableNumericalModel, CallableModel
    a, b_, x, y, z, c = case['names']
    A, B, X, Y, Z = Parameter(a, value=1.0), Parameter(b_, value=2.0), Variable(x), Variable(y), Variable(z)
    xd = np.array(case['x'])
    yd = 1.5 * xd + 0.5
    T = getattr(symfit, case['type'])
    s = -1.0 if case['type'] == 'Le' else 1.0
    model = Model({Y: A * X + B})
    extra = {}
    p = dict(zip((a, b_), case['p']))
    if case['kind'] == 'scalar':
        con = T(A * Z + B ** 2, Z) if case['route'] else Model.as_constraint(A * Z + B ** 2 - Z, model, constraint_type=T)
        extra = {z: case['scalar']}
        want = p[a] * case['scalar'] + p[b_] ** 2 - case['scalar']
        grad = np.array([case['scalar'], 2 * p[b_]]) if a < b_ else np.array([2 * p[b_], case['scalar']])
    elif case['kind'] == 'sum':
        f = eval('lambda {0}, {1}, {2}: _n.sum({0} * {2}) - {1}'.format(a, b_, x), {'_n': np})
        con = CallableNumericalModel.as_constraint({Variable(c): f}, model, constraint_type=T,
                                                   connectivity_mapping={Variable(c): {A, B, X}})
        want, grad = p[a] * np.sum(xd) - p[b_], None
    else:
        f = eval('lambda {0}, {1}: _n.sum({0}) - {1}'.format(y, a), {'_n': np})
        con = CallableNumericalModel.as_constraint({Variable(c): f}, model, constraint_type=T, connectivity_mapping={Variable(c): {Y, A}})
        want, grad = np.sum(p[a] * xd + p[b_]) - p[a], None
    kw = {'minimizer': fg.minimizer(case['minimizer'])} if case['minimizer'] else {}
    fit = Fit(model, constraints=[con], **dict({x: xd, y: yd}, **dict(extra, **kw)))
    fun = fit.minimizer.wrapped_constraints[0]['fun']
    vec = [p[n] for n in sorted((a, b_))]
    close(np.ravel(fun(vec)), [s * want], 1e-10 * (1 + abs(want)) * 10, 'constraint with data')
    close(np.ravel(fun(**p)), [s * want], 1e-10 * (1 + abs(want)) * 10, 'constraint with data, by name')
    require(fit.minimizer.wrapped_constraints[0]['type'] == ('eq' if case['type'] == 'Eq' else 'ineq'), 'type')
    if grad is not None and case['minimizer'] is None:
        close(np.ravel(fit.minimizer.wrapped_constraints[0]['jac'](vec)), s * grad, 1e-9 * (1 + np.abs(grad).max()), 'gradient')
    # the fit itself is unaffected
    close(fit.objective(vec), 0.5 * np.sum((p[a] * xd + p[b_] - yd) ** 2), 1e-9 * (1 + np.sum((p[a] * xd + p[b_] - yd) ** 2)), 'objective')
    if extra:
        expect_raises(TypeError, lambda: Fit(model, constraints=[con], **dict({x: xd, y: yd}, **kw)), 'missing data of the constraint')
    return info(True, case['kind'], case['type'])


# ---- rejected constraints ----------------------------------------------------

@st.composite
def _bad(draw):
    sp = draw(mg.spec(nvars=(0, 1), nparams=(1, 3), ncomps=(1, 2), tidy=True, depth=2))
    return {'spec': sp, 'kind': draw(st.sampled_from(['Gt', 'Lt', 'Ne', 'foreign', 'several', 'none', 'foreign_component'])),
            'which': draw(st.integers(0, 5)), 'cls': draw(st.sampled_from(['Model', 'GradientModel', 'CallableModel']))}


@facet(FACETS, 'rejected', _bad,
       'strict and != relations, several components, unknown parameters and missing types must raise ModelError; all non-trivial')
def rejected(case):
    import sympy
    import symfit
    from symfit import Parameter, Fit, Eq
    from symfit.core.models import ModelError
    cls = getattr(symfit.core.models, case['cls'])
    b = mg.build(case['spec'], cls=cls)
    P = b.table[case['spec']['params'][case['which'] % len(case['spec']['params'])]]
    kw = {v: np.array([1.0, 2.0]) for v in b.vars}
    dep, _ = mg.roles(case['spec'])
    kw.update({c: np.array([1.0, 2.0]) for c in dep})
    k = case['kind']
    foreign = Parameter('zz_foreign')
    if k in ('Gt', 'Lt', 'Ne'):
        rel = {'Gt': sympy.Gt, 'Lt': sympy.Lt, 'Ne': sympy.Ne}[k](P, 1)
        expect_raises(ModelError, lambda: Fit(b.model, constraints=[rel], **kw), 'a constraint ' + str(rel))
        expect_raises(ModelError, lambda: cls.as_constraint(rel, b.model), 'a constraint ' + str(rel))
        expect_raises(ModelError, lambda: cls.as_constraint(P - 1, b.model, constraint_type=type(rel)), 'a constraint type ' + k)
    elif k == 'foreign':
        expect_raises(ModelError, lambda: Fit(b.model, constraints=[Eq(foreign, 1)], **kw), 'a foreign parameter')
        expect_raises(ModelError, lambda: Fit(b.model, constraints=[symfit.Ge(P + foreign, 1)], **kw), 'a foreign parameter')
    elif k == 'foreign_component':
        expect_raises(ModelError, lambda: cls.as_constraint({symfit.Variable('zz_c'): foreign * P}, b.model, constraint_type=Eq), 'a foreign parameter')
    elif k == 'several':
        expect_raises(ModelError, lambda: cls.as_constraint([P - 1, P + 2], b.model, constraint_type=Eq), 'two components')
    else:
        expect_raises(ModelError, lambda: cls.as_constraint(P - 1, b.model), 'a constraint without type')
    Fit(b.model, constraints=[Eq(P, 1)], **kw)
    return info(True, k, case['cls'])


# ---- constrained optima ------------------------------------------------------

def qp(H, x0, Ceq, deq, Cin, din):
    """min (x-x0).H.(x-x0)/2 with Ceq x = deq, Cin x >= din, by active sets."""
    n = len(x0)
    best = None
    for k in range(min(len(din), n - len(deq)) + 1):
        for act in itertools.combinations(range(len(din)), k):
            C = np.vstack([Ceq, Cin[list(act)]]) if len(Ceq) or act else np.zeros((0, n))
            d = np.concatenate([deq, din[list(act)]])
            m = len(d)
            K = np.block([[H, -C.T], [C, np.zeros((m, m))]])
            if np.linalg.cond(K) > 1e8:
                continue
            x = np.linalg.solve(K, np.concatenate([H @ x0, d]))[:n]
            if np.any(Cin @ x < din - 1e-10):
                continue
            v = (x - x0) @ H @ (x - x0) / 2
            if best is None or v < best[0] - 1e-12:
                best = (v, x, k)
    if best is None:
        raise Reject('infeasible')
    return best


@st.composite
def _optimum(draw):
    c = draw(fg.linear_case(nparams=(2, 3), ncomps=(1, 2), fixed=draw(st.integers(0, 3)) == 0, guess=2))
    ps = c['spec']['params']
    c['minimizer'] = draw(st.sampled_from(['SLSQP', None, 'TrustConstr', 'COBYLA']))
    c['feasible'] = dict(draw(mg.param_values(ps, -2, 2)), **c['fixed'])
    cons = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(['Eq', 'Ge', 'Le', 'Ge', 'Le'])) if c['minimizer'] != 'COBYLA' else draw(st.sampled_from(['Ge', 'Le']))
        which = draw(st.lists(st.sampled_from(ps), min_size=1, max_size=3, unique=True))
        coef = {p: draw(st.sampled_from([1.0, -1.0, 2.0, 0.5])) for p in which}
        cons.append([kind, coef, draw(st.sampled_from([0.0, 0.5, 2.0])), draw(st.booleans())])
    c['cons'] = cons
    c['bounds'] = draw(bounds_for(ps, c['guess'])) if draw(st.integers(0, 2)) == 0 and c['minimizer'] != 'COBYLA' else {}
    c['kind'] = draw(st.sampled_from(['sym', 'sym', 'num']))
    if c['kind'] == 'num':
        for comp in c['spec']['comps']:
            comp[2] = 'num'
    return c


@facet(FACETS, 'optimum', _optimum,
       'linear least squares with 1-3 linear equality and inequality constraints (and bounds, fixed parameters) by every constrained '
       'minimizer: constraints hold and the optimum equals that of the quadratic programme; non-trivial: constraints change the optimum')
def optimum(case):
    import symfit
    name = case['minimizer'] or 'SLSQP'
    popt, Sopt, H, n = fg.optimum(case, maxcond=40.0, big=6.0)
    names = sorted(case['spec']['params'])
    free = [p for p in names if p not in case['fixed']]
    m = np.array([p in free for p in names])
    rows = {'Eq': [], 'Ge': []}
    rhs = {}
    for i, (kind, coef, slack, swap) in enumerate(case['cons']):
        f = sum(v * case['feasible'][p] for p, v in coef.items())
        r = f if kind == 'Eq' else f - slack if kind == 'Ge' else f + slack
        rhs[i] = r
        r2 = r - sum(v * case['fixed'][p] for p, v in coef.items() if p in case['fixed'])
        vec = np.array([coef.get(p, 0.0) for p in free])
        if not vec.any():
            raise Reject('constraint over fixed parameters')
        if kind == 'Le':
            vec, r2 = -vec, -r2
        rows['Eq' if kind == 'Eq' else 'Ge'].append((vec, r2))
    for i, p in enumerate(free):
        lo, hi = case['bounds'].get(p, [None, None])
        e = np.eye(len(free))[i]
        if lo is not None:
            rows['Ge'].append((e, lo))
        if hi is not None:
            rows['Ge'].append((-e, -hi))
    k = len(free)
    Ceq = np.array([v for v, _ in rows['Eq']]).reshape(-1, k)
    deq = np.array([r for _, r in rows['Eq']])
    Cin = np.array([v for v, _ in rows['Ge']]).reshape(-1, k)
    din = np.array([r for _, r in rows['Ge']])
    if len(deq) >= k or (len(deq) and np.linalg.svd(Ceq)[1][-1] < 0.3):
        raise Reject('too many equalities')
    Hf = H[np.ix_(m, m)]
    gain, x, nact = qp(Hf, np.array([popt[p] for p in free]), Ceq, deq, Cin, din)
    if np.max(np.abs(x)) > 10:
        raise Reject('far away')
    want = dict(case['fixed'], **dict(zip(free, x)))
    Swant = fg.chi2(case, want)[0]

    def constraints(b):
        out = []
        for i, (kind, coef, slack, swap) in enumerate(case['cons']):
            e = sum(v * b.table[p] for p, v in coef.items())
            l, r, kd = e, rhs[i], kind
            if swap:  # the same condition written the other way round
                l, r, kd = rhs[i], e, {'Eq': 'Eq', 'Ge': 'Le', 'Le': 'Ge'}[kind]
            out.append(getattr(symfit, kd)(l, r))
        return out
    pattrs = {p: {'min': bd[0], 'max': bd[1]} for p, bd in case['bounds'].items() if p in free}
    b, fit = fg.make_fit(case, minimizer=None if case['minimizer'] is None else fg.minimizer(name), constraints=constraints, pattrs=pattrs)
    if case['minimizer'] is None:
        require(type(fit.minimizer).__name__ == 'SLSQP', 'minimizer of a constrained problem is {}', type(fit.minimizer))
    opts = {'options': {'maxiter': 3000}} if name in ('COBYLA', 'TrustConstr') else {}
    res = fit.execute(**opts)
    p = fg.result_params(res)
    x = np.array([p[q] for q in free])
    ok = res.minimizer_output.get('success', True)
    ctol = {'SLSQP': 1e-6, 'TrustConstr': 1e-5, 'COBYLA': 1e-4}[name]
    try:
        for q, v in case['fixed'].items():
            require(p[q] == v, '{}: fixed {} reported as {}', name, q, p[q])
        for i, (kind, coef, slack, swap) in enumerate(case['cons']):
            d = sum(v * p[q] for q, v in coef.items()) - rhs[i]
            bad = abs(d) if kind == 'Eq' else -d if kind == 'Ge' else d
            require(bad <= ctol * 10, '{}: constraint {} {} {} violated by {} at {}', name, coef, kind, rhs[i], bad, p)
        inside(p, {q: bd for q, bd in case['bounds'].items() if q in free}, 1e-6 if name == 'TrustConstr' else 1e-12, name)
        S = fg.chi2(case, p, 1e12)[0]
        tol = {'SLSQP': 1e-5, 'TrustConstr': 2e-3, 'COBYLA': 1e-3}[name]
        require(S <= Swant + tol * (1 + Swant), '{}: objective {} at {} exceeds the constrained optimum {} at {}; {}',
                name, S, p, Swant, want, res.status_message)
    except Violation:
        if not ok and name in ('COBYLA', 'TrustConstr'):
            raise Reject('not converged')
        if not ok and case['kind'] == 'num':
            raise Reject('not converged')
        raise
    require(len(res.constraints) == len(case['cons']), 'constraints of the result: {}', res.constraints)
    return info(gain > 1e-6, name, case['kind'], 'active=%d' % nact, 'fixed' if case['fixed'] else 'free', 'bounds' if pattrs else 'no bounds',
                'eq=%d' % len(deq))


@st.composite
def _ball(draw):
    n = draw(st.integers(2, 3))
    ns = draw(exprs.names(n + 3))
    return {'names': ns, 'n': n, 'centre': [draw(exprs.nonzero(-3, 3)) for _ in range(n)], 'w': [draw(exprs.positive(0.5, 2)) for _ in range(n)],
            'r': draw(exprs.positive(0.5, 2)), 'guess': [draw(exprs.nonzero(-2, 2)) for _ in range(n)],
            'type': draw(st.sampled_from(['Le', 'Ge_swapped', 'Eq'])), 'minimizer': draw(st.sampled_from(['SLSQP', 'TrustConstr', None])),
            'component': draw(st.booleans()), 'maximise': draw(st.booleans())}


@facet(FACETS, 'ball', _ball,
       'minimising a separable quadratic over a ball or sphere, with the radius as expression or as component of the model, against the '
       'solution of the secular equation; non-trivial: the constraint is active')
def ball(case):
    import symfit
    from symfit import Parameter, Variable, Model, Fit
    from scipy.optimize import brentq
    n = case['n']
    names = case['names'][:n]
    yn, un = case['names'][n:n + 2]
    w, c, r = np.array(case['w']), np.array(case['centre']), case['r']
    if np.min(np.abs(w * c)) < 0.2 or np.max(np.abs(case['guess'])) == 0:
        raise Reject('symmetric')
    inner = np.sum(c ** 2) <= r ** 2
    if case['type'] == 'Eq' and inner:
        raise Reject('nonconvex')
    if inner:
        x = c
    else:
        sec = lambda lam: np.sum((w * c / (w + lam)) ** 2) - r ** 2
        lam = brentq(sec, 0, 1e4)
        x = w * c / (w + lam)
    ps = [Parameter(nm, value=g) for nm, g in zip(names, case['guess'])]
    Y, U = Variable(yn), Variable(un)
    e = sum(wi * (p - ci) ** 2 for wi, p, ci in zip(case['w'], ps, case['centre']))
    rad = sum(p ** 2 for p in ps)
    if case['component']:
        # the square radius is a component which the objective also uses
        md = {U: rad, Y: e + U - rad}
        q = U
    else:
        md, q = {Y: e}, rad
    con = {'Le': lambda: symfit.Le(q, r ** 2), 'Ge_swapped': lambda: symfit.Ge(r ** 2, q), 'Eq': lambda: symfit.Eq(q, r ** 2)}[case['type']]()
    model = Model(md)
    if case['maximise']:
        model = -Model({k: (v if k == U else -v) for k, v in md.items()})
    kw = {} if case['minimizer'] is None else {'minimizer': fg.minimizer(case['minimizer'])}
    if case['component']:
        kw['objective'] = symfit.core.objectives.MinimizeModel
    fit = Fit(model, constraints=[con], **kw)
    res = fit.execute()
    p = np.array([fg.result_params(res)[nm] for nm in names])
    name = case['minimizer'] or 'SLSQP'
    tol = 1e-4 if name == 'SLSQP' else 3e-3
    d = np.sum(p ** 2) - r ** 2
    f = lambda v: np.sum(w * (v - c) ** 2)
    try:
        require((abs(d) if case['type'] == 'Eq' else d) <= tol, '{}: constraint violated by {} at {}', name, d, p)
        require(f(p) <= f(x) + tol * (1 + f(x)), '{}: {} at {} exceeds the optimum {} at {}; {}', name, f(p), p, f(x), x, res.status_message)
    except Violation:
        # local minima of the sphere are other stationary points
        if case['type'] == 'Eq' and abs(d) <= tol:
            lagr = w * (p - c)
            if np.linalg.norm(lagr - p * (lagr @ p) / (p @ p)) < 1e-2:
                raise Reject('other stationary point')
        if not res.minimizer_output.get('success', True) and name == 'TrustConstr':
            raise Reject('not converged')
        raise
    return info(not inner, name, case['type'], 'component' if case['component'] else 'expression')


# ---- constraints over matrix expressions -------------------------------------

@st.composite
def _matrix(draw):
    n = draw(st.integers(4, 6))
    P = draw(st.integers(2, 3))
    num = exprs.number(-2, 2)
    return {'n': n, 'P': P, 'names': draw(exprs.names(2 * P + 6)), 'cols': [draw(st.lists(num, min_size=n, max_size=n)) for _ in range(P)],
            'y': draw(st.lists(num, min_size=n, max_size=n)), 'w': draw(st.lists(exprs.positive(0.5, 2), min_size=n, max_size=n)),
            'sigma': draw(st.sampled_from([None, 'point'])), 's': draw(st.lists(exprs.positive(0.5, 2), min_size=n, max_size=n)),
            'type': draw(st.sampled_from(['Eq', 'Ge', 'Le'])), 'by': draw(st.sampled_from([-3.0, 0.5, 2.0])),
            'length': draw(st.sampled_from(['symbol', 'number', 'range'])), 'inter': draw(st.booleans()), 'weights': draw(st.booleans()),
            'form': draw(st.sampled_from(['sum', 'sum', 'dot'])), 'minimizer': draw(st.sampled_from([None, 'SLSQP', 'COBYLA'])),
            'guess': draw(st.lists(num, min_size=P, max_size=P)), 'points': [draw(st.lists(num, min_size=P, max_size=P)) for _ in range(2)]}


@facet(FACETS, 'matrix', _matrix,
       'models over matrix symbols, linear in the parameters, with a constraint on a sum over the elements of a component (symbolic '
       'Sum or product of matrices), with weights and lengths of its own: classification of symbols, value and type of the constraint, '
       'and the optimum against the quadratic programme; non-trivial: the constraint is active')
def matrix(case):
    import sympy as sp
    import symfit
    from symfit import Parameter, CallableModel, Fit
    n, P = case['n'], case['P']
    ns = case['names']
    pn, xs, (yn, wn, un, cn, Nn, sn) = ns[:P], ns[P:2 * P], ns[2 * P:]
    X = np.array(case['cols']).T
    yv = np.array(case['y']).reshape(n, 1)
    wv = np.array(case['w']).reshape(n, 1) if case['weights'] else np.ones((n, 1))
    N = sp.Symbol(Nn, integer=True) if case['length'] != 'number' else n
    ps = [Parameter(q, value=g) for q, g in zip(pn, case['guess'])]
    A = [sp.MatrixSymbol(q, N, 1) for q in xs]
    y, w, u, c = sp.MatrixSymbol(yn, N, 1), sp.MatrixSymbol(wn, N, 1), sp.MatrixSymbol(un, N, 1), sp.MatrixSymbol(cn, 1, 1)
    lin = ps[0] * A[0]
    for p, a in zip(ps[1:-1], A[1:-1]):
        lin = lin + p * a
    if case['inter']:
        md = {u: lin, y: u + ps[-1] * A[-1]}
    else:
        md = {y: lin + ps[-1] * A[-1]}
    model = CallableModel(md)
    require([v.name for v in model.interdependent_vars] == ([un] if case['inter'] else []), 'intermediate {}', model.interdependent_vars)
    require([v.name for v in model.dependent_vars] == [yn], 'dependent {}', model.dependent_vars)
    # the optimum without and with the constraint
    s = np.array(case['s']).reshape(n, 1) if case['sigma'] else np.ones((n, 1))
    H = X.T @ (X / s ** 2)
    if np.linalg.cond(H) > 40 or np.linalg.eigvalsh(H)[0] < 0.05:
        raise Reject('ill conditioned')
    x0 = np.linalg.solve(H, X.T @ (yv / s ** 2))[:, 0]
    C = (X.T @ wv)[:, 0]
    if np.linalg.norm(C) < 0.3:
        raise Reject('constraint without effect')
    d = float(C @ x0) + case['by']
    sign = -1.0 if case['type'] == 'Le' else 1.0
    none = np.zeros((0, P))
    args = (C[None], np.array([d]), none, np.zeros(0)) if case['type'] == 'Eq' else (none, np.zeros(0), sign * C[None], np.array([sign * d]))
    gain, xopt, nact = qp(H, x0, *args)
    if np.max(np.abs(xopt)) > 10:
        raise Reject('far away')
    kw = {yn: yv, **{a.name: X[:, [k]] for k, a in enumerate(A)}}
    if case['sigma']:
        kw['sigma_' + yn] = s
    if case['form'] == 'sum':
        i = {'symbol': lambda: sp.Idx('i', N), 'number': lambda: sp.Idx('i', n), 'range': lambda: sp.Idx('i', (0, n - 1))}[case['length']]()
        e = sp.Sum(y[i, 0] * w[i, 0] if case['weights'] else y[i, 0], i) - d
        uses_n = case['length'] == 'symbol'
        D = {}
    else:
        D = {sn: np.array([[d]])}
        e = w.T * y - sp.MatrixSymbol(sn, 1, 1)
        uses_n = False
    if case['weights'] or case['form'] == 'dot':
        kw[wn] = wv
    kw.update(D)
    con = CallableModel.as_constraint({c: e}, model=model, constraint_type=getattr(symfit, case['type']))
    indep = sorted([a.name for a in A] + ([wn] if wn in kw else []) + list(D) + ([Nn] if uses_n else []))
    require([v.name for v in con.independent_vars] == indep, 'data of the constraint {} instead of {}', con.independent_vars, indep)
    require([v.name for v in con.interdependent_vars] == sorted([yn] + ([un] if case['inter'] else [])), 'intermediate {}', con.interdependent_vars)
    require([v.name for v in con.dependent_vars] == [cn] and [p.name for p in con.params] == sorted(pn), 'roles of the constraint')
    if uses_n:
        kw[Nn] = n
    name = case['minimizer'] or 'SLSQP'
    if name == 'COBYLA' and case['type'] == 'Eq':
        name = case['minimizer'] = 'SLSQP'
    if case['minimizer']:
        kw['minimizer'] = fg.minimizer(name)
    fit = Fit(model, constraints=[con], **kw)
    require(type(fit.minimizer).__name__ == name, 'minimizer {}', fit.minimizer)
    order = [pn.index(q) for q in sorted(pn)]
    wrapped = fit.minimizer.wrapped_constraints[0]
    require(wrapped['type'] == ('eq' if case['type'] == 'Eq' else 'ineq'), 'type {}', wrapped['type'])
    for pt in case['points']:
        pt = np.array(pt)
        v = sign * (C @ pt - d)
        close(np.ravel(wrapped['fun'](pt[order])), [v], 1e-9 * (10 + abs(v)), 'constraint over matrices')
        r = (X @ pt)[:, None] - yv
        close(fit.objective(pt[order]), 0.5 * np.sum(r ** 2 / s ** 2), 1e-9 * (1 + np.sum(r ** 2 / s ** 2)), 'objective of a model over matrices')
    res = fit.execute(**({'options': {'maxiter': 3000}} if name == 'COBYLA' else {}))
    got = np.array([float(res.params[q]) for q in pn])
    v = sign * (C @ got - d)
    f = lambda p: (p - x0) @ H @ (p - x0) / 2
    try:
        tol = 1e-5 if name == 'SLSQP' else 1e-3
        require((abs(v) if case['type'] == 'Eq' else -v) <= tol * 10, '{}: constraint violated by {} at {}', name, v, got)
        require(f(got) <= gain + tol * (1 + abs(gain)) * 10, '{}: {} at {} exceeds the optimum {} at {}; {}', name, f(got), got, gain, xopt,
                res.status_message)
    except Violation:
        if not res.minimizer_output.get('success', True):
            raise Reject('not converged')
        raise
    return info(nact > 0 or case['type'] == 'Eq', name, case['type'], case['form'], case['length'], 'inter' if case['inter'] else 'direct')


# ---- size ------------------------------------------------------------------------

@st.composite
def _big(draw):
    c = draw(big.case_(K=(7, 12), J=(1, 2), pairs=False, points=(40, 257), least=40, fixed=draw(st.integers(0, 2)) == 1))
    K = len(c['ps'])
    cons = []
    for _ in range(draw(st.integers(1, 3))):
        ks = draw(st.lists(st.integers(0, K - 1), min_size=1, max_size=K, unique=True))
        cons.append([{str(k): draw(exprs.nonzero(-2, 2)) for k in ks}, draw(exprs.number(-3, 3))])
    return {'c': c, 'cons': cons, 'minimizer': draw(st.sampled_from(['SLSQP', 'SLSQP', 'TrustConstr', None])), 'rel': draw(st.sampled_from(['Eq', 'Eq', 'Ge', 'Le'])),
            'swap': draw(st.booleans())}


@facet(FACETS, 'big', _big,
       'least squares with 7-12 parameters (some fixed) under one to three linear constraints on any of them, against the solution of '
       'the linear equations; non-trivial: all')
def big_(case):
    import symfit
    from symfit import Fit
    c = case['c']
    pr = big.Problem(c)
    fixed = c['fixed']
    free = [k for k in range(pr.K) if k not in fixed]
    S0, G0, H = pr.chi2(pr.p, False)
    a = np.array([[q[0].get(str(k), 0.0) for k in range(pr.K)] for q in case['cons']])
    b = np.array([q[1] for q in case['cons']])
    af = a[:, free]
    if np.linalg.svd(af)[1].min() < 0.2 or len(case['cons']) >= len(free):
        raise Reject('dependent constraints')
    Hf = H[np.ix_(free, free)]
    if np.linalg.cond(Hf) > 1e3:
        raise Reject('ill conditioned')
    # optimum on the constraints
    n, mc = len(free), len(b)
    kkt = np.block([[Hf, af.T], [af, np.zeros((mc, mc))]])
    r0 = b - a @ pr.p
    sol = np.linalg.solve(kkt, np.concatenate([-G0[free], r0]))
    best = pr.p.copy()
    best[free] += sol[:n]
    lam = sol[n:]
    signs = np.ones(mc)
    if case['rel'] != 'Eq':
        # stationarity: gradient = -a' lam; a constraint g >= 0 is active with a multiplier of its own sign
        signs = -np.sign(lam)  # a.p - b must increase from violated to satisfied
        if np.abs(lam).min() < 1e-2 * (1 + S0) ** 0.5:
            raise Reject('degenerate')
    m = pr.build(attrs={q: {'value': float(v), 'fixed': k in fixed} for k, (q, v) in enumerate(zip(c['ps'], pr.p))})
    cons = []
    for i in range(mc):
        lhs = sum(v * pr.P[int(k)] for k, v in case['cons'][i][0].items())
        if case['rel'] == 'Eq':
            cons.append(symfit.Eq(lhs, b[i]) if not case['swap'] else symfit.Eq(b[i], lhs))
        elif case['rel'] == 'Ge':
            cons.append(symfit.Ge(signs[i] * lhs, signs[i] * b[i]) if not case['swap'] else symfit.Ge(signs[i] * (lhs - b[i]), 0))
        else:
            cons.append(symfit.Le(-signs[i] * lhs, -signs[i] * b[i]) if not case['swap'] else symfit.Le(signs[i] * (b[i] - lhs), 0))
    name = case['minimizer'] or 'SLSQP'
    fit = Fit(m, constraints=cons, **dict(pr.data(), **({} if case['minimizer'] is None else {'minimizer': fg.minimizer(name)})))
    require(type(fit.minimizer).__name__ == name, 'minimizer is a {}', type(fit.minimizer))
    res = fit.execute()
    if not res.minimizer_output.get('success', True):
        raise Reject('not converged')
    got = np.array([float(res.params[q]) for q in c['ps']])
    for k in fixed:
        require(got[k] == pr.p[k], 'fixed {} reported as {}', c['ps'][k], got[k])
    v = a @ got - b
    if case['rel'] != 'Eq':
        v = np.minimum(signs * v, 0)
    require(np.abs(v).max() < 1e-5 * (1 + np.abs(b).max()), '{}: constraints {} are violated by {} at {}', name, case['cons'], v, got)
    S, Sw = pr.chi2(got, False)[0], pr.chi2(best, False)[0]
    require(abs(S - Sw) <= 1e-3 * (1 + Sw), '{}: objective {} instead of {}; {} instead of {}', name, S, Sw, got, best)
    return info(True, name, case['rel'], 'fixed=%d' % len(fixed), 'constraints=%d' % mc, *pr.labels())
