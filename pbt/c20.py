"""C20: default objective and minimiser match the kind of problem."""
import numpy as np
from hypothesis import strategies as st

import exprs
import models_gen as mg
from core import facet, info, close, require, expect_raises, Reject

FACETS = {}

OBJ = ['LeastSquares', 'VectorLeastSquares', 'LogLikelihood', 'MinimizeModel']
MINI = ['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'COBYLA', 'NelderMead', 'Powell', 'MINPACK', 'BasinHopping', 'DifferentialEvolution']


@st.composite
def problem(draw):
    n = draw(st.integers(1, 3))
    kind = draw(st.sampled_from(['scalar', 'scalar', 'layered', 'curve', 'vector', 'vector0', 'ode']))
    nms = draw(exprs.names(n + 4))
    return {'kind': kind, 'names': nms, 'n': n, 'class': draw(st.sampled_from(['Model', 'GradientModel', 'CallableModel', 'CallableNumericalModel', 'mapping', 'expr'])),
            'fixed': draw(st.lists(st.integers(0, n - 1), max_size=n - 1, unique=True)),
            'bounds': [draw(st.sampled_from(['none', 'none', 'none', 'min', 'max', 'both', 'zero', 'equal'])) for _ in range(n)],
            'value': [draw(exprs.number(-2, 2)) for _ in range(n)],
            'cons': draw(st.sampled_from([0, 0, 0, 1, 2])), 'con_form': draw(st.sampled_from(['relation', 'model', 'tuple', 'data'])),
            'data': draw(st.booleans()), 'sigma': draw(st.sampled_from([None, None, 'number', 'array'])), 'positional': draw(st.booleans()),
            'empty_cons': draw(st.booleans())}


def make(case):
    """-> (model, params sorted by name, data by name (without dependent), dependent data by name)"""
    import symfit
    from symfit import Parameter, Variable, D
    kind, n = case['kind'], case['n']
    ps = []
    for i in range(n):
        v = case['value'][i]
        lo, hi = {'none': (None, None), 'min': (v - 1, None), 'max': (None, v + 1), 'both': (v - 1, v + 2), 'zero': (min(0, v), None),
                  'equal': (v, v)}[case['bounds'][i]]
        if case['bounds'][i] == 'zero':
            lo = 0 if v >= 0 else None
            hi = 0 if v < 0 else None
        ps.append(Parameter(case['names'][i], value=v, min=lo, max=hi, fixed=i in case['fixed']))
    a, b, c, d = [Variable(q) for q in case['names'][n:]]
    quad = sum((p - i) ** 2 for i, p in enumerate(ps))
    arr = np.array([0.5, 1.0, 1.5])
    if kind == 'scalar':
        md, x, y = {a: quad}, {}, {a: np.array([2.0])}
    elif kind == 'layered':
        md, x, y = {a: b ** 2 + ps[0] ** 2, b: quad}, {}, {a: np.array([2.0])}
    elif kind == 'curve':
        md, x, y = {a: quad * d}, {d: arr}, {a: 2 * arr}
    elif kind == 'vector':
        md, x, y = {a: quad * d, b: ps[0] * d ** 2}, {d: arr}, {a: 2 * arr, b: arr}
    elif kind == 'vector0':
        md, x, y = {a: quad, b: ps[0] ** 2}, {}, {a: np.array([2.0]), b: np.array([1.0])}
    else:
        md, x, y = {D(a, d): -quad * a}, {d: arr}, {a: arr}
    cls = case['class']
    if kind == 'ode':
        model = symfit.ODEModel(md, initial={d: 0.0, a: 1.0})
    elif cls == 'mapping':
        model = md
    elif cls == 'expr':
        if len(md) > 1 or kind != 'scalar':
            raise Reject('several components')
        model = quad
        y = {}
    elif cls == 'CallableNumericalModel':
        def f(e, args):
            names = [s.name for s in args]
            fn = e.__call__
            return eval('lambda {}: _f({})'.format(', '.join(names), ', '.join('{0}={0}'.format(q) for q in names)), {'_f': fn})
        conn = {v: set(e.free_symbols) for v, e in md.items()}
        model = symfit.CallableNumericalModel({v: f(e, sorted(e.free_symbols, key=str)) for v, e in md.items()}, connectivity_mapping=conn)
    else:
        model = (getattr(symfit, cls, None) or getattr(symfit.core.models, cls))(md)
    return model, sorted(ps, key=lambda p: p.name), {v.name: q for v, q in x.items()}, {v.name: q for v, q in y.items()}


def constraints(case, ps, model):
    import symfit
    if case['kind'] == 'ode' or not case['cons']:
        return [] if case['empty_cons'] else None
    out = [symfit.Ge(ps[0], -50), symfit.Le(ps[-1] + ps[0], 70)][:case['cons']]
    if case['con_form'] == 'data':
        # a constraint which needs a value for a variable of its own
        out[0] = symfit.Ge((ps[0] + 50) * symfit.Variable('con_in'), 0)
    if case['con_form'] in ('model', 'data') and isinstance(model, symfit.core.models.BaseModel) and not isinstance(model, symfit.core.models.BaseNumericalModel):
        out = [type(model).as_constraint(c, model) for c in out]
    return tuple(out) if case['con_form'] == 'tuple' else out


def cons_data(case):
    return {'con_in': 2.0} if case['con_form'] == 'data' and case['cons'] and case['kind'] != 'ode' else {}


def is_bounded(case):
    return any(b != 'none' for b in case['bounds']) or bool(case['fixed'])


def exactly(obj, cls, what):
    require(type(obj) is cls, '{} is a {} instead of a {}', what, type(obj).__name__, cls.__name__)


def check_default_minimizer(m, case, ncons, what):
    from symfit.core import minimizers as M
    require(isinstance(m, M.BaseMinimizer), '{}: {!r}', what, m)
    require(not isinstance(m, (M.ChainedMinimizer, M.GlobalMinimizer)), '{}: a {} by default', what, type(m).__name__)
    name = type(m).__name__
    if ncons:
        require(isinstance(m, M.ConstrainedMinimizer), '{}: {} does not support the constraints', what, name)
        require(len(m.constraints) == ncons, '{}: {} constraints instead of {}', what, len(m.constraints), ncons)
    if is_bounded(case):
        require(isinstance(m, M.BoundedMinimizer), '{}: {} does not support bounds', what, name)
    if not ncons and not is_bounded(case):
        require(isinstance(m, M.GradientMinimizer) and not isinstance(m, (M.BoundedMinimizer, M.ConstrainedMinimizer)),
                '{}: {} for an unconstrained problem', what, name)


def check_problem(m, fit, ps, what):
    require(m.objective is fit.objective, '{}: objective of the minimizer', what)
    require([p.name for p in m.parameters] == [p.name for p in ps], '{}: parameters {}', what, m.parameters)


@st.composite
def _defaults(draw):
    return draw(problem())


@facet(FACETS, 'defaults', _defaults,
       'models of every class and kind (scalar, layered, curve, vector, ODE) with all patterns of bounds, fixed parameters, constraints and '
       'data, without any choice by the user: objective and minimizer by capability; non-trivial: bounds, fixed parameters, constraints, '
       'or no data')
def defaults(case):
    from symfit import Fit
    from symfit.core import objectives as O
    model, ps, x, y = make(case)
    cons = constraints(case, ps, model)
    kw = dict(x)
    scalar = case['kind'] in ('scalar', 'layered')
    if case['data'] or not scalar:
        if case['class'] == 'expr':
            raise Reject('unnamed component')
        kw.update(y)
        if case['sigma']:
            kw.update({'sigma_' + k: 0.5 if case['sigma'] == 'number' else 0 * v + 0.5 for k, v in y.items()})
    args = []
    if case['positional'] and y and kw and case['class'] != 'expr':
        # independent, dependent, sigmas: each in alphabetical order
        order = sorted(x) + [q for q in sorted(y) if q in kw]
        args = [kw.pop(q) for q in order]
    if cons is not None:
        kw['constraints'] = cons
    kw.update(cons_data(case))
    fit = Fit(model, *args, **kw)
    direct = scalar and not case['data']
    exactly(fit.objective, O.MinimizeModel if direct else O.LeastSquares, 'default objective')
    n = len(cons or [])
    check_default_minimizer(fit.minimizer, case, n, 'default minimizer')
    check_problem(fit.minimizer, fit, ps, 'default minimizer')
    return info(direct or n or is_bounded(case), case['kind'], case['class'], 'data' if not direct else 'direct', type(fit.minimizer).__name__,
                type(fit.objective).__name__, 'positional' if args else 'named')


@st.composite
def _choices(draw):
    c = draw(problem())
    c['objective'] = draw(st.sampled_from([None] + OBJ))
    c['obj_form'] = draw(st.sampled_from(['class', 'class', 'subclass', 'instance']))
    c['minimizer'] = draw(st.lists(st.sampled_from(MINI), min_size=0, max_size=3))
    c['forms'] = [draw(st.sampled_from(['class', 'class', 'subclass', 'instance'])) for _ in c['minimizer']]
    c['seq'] = draw(st.sampled_from([None, list, tuple, None]).map(lambda t: None if t is None else t.__name__))
    return c


@facet(FACETS, 'choices', _choices,
       'as defaults, with objectives and minimizers chosen by class, subclass, instance or sequence, or only one of the two: used exactly as '
       'given, in the given order; non-trivial: all')
def choices(case):
    from symfit import Fit, Model
    from symfit.core import objectives as O, minimizers as M
    from symfit.core.models import BaseModel
    model, ps, x, y = make(case)
    cons = constraints(case, ps, model)
    forms, minis = case['forms'], case['minimizer']
    if case['objective'] is None and not minis:
        raise Reject('no choice')
    scalar = case['kind'] in ('scalar', 'layered')
    obj = case['objective']
    if obj == 'MinimizeModel' and (case['kind'] not in ('scalar', 'layered') or case['data']):
        raise Reject('not scalar')
    if case['class'] == 'expr' and (case['data'] or obj not in (None, 'MinimizeModel')):
        raise Reject('unnamed component')
    kw = dict(x)
    if case['seq'] is None:
        minis, forms = minis[:1], forms[:1]
    minpack = 'MINPACK' in minis
    if minpack and (case['seq'] is not None or obj not in (None, 'VectorLeastSquares')):
        raise Reject('MINPACK needs residuals')
    if minpack and case['seq'] is None and not case['data'] and scalar:
        raise Reject('MINPACK needs data')
    if obj in ('MinimizeModel', 'LogLikelihood') and case['obj_form'] == 'subclass':
        raise Reject('subclasses decide themselves what data they want')
    direct = obj in ('MinimizeModel', 'LogLikelihood') or obj is None and scalar and not case['data'] and not minpack
    if not direct:
        if scalar and not case['data']:
            raise Reject('needs data')
        kw.update(y)
        if case['sigma']:
            kw.update({'sigma_' + k: 0.5 if case['sigma'] == 'number' else 0 * v + 0.5 for k, v in y.items()})
    want_obj = O.MinimizeModel if direct and obj is None else O.VectorLeastSquares if obj is None and minpack else O.LeastSquares if obj is None else getattr(O, obj)
    inst = None
    if obj is not None:
        if case['obj_form'] == 'subclass':
            want_obj = type('Mine', (want_obj,), {})
        if case['obj_form'] == 'instance':
            if not isinstance(model, BaseModel):
                model = Model(model)
            byvar = {v: kw.get(v.name) for v in model.vars}
            if not direct:
                byvar.update({v: np.broadcast_to(1.0 if byvar[v] is None else byvar[v], np.shape(y[k.name])) for k, v in model.sigmas.items()})
            inst = want_obj(model, byvar)
        kw['objective'] = want_obj if inst is None else inst
    given, want_min = [], []
    for nm, f in zip(minis, forms):
        cls = getattr(M, nm)
        if f == 'subclass':
            cls = type(nm, (cls,), {})
        if f == 'instance' and inst is not None and nm not in ('BasinHopping',):
            cls = cls(inst, ps)
        given.append(cls)
        want_min.append(cls)
    if case['seq'] is not None and given:
        kw['minimizer'] = {'list': list, 'tuple': tuple}[case['seq']](given)
    elif given:
        if minpack and isinstance(given[0], type) and given[0] is not M.MINPACK and obj is None:
            raise Reject('subclass of MINPACK')
        kw['minimizer'] = given[0]
    if cons is not None:
        kw['constraints'] = cons
    kw.update(cons_data(case))
    fit = Fit(model, **kw)
    if inst is not None:
        require(fit.objective is inst, 'the objective given is not used')
    exactly(fit.objective, want_obj, 'objective')

    def same(m, want, what):
        if isinstance(want, M.BaseMinimizer):
            require(m is want, '{}: the instance given is not used', what)
            return
        exactly(m, want, what)
        check_problem(m, fit, ps, what)
        if isinstance(m, M.ConstrainedMinimizer):
            require(len(m.constraints) == len(cons or []), '{}: {} constraints instead of {}', what, len(m.constraints), len(cons or []))
        if isinstance(m, M.BasinHopping):
            check_default_minimizer(m.local_minimizer, case, len(cons or []), 'local minimizer of ' + what)
            check_problem(m.local_minimizer, fit, ps, 'local minimizer of ' + what)
    if not given:
        check_default_minimizer(fit.minimizer, case, len(cons or []), 'default minimizer')
    elif case['seq'] is None:
        same(fit.minimizer, want_min[0], 'minimizer')
    else:
        exactly(fit.minimizer, M.ChainedMinimizer, 'a sequence of minimizers')
        require(len(fit.minimizer.minimizers) == len(given), '{} steps instead of {}', len(fit.minimizer.minimizers), len(given))
        for i, (m, w) in enumerate(zip(fit.minimizer.minimizers, want_min)):
            same(m, w, 'step {}'.format(i))
    return info(True, case['kind'], 'objective ' + (case['obj_form'] if obj else 'default'), 'chain' if case['seq'] and given else 'one' if given else 'default',
                obj, *forms)


@st.composite
def _reject(draw):
    c = draw(problem())
    c['objective'] = draw(st.sampled_from(['LogLikelihood', 'MinimizeModel']))
    c['form'] = draw(st.sampled_from(['class', 'instance']))
    c['what'] = draw(st.sampled_from(['dep', 'sigma', 'both', 'one']))
    return c


@facet(FACETS, 'rejected', _reject,
       'data for dependent variables or their sigmas with likelihood and model-minimizing objectives (class or instance), by name or '
       'position: TypeError, and accepted without that data; non-trivial: all')
def rejected(case):
    from symfit import Fit, Model
    from symfit.core import objectives as O
    from symfit.core.models import BaseModel
    model, ps, x, y = make(case)
    if not y or (case['objective'] == 'MinimizeModel' and len(y) > 1):
        raise Reject('vector')
    cls = getattr(O, case['objective'])
    obj = cls
    if case['form'] == 'instance':
        if not isinstance(model, BaseModel):
            model = Model(model)
        obj = cls(model, {v: x.get(v.name) for v in model.vars})
    extra = {}
    if case['what'] in ('dep', 'both'):
        extra.update(y)
    if case['what'] in ('sigma', 'both'):
        extra.update({'sigma_' + k: v for k, v in y.items()})
    if case['what'] == 'one':
        k = sorted(y)[-1]
        extra[k] = y[k]
    fit = Fit(model, objective=obj, **x)
    require(isinstance(fit.objective, cls), 'objective {}', type(fit.objective).__name__)
    expect_raises(TypeError, lambda: Fit(model, objective=obj, **dict(x, **extra)), 'data {} for {}'.format(sorted(extra), case['objective']))
    if case['what'] == 'dep':
        args = [x[k] for k in sorted(x)] + [y[k] for k in sorted(y)]
        expect_raises(TypeError, lambda: Fit(model, *args, objective=obj), 'data by position for {}'.format(case['objective']))
    return info(True, case['objective'], case['form'], case['what'], case['kind'])
