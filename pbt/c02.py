"""C02: symbol roles, ordering and mapping behaviour follow from the definition."""
import inspect

import numpy as np
from hypothesis import strategies as st

import exprs
import models_gen as mg
from core import facet, info, close, require, expect_raises, Violation, Reject

FACETS = {}


@st.composite
def _case(draw, **kw):
    sp = draw(mg.spec(attrs=True, tidy=True, **kw))
    n = len(sp['vars']) + len(sp['params']) + len(sp['comps'])
    return {'spec': sp, 'write2': draw(st.permutations(range(len(sp['comps'])))),
            'create2': draw(st.permutations(range(n))),
            'cls': draw(st.sampled_from(['Model', 'CallableModel', 'GradientModel', 'BaseModel'])),
            'data': draw(mg.data_for(sp['vars'])), 'p': draw(mg.param_values(sp['params']))}


def names(seq):
    return [s.name for s in seq]


def check_roles(model, b, what):
    dep, inter = mg.roles(b.sp)
    require(names(model.params) == b.params, '{}: params {} instead of {}', what, names(model.params), b.params)
    require(names(model.independent_vars) == b.vars, '{}: independent {} instead of {}', what, names(model.independent_vars), b.vars)
    require(names(model.dependent_vars) == dep, '{}: dependent {} instead of {}', what, names(model.dependent_vars), dep)
    require(names(model.interdependent_vars) == inter, '{}: interdependent {} instead of {}', what, names(model.interdependent_vars), inter)
    attrs = b.sp.get('attrs') or {}
    free = [q for q in b.params if not attrs.get(q, {}).get('fixed')]
    require(names(model.free_params) == free, '{}: free params {} instead of {}', what, names(model.free_params), free)
    bounds = {q.name: tuple(bd) for q, bd in zip(model.params, model.bounds)}
    for q in free:
        want = (attrs.get(q, {}).get('min'), attrs.get(q, {}).get('max'))
        require(bounds[q] == want, '{}: bounds {} of {} instead of {}', what, bounds[q], q, want)
    sig = model.sigmas
    require(sorted(v.name for v in sig) == dep, '{}: sigmas exist for {} instead of {}', what, names(sig), dep)
    for v, s in sig.items():
        require(s.name == 'sigma_' + v.name, '{}: sigma of {} is called {}', what, v.name, s.name)
    want = b.vars + dep + ['sigma_' + d for d in dep]
    require(names(model.vars) == want, '{}: vars {} instead of {}', what, names(model.vars), want)
    for lst, cls in ((model.params, 'Parameter'), (model.independent_vars, 'Variable'), (model.dependent_vars, 'Variable')):
        for s in lst:
            require(type(s).__name__ == cls, '{}: {} is a {}', what, s, type(s).__name__)
            require(s == b.table[s.name], '{}: {} is not the symbol of the definition', what, s)
    for c, ast, _ in b.sp['comps']:
        got = sorted(s.name for s in model.connectivity_mapping[b.table[c]])
        require(got == sorted(exprs.symbols_of(ast)), '{}: {} depends on {} according to the model', what, c, got)


def check_signature(model, b, what):
    want = b.vars + b.params
    got = list(inspect.signature(model).parameters)
    require(got == want, '{}: signature {} instead of {}', what, got, want)


def check_mapping(model, b, what):
    cs = b.comp_names
    require(len(model) == len(cs), '{}: len {}', what, len(model))
    require(names(model) == cs, '{}: iterates over {} instead of {}', what, names(model), cs)
    require(names(model.keys()) == cs, '{}: keys', what)
    for (k, v), k2, v2 in zip(model.items(), model.keys(), model.values()):
        require(k == k2, '{}: keys and items differ', what)
        e = b.model_dict[b.table[k.name]]
        for got in (v, v2, model[k], model.get(k)):
            require(got == e, '{}: component {} is {} instead of {}', what, k, got, e)
    for n, s in b.table.items():
        require((s in model) == (n in cs), '{}: {} in model is {}', what, n, s in model)
        if n not in cs:
            expect_raises(KeyError, lambda: model[s], '{}: looking up {}'.format(what, n))
    expect_raises(TypeError, lambda: model.__setitem__(b.table[cs[0]], 1) if hasattr(model, '__setitem__')
                  else _no_setitem(), '{}: assignment to a component'.format(what))


def _no_setitem():
    raise TypeError('not assignable')


@facet(FACETS, 'roles', lambda: _case(),
       'a definition built twice with different writing and symbol creation order must give the same, expected roles, '
       'signature and mapping; non-trivial: at least two components')
def roles(case):
    import symfit
    from symfit.core.models import GradientModel, BaseModel
    cls = {'Model': symfit.Model, 'CallableModel': symfit.CallableModel, 'GradientModel': GradientModel,
           'BaseModel': BaseModel}[case['cls']]
    sp = case['spec']
    b = mg.build(sp, cls=cls)
    check_roles(b.model, b, 'model')
    check_mapping(b.model, b, 'model')
    if case['cls'] != 'BaseModel':
        check_signature(b.model, b, 'model')
    sp2 = dict(sp, write=case['write2'], create=case['create2'])
    b2 = mg.build(sp2, cls=cls)
    check_roles(b2.model, b2, 'rewritten model')
    check_mapping(b2.model, b2, 'rewritten model')
    require(b.model == b2.model, 'the order of writing changes the model')
    require(str(b.model) == str(b2.model), 'the order of writing changes the printed model: {} / {}', b.model, b2.model)
    # every model prints one line per component with its own dependencies
    lines = str(b.model).strip('[]').split(',\n ')
    require(len(lines) == len(sp['comps']), 'printed model has {} lines', len(lines))
    for line, c in zip(lines, b.comp_names):
        ast = [x[1] for x in sp['comps'] if x[0] == c][0]
        syms = exprs.symbols_of(ast)
        head = '{}({}; {}) = '.format(c, ', '.join(sorted(syms - set(b.params))), ', '.join(sorted(syms & set(b.params))))
        require(line.startswith(head), 'printed component {!r} does not start with {!r}', line, head)
    require(isinstance(b.model._repr_latex_(), str), 'no latex')
    lev = mg.spec_levels(sp)
    return info(len(lev) > 1, case['cls'], 'depth=%d' % max(lev.values()), 'comps=%d' % len(lev))


@facet(FACETS, 'numeric_roles', lambda: _case(numeric=True),
       'as roles, for models with python callables as components')
def numeric_roles(case):
    from symfit import CallableNumericalModel
    sp = case['spec']
    given_conn = {}
    b = mg.build(sp, cls=CallableNumericalModel)
    check_roles(b.model, b, 'model')
    check_signature(b.model, b, 'model')
    require(names(b.model) == b.comp_names and len(b.model) == len(b.comp_names), 'components {}', names(b.model))
    b2 = mg.build(dict(sp, write=case['write2'], create=case['create2']), cls=CallableNumericalModel)
    check_roles(b2.model, b2, 'rewritten model')
    # The mapping handed in belongs to the user.
    conn = dict(b.conn)
    before = {k: set(v) for k, v in conn.items()}
    CallableNumericalModel(b.model_dict, connectivity_mapping=conn)
    require({k: set(v) for k, v in conn.items()} == before, 'the connectivity mapping passed in was modified')
    return info(len(sp['comps']) > 1)


@st.composite
def _seq_case(draw):
    k = draw(st.integers(1, 5))
    ns = draw(exprs.names(3))
    es = [draw(exprs.expr([ns[0], ns[2]] if draw(st.booleans()) else [ns[0], ns[1]])) for _ in range(k)]
    if k > 1 and draw(st.booleans()):
        es[draw(st.integers(0, k - 1))] = es[draw(st.integers(0, k - 1))]
    return {'n': ns, 'es': es, 'kind': draw(st.sampled_from(['list', 'tuple', 'scalar'])),
            'x': draw(exprs.number()), 'p': [draw(exprs.number()) for _ in range(2)]}


@facet(FACETS, 'sequence', _seq_case,
       'models from a bare expression or a sequence of expressions keep one component per expression in order; '
       'non-trivial: at least two expressions')
def sequence(case):
    import warnings
    from symfit import Variable, Parameter, Model, CallableModel
    from symfit import Fit
    nx, np1, np2 = case['n']
    table = {nx: Variable(nx), np1: Parameter(np1), np2: Parameter(np2)}
    env = {nx: case['x'], np1: case['p'][0], np2: case['p'][1]}
    es = case['es'] if case['kind'] != 'scalar' else case['es'][:1]
    se = [exprs.to_sympy(e, table) for e in es]
    if any({s.name for s in q.free_symbols} != exprs.symbols_of(e) for e, q in zip(es, se)):
        raise Reject('a symbol cancels')
    arg = se[0] if case['kind'] == 'scalar' else (list(se) if case['kind'] == 'list' else tuple(se))
    model = CallableModel(arg)
    require(len(model) == len(es), '{} components from {} expressions', len(model), len(es))
    require(list(model.values()) == se, 'components are {} instead of {}', list(model.values()), se)
    used = set().union(*[exprs.symbols_of(e) for e in es])
    mag = exprs.Mag()
    want = [exprs.value(e, env, mag) for e in es]
    if not mag.m < 1e6:
        raise Reject('magnitude')
    out = model(**{k: v for k, v in env.items() if k in used})
    for i, w in enumerate(want):
        close(out[i], np.atleast_1d(w), 1e-9 * (1 + mag.m), 'component %d' % i)
    require(len(set(names(model))) == len(es), 'component names are not unique')
    require(all(str(n).isidentifier() for n in names(model)), 'component names {} cannot be used as keywords', names(model))
    require(CallableModel(arg) == model, 'two models of the same expressions differ')
    return info(len(es) > 1, case['kind'], 'dup' if len({str(e) for e in es}) < len(es) else 'distinct')


@st.composite
def _bad_case(draw):
    sp = draw(mg.spec(attrs=True, nparams=(1, 3), ncomps=(1, 3)))
    return {'spec': sp, 'which': draw(st.integers(0, 9)), 'e': draw(exprs.expr(sp['params'][:1])),
            'inner': draw(st.booleans())}


@facet(FACETS, 'parameter_as_variable', _bad_case,
       'definitions in which a parameter also is a component must be rejected with ModelError; all cases non-trivial')
def parameter_as_variable(case):
    from symfit import Model, CallableModel, Variable, Parameter
    from symfit.core.models import ModelError
    sp = case['spec']
    b = mg.build(sp)
    p = b.table[b.params[case['which'] % len(b.params)]]
    md = dict(b.model_dict)
    md[p] = b.table[sp['vars'][0]] if sp['vars'] else Variable('other_name')
    expect_raises(ModelError, lambda: Model(md), 'parameter {} as component'.format(p))
    expect_raises(ModelError, lambda: CallableModel({p: Variable('other_name') * 2}), 'only component is a parameter')
    # the definition without it is fine
    Model(b.model_dict)
    return info(True)


@st.composite
def _ode_case(draw):
    k = draw(st.integers(1, 3))
    ns = draw(exprs.names(k + 1 + 3 + 2))
    ys, t, ps, ips = ns[:k], ns[k], ns[k + 1:k + 4], ns[k + 4:]
    return {'ys': ys, 't': t, 'ps': ps, 'ips': ips, 'write': draw(st.permutations(range(k))),
            'coef': [[draw(st.integers(-2, 2)) for _ in range(k)] for _ in range(k)],
            'pick': [draw(st.integers(0, 2)) for _ in range(k)],
            'init': [draw(st.integers(0, 3)) for _ in range(k)], 'create': draw(st.permutations(range(len(ns))))}


@facet(FACETS, 'ode_roles', _ode_case,
       'roles, order and signature of ODE models with parameters as rates and initial values; non-trivial: several equations')
def ode_roles(case):
    from symfit import ODEModel, Variable, Parameter, D
    ns = case['ys'] + [case['t']] + case['ps'] + case['ips']
    table = {}
    for i in case['create']:
        n = ns[i]
        table[n] = Parameter(n) if n in case['ps'] + case['ips'] else Variable(n)
    ys, t = case['ys'], table[case['t']]
    md, mp = {}, set()
    rhs = {}
    for i in case['write']:
        p = case['ps'][case['pick'][i]]
        mp.add(p)
        rhs[ys[i]] = table[p] * (table[ys[i]] + sum(c * table[y] for c, y in zip(case['coef'][i], ys) if y != ys[i]))
        md[D(table[ys[i]], t)] = rhs[ys[i]]
    init, ip = {t: 0.0}, set()
    for y, k in zip(ys, case['init']):
        if k < 2:
            init[table[y]] = table[case['ips'][k]]
            ip.add(case['ips'][k])
        else:
            init[table[y]] = float(k)
    model = ODEModel(md, initial=init)
    ps = sorted(mp | ip)
    require(names(model.dependent_vars) == sorted(ys), 'dependent {}', model.dependent_vars)
    require(names(model.independent_vars) == [case['t']], 'independent {}', model.independent_vars)
    require(names(model.params) == ps, 'params {} instead of {}', model.params, ps)
    require(names(model.model_params) == sorted(mp), 'model params {}', model.model_params)
    require(names(model.initial_params) == sorted(ip), 'initial params {}', model.initial_params)
    require(list(inspect.signature(model).parameters) == [case['t']] + ps, 'signature {}', inspect.signature(model))
    require(names(model) == sorted(ys) and len(model) == len(ys), 'components {}', names(model))
    for y in ys:
        require(model[table[y]] == rhs[y], 'equation of {} is {}', y, model[table[y]])
    require({v.name: s.name for v, s in model.sigmas.items()} == {y: 'sigma_' + y for y in ys}, 'sigmas {}', model.sigmas)
    want = [case['t']] + sorted(ys) + ['sigma_' + y for y in sorted(ys)]
    require(names(model.vars) == want, 'vars {}', model.vars)
    return info(len(ys) > 1, 'eqs=%d' % len(ys), 'ip=%d' % len(ip))
