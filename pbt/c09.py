"""C09: data ends up at the variable it was given for."""
import numpy as np
from hypothesis import strategies as st

import exprs
import models_gen as mg
import objgen
from core import facet, info, close, require, expect_raises, Violation, Reject

FACETS = {}
FORMS = ['array', 'array', 'list', 'tuple', 'int_array', 'int_list']


@st.composite
def _case(draw, numeric=False):
    if draw(st.integers(0, 2)) == 0 and not numeric:
        sp = draw(objgen.ragged_spec())
        shapes = {v: draw(st.sampled_from(objgen.SHAPES)) for v in sp['vars']}
    else:
        sp = draw(mg.spec(nvars=(0, 3), nparams=(1, 2), ncomps=(1, 4), tidy=True, numeric=numeric, depth=2))
        s = draw(st.sampled_from(objgen.SHAPES))
        shapes = {v: s for v in sp['vars']}
    taken = sp['vars'] + sp['params'] + [c[0] for c in sp['comps']]
    if draw(st.integers(0, 4)) == 3 and sp['vars'] and 'sigma_in' not in taken:
        # a name which looks like that of a sigma
        from c23 import rename
        mp = dict({n: n for n in taken}, **{draw(st.sampled_from(sp['vars'])): 'sigma_in'})
        sp, shapes = rename({'spec': sp}, mp)['spec'], {mp[v]: s for v, s in shapes.items()}
    dep, _ = mg.roles(sp)
    clo = objgen.base_closure(sp)
    common = draw(st.sampled_from(objgen.SHAPES))
    shapes = draw(objgen.scalar_shapes(sp, shapes))

    def shape_of(d):
        return max((shapes[v] for v in sorted(clo[d])), key=len) if clo[d] else draw(st.sampled_from([common, common, []]))
    c = {'spec': sp, 'data': {}, 'y': {}, 'sigma': {}, 'form': {}}
    for v in sp['vars']:
        c['data'][v] = dict(draw(objgen.values(shapes[v], st.integers(-9, 9))), zero_d=draw(st.booleans()))
    for d in dep:
        shp = shape_of(d)
        c['y'][d] = None if draw(st.integers(0, 4)) == 0 and len(dep) > 1 else dict(draw(objgen.values(shp, st.integers(-9, 9))), zero_d=draw(st.booleans()))
        k = draw(st.sampled_from(['absent', 'absent', 'const', 'point', 'none', '0d', 'intconst']))
        c['sigma'][d] = {'absent': 'absent', 'none': None, 'const': draw(objgen.values([], exprs.positive(0, 3))),
                         'intconst': draw(objgen.values([], st.integers(0, 4))), '0d': dict(draw(objgen.values([], exprs.positive(0, 3))), zero_d=True),
                         'point': draw(objgen.values(shp, exprs.positive()))}[k]
    if all(v is None for v in c['y'].values()):
        d = dep[0]
        s = c['sigma'][d]
        shp = shape_of(d) if s in ('absent', None) or s['shape'] == [] else s['shape']
        c['y'][d] = draw(objgen.values(shp, st.integers(-9, 9)))
    for n in list(c['data']) + ['y:' + d for d in dep] + ['s:' + d for d in dep]:
        c['form'][n] = draw(st.sampled_from(FORMS))
    c['npos'] = draw(st.integers(0, 8))
    c['abs'] = draw(st.sampled_from([None, None, None, True, False]))
    c['as'] = draw(st.sampled_from(['model', 'dict']))
    c['kworder'] = draw(st.integers(0, 5))
    c['bad'] = draw(st.sampled_from(['missing', 'unknown', 'double', 'toomany', 'sigma_of_indep', 'param']))
    c['which'] = draw(st.integers(0, 9))
    return c


def obj_of(d, form):
    """What the user passes for a data entry."""
    if d is None:
        return None
    if d['shape'] == []:
        return np.array(d['v'][0]) if d.get('zero_d') else d['v'][0]
    a = np.array(d['v'], dtype=float).reshape(d['shape'])
    if form.startswith('int') and all(float(v).is_integer() for v in d['v']):
        a = a.astype(int)
    if form.endswith('list'):
        return a.tolist()
    if form == 'tuple':
        return totuple(a.tolist())
    return a


def totuple(x):
    return tuple(totuple(i) for i in x) if isinstance(x, list) else x


def arguments(case, b):
    """Everything in documented order: [(name, object, want)]; absent ones last."""
    dep, _ = mg.roles(case['spec'])
    out = []
    for v in b.vars:
        out.append((v, obj_of(case['data'][v], case['form'][v])))
    for d in dep:
        out.append((d, obj_of(case['y'][d], case['form']['y:' + d])))
    sig = []
    for d in dep:
        s = case['sigma'][d]
        sig.append(('sigma_' + d, 'absent' if s == 'absent' else obj_of(s, case['form']['s:' + d])))
    return out, sig, dep


def check_data(case, b, fit, dep, what):
    def num(d, atleast=0):
        return np.array(d['v'], dtype=float).reshape(d['shape'] or [1] * atleast)
    for v in b.vars:
        close(fit.data[b.table[v]], num(case['data'][v]), 0, '{}: data of {}'.format(what, v))
        if case['data'][v]['shape']:
            require(isinstance(fit.data[b.table[v]], np.ndarray), '{}: data of {} is a {}', what, v, type(fit.data[b.table[v]]))
    require([v.name for v in fit.independent_data] == b.vars, '{}: independent data {}', what, list(fit.independent_data))
    require([v.name for v in fit.dependent_data] == dep, '{}: dependent data {}', what, list(fit.dependent_data))
    require([v.name for v in fit.sigma_data] == ['sigma_' + d for d in dep], '{}: sigma data {}', what, list(fit.sigma_data))
    model = fit.model
    for d in dep:
        y = case['y'][d]
        got, sv = fit.data[b.table[d]], model.sigmas[b.table[d]]
        s = case['sigma'][d]
        if y is None:
            require(got is None, '{}: {} was given as None but has data {}', what, d, got)
            continue
        close(got, num(y, 1), 0, '{}: data of {}'.format(what, d))
        require(isinstance(got, np.ndarray), '{}: data of {} is a {}', what, d, type(got))
        want = np.ones(y['shape'] or [1]) if s == 'absent' or s is None else np.broadcast_to(num(s), y['shape'] or [1])
        close(fit.data[sv], want, 0, '{}: {}'.format(what, sv))
        require(isinstance(fit.data[sv], np.ndarray), '{}: {} is a {}', what, sv, type(fit.data[sv]))
        # views of the same data
        close(fit.dependent_data[b.table[d]], num(y, 1), 0, '{}: dependent_data'.format(what))
        close(fit.sigma_data[sv], want, 0, '{}: sigma_data'.format(what))
        close(fit.objective.data[b.table[d]], num(y, 1), 0, '{}: objective data of {}'.format(what, d))
        close(fit.objective.data[sv], want, 0, '{}: objective data of {}'.format(what, sv))
    for v in b.vars:
        close(fit.independent_data[b.table[v]], num(case['data'][v]), 0, '{}: independent_data'.format(what))
        close(fit.objective.data[b.table[v]], num(case['data'][v]), 0, '{}: objective data of {}'.format(what, v))
    given = any(not (s == 'absent' or s is None) for s in case['sigma'].values())
    want = case['abs'] if case['abs'] is not None else given
    require(fit.absolute_sigma == want, '{}: absolute_sigma is {} instead of {}', what, fit.absolute_sigma, want)


def run(case, cls):
    from symfit import Fit
    b = mg.build(case['spec'], cls=cls)
    args, sig, dep = arguments(case, b)
    model = b.model if case['as'] == 'model' or b.conn else b.model_dict
    extra = {} if case['abs'] is None else {'absolute_sigma': case['abs']}
    everything = args + sig
    copies = [(o, o.copy()) for _, o in everything if isinstance(o, np.ndarray)]
    # positional as far as nothing absent has to be passed
    full = 0
    while full < len(everything) and not (isinstance(everything[full][1], str)):
        full += 1
    npos = case['npos'] % (full + 1)
    for k, what in ((npos, 'positional {}'.format(npos)), (0, 'by name'), (full, 'all positional')):
        rest = [(n, o) for n, o in everything[k:] if not isinstance(o, str)]
        if case['kworder'] % 2:
            rest = rest[::-1]
        fit = Fit(model, *[o for _, o in everything[:k]], **dict(dict(rest), **extra))
        check_data(case, b, fit, dep, what)
    for o, c in copies:
        require(np.array_equal(o, c), 'data was modified')
    return b, args, sig, dep, model


@facet(FACETS, 'binding', _case,
       'data (arrays, lists, tuples, None; constant, 0-d, per-point or missing sigmas) given positionally, by name and mixed '
       'must be found at its variable in the fit and its objective; non-trivial: at least three data sets')
def binding(case):
    from symfit import Model
    b, args, sig, dep, model = run(case, Model)
    return info(len(args) + sum(not isinstance(s, str) for _, s in sig) > 2, case['as'], 'abs=%s' % case['abs'], 'dep=%d' % len(dep),
                'indep=%d' % len(b.vars), *['sigma:' + ('none' if s is None else s if isinstance(s, str) else 'const' if s['shape'] == [] else 'point')
                                            for s in case['sigma'].values()])


@facet(FACETS, 'numeric_binding', lambda: _case(numeric=True),
       'as binding, for models with python callables; non-trivial: at least three data sets')
def numeric_binding(case):
    from symfit import CallableNumericalModel
    b, args, sig, dep, model = run(case, CallableNumericalModel)
    return info(len(args) + sum(not isinstance(s, str) for _, s in sig) > 2)


@facet(FACETS, 'errors', _case,
       'missing, unknown, doubly given or surplus data must raise TypeError and leave the correct call working; all non-trivial')
def errors(case):
    from symfit import Fit, Model
    b, args, sig, dep, model = run(case, Model)
    kw = {n: o for n, o in args + sig if not isinstance(o, str)}
    bad = case['bad']
    k = case['which']
    if bad == 'missing':
        n = args[k % len(args)][0]
        q = {a: o for a, o in kw.items() if a != n}
        if n in dep and len(dep) == 1 and not b.vars:
            raise Reject('minimises the model instead')
        expect_raises(TypeError, lambda: Fit(model, **q), 'fit without data for ' + n)
        if args[-1][0] == n:
            expect_raises(TypeError, lambda: Fit(model, *[o for _, o in args[:-1]]), 'fit without the last data set')
    elif bad == 'unknown':
        for name in ('unknown_name', 'sigma_unknown', 'sigma_'):
            expect_raises(TypeError, lambda: Fit(model, **dict(kw, **{name: np.ones(3)})), 'data for ' + name)
    elif bad == 'double':
        n = 1 + k % len(args)
        name = args[k % n][0]
        expect_raises(TypeError, lambda: Fit(model, *[o for _, o in args[:n]], **{a: o for a, o in kw.items() if a not in [x for x, _ in args[:n]] or a == name}),
                      '{} by position and by name'.format(name))
    elif bad == 'toomany':
        everything = [o for _, o in args] + [None if isinstance(o, str) else o for _, o in sig]
        Fit(model, *everything)
        expect_raises(TypeError, lambda: Fit(model, *(everything + [np.ones(2)])), 'surplus positional data')
    elif bad == 'sigma_of_indep':
        if not b.vars:
            raise Reject('no independent variables')
        expect_raises(TypeError, lambda: Fit(model, **dict(kw, **{'sigma_' + b.vars[0]: np.ones(2)})), 'sigma of an independent variable')
    else:
        expect_raises(TypeError, lambda: Fit(model, **dict(kw, **{b.params[0]: 1.0})), 'data for a parameter')
    return info(True, bad)


@st.composite
def _indep(draw):
    sp = draw(mg.spec(nvars=(1, 2), nparams=(1, 2), ncomps=(1, 3), tidy=True, depth=2))
    dep, _ = mg.roles(sp)
    return {'spec': sp, 'obj': draw(st.sampled_from(['LogLikelihood', 'MinimizeModel'])), 'inst': draw(st.booleans()),
            'data': {v: draw(objgen.values([3], st.integers(-9, 9))) for v in sp['vars']}, 'which': draw(st.integers(0, 9)),
            'sig': draw(st.booleans()), 'pos': draw(st.booleans())}


@facet(FACETS, 'no_dependent_data', _indep,
       'with a likelihood or model-minimising objective, independent data is bound as usual and data or sigma for a dependent '
       'variable raises TypeError; all non-trivial')
def no_dependent_data(case):
    from symfit import Fit, Model
    from symfit.core import objectives
    b = mg.build(case['spec'], cls=Model)
    dep, _ = mg.roles(case['spec'])
    if case['obj'] == 'MinimizeModel' and len(dep) > 1:
        raise Reject('not scalar')
    cls = getattr(objectives, case['obj'])
    kw = {v: np.array(d['v'], dtype=float) for v, d in case['data'].items()}
    obj = cls(b.model, {b.table[v]: a for v, a in kw.items()}) if case['inst'] else cls
    fit = Fit(b.model, *[kw[v] for v in b.vars], objective=obj) if case['pos'] else Fit(b.model, objective=obj, **kw)
    for v in b.vars:
        close(fit.data[b.table[v]], kw[v], 0, 'data of ' + v)
    require(isinstance(fit.objective, cls), 'objective {}', fit.objective)
    if case['inst']:
        require(fit.objective is obj, 'the objective instance is not used')
    d = dep[case['which'] % len(dep)]
    name = 'sigma_' + d if case['sig'] else d
    expect_raises(TypeError, lambda: Fit(b.model, objective=obj, **dict(kw, **{name: np.ones(3)})), 'data for ' + name)
    expect_raises(TypeError, lambda: Fit(b.model, objective=obj, **{v: a for v, a in kw.items() if v != b.vars[0]}), 'missing data')
    return info(True, case['obj'], 'instance' if case['inst'] else 'class')
