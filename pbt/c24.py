"""C24: equality and negation of models and objectives mean what they say."""
import copy
import pickle
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import exprs
import models_gen as mg
import objgen
from core import facet, info, close, require, Violation, Reject

FACETS = {}

# Expressions with exact constants:  ["c", num, den] ["s", name] ["+", a, b]
# ["*", a, b] ["neg", a] ["pow", a, n] ["f", "sin"|"cos"|"tanh", a]


@st.composite
def poly(draw, names, depth=3):
    if depth == 0 or draw(st.integers(0, 5)) == 0:
        if draw(st.integers(0, 3)) == 0:
            return ['c', draw(st.sampled_from([1, 2, 3, -1, -2, 5])), draw(st.sampled_from([1, 1, 2, 3]))]
        return ['s', draw(st.sampled_from(names))]
    op = draw(st.sampled_from(['+', '+', '*', '*', 'neg', 'pow', 'f']))
    a = draw(poly(names, depth - 1))
    if op == 'neg':
        return ['neg', a]
    if op == 'pow':
        return ['pow', a, draw(st.sampled_from([2, 3]))] if size(a) < 6 else ['pow', a, 2]
    if op == 'f':
        return ['f', draw(st.sampled_from(['sin', 'cos', 'tanh'])), a]
    return [op, a, draw(poly(names, depth - 1))]


def size(e):
    return 1 + sum(size(x) for x in e[1:] if isinstance(x, list))


def syms(e):
    return {e[1]} if e[0] == 's' else set().union(set(), *[syms(x) for x in e[1:] if isinstance(x, list)])


def sym(e, table):
    import sympy
    t = e[0]
    if t == 'c':
        return sympy.Rational(e[1], e[2])
    if t == 's':
        return table[e[1]]
    if t == 'neg':
        return -sym(e[1], table)
    if t == 'pow':
        return sym(e[1], table) ** e[2]
    if t == 'f':
        return getattr(sympy, e[1])(sym(e[2], table))
    a, b = sym(e[1], table), sym(e[2], table)
    return a + b if t == '+' else a * b


def val(e, env):
    """(value, largest magnitude on the way) in floating point"""
    t = e[0]
    if t == 'c':
        v = e[1] / e[2]
        return v, abs(v)
    if t == 's':
        return env[e[1]], abs(env[e[1]])
    if t == 'f':
        a, m = val(e[2], env)
        return {'sin': np.sin, 'cos': np.cos, 'tanh': np.tanh}[e[1]](a), max(m, 1.0)
    a, m = val(e[1], env)
    if t == 'neg':
        return -a, m
    if t == 'pow':
        return a ** e[2], max(m, 1.0) ** e[2]
    b, n = val(e[2], env)
    return (a + b, max(m, n) * 2) if t == '+' else (a * b, max(m, 1.0) * max(n, 1.0))


def rewrite(e, pick):
    """An expression that expands to the same one; pick(n) draws below n."""
    t = e[0]
    if t in 'cs':
        k = pick(6)
        if k == 0:
            return ['+', e, ['+', ['s', '@'], ['neg', ['s', '@']]]]
        return e
    if t == 'f':
        return ['f', e[1], rewrite(e[2], pick)]
    if t == 'neg':
        a = e[1]
        if a[0] == '+' and pick(2):
            return ['+', ['neg', rewrite(a[1], pick)], ['neg', rewrite(a[2], pick)]]
        return ['*', ['c', -1, 1], rewrite(a, pick)] if pick(2) else ['neg', rewrite(a, pick)]
    if t == 'pow':
        a = rewrite(e[1], pick)
        k = pick(3)
        if k == 0:
            return ['*', ['pow', a, e[2] - 1] if e[2] > 2 else a, a]
        if k == 1 and e[2] == 2 and e[1][0] == '+':
            x, y = e[1][1], e[1][2]
            return ['+', ['pow', x, 2], ['+', ['*', ['c', 2, 1], ['*', x, y]], ['pow', y, 2]]]
        return ['pow', a, e[2]]
    a, b = rewrite(e[1], pick), rewrite(e[2], pick)
    k = pick(4)
    if t == '+':
        if k == 0:
            return ['+', b, a]
        if k == 1 and e[1][0] == '+':
            return ['+', rewrite(e[1][1], pick), ['+', rewrite(e[1][2], pick), b]]
        return ['+', a, b]
    if k == 0:
        return ['*', b, a]
    if k == 1 and e[2][0] == '+':
        return ['+', ['*', a, rewrite(e[2][1], pick)], ['*', a, rewrite(e[2][2], pick)]]
    if k == 2 and e[1][0] == '+':
        return ['+', ['*', e[1][1], b], ['*', e[1][2], b]]
    return ['*', a, b]


def fill(e, name):
    if e == ['s', '@']:
        return ['s', name]
    return [fill(x, name) if isinstance(x, list) else x for x in e]


def mutate(e, pick, names):
    """Change one node."""
    if e[0] in 'cs' or pick(4) == 0:
        k = pick(4)
        if k == 0:
            return ['+', e, ['c', 1, 1]]
        if k == 1:
            return ['*', ['c', 2, 1], e]
        if k == 2:
            return ['s', names[pick(len(names))]]
        return ['neg', e]
    i = [j for j, x in enumerate(e) if isinstance(x, list)]
    j = i[pick(len(i))]
    return e[:j] + [mutate(e[j], pick, names)] + e[j + 1:]


@st.composite
def _models(draw):
    nc, nb = draw(st.integers(1, 4)), draw(st.integers(2, 4))
    ns = draw(exprs.names(nc + nb + 1))
    cs, base, spare = ns[:nc], ns[nc:nc + nb], ns[-1]
    nv = draw(st.integers(1, nb - 1))
    comps = []
    for i, c in enumerate(cs):
        comps.append([c, draw(poly(base + cs[:i], draw(st.integers(1, 3))))])
    tape = draw(st.lists(st.integers(0, 11), min_size=0, max_size=60))
    how = draw(st.sampled_from(['same', 'rewrite', 'rewrite', 'rewrite', 'mutate', 'mutate', 'swap', 'rename', 'drop', 'move']))
    return {'comps': comps, 'vars': base[:nv], 'params': base[nv:], 'spare': spare, 'tape': tape, 'how': how,
            'order': [draw(st.permutations(range(nc))), draw(st.permutations(range(nc)))],
            'cls': [draw(st.sampled_from(['Model', 'GradientModel', 'CallableModel'])) for _ in range(2)],
            'at': draw(st.integers(0, 3)), 'pts': [draw(st.lists(st.integers(3, 40), min_size=nc + nb + 1, max_size=nc + nb + 1)) for _ in range(2)]}


def picker(tape):
    it = iter(list(tape))

    def pick(n):
        return next(it, 0) % n if n else 0
    return pick


def make_model(comps, case, order, cls):
    import symfit
    from symfit import Parameter, Variable
    from symfit.core.models import GradientModel
    table = {n: Variable(n) for n in case['vars'] + [c for c, _ in comps]}
    table.update({n: Parameter(n) for n in case['params']})
    order = [i for i in order if i < len(comps)]
    md = {table[comps[i][0]]: sym(comps[i][1], table) for i in order}
    import sympy
    for v in md:
        if not sympy.sympify(md[v]).free_symbols:
            raise Reject('constant')
    return {'Model': symfit.Model, 'CallableModel': symfit.CallableModel, 'GradientModel': GradientModel}[cls](md)


def differ(c1, c2, case, names):
    """True: clearly different; False: the same up to rounding."""
    if sorted(c for c, _ in c1) != sorted(c for c, _ in c2):
        return True
    d1, d2 = dict(c1), dict(c2)
    for pt in case['pts']:
        env = {n: (k / 16 - 1.1) for n, k in zip(names, pt)}
        for c in d1:
            (a, m), (b, n) = val(d1[c], env), val(d2[c], env)
            if abs(a - b) > 1e-6 * max(abs(a), abs(b)) + 1e-9 * max(m, n):
                return True
    return False


def compare(m1, m2, equal, what):
    for a, b in ((m1, m2), (m2, m1)):
        r, n = a == b, a != b
        require(isinstance(r, (bool, np.bool_)) and isinstance(n, (bool, np.bool_)), 'comparison of {} gives {!r}', what, r)
        require(bool(r) is equal, '{}: == gives {} instead of {}:\n{}\n{}', what, r, equal, a, b)
        require(bool(n) is (not equal), '{}: != gives {}', what, n)


@facet(FACETS, 'models', _models,
       'models of random systems of expressions against rewritten (commuted, distributed, multiplied out, reordered, other class) '
       'and altered ones: equal exactly when the expressions agree; non-trivial: different definitions')
def models(case):
    c1 = [list(c) for c in case['comps']]
    names = case['vars'] + case['params'] + [c for c, _ in c1] + [case['spare']]
    base = case['vars'] + case['params']
    pick = picker(case['tape'])
    how = case['how']
    i = case['at'] % len(c1)
    c2 = [list(c) for c in c1]
    if how == 'rewrite':
        c2 = [[c, fill(rewrite(e, pick), base[pick(len(base))])] for c, e in c1]
    elif how == 'mutate':
        c2[i][1] = mutate(c2[i][1], pick, base + [c for c, _ in c1[:i]])
    elif how == 'swap' and len(c1) > 1:
        # (the earliest components: no cycles)
        j = next((k for k, (_, e) in enumerate(c1) if k and not syms(e) & {c for c, _ in c1}), None)
        if j is None or syms(c1[0][1]) & {c for c, _ in c1}:
            raise Reject('nothing to swap')
        c2[0][1], c2[j][1] = c1[j][1], c1[0][1]
    elif how == 'rename':
        if any(c1[i][0] in syms(e) for _, e in c1):
            raise Reject('referred to')
        c2[i][0] = case['spare']
    elif how == 'drop':
        if len(c1) == 1 or any(c1[-1][0] in syms(e) for _, e in c1):
            raise Reject('one component')
        c2 = c2[:-1]
    elif how == 'move':  # a component written out where it is used
        j = next((k for k, (_, e) in enumerate(c1) if syms(e) & {c for c, _ in c1}), None)
        if j is None:
            raise Reject('no reference')
        r = sorted(syms(c1[j][1]) & {c for c, _ in c1})[0]
        d = dict(c1)

        def put(e):
            return d[r] if e == ['s', r] else [put(x) if isinstance(x, list) else x for x in e]
        c2[j][1] = put(c1[j][1])
    dif = differ(c1, c2, case, names)
    if how in ('same', 'rewrite') and dif:
        raise Reject('rounding')
    if how not in ('same', 'rewrite') and not dif:
        raise Reject('not clearly different')
    m1 = make_model(c1, case, case['order'][0], case['cls'][0])
    m2 = make_model(c2, case, case['order'][1], case['cls'][1])
    before = str(m1), str(m2)
    compare(m1, m2, not dif, 'models')
    compare(m1, m1, True, 'the same model')
    require((str(m1), str(m2)) == before, 'comparing changed a model')
    return info(how != 'same', how, 'equal' if not dif else 'different', 'comps=%d' % len(c1))


# Pairs of functions of u, v: agreeing for positive arguments only / everywhere.
ALIKE = {
    'log square': (lambda s, u, v: s.log(u ** 2), lambda s, u, v: 2 * s.log(u)),
    'log product': (lambda s, u, v: s.log(u * v), lambda s, u, v: s.log(u) + s.log(v)),
    'root of square': (lambda s, u, v: s.sqrt(u ** 2), lambda s, u, v: u),
    'root of product': (lambda s, u, v: s.sqrt(u * v), lambda s, u, v: s.sqrt(u) * s.sqrt(v)),
    'power of product': (lambda s, u, v: (u * v) ** s.Rational(3, 2), lambda s, u, v: u ** s.Rational(3, 2) * v ** s.Rational(3, 2)),
    'power of power': (lambda s, u, v: (u ** 2) ** s.Rational(3, 2), lambda s, u, v: u ** 3),
    'abs': (lambda s, u, v: abs(u), lambda s, u, v: u),
    'sign': (lambda s, u, v: s.sign(u) * v, lambda s, u, v: v),
    'arc': (lambda s, u, v: s.acos(s.cos(u)), lambda s, u, v: u),
    'maximum': (lambda s, u, v: s.Max(u, 0), lambda s, u, v: u),
}
EXPANDED = {
    'square of sum': (lambda s, u, v: (u + v) ** 2, lambda s, u, v: u ** 2 + 2 * u * v + v ** 2),
    'exp of sum': (lambda s, u, v: s.exp(u + v), lambda s, u, v: s.exp(u) * s.exp(v)),
    'product': (lambda s, u, v: u * (v - 1), lambda s, u, v: u * v - u),
    'cancelling': (lambda s, u, v: u * (v + 2) - u * v, lambda s, u, v: 2 * u),
    'factor': (lambda s, u, v: s.sin(v) * (u + s.cos(u)), lambda s, u, v: u * s.sin(v) + s.cos(u) * s.sin(v)),
}


@st.composite
def _alike(draw):
    ns = draw(exprs.names(4))
    return {'n': ns, 'kind': draw(st.sampled_from(sorted(ALIKE) + sorted(EXPANDED))), 'what': draw(st.sampled_from(['par', 'var', 'product', 'shifted'])),
            'extra': draw(st.integers(0, 3)), 'cls': [draw(st.sampled_from(['Model', 'CallableModel', 'GradientModel'])) for _ in range(2)]}


@facet(FACETS, 'lookalikes', _alike,
       'pairs of expressions which agree for positive arguments only (log(a**2) and 2*log(a), sqrt(a**2) and a, ...) are different '
       'models, pairs that expand to the same expression are equal; non-trivial: all')
def lookalikes(case):
    import sympy
    from symfit import Variable, Parameter, Model, CallableModel
    from symfit.core.models import GradientModel
    x, y, a, b = Variable(case['n'][0]), Variable(case['n'][1]), Parameter(case['n'][2]), Parameter(case['n'][3])
    u = {'par': a, 'var': x, 'product': a * x, 'shifted': a - x}[case['what']]
    f, g = (ALIKE.get(case['kind']) or EXPANDED[case['kind']])
    more = [0, b, b * x, sympy.sin(b * x)][case['extra']]
    e1, e2 = f(sympy, u, b) + more, g(sympy, u, b) + more
    want = case['kind'] in EXPANDED
    classes = {'Model': Model, 'CallableModel': CallableModel, 'GradientModel': GradientModel}
    m1, m2 = classes[case['cls'][0]]({y: e1}), classes[case['cls'][1]]({y: e2})
    compare(m1, m2, want, case['kind'])
    if not want:  # they are different functions
        pt = {q.name: v for q, v in ((x, 1.5), (a, -2.0), (b, -1.25))}
        v1, v2 = [complex(e.subs({s: pt[s.name] for s in e.free_symbols}).evalf()) for e in map(sympy.sympify, (e1, e2))]
        if case['what'] == 'var' and abs(v1 - v2) < 1e-9:
            pt[x.name] = -1.5
            v1, v2 = [complex(e.subs({s: pt[s.name] for s in e.free_symbols}).evalf()) for e in map(sympy.sympify, (e1, e2))]
        require(abs(v1 - v2) > 1e-6, 'harness: {} and {} agree', e1, e2)
    return info(True, case['kind'], 'equal' if want else 'different')


@st.composite
def _large(draw):
    n = draw(st.integers(250, 300))
    return {'n': n, 'at': draw(st.one_of(st.none(), st.integers(0, n - 1))), 'drop': draw(st.booleans())}


@facet(FACETS, 'large', _large,
       'models with hundreds of components, equal or different in one; non-trivial: all')
def large(case):
    from symfit import Model, Variable, Parameter
    from symfit import CallableModel
    x, a = Variable('x'), Parameter('a')

    def make(at):
        return CallableModel({Variable('y%d' % i): a * x + i + (1000 if i == at else 0) for i in range(case['n'])})
    m1, m2 = make(None), make(case['at'])
    compare(m1, m2, case['at'] is None, 'large models')
    return info(True, 'over 256' if case['n'] > 256 else 'up to 256')


# ---- objectives -------------------------------------------------------------

@st.composite
def _objectives(draw):
    c = draw(objgen.ls_case(spec_kw={'ncomps': (1, 3)}))
    c['route'] = draw(st.sampled_from(['direct', 'direct', 'fit']))
    return {'c': c, 'how': draw(st.sampled_from(['same', 'same', 'value', 'value', 'shape', 'none', 'sigma', 'type', 'model', 'tiny', 'large', 'last'])),
            'type': draw(st.sampled_from(['LeastSquares', 'VectorLeastSquares', 'LogLikelihood', 'MinimizeModel'])),
            'type2': draw(st.sampled_from(['LeastSquares', 'VectorLeastSquares', 'LogLikelihood', 'MinimizeModel', 'sub'])),
            'at': draw(st.integers(0, 30)), 'intdtype': draw(st.booleans()), 'evaluate': draw(st.integers(0, 3)),
            'reverse': draw(st.booleans()), 'nan': draw(st.integers(0, 5)) == 3}


def data_of(obj):
    return {k: None if v is None else np.array(v, copy=True) for k, v in obj.data.items()}


@facet(FACETS, 'objectives', _objectives,
       'objectives of all types with copies of their data (other dtype or order, nan, missing) and with data altered in one value, '
       'shape, sigma or availability, other model or type; non-trivial: altered')
def objectives(case):
    from symfit import Model
    from symfit.core import objectives as O
    c = case['c']
    cls = getattr(O, case['type'])
    full = case['type'] in ('LeastSquares', 'VectorLeastSquares')
    b, obj0 = objgen.build_objective(c, O.LeastSquares, Model)
    model, data = b.model, data_of(obj0)
    if case['type'] == 'MinimizeModel' and len(model.dependent_vars) > 1:
        raise Reject('several components')
    if not full:
        data = {k: v for k, v in data.items() if k in model.independent_vars}
    order = sorted(data, key=lambda k: k.name)
    arrays = [k for k in order if data[k] is not None]
    if not arrays:
        raise Reject('no data')
    how = case['how']
    target = arrays[case['at'] % len(arrays)]
    if case['nan'] and how in ('same', 'value', 'none'):
        data[arrays[0]] = np.array(data[arrays[0]], dtype=float)
        data[arrays[0]].flat[0] = np.nan
    if how in ('tiny', 'large'):
        data[target] = np.array(data[target]) * 1e-10 if how == 'tiny' else np.array(data[target]) + 1e8
    d2 = {k: None if v is None else np.array(v, copy=True) for k, v in data.items()}
    model2, cls2, equal = model, cls, False
    if how == 'same':
        equal = True
        model2 = mg.build(c['spec'], pattrs={p: {'value': v, 'fixed': True} for p, v in c['fixed'].items()}, cls=Model).model
    elif how in ('value', 'tiny', 'large', 'last'):
        q = np.array(d2[target], dtype=float)
        i = -1 if how == 'last' else case['at'] % q.size
        if case['nan'] and target is arrays[0] and i % q.size == 0:
            q.flat[i] = 1.0  # a number where the other one has none
        else:
            q.flat[i] = q.flat[i] + {'tiny': 3e-9, 'large': 0.25}.get(how, 0.25)
        d2[target] = q
    elif how == 'shape':
        q = np.array(d2[target])
        k = case['at'] % 4
        d2[target] = [q[..., None], q[None], np.concatenate([np.atleast_1d(q)] * 2), np.broadcast_to(q, (2,) + q.shape)][k]
        if k in (1, 3) or q.ndim == 0:
            d2[target] = np.array(d2[target])
    elif how == 'none':
        deps = [v for v in model.dependent_vars if v in arrays]
        if not full or not deps:
            raise Reject('no dependent data')
        v = deps[case['at'] % len(deps)]
        d2[v] = None
        if case['at'] % 2:
            d2[model.sigmas[v]] = None
    elif how == 'sigma':
        if not full:
            raise Reject('no sigma')
        sg = [s for s in model.sigmas.values() if data.get(s) is not None]
        s = sg[case['at'] % len(sg)]
        d2[s] = np.array(d2[s]) * 1.5
    elif how == 'type':
        if case['type2'] == 'sub':
            cls2 = type('Sub', (cls,), {})
        else:
            cls2 = getattr(O, case['type2'])
        equal = cls2 is cls
    elif how == 'model':
        md = dict(model.model_dict)
        v = sorted(md, key=lambda s: s.name)[case['at'] % len(md)]
        md[v] = md[v] + 1
        model2 = Model(md)
    if case['intdtype']:
        for k, v in d2.items():
            if v is not None and v.dtype == float and v.size and np.all(v == np.round(v)):
                d2[k] = v.astype(int)
    if case['reverse']:
        d2 = dict(reversed(list(d2.items())))

    try:
        o1, o2 = cls(model, data), cls2(model2, d2)
    except (TypeError, KeyError):
        if how == 'type':
            raise Reject('needs other data')
        raise
    if case['evaluate'] % 2:
        p = c['points'][0]
        try:
            o1(**p)
        except Exception:
            pass  # (shapes that do not fit, on purpose)
    if case['evaluate'] >= 2 and how != 'type':
        o2 = pickle.loads(pickle.dumps(o2))
    compare(o1, o2, equal, 'objectives ({})'.format(how))
    compare(o1, o1, True, 'the same objective')
    for k, v in o1.data.items():
        require((v is None) == (data[k] is None) and (v is None or np.array_equal(v, data[k], equal_nan=True)), 'comparing changed the data')
    return info(how != 'same', how, case['type'], 'nan' if case['nan'] else 'numbers')


# ---- negation ---------------------------------------------------------------

@st.composite
def _neg(draw):
    numeric = draw(st.integers(0, 1)) == 1
    sp = draw(mg.spec(nvars=(0, 2), nparams=(1, 3), ncomps=(1, 4), tidy=True, numeric=numeric, depth=2))
    common = draw(st.sampled_from([[3], [2, 2], [1]]))
    cls = ['CallableNumericalModel', 'FDModel', 'Sub'] if numeric else ['Model', 'GradientModel', 'HessianModel', 'CallableModel', 'Sub']
    return {'spec': sp, 'data': draw(mg.data_for(sp['vars'], common=common, ints=False)), 'p': draw(mg.param_values(sp['params'])),
            'cls': draw(st.sampled_from(cls)), 'first': draw(st.booleans()), 'times': draw(st.sampled_from([1, 1, 2, 3]))}


@facet(FACETS, 'negation', _neg,
       'negated symbolic, callable-based and mixed models of all classes (also negated repeatedly and after use): same type and '
       'symbols, dependent components and their derivatives with opposite sign, intermediate ones and the original as before; '
       'non-trivial: non-zero value')
def negation(case):
    import symfit
    from symfit.core.models import GradientModel, HessianModel, BaseGradientModel
    sp = case['spec']

    class FDModel(BaseGradientModel, symfit.CallableNumericalModel):
        pass
    base = symfit.CallableNumericalModel if any(k == 'num' for _, _, k in sp['comps']) else symfit.Model

    class Sub(base):
        pass
    cls = {'Model': symfit.Model, 'GradientModel': GradientModel, 'HessianModel': HessianModel, 'CallableModel': symfit.CallableModel,
           'CallableNumericalModel': symfit.CallableNumericalModel, 'FDModel': FDModel, 'Sub': Sub}[case['cls']]
    b = mg.build(sp, cls=cls)
    data = {n: mg.arr(d) for n, d in case['data'].items()}
    p = case['p']
    jets, mag = mg.ref_jets(sp, data, p, limit=1e3)
    want, mag2 = mg.ref_values(sp, dict(data, **p))
    dep, inter = mg.roles(sp)
    tol = 1e-9 * (1 + mag) ** 1.5
    m = b.model
    kw = dict(data, **p)
    if case['first']:
        m(**kw)
        if hasattr(m, 'eval_jacobian'):
            m.eval_jacobian(**kw)
    names = lambda q: ([v.name for v in q.independent_vars], [v.name for v in q.params], [v.name for v in q.dependent_vars],
                       [v.name for v in q.interdependent_vars], sorted(v.name for v in q.sigmas))
    before, snapshot = names(m), dict(m.model_dict)
    n = m
    for _ in range(case['times']):
        n = -n
    sign = -1 if case['times'] % 2 else 1
    require(type(n) is type(m), 'negating a {} gives a {}', type(m).__name__, type(n).__name__)
    require(n is not m, 'negation gives the model itself')
    require(names(n) == before, 'symbols of the negated model: {} instead of {}', names(n), before)
    require(list(n.keys()) == list(m.keys()), 'components {} instead of {}', list(n.keys()), list(m.keys()))
    out, old = n(**kw), m(**kw)
    require(dict(m.model_dict) == snapshot, 'the original model was changed')
    for c in dep + inter:
        s = sign if c in dep else 1
        w = np.atleast_1d(want[c])
        close(getattr(out, c), s * w, tol, 'component {} of the negated model'.format(c))
        close(getattr(old, c), w, tol, 'component {} of the original model'.format(c))
    for k, f in (('j', 'eval_jacobian'), ('h', 'eval_hessian')):
        if not hasattr(m, f):
            require(not hasattr(n, f), 'the negated model has {}', f)
            continue
        ft = tol + (1e-6 * (1 + mag) ** 1.5 / min([1.0] + [abs(v) for v in p.values() if v]) if case['cls'] == 'FDModel' else 0)
        o, d = getattr(n, f)(**kw), getattr(m, f)(**kw)
        for c in dep + inter:
            s = sign if c in dep else 1
            w = jets[c].g if k == 'j' else jets[c].h
            close(getattr(o, c), s * w, ft, '{} of {} of the negated model'.format(f, c))
            close(getattr(d, c), w, ft, '{} of {} of the original model'.format(f, c))
    if all(k == 'sym' for _, _, k in sp['comps']):
        compare(-n if sign < 0 else n, m, True, 'the model negated twice')
        if sign < 0:
            compare(n, m, not any(np.any(want[c] != 0) for c in dep), 'a model and its negative') if any(np.any(want[c] != 0) for c in dep) else None
    return info(any(np.any(want[c] != 0) for c in dep), case['cls'], 'comps=%d' % len(want), 'inter=%d' % len(inter), 'times=%d' % case['times'])


@st.composite
def _bare(draw):
    ns = draw(exprs.names(4))
    k = draw(st.integers(1, 3))
    return {'names': ns, 'exprs': [draw(exprs.expr(draw(st.lists(st.sampled_from(ns), min_size=1, max_size=2, unique=True)), (), 2)) for _ in range(k)],
            'single': draw(st.booleans()), 'env': draw(mg.param_values(ns)), 'roles': draw(st.lists(st.booleans(), min_size=4, max_size=4)),
            'matrix': draw(st.integers(0, 5)) == 3, 'a': draw(exprs.positive()), 'M': draw(st.lists(exprs.number(), min_size=4, max_size=4))}


@facet(FACETS, 'negation_bare', _bare,
       'negation of models of bare expressions, sequences of expressions and matrix expressions; non-trivial: several components')
def negation_bare(case):
    from symfit import Model, CallableModel, Variable, Parameter
    if case['matrix']:
        from sympy import MatrixSymbol, Symbol, HadamardProduct
        N = Symbol('N', integer=True)
        M, K, W = (MatrixSymbol(q, N, N) for q in 'MKW')
        y, c = (MatrixSymbol(q, N, 1) for q in 'yc')
        a = Parameter('a')
        m = CallableModel({W: HadamardProduct(M, K) * a, c: M * y * a})
        n = -m
        Mv = np.array(case['M']).reshape(2, 2)
        env = {'M': Mv, 'K': Mv + 1, 'y': Mv[:, :1], 'a': case['a']}
        for q, s in ((m, 1), (n, -1)):
            out = q(**env)
            close(out.W, s * Mv * (Mv + 1) * case['a'], 1e-9, 'W')
            close(out.c, s * Mv @ Mv[:, :1] * case['a'], 1e-9, 'c')
        require(type(n) is CallableModel, 'type {}', type(n))
        return info(True, 'matrix')
    import sympy
    table = {q: Variable(q) if r else Parameter(q) for q, r in zip(case['names'], case['roles'])}
    es = [sympy.sympify(exprs.to_sympy(e, table)) for e in case['exprs']]
    if case['single']:
        es = es[:1]
    for e, ast in zip(es, case['exprs']):
        if not e.free_symbols:
            raise Reject('constant')
    m = Model(es[0] if case['single'] else es)
    n = -m
    mag = exprs.Mag()
    used = {s.name for e in es for s in e.free_symbols}
    kw = {q: case['env'][q] for q in used}
    want = [exprs.value(a, case['env'], mag) for a in case['exprs'][:len(es)]]
    if mag.m > 1e5:
        raise Reject('magnitude')
    for q, s in ((n, -1), (m, 1)):
        out = q(**kw)
        require(len(out) == len(es), '{} components', len(out))
        for i, w in enumerate(want):
            close(np.ravel(out[i])[0], s * w, 1e-9 * (1 + mag.m), 'component {}'.format(i))
    compare(-n, m, True, 'bare model negated twice')
    return info(len(es) > 1, 'single' if case['single'] else 'sequence', 'comps=%d' % len(es))


# ---- equality of callable-based models --------------------------------------------

@st.composite
def _numeric(draw):
    sp = draw(mg.spec(nvars=(1, 2), nparams=(1, 3), ncomps=(1, 4), tidy=True, numeric=True, depth=2))
    return {'spec': sp, 'change': draw(st.sampled_from(['none', 'none', 'callable', 'kind', 'extra', 'drop', 'symbolic', 'name', 'pickle-like'])),
            'i': draw(st.integers(0, 9)), 'rev': draw(st.booleans())}


@facet(FACETS, 'numeric', _numeric,
       'callable-based and mixed models with the same callables and connections (given in another order) are equal; with another callable, '
       'another symbolic component, a component more or less or of another name, or a symbol which is a parameter in one and a variable '
       'in the other they are different, in both directions; non-trivial: a callable')
def numeric(case):
    import symfit
    import sympy
    from symfit import CallableNumericalModel
    b = mg.build(case['spec'], cls=CallableNumericalModel)
    if not b.conn:
        raise Reject('no callable')
    md = {k: b.model.model_dict[k] for k in b.model.model_dict}
    num = sorted(b.conn, key=str)
    conn = {k: set(v) for k, v in b.conn.items()}
    items = list(md.items())
    if case['rev']:
        items.reverse()
    md2, conn2 = dict(items), {k: set(v) for k, v in sorted(conn.items(), key=lambda kv: str(kv[0]), reverse=case['rev'])}
    k = num[case['i'] % len(num)]
    ch, equal = case['change'], False
    if ch in ('none', 'pickle-like'):
        equal = True
    elif ch == 'callable':
        f = md2[k]
        md2[k] = lambda **kw: f(**kw) + 1
    elif ch == 'kind':
        par = sorted((s for s in conn2[k] if isinstance(s, symfit.Parameter)), key=str)
        if not par:
            raise Reject('no parameter')
        q = par[case['i'] % len(par)]
        if any(isinstance(e, sympy.Basic) and q in e.free_symbols for e in md2.values()):
            raise Reject('used in a symbolic component as well')
        v = symfit.Variable(q.name)
        conn2 = {c: {v if s == q else s for s in ss} for c, ss in conn2.items()}
    elif ch == 'extra':
        y = symfit.Variable('extra_component')
        md2[y] = md2[k]
        conn2[y] = set(conn2[k])
    elif ch == 'drop':
        used = set().union(*conn2.values()).union(*[e.free_symbols for e in md2.values() if isinstance(e, sympy.Basic)])
        free = [y for y in md2 if y not in used]
        if len(free) < 2 or len(num) < 2:
            raise Reject('nothing to leave out')
        y = sorted(free, key=str)[case['i'] % len(free)]
        md2.pop(y)
        conn2.pop(y, None)
    elif ch == 'symbolic':
        sym = sorted((y for y, e in md2.items() if isinstance(e, sympy.Basic)), key=str)
        if not sym:
            raise Reject('no symbolic component')
        y = sym[case['i'] % len(sym)]
        md2[y] = md2[y] + 1
    elif ch == 'name':
        used = set().union(*conn2.values()).union(*[e.free_symbols for e in md2.values() if isinstance(e, sympy.Basic)])
        if k in used:
            raise Reject('used')
        y = symfit.Variable('renamed_component')
        md2 = {y if c == k else c: e for c, e in md2.items()}
        conn2 = {y if c == k else c: s for c, s in conn2.items()}
    if not conn2:
        raise Reject('no callable')
    m2 = CallableNumericalModel(md2, connectivity_mapping=conn2)
    compare(b.model, b.model, True, 'a callable-based model with itself')
    compare(b.model, m2, equal, 'callable-based models (' + ch + ')')
    return info(True, ch, 'mixed' if len(num) < len(md) else 'callable')
