"""C18: declared parameters and variables carry exactly what was declared."""
import re
import traceback

import numpy as np
from hypothesis import strategies as st

import exprs
from core import facet, info, close, require, expect_raises, Reject, Known

FACETS = {}
ATTRS = ('value', 'min', 'max', 'fixed')
DEFAULT = {'value': 1.0, 'min': None, 'max': None, 'fixed': False}


@st.composite
def attrs(draw, good=True):
    """Attributes of one parameter; perhaps inconsistent."""
    d = {'value': draw(exprs.number()), 'min': None, 'max': None, 'fixed': draw(st.sampled_from([False, False, True]))}
    lo, hi = draw(exprs.number(-4, 2)), draw(exprs.number(-2, 4))
    if good and not d['fixed'] and lo > hi:
        lo, hi = hi, lo
    which = draw(st.sampled_from(['none', 'min', 'max', 'both', 'both', 'equal', 'zero']))
    if which in ('min', 'both'):
        d['min'] = lo
    if which in ('max', 'both'):
        d['max'] = hi
    if which == 'equal':
        d['min'] = d['max'] = lo
    if which == 'zero':
        d[draw(st.sampled_from(['min', 'max']))] = 0
    return d


def given(d, as_what):
    """A number in one of the types users have at hand."""
    if d is None or isinstance(d, bool):
        return d
    if as_what == 'np':
        return np.float64(d)
    if as_what == 'int' and float(d).is_integer():
        return int(d)
    if as_what == 'sympy':
        import sympy
        return sympy.Float(d)
    return d


def bad(d):
    return d['min'] is not None and d['max'] is not None and d['min'] > d['max'] and not d['fixed']


def check_parameter(p, name, want):
    from symfit import Parameter
    require(type(p) is Parameter, '{} is a {}', name, type(p).__name__)
    require(p.name == name and str(p) == name, 'name {!r} (prints as {!r}) instead of {!r}', p.name, str(p), name)
    for k in ATTRS:
        got = getattr(p, k)
        if want[k] is None:
            require(got is None, '{} of {}: {!r} instead of None', k, name, got)
        elif k == 'fixed':
            require(bool(got) is want[k], '{} of {}: {!r} instead of {!r}', k, name, got, want[k])
        else:
            require(got is not None and float(got) == want[k], '{} of {}: {!r} instead of {!r}', k, name, got, want[k])


def check_variable(v, name):
    from symfit import Variable
    require(type(v) is Variable and v.name == name and str(v) == name, '{!r} ({}) instead of the Variable {!r}', v, type(v).__name__, name)


def check_symbols(named):
    """Names differ <=> symbols differ; all real."""
    for i, (n, s) in enumerate(named):
        require(s.is_real is True and s.is_commutative is True, '{} is not an ordinary real symbol', n)
        require(s == s and hash(s) == hash(s), '{} differs from itself', n)
        for m, t in named[:i]:
            require(s != t and t != s, '{} == {}', s, t)
            require(len({s, t}) == 2, '{} and {} are the same key', s, t)


# ---- one at a time ------------------------------------------------------------

@st.composite
def _single(draw):
    out = []
    for n in draw(exprs.names(draw(st.integers(1, 5)))):
        kind = draw(st.sampled_from(['Parameter', 'Parameter', 'Parameter', 'Variable']))
        d = {'kind': kind, 'name': n}
        if kind == 'Parameter':
            d['attrs'] = draw(attrs(good=draw(st.integers(0, 3)) > 0))
            # the attributes actually passed: the first k by position, others by keyword
            d['positional'] = draw(st.integers(0, 4))
            d['omit'] = sorted(draw(st.sets(st.sampled_from(ATTRS), max_size=3)))
            d['type'] = draw(st.sampled_from(['plain', 'np', 'int', 'sympy']))
        d['assume'] = draw(st.sampled_from([None, None, None, 'positive', 'nonnegative', 'integer']))
        out.append(d)
    return {'symbols': out, 'reject': draw(st.sampled_from([None, None, 5, 0, 1.5, 0.0, -2.0, 'np0', 'np3']))}


def declare(d):
    """-> (callable declaring it, attributes it should carry)"""
    import symfit
    kw = {d['assume']: True} if d['assume'] else {}
    if d['kind'] == 'Variable':
        return (lambda: symfit.Variable(d['name'], **kw)), None
    pos = [k for k in ATTRS[:d['positional']]]
    pos = pos[:min([pos.index(k) for k in d['omit'] if k in pos] + [len(pos)])]
    want = dict(DEFAULT)
    args = [d['name']] + [given(d['attrs'][k], d['type']) for k in pos]
    for k in ATTRS:
        if k in pos:
            want[k] = d['attrs'][k]
        elif k not in d['omit']:
            want[k] = d['attrs'][k]
            kw[k] = given(d['attrs'][k], d['type'])
    return (lambda: symfit.Parameter(*args, **kw)), want


@facet(FACETS, 'single', _single,
       'up to five parameters and variables with positional, keyword and omitted attributes of several number types, consistent or not, '
       'plus numbers as names; non-trivial: bounds, a fixed parameter or a rejected declaration')
def single(case):
    import symfit
    made, labels = [], []
    for d in case['symbols']:
        f, want = declare(d)
        if want is not None and bad(want):
            expect_raises(ValueError, f, 'Parameter {} with min {} > max {}'.format(d['name'], want['min'], want['max']))
            labels.append('rejected')
        else:
            made.append((d, want, f()))
            labels.append(d['kind'] + (' fixed' if want and want['fixed'] else '') + (' bounded' if want and (want['min'] is not None or want['max'] is not None) else ''))
    # Later declarations do not change earlier symbols.
    for d, want, s in made:
        if want is None:
            check_variable(s, d['name'])
        else:
            check_parameter(s, d['name'], want)
        if d['assume']:
            require(getattr(s, 'is_' + d['assume']) is True, '{} is not {}', s, d['assume'])
    check_symbols([(d['name'], s) for d, _, s in made])
    if case['reject'] is not None:
        n = {'np0': np.float64(0), 'np3': np.float64(3)}.get(case['reject'], case['reject'])
        expect_raises(TypeError, lambda: symfit.Parameter(n), 'Parameter({!r})'.format(n))
        expect_raises(TypeError, lambda: symfit.Parameter(n, min=-9, max=9), 'Parameter({!r}, min=-9, max=9)'.format(n))
        labels.append('number as name')
    return info(any(' ' in l or l == 'rejected' for l in labels), *labels)


# ---- in a batch ---------------------------------------------------------------

HOW = ['omit', 'omit', 'scalar', 'list', 'tuple', 'array', 'iter', 'generator']


@st.composite
def _batch(draw):
    n = draw(st.integers(1, 5))
    style = draw(st.sampled_from(['comma', 'space', 'tight', 'range', 'list', 'tuple', 'mixed']))
    nms = draw(exprs.names(n))
    if style == 'range':
        nms = [draw(st.sampled_from(['a', 'Q', 'x_'])) + str(i) for i in range(n)]
        nms = [nms[0][:-1] + str(i) for i in range(n)]
    good = draw(st.integers(0, 3)) > 0
    each = [draw(attrs(good=good)) for _ in range(n)]
    hows = {k: draw(st.sampled_from(HOW)) for k in ATTRS}
    wrong = draw(st.sampled_from([None, None, None, None, None, -1, 1, 0]))
    return {'names': nms, 'style': style, 'each': each, 'how': hows, 'wrong': [draw(st.sampled_from(ATTRS)), wrong] if wrong is not None else None,
            'kind': draw(st.sampled_from(['parameters'] * 5 + ['variables'])), 'type': draw(st.sampled_from(['plain', 'np', 'int'])),
            'assume': draw(st.sampled_from([None, None, None, 'positive']))}


def spell(names, style):
    if style == 'comma':
        return ', '.join(names)
    if style == 'space':
        return ' '.join(names)
    if style == 'tight':
        return ','.join(names)
    if style == 'mixed':
        return ''.join(n + [', ', ' ', ','][i % 3] for i, n in enumerate(names[:-1])) + names[-1]
    if style == 'range':
        return '{}:{}'.format(names[0][:-1], len(names))
    return (list if style == 'list' else tuple)(names)


def wrap(vals, how):
    if how == 'list':
        return list(vals)
    if how == 'tuple':
        return tuple(vals)
    if how == 'array':
        return np.array(vals, dtype=object if any(v is None for v in vals) else None)
    if how == 'iter':
        return iter(list(vals))
    if how == 'generator':
        return (v for v in list(vals))
    raise AssertionError(how)


@facet(FACETS, 'batch', _batch,
       'parameters() and variables() with every spelling of the names and each attribute omitted, one for all, or a list, tuple, array, '
       'iterator or generator, perhaps of the wrong length or inconsistent; non-trivial: some sequence or rejected declaration')
def batch(case):
    import symfit
    n = len(case['names'])
    names = spell(case['names'], case['style'])
    akw = {case['assume']: True} if case['assume'] else {}
    if case['kind'] == 'variables':
        vs = symfit.variables(names, **akw)
        require(len(vs) == n, '{} variables from {!r}', len(vs), names)
        for v, nm in zip(vs, case['names']):
            if isinstance(v, (tuple, list)):    # one tuple per string of a sequence
                require(len(v) == 1, '{} from {!r}', v, names)
                v = v[0]
            check_variable(v, nm)
        return info(n > 1, 'variables', case['style'])
    hows = dict(case['how'])
    kw, want = dict(akw), [dict(DEFAULT) for _ in range(n)]
    wrong = None
    seqs = [k for k in ATTRS if hows[k] not in ('omit', 'scalar')]
    if seqs and case['style'] in ('list', 'tuple'):
        raise Reject('sequence of names with sequences of attributes')
    scalar_fixed = hows['fixed'] == 'scalar' and case['each'][0]['fixed']
    for k in ATTRS:
        h = hows[k]
        if h == 'omit':
            continue
        if h == 'scalar':
            kw[k] = given(case['each'][0][k], case['type'])
            for w in want:
                w[k] = case['each'][0][k]
            continue
        vals = [d[k] for d in case['each']]
        for w, v in zip(want, vals):
            w[k] = v
        vals = [given(v, case['type']) for v in vals]
        if case['wrong'] and case['wrong'][0] == k and h in ('list', 'tuple', 'array'):
            length = {-1: n - 1, 1: n + 1, 0: 0}[case['wrong'][1]]
            vals = (vals + vals[:1])[:length]
            wrong = k
        kw[k] = wrap(vals, h)
    if hows['min'] == hows['max'] == 'scalar' and not scalar_fixed and 'fixed' in seqs and bad(dict(want[0], fixed=False)):
        raise Reject('one inconsistent range for all, partly fixed')
    call = lambda: symfit.parameters(names, **kw)
    inconsistent = any(bad(w) for w in want)
    if wrong or inconsistent:
        expect_raises(ValueError, call, 'parameters({!r}) with {}'.format(names, 'sequence of wrong length for ' + wrong if wrong else 'inconsistent bounds'))
        return info(True, 'wrong length' if wrong else 'inconsistent')
    if case['style'] in ('list', 'tuple'):
        # sympy returns one (tuple of) symbols per string
        ps = call()
        ps = [p[0] if isinstance(p, (tuple, list)) else p for p in ps]
    else:
        ps = call()
    require(len(ps) == n, '{} parameters from {!r}', len(ps), names)
    for p, nm, w in zip(ps, case['names'], want):
        check_parameter(p, nm, w)
        if case['assume']:
            require(getattr(p, 'is_' + case['assume']) is True, '{} is not {}', p, case['assume'])
    check_symbols(list(zip(case['names'], ps)))
    return info(bool(seqs), 'parameters', case['style'], *['{} {}'.format(k, hows[k]) for k in seqs])


# ---- unnamed, redeclared --------------------------------------------------------

@st.composite
def _unnamed(draw):
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(['par', 'par', 'par', 'var', 'var', 'model', 'named', 'clear', 'pickle']))
        ops.append([k, draw(attrs()) if k == 'par' else draw(st.integers(0, 3))])
    return {'ops': ops}


@facet(FACETS, 'unnamed', _unnamed,
       'histories of unnamed parameters, variables and models of unnamed components, mixed with named symbols, pickling and clearing of the '
       'sympy cache; non-trivial: at least two unnamed symbols')
def unnamed(case):
    import pickle
    import symfit
    from sympy.core.cache import clear_cache
    made = []
    for i, (op, arg) in enumerate(case['ops']):
        if op == 'par':
            p = symfit.Parameter(**arg) if i % 2 else symfit.Parameter(None, **arg)
            made.append((p, arg, p.name))
        elif op == 'var':
            v = symfit.Variable() if i % 2 else symfit.Variable(None)
            made.append((v, None, v.name))
        elif op == 'named':
            symfit.Parameter('named%d' % arg, 2.0)
        elif op == 'clear':
            clear_cache()
        elif op == 'pickle':
            for j, (s, w, nm) in enumerate(made):
                made[j] = (pickle.loads(pickle.dumps(s)), w, nm)
        elif op == 'model':
            a, x = symfit.Parameter('named9'), symfit.Variable('x_')
            m = symfit.Model([a * x ** (k + 1) for k in range(arg + 1)])
            require(len(m.dependent_vars) == arg + 1, '{} components from {} expressions', len(m.dependent_vars), arg + 1)
            require(len({v.name for v in m.dependent_vars} | {v.name for v, _, _ in made}) == arg + 1 + len(made),
                    'names of unnamed components {}', m.dependent_vars)
    for s, w, nm in made:
        require(isinstance(s.name, str) and s.name.isidentifier(), 'name {!r}', s.name)
        if w is None:
            check_variable(s, nm)
        else:
            check_parameter(s, nm, w)
    check_symbols([(nm, s) for s, w, nm in made])
    require(len({nm for _, _, nm in made}) == len(made), 'names {}', [nm for _, _, nm in made])
    return info(len(made) > 1, *[op for op, _ in case['ops']])


@st.composite
def _again(draw):
    return {'name': draw(exprs.names(1))[0], 'decl': [draw(attrs()) for _ in range(draw(st.integers(2, 3)))], 'same': draw(st.booleans()),
            'batch': draw(st.booleans())}


@facet(FACETS, 'redeclare', _again,
       'the same name declared several times with equal or different attributes; non-trivial: all')
def redeclare(case):
    import symfit
    decl = [case['decl'][0]] * len(case['decl']) if case['same'] else case['decl']
    ps = []
    for d in decl:
        ps.append(symfit.parameters(case['name'], **d)[0] if case['batch'] else symfit.Parameter(case['name'], **d))
        check_parameter(ps[-1], case['name'], d)
    for p, d in zip(ps, decl):
        now = {k: getattr(p, k) for k in ATTRS}
        if now != d and now == decl[-1]:
            # sympy returns the same object for the same name
            raise Known('C18-alias')
        check_parameter(p, case['name'], d)
    if case['same']:
        require(len(set(ps)) == 1 and all(p == ps[0] for p in ps), 'equal declarations differ')
    return info(True, 'same' if case['same'] else 'different')


@st.composite
def _equal(draw):
    a = draw(attrs())
    b = draw(st.sampled_from([{}, {}, {'value': 1.25}, {'value': 0.0}, {'min': -60.0}, {'max': 60.0}, {'fixed': True}, {'fixed': False}, {'min': None}, {'max': None}]))
    if draw(st.integers(0, 3)) == 1:
        b = draw(attrs())
    return {'name': draw(exprs.names(1))[0], 'decl': a, 'change': b, 'how': draw(st.sampled_from(['pickle', 'clear', 'clear', 'other name', 'variable'])),
            'expr': draw(st.integers(0, 2))}


@facet(FACETS, 'equality', _equal,
       'two separate parameters of the same name are equal exactly if they agree in value, bounds and fixed (same for expressions of them), and never '
       'equal variables or other names; non-trivial: all')
def equality(case):
    import pickle
    import symfit
    from sympy.core.cache import clear_cache
    n, d = case['name'], case['decl']
    p = symfit.Parameter(n, **d)
    e = dict(d, **{k: v for k, v in case['change'].items()})
    if e.get('min') is not None and e.get('max') is not None and e['min'] > e['max']:
        raise Reject('inconsistent')
    clear_cache()
    if case['how'] == 'variable':
        q = symfit.Variable(n)
        check_variable(q, n)
        same = False
    elif case['how'] == 'other name':
        q = symfit.Parameter(n + 'q', **e)
        same = False
    elif case['how'] == 'pickle':
        q = pickle.loads(pickle.dumps(p))
        if q is p:
            raise Reject('the same object')
        for k, v in e.items():
            setattr(q, k, v)
    else:
        q = symfit.Parameter(n, **e)
        if q is p:
            raise Reject('the same object')
    if isinstance(q, symfit.Parameter):
        check_parameter(q, q.name, e if case['how'] != 'pickle' else dict(d, **e))
    check_parameter(p, n, d)
    if case['how'] in ('pickle', 'clear'):
        same = all(getattr(p, k) == getattr(q, k) for k in ATTRS)
    require((p == q) is same and (q == p) is same, '{} and {} compare {} and {}', d, e, p == q, q == p)
    require((p != q) is not same, '{} and {}: not equal is {}', d, e, p != q)
    if same:
        require(hash(p) == hash(q) and len({p, q}) == 1, 'equal parameters have different hashes')
    return info(True, case['how'], 'same' if same else 'different')


# ---- in expressions -------------------------------------------------------------

@st.composite
def _expr(draw):
    n = draw(st.integers(1, 4))
    nms = draw(exprs.names(n))
    e = draw(exprs.expr(nms, nms, 3))
    f = draw(exprs.expr(nms[:1], nms, 2))
    return {'names': nms, 'kinds': [draw(st.sampled_from(['Parameter', 'Variable'])) for _ in nms], 'expr': e, 'inner': f,
            'at': {k: draw(exprs.number()) for k in nms}, 'target': draw(st.sampled_from(nms)), 'how': draw(st.sampled_from(['xreplace', 'subs']))}


@facet(FACETS, 'expression', _expr,
       'random expressions of declared symbols: value, derivative, substitution by numbers and expressions, free symbols, calling with '
       'keywords, against plain evaluation; non-trivial: at least two symbols')
def expression(case):
    import sympy
    import symfit
    table = {n: getattr(symfit, k)(n) for n, k in zip(case['names'], case['kinds'])}
    e = sympy.sympify(exprs.to_sympy(case['expr'], table))
    if sorted(s.name for s in e.free_symbols) != sorted(case['names']):
        raise Reject('a symbol cancels')
    require(e.free_symbols == set(table.values()), 'free symbols {}', e.free_symbols)
    require(all(type(s).__name__ == dict(zip(case['names'], case['kinds']))[s.name] for s in e.free_symbols), 'types of free symbols')
    mag = exprs.Mag()
    at = case['at']
    with np.errstate(all='ignore'):
        want = float(exprs.value(case['expr'], at, mag))
    if not mag.m < 1e6:
        raise Reject('magnitude')
    num = lambda ex: float(sympy.N(ex.xreplace({table[k]: sympy.Float(v, 30) for k, v in at.items()})))
    tol = 1e-9 * mag.m
    close(num(e), want, tol, 'value of {}'.format(e))
    # callable with keywords and in the printed order of names
    close(float(e(**at)), want, tol, 'value by calling {}'.format(e))
    nm = case['target']
    P = 1
    env = {k: exprs.param_jet(at[k], 0, P) if k == nm else exprs.const_jet(at[k], P) for k in at}
    j = exprs.jet(case['expr'], env, P, mag)
    close(num(sympy.diff(e, table[nm])), float(j.g[0]), 1e-8 * (1 + mag.m + abs(float(j.g[0]))), 'd/d{} of {}'.format(nm, e))
    inner = sympy.sympify(exprs.to_sympy(case['inner'], table))
    with np.errstate(all='ignore'):
        iv = float(exprs.value(case['inner'], at, mag))
        want = float(exprs.value(case['expr'], dict(at, **{nm: iv}), mag))
    if mag.m < 1e6:
        try:
            new = getattr(e, case['how'])({table[nm]: inner})
        except TypeError as err:
            tb = traceback.extract_tb(err.__traceback__)
            if case['how'] == 'subs' and any(f.name == '_eval_subs' and g.name == 'call' and g.filename.endswith('operators.py') for f, g in zip(tb, tb[1:])):
                raise Known('C18-subs')
            raise
        close(num(new), want, 1e-8 * mag.m, '{} with {} = {}'.format(e, nm, inner))
    s = table[nm]
    require(sympy.sqrt(s ** 2) == sympy.Abs(s) and sympy.conjugate(s) == s and sympy.im(s) == 0, '{} is not treated as a real number', nm)
    require(sympy.simplify(s - s) == 0 and s + s == 2 * s and -(-s) == s, 'arithmetic of {}', nm)
    return info(len(case['names']) > 1, case['how'], *case['kinds'])
