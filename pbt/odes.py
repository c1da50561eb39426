"""Initial value problems with known solutions, as plain data.

Linear: {"kind": "lin", "k": n, "A": [[c, par|None]...] , ...}; see `linear`.
"""
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm

import exprs
from core import Reject

POOL = ['a', 'b', 'k', 'B', 'Z', 'a1', 'a10', 'a2', 'y', 'x', 'z', 't', 'X', 'y1', 'alpha', 'omega', 'u_2', 'w', 'W', 'm',
        'dy', 'rho', 'v0', 'k1', 'k2', 'c0']


@st.composite
def times(draw, t0, span=1.5, maxn=6):
    """Time points around t0; with repetitions, unordered, t0 itself or not."""
    n = draw(st.integers(1, maxn))
    ts = [t0 + draw(st.integers(int(-8 * span), int(8 * span))) / 8 for _ in range(n)]
    if draw(st.booleans()):
        ts = [t0 + abs(t - t0) for t in ts]
    if draw(st.booleans()):
        ts = sorted(ts)
    return ts


@st.composite
def linear(draw, maxk=3, kmin=1, attrs=False):
    """y' = A y + b with entries number * parameter (or just a number).

    attrs: parameters with values, bounds and fixed states, which a model ignores.
    """
    k = draw(st.integers(kmin, maxk))
    npar, nip = draw(st.integers(1, 3)), draw(st.integers(0, 2))
    ns = draw(st.lists(st.sampled_from(POOL), min_size=k + 1 + npar + nip, max_size=k + 1 + npar + nip, unique=True))
    ys, t, ps, ips = ns[:k], ns[k], ns[k + 1:k + 1 + npar], ns[k + 1 + npar:]

    def entry():
        c = draw(st.sampled_from([0, 0, 1, -1, 0.5, -0.5]))
        return [c, draw(st.sampled_from(ps + [None]))]
    A = [[entry() for _ in range(k)] for _ in range(k)]
    b = [entry() for _ in range(k)]
    for i in range(k):
        if all(e[0] == 0 for e in A[i]) and b[i][0] == 0:
            A[i][i] = [-1, ps[0]]
    used = {e[1] for row in A for e in row if e[0] != 0} | {e[1] for e in b if e[0] != 0}
    if not used - {None}:
        A[0][0] = [-1, ps[0]]
        used |= {ps[0]}
    ps = [p for p in ps if p in used]
    init = {}
    used_ip = []
    for y in ys:
        if ips and draw(st.booleans()):
            init[y] = draw(st.sampled_from(ips))
            used_ip.append(init[y])
        elif draw(st.integers(0, 5)) == 0:
            init[y] = draw(st.sampled_from(ps))  # a rate as initial value
        else:
            init[y] = draw(st.sampled_from([1, -1, 0, 0.5, 2.0, 3]))
    t0 = draw(st.sampled_from([0, 0.0, 1, -0.5, 2.5, 0.125]))
    pars = sorted(set(ps) | set(used_ip))
    from models_gen import attributes
    return {'attrs': {p: draw(attributes()) for p in pars} if attrs else {}, 'kind': 'lin', 'ys': ys, 't': t, 'pars': pars, 'A': A, 'b': b, 'init': init, 't0': t0,
            'p': {p: draw(exprs.nonzero(-1.5, 1.5)) for p in pars},
            'write': draw(st.permutations(range(k))), 'create': draw(st.permutations(range(len(ns)))), 'all': ns}


def _val(e, p):
    return e[0] * (p[e[1]] if e[1] else 1.0) if e[0] else 0.0


def solve_linear(c, ts, p=None):
    """Exact values: {name: array over ts}."""
    p = p or c['p']
    k = len(c['ys'])
    M = np.zeros((k + 1, k + 1))
    for i in range(k):
        for j in range(k):
            M[i, j] = _val(c['A'][i][j], p)
        M[i, k] = _val(c['b'][i], p)
    y0 = [p[v] if isinstance(v, str) else float(v) for v in (c['init'][y] for y in c['ys'])] + [1.0]
    out = np.array([expm(M * (t - c['t0'])) @ y0 for t in ts])
    return {y: out[:, i] for i, y in enumerate(c['ys'])}


def growth(c, ts, p=None):
    p = p or c['p']
    k = len(c['ys'])
    s = max(sum(abs(_val(c['A'][i][j], p)) for j in range(k)) + abs(_val(c['b'][i], p)) for i in range(k))
    T = max(abs(t - c['t0']) for t in ts)
    y = max([1.0] + [abs(p[v] if isinstance(v, str) else v) for v in c['init'].values()])
    g = np.exp(min(s * T, 50)) * y
    if g > 400:
        raise Reject('growth')
    return g


def build_linear(c, pattrs=None, **integrator):
    from symfit import ODEModel, Variable, Parameter, D
    table = {}
    for i in c['create']:
        n = c['all'][i]
        table[n] = Parameter(n, **(pattrs or c.get('attrs') or {}).get(n, {})) if n in c['pars'] else Variable(n)
    md = {}
    for i in c['write']:
        rhs = 0
        for e, y in zip(c['A'][i], c['ys']):
            rhs = rhs + e[0] * (table[e[1]] if e[1] else 1) * table[y]
        e = c['b'][i]
        rhs = rhs + e[0] * (table[e[1]] if e[1] else 1)
        md[D(table[c['ys'][i]], table[c['t']])] = rhs
    init = {table[y]: (table[v] if isinstance(v, str) else v) for y, v in c['init'].items()}
    items = list(init.items()) + [(table[c['t']], c['t0'])]
    if c['write'][0] % 2:
        items = items[::-1]
    return ODEModel(md, initial=dict(items), **integrator), table
