"""Problems with many parameters, components or points, with everything about them in closed form.

    y_j = sum_k A[j][k] p_k cos(k x_j) + sum_(k,l,w) w p_k p_l x_j

Every component has its own independent variable, or all share one.
"""
import numpy as np
from hypothesis import strategies as st

import exprs
from core import Reject

OTHERS = ['out', 'y', 'B', 'res_1', 'z0', 'Y', 'b', 'aa', 'y10', 'y9', 'W', 'k_']
RESERVED = set(OTHERS) | {'t'} | {'s%d' % i for i in range(20)} | {'y%d' % i for i in range(20)}
STYLES = ['p%d', 'p_%d', 'a%d', 'par%02d', 'x%d', 'Z%d', 'p%dq']


@st.composite
def par_names(draw, n):
    how = draw(st.integers(0, 3))
    if how:
        style = draw(st.sampled_from(STYLES))
        return [style % i for i in draw(st.permutations(range(n)))]
    pool = [q for q in exprs.NAMES if q not in RESERVED]
    return draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n, unique=True))


@st.composite
def case_(draw, K=(7, 14), J=(1, 3), pairs=True, points=(1, 2, 12, 257, 1001, 2500), share=None, fixed=False, least=1):
    K = draw(st.integers(*K))
    J = draw(st.integers(*J))
    share = draw(st.booleans()) if share is None else share
    ps = draw(par_names(K))
    big = draw(st.booleans())  # many components have names of the same style
    ys = ['y%d' % (i + 2) for i in range(J)] if big else OTHERS[:J]
    ys = draw(st.permutations(ys))
    vs = ['t'] if share else ['s%d' % (J - i) for i in range(J)]
    n = [max(least, draw(st.sampled_from(points))) for _ in vs]
    c = {'ps': list(ps), 'ys': list(ys), 'vs': vs, 'n': n, 'seed': draw(st.integers(0, 10 ** 6)), 'pairs': [], 'fixed': [],
         'dense': draw(st.booleans())}
    if pairs:
        for _ in range(draw(st.integers(0, 3))):
            c['pairs'].append([draw(st.integers(0, K - 1)), draw(st.integers(0, K - 1)), draw(exprs.nonzero(-2, 2))])
    if fixed:
        c['fixed'] = sorted(draw(st.lists(st.integers(0, K - 1), min_size=1, max_size=K - 1, unique=True)))
    return c


class Problem:
    def __init__(self, c):
        self.c = c
        rng = np.random.RandomState(c['seed'])
        K, J = len(c['ps']), len(c['ys'])
        self.K, self.J = K, J
        A = rng.randint(1, 4, size=(J, K)).astype(float)
        if not c['dense'] and J > 1:
            A *= rng.rand(J, K) < 0.7
        for k in range(K):
            if not A[:, k].any():
                A[k % J, k] = 1.0
        for j in range(J):
            if not A[j].any():
                A[j, j % K] = 1.0
        self.A = A
        self.xs = {v: (np.arange(n) + 0.5) * np.pi / n for v, n in zip(c['vs'], c['n'])}
        self.var = [c['vs'][j if len(c['vs']) > 1 else 0] for j in range(J)]
        self.phi = [A[j][:, None] * np.cos(np.arange(K)[:, None] * self.xs[self.var[j]]) for j in range(J)]
        self.p = np.round(rng.uniform(-2, 2, K), 3)
        self.y = [V + 0.3 * rng.standard_normal(V.shape) for V in self.values(np.round(rng.uniform(-2, 2, K), 3))]
        self.sigma = [np.round(rng.uniform(0.5, 2, V.shape), 3) for V in self.y]
        self.order = list(np.argsort(np.array(c['ps'])))  # the library lists parameters alphabetically
        self.names = [c['ps'][i] for i in self.order]
        self.comps = sorted(range(J), key=lambda j: c['ys'][j])

    def values(self, p):
        return [self.phi[j].T @ p + self.xs[self.var[j]] * sum(w * p[k] * p[l] for k, l, w in self.c['pairs']) for j in range(self.J)]

    def jac(self, p):
        out = []
        for j in range(self.J):
            g = self.phi[j].copy()
            for k, l, w in self.c['pairs']:
                g[k] += w * p[l] * self.xs[self.var[j]]
                g[l] += w * p[k] * self.xs[self.var[j]]
            out.append(g)
        return out

    def hess(self, p):
        q = np.zeros((self.K, self.K))
        for k, l, w in self.c['pairs']:
            q[k, l] += w
            q[l, k] += w
        return [q[:, :, None] * self.xs[self.var[j]] for j in range(self.J)]

    def kw(self, p):
        return dict(self.xs, **{n: float(v) for n, v in zip(self.c['ps'], p)})

    def data(self, sigma=False):
        d = dict(self.xs, **{n: v for n, v in zip(self.c['ys'], self.y)})
        if sigma:
            d.update({'sigma_' + n: v for n, v in zip(self.c['ys'], self.sigma)})
        return d

    def build(self, cls=None, attrs=None, wrap=None, numeric=False):
        import symfit
        from symfit import Parameter, Variable, cos
        P = [Parameter(n, **(attrs or {}).get(n, {})) for n in self.c['ps']]
        X = {v: Variable(v) for v in self.c['vs']}
        Y = [Variable(n) for n in self.c['ys']]
        self.P, self.X, self.Y = P, X, Y
        if numeric:
            comps, con = {}, {}
            for j in range(self.J):
                used = [k for k in range(self.K) if self.A[j, k] or any(k in q[:2] for q in self.c['pairs'])]
                args = [self.c['ps'][k] for k in used] + [self.var[j]]
                comps[Y[j]] = eval('lambda {}: f(dict(locals()))'.format(', '.join(args)), {'f': self.evaluator(j)})
                con[Y[j]] = {P[k] for k in used} | {X[self.var[j]]}
            return (cls or symfit.CallableNumericalModel)(comps, connectivity_mapping=con)
        d = {}
        for j in range(self.J):
            e = 0
            for k in range(self.K):
                if self.A[j, k]:
                    e = e + int(self.A[j, k]) * P[k] * (cos(k * X[self.var[j]]) if k else 1)
            for k, l, w in self.c['pairs']:
                e = e + w * P[k] * P[l] * X[self.var[j]]
            if not e.has(X[self.var[j]]):
                raise Reject('constant component')
            d[Y[j]] = wrap(e) if wrap else e
        return (cls or symfit.Model)(d)

    def evaluator(self, j):
        A, ps, v = self.A[j], self.c['ps'], self.var[j]

        def f(d):
            out = 0 * np.asarray(d[v], dtype=float)
            for k in range(self.K):
                if A[k]:
                    out = out + A[k] * d[ps[k]] * np.cos(k * np.asarray(d[v]))
            for k, l, w in self.c['pairs']:
                out = out + w * d[ps[k]] * d[ps[l]] * d[v]
            return out
        return f

    def chi2(self, p, sigma=True, scale=0.5):
        """Value, gradient and Hessian in the order of the declaration."""
        S, G, H = 0.0, np.zeros(self.K), np.zeros((self.K, self.K))
        V, Jc, Hs = self.values(p), self.jac(p), self.hess(p)
        for j in range(self.J):
            s = self.sigma[j] if sigma else 1.0
            r = (V[j] - self.y[j]) / s
            S += scale * np.sum(r ** 2)
            G += 2 * scale * (Jc[j] / s) @ r
            H += 2 * scale * ((Jc[j] / s) @ (Jc[j] / s).T + (Hs[j] / s) @ r)
        return S, G, H

    def labels(self):
        return ['pars=%d' % self.K, 'comps=%d' % self.J, 'points=%d' % max(self.c['n']), 'shared' if len(self.c['vs']) == 1 else 'own']
