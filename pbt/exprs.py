"""Expressions as plain data, with evaluation and derivatives independent of
sympy and symfit.

["c", 1.5]           constant            ["s", "name"]        symbol
["+", a, b] ["-", a, b] ["*", a, b]      ["/", a, b]  a / (1 + b^2)
["pow", a, n]        integer n >= 2      ["neg", a]
["sin"|"cos"|"tanh"|"atan", a]
["gexp", a] exp(-a^2)   ["texp", a] exp(tanh(a))
["glog", a] log(1+a^2)  ["gsqrt", a] sqrt(1+a^2)
["gpow", a, b] (1+a^2)^sin(b)

All functions are smooth everywhere, so derivatives exist at every point.
"""
import math

import numpy as np
from hypothesis import strategies as st

UN = ['sin', 'cos', 'tanh', 'atan', 'gexp', 'texp', 'glog', 'gsqrt', 'neg']
BIN = ['+', '-', '*', '/', 'gpow']


def symbols_of(e):
    if e[0] == 's':
        return {e[1]}
    if e[0] == 'c':
        return set()
    out = set()
    for x in e[1:]:
        if isinstance(x, list):
            out |= symbols_of(x)
    return out


def ops_of(e):
    out = {e[0]}
    for x in e[1:]:
        if isinstance(x, list):
            out |= ops_of(x)
    return out


def size(e):
    return 1 + sum(size(x) for x in e[1:] if isinstance(x, list))


# ---- value with intermediate magnitude --------------------------------------

class Mag:
    """Largest absolute intermediate value met."""
    def __init__(self):
        self.m = 1.0

    def see(self, v):
        with np.errstate(all='ignore'):
            x = float(np.max(np.abs(v))) if np.size(v) else 0.0
        if not (x <= self.m):
            self.m = x if x == x else math.inf
        return v


def value(e, env, mag=None):
    """Plain numpy evaluation; env: name -> number or array."""
    see = mag.see if mag is not None else (lambda v: v)
    t = e[0]
    if t == 'c':
        return e[1]
    if t == 's':
        return see(env[e[1]])
    a = value(e[1], env, mag)
    if t == 'pow':
        return see(a ** e[2])
    if t == 'neg':
        return -a
    if t == 'sin':
        return np.sin(a)
    if t == 'cos':
        return np.cos(a)
    if t == 'tanh':
        return np.tanh(a)
    if t == 'atan':
        return np.arctan(a)
    if t == 'gexp':
        return np.exp(-see(a * a))
    if t == 'texp':
        return np.exp(np.tanh(a))
    if t == 'glog':
        return np.log(1.0 + see(a * a))
    if t == 'gsqrt':
        return np.sqrt(1.0 + see(a * a))
    b = value(e[2], env, mag)
    if t == '+':
        return see(a + b)
    if t == '-':
        return see(a - b)
    if t == '*':
        return see(a * b)
    if t == '/':
        return see(a / (1.0 + see(b * b)))
    if t == 'gpow':
        return see((1.0 + see(a * a)) ** np.sin(b))
    raise AssertionError(t)


# ---- second order forward mode ----------------------------------------------

class Jet:
    """Value with gradient (P, ...) and Hessian (P, P, ...)."""
    __slots__ = 'v', 'g', 'h'

    def __init__(self, v, g, h):
        self.v, self.g, self.h = v, g, h


def const_jet(v, P):
    v = np.asarray(v, dtype=float)
    return Jet(v, np.zeros((P,) + v.shape), np.zeros((P, P) + v.shape))


def param_jet(v, i, P):
    j = const_jet(v, P)
    j.g[i] = 1.0
    return j


def _pad(x, lead, nd):
    """Insert axes after the leading ones so that trailing axes broadcast."""
    s = x.shape
    return x.reshape(s[:lead] + (1,) * (nd - (len(s) - lead)) + s[lead:])


def _lift(a, b):
    nd = max(a.v.ndim, b.v.ndim)
    return (Jet(_pad(a.v, 0, nd), _pad(a.g, 1, nd), _pad(a.h, 2, nd)),
            Jet(_pad(b.v, 0, nd), _pad(b.g, 1, nd), _pad(b.h, 2, nd)))


def jadd(a, b, s=1.0):
    a, b = _lift(a, b)
    return Jet(a.v + s * b.v, a.g + s * b.g, a.h + s * b.h)


def jmul(a, b):
    a, b = _lift(a, b)
    h = a.h * b.v + a.v * b.h + a.g[:, None] * b.g[None, :] + b.g[:, None] * a.g[None, :]
    return Jet(a.v * b.v, a.g * b.v + a.v * b.g, h)


def jfun(a, f0, f1, f2):
    return Jet(f0, f1 * a.g, f1 * a.h + f2 * a.g[:, None] * a.g[None, :])


def jpow(a, n):
    return jfun(a, a.v ** n, n * a.v ** (n - 1), n * (n - 1) * a.v ** (n - 2) if n > 1 else 0.0 * a.v)


def jexp(a):
    x = np.exp(a.v)
    return jfun(a, x, x, x)


def jlog(a):
    return jfun(a, np.log(a.v), 1 / a.v, -1 / a.v ** 2)


def jsin(a):
    return jfun(a, np.sin(a.v), np.cos(a.v), -np.sin(a.v))


def jtanh(a):
    t = np.tanh(a.v)
    return jfun(a, t, 1 - t * t, -2 * t * (1 - t * t))


def jinv(a):
    return jfun(a, 1 / a.v, -1 / a.v ** 2, 2 / a.v ** 3)


def jet(e, env, P, mag):
    """env: name -> Jet."""
    def see(j):
        mag.see(j.v), mag.see(j.g), mag.see(j.h)
        return j
    t = e[0]
    if t == 'c':
        return const_jet(e[1], P)
    if t == 's':
        return see(env[e[1]])
    a = jet(e[1], env, P, mag)
    if t == 'pow':
        return see(jpow(a, e[2]))
    if t == 'neg':
        return Jet(-a.v, -a.g, -a.h)
    if t == 'sin':
        return see(jsin(a))
    if t == 'cos':
        return see(jfun(a, np.cos(a.v), -np.sin(a.v), -np.cos(a.v)))
    if t == 'tanh':
        return see(jtanh(a))
    if t == 'atan':
        d = 1 + a.v ** 2
        return see(jfun(a, np.arctan(a.v), 1 / d, -2 * a.v / d ** 2))
    one = const_jet(1.0, P)
    if t == 'gexp':
        return see(jexp(see(jadd(const_jet(0.0, P), jmul(a, a), -1.0))))
    if t == 'texp':
        return see(jexp(see(jtanh(a))))
    if t == 'glog':
        return see(jlog(see(jadd(one, jmul(a, a)))))
    if t == 'gsqrt':
        q = see(jadd(one, jmul(a, a)))
        r = np.sqrt(q.v)
        return see(jfun(q, r, 0.5 / r, -0.25 / (r * q.v)))
    b = jet(e[2], env, P, mag)
    if t == '+':
        return see(jadd(a, b))
    if t == '-':
        return see(jadd(a, b, -1.0))
    if t == '*':
        return see(jmul(a, b))
    if t == '/':
        return see(jmul(a, jinv(see(jadd(one, jmul(b, b))))))
    if t == 'gpow':
        return see(jexp(see(jmul(jsin(b), jlog(see(jadd(one, jmul(a, a))))))))
    raise AssertionError(t)


# ---- to sympy / to python source --------------------------------------------

def to_sympy(e, table):
    import sympy
    t = e[0]
    if t == 'c':
        return sympy.Integer(int(e[1])) if float(e[1]).is_integer() else sympy.Float(e[1])
    if t == 's':
        return table[e[1]]
    a = to_sympy(e[1], table)
    if t == 'pow':
        return a ** e[2]
    if t == 'neg':
        return -a
    if t in ('sin', 'cos', 'tanh', 'atan'):
        return getattr(sympy, t)(a)
    if t == 'gexp':
        return sympy.exp(-a ** 2)
    if t == 'texp':
        return sympy.exp(sympy.tanh(a))
    if t == 'glog':
        return sympy.log(1 + a ** 2)
    if t == 'gsqrt':
        return sympy.sqrt(1 + a ** 2)
    b = to_sympy(e[2], table)
    if t == '+':
        return a + b
    if t == '-':
        return a - b
    if t == '*':
        return a * b
    if t == '/':
        return a / (1 + b ** 2)
    if t == 'gpow':
        return (1 + a ** 2) ** sympy.sin(b)
    raise AssertionError(t)


def to_source(e):
    t = e[0]
    if t == 'c':
        return '({!r})'.format(e[1])
    if t == 's':
        return e[1]
    a = to_source(e[1])
    if t == 'pow':
        return '({} ** {})'.format(a, e[2])
    if t == 'neg':
        return '(-{})'.format(a)
    if t in ('sin', 'cos', 'tanh'):
        return '_np_.{}({})'.format(t, a)
    if t == 'atan':
        return '_np_.arctan({})'.format(a)
    if t == 'gexp':
        return '_np_.exp(-{}**2)'.format(a)
    if t == 'texp':
        return '_np_.exp(_np_.tanh({}))'.format(a)
    if t == 'glog':
        return '_np_.log(1 + {}**2)'.format(a)
    if t == 'gsqrt':
        return '_np_.sqrt(1 + {}**2)'.format(a)
    b = to_source(e[2])
    if t in '+-*':
        return '({} {} {})'.format(a, t, b)
    if t == '/':
        return '({} / (1 + {}**2))'.format(a, b)
    if t == 'gpow':
        return '((1 + {}**2) ** _np_.sin({}))'.format(a, b)
    raise AssertionError(t)


def to_callable(e, argnames):
    """Python function with exactly the given argument names."""
    src = 'lambda {}: {}'.format(', '.join(argnames), to_source(e))
    return eval(src, {'_np_': np})


# ---- generation --------------------------------------------------------------

# Names chosen so that alphabetical order differs from any natural order:
# upper case sorts before lower case, '_' in between, 'a10' before 'a2', ...
NAMES = ['a', 'b', 'c', 'k', 'q', 'B', 'Z', 'A1', 'a1', 'a2', 'a10', 'ab', '_u', 'x', 'y', 'z', 't', 'X', 'y1',
         'y2', 'xx', 'alpha', 'omega', 'par_1', 'var_0', 'u_2', 'w', 'W', 'm', 'n', 'd', 'dy', 'rho', 'v0', 'g',
         'sigma', 'sigma_in', 'background', 'amplitude_of_peak', 'Temperature_bath', 'y_component_nr_2', '__d']


def names(n):
    return st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True)


# Multiples of 1/8: exact in binary, shrink well.
def number(lo=-3, hi=3):
    return st.integers(int(lo * 8), int(hi * 8)).map(lambda k: k / 8)


def nonzero(lo=-3, hi=3):
    return number(lo, hi).filter(lambda v: v != 0)


def positive(lo=0.25, hi=3):
    return st.integers(int(lo * 8), int(hi * 8)).map(lambda k: k / 8)


@st.composite
def expr(draw, must, may=(), depth=3):
    """Expression containing every symbol of ``must`` and perhaps of ``may``."""
    must = list(must)
    leaves = [['s', n] for n in must]
    for _ in range(draw(st.integers(0, 2)) if depth > 2 else 0):
        pool = must + list(may)
        leaves.append(draw(st.one_of(
            st.sampled_from(pool).map(lambda n: ['s', n]) if pool else st.just(['c', 2.0]),
            number(-2, 2).map(lambda v: ['c', v]))))
    if not leaves:
        leaves = [['c', draw(number(-2, 2))]]
    leaves = draw(st.permutations(leaves))

    def wrap(e):
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2] if depth > 2 else [0, 0, 0, 1]))):
            op = draw(st.sampled_from(UN + ['pow']))
            if op == 'pow':
                # nested powers of sums make sympy's assumption queries explode
                e = ['sin', e] if 'pow' in ops_of(e) else ['pow', e, draw(st.sampled_from([2, 3]))]
            else:
                e = [op, e]
        return e

    nodes = [wrap(l) for l in leaves]
    while len(nodes) > 1:
        i = draw(st.integers(0, len(nodes) - 2))
        op = draw(st.sampled_from(['+', '-', '*', '*', '+', '/', 'gpow']))
        nodes[i:i + 2] = [wrap([op, nodes[i], nodes[i + 1]])]
    return nodes[0]
