"""Small framework around Hypothesis: facets, cases, violations, comparison.

A *facet* is (strategy producing a plain-data case, check(case)).  The case is
JSON-able, so that a failing one is its own replay file.  ``check`` raises
``Violation`` when the property is broken on that case and returns an info dict
otherwise (``nontrivial``: bool, ``labels``: list of str).
"""
import hashlib
import json
import os

import numpy as np

REPO = os.environ.get('PBT_REPO', '/repo')


class Violation(Exception):
    """The property does not hold on this case."""


class Reject(Exception):
    """The case is outside the domain (counted, not checked)."""


class Known(Exception):
    """The case shows a listed known finding (id as argument)."""


class Facet:
    def __init__(self, name, strategy, check, rule):
        self.name, self.strategy, self.check, self.rule = name, strategy, check, rule


def facet(registry, name, strategy, rule):
    """Register ``check(case)`` for cases made by ``strategy()``."""
    def deco(check):
        registry[name] = Facet(name, strategy, check, rule)
        return check
    return deco


def info(nontrivial=True, *labels, **extra):
    d = {'nontrivial': bool(nontrivial), 'labels': [str(l) for l in labels]}
    d.update(extra)
    return d


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def short(x, n=300):
    with np.printoptions(threshold=40, edgeitems=4, precision=10):
        s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def close(got, want, tol, what='', shape=True):
    """Numerical agreement up to ``tol`` (scalar or array, absolute)."""
    try:
        g = np.asarray(got, dtype=float)
    except Exception as err:
        raise Violation('{}: not numeric: {} ({})'.format(what, short(got), err))
    w = np.asarray(want, dtype=float)
    if shape and g.shape != w.shape:
        raise Violation('{}: shape {} instead of {}; got {} want {}'.format(
            what, g.shape, w.shape, short(g), short(w)))
    try:
        gb, wb, tb = np.broadcast_arrays(g, w, np.asarray(tol, dtype=float))
    except ValueError:
        raise Violation('{}: shapes {} and {} do not fit'.format(what, g.shape, w.shape))
    both_nan = np.isnan(gb) & np.isnan(wb)
    with np.errstate(all='ignore'):
        ok = both_nan | (gb == wb) | (np.abs(gb - wb) <= tb)
    if not np.all(ok):
        i = tuple(np.argwhere(~ok)[0]) if ok.ndim else ()
        raise Violation('{}: got {!r} want {!r} (tol {:.3g}) at index {}; got {} want {}'.format(
            what, float(gb[i]), float(wb[i]), float(tb[i]), [int(k) for k in i], short(g), short(w)))


def expect_raises(types, func, what):
    try:
        res = func()
    except types as err:
        return err
    except Exception as err:
        raise Violation('{}: raised {} ({}) instead of {}'.format(
            what, type(err).__name__, err, getattr(types, '__name__', types)))
    raise Violation('{}: was accepted ({}) but should raise {}'.format(
        what, short(res), getattr(types, '__name__', types)))


def case_key(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def derive_seed(*parts):
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def reset_state():
    """Reset the global state the tested code keeps between cases."""
    from sympy.core.cache import clear_cache
    clear_cache()
    np.random.seed(12345)
