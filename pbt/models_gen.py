"""Model specifications as plain data: generation, building, reference results.

spec = {"vars": [...], "params": [...], "comps": [[name, ast, "sym"|"num"], ...],
        "write": permutation of comps, "create": permutation of all names}
``comps`` is in an order in which every component only uses earlier ones.
"""
import math

import numpy as np
from hypothesis import strategies as st

import exprs
from core import Reject, Violation


@st.composite
def spec(draw, nvars=(0, 3), nparams=(0, 4), ncomps=(1, 4), numeric=False, tidy=False, inter=True, depth=3, given=None, attrs=False):
    """given: (variables, parameters, components) to use the names of.

    attrs: give the parameters values, bounds and fixed states (a model as such
    does not look at any of them).
    """
    if given is not None:
        nvars, nparams, ncomps = [(len(g), len(g)) for g in given]
    nv = draw(st.integers(*nvars))
    np_ = draw(st.integers(*nparams))
    if nv + np_ == 0:
        nv = 1
    nc = draw(st.integers(*ncomps))
    allnames = draw(exprs.names(nv + np_ + nc)) if given is None else sum(map(list, given), [])
    vs, ps, cs = allnames[:nv], allnames[nv:nv + np_], allnames[nv + np_:]
    base = vs + ps
    deps = []
    for i in range(nc):
        pool = base + (cs[:i] if inter else [])
        k = draw(st.integers(1, min(3, len(pool))))
        d = draw(st.lists(st.sampled_from(pool), min_size=k, max_size=k, unique=True))
        if inter and i and not set(d) & set(cs[:i]) and draw(st.booleans()):
            d.append(draw(st.sampled_from(cs[:i])))
        deps.append(d)
    for s in base:  # every symbol is used somewhere
        if not any(s in d for d in deps):
            deps[draw(st.integers(0, nc - 1))].append(s)
    if tidy:
        # Components that nothing refers to are all at the top level
        while True:
            lev = levels(cs, deps)
            top = max(lev)
            bad = [i for i in range(nc) if lev[i] < top and not any(cs[i] in d for d in deps)]
            if not bad:
                break
            i = bad[0]
            j = draw(st.sampled_from([k for k in range(nc) if lev[k] == top]))
            deps[j].append(cs[i])
        order = sorted(range(nc), key=lambda k: lev[k])
        cs2 = [cs[k] for k in order]
        deps = [deps[k] for k in order]
        cs = cs2
    comps = []
    for c, d in zip(cs, deps):
        kind = draw(st.sampled_from(['num', 'num', 'sym'])) if numeric else 'sym'
        comps.append([c, draw(exprs.expr(d, d, depth)), kind])
    if numeric and not any(c[2] == 'num' for c in comps):
        comps[draw(st.integers(0, nc - 1))][2] = 'num'
    sp = {'vars': vs, 'params': ps, 'comps': comps,
          'write': draw(st.permutations(range(nc))),
          'create': draw(st.permutations(range(len(allnames))))}
    if attrs:
        sp['attrs'] = {p: draw(attributes()) for p in ps}
    return sp


@st.composite
def attributes(draw):
    """Keyword arguments of a Parameter other than its name."""
    out = {}
    k = draw(st.integers(0, 7))
    if k & 1:
        out['value'] = draw(exprs.number())
    if k & 2:
        out['fixed'] = True
    v = out.get('value', 1.0)
    if k & 4:
        how = draw(st.integers(0, 2))
        if how != 0:
            out['min'] = v - draw(exprs.positive())
        if how != 1:
            out['max'] = v + draw(exprs.positive())
    return out


def levels(cs, deps):
    lev = []
    idx = {c: i for i, c in enumerate(cs)}
    done = {}

    def level(i):
        if i not in done:
            done[i] = 1 + max([level(idx[d]) for d in deps[i] if d in idx] or [0])
        return done[i]
    for i in range(len(cs)):
        lev.append(level(i))
    return lev


def spec_levels(sp):
    cs = [c[0] for c in sp['comps']]
    deps = [sorted(exprs.symbols_of(c[1])) for c in sp['comps']]
    return dict(zip(cs, levels(cs, deps)))


def roles(sp):
    """(dependent, interdependent) component names, sorted, for tidy specs."""
    lev = spec_levels(sp)
    top = max(lev.values())
    return (sorted(c for c in lev if lev[c] == top), sorted(c for c in lev if lev[c] < top))


@st.composite
def data_for(draw, names, arrays=True, scalars=True, common=None, ints=True, maxdim=2):
    """Mutually broadcastable data: {name: {"shape": [...], "v": [...]}}"""
    n, m = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    opts = []
    if scalars:
        opts += [[]]
    if arrays:
        opts += [[m], [m]]
        if maxdim > 1:
            opts += [[n, 1], [n, m], [1, m]]
    out = {}
    for name in names:
        shape = common if common is not None else draw(st.sampled_from(opts))
        k = int(np.prod(shape)) if shape else 1
        isint = ints and draw(st.sampled_from([False, False, False, True]))
        v = draw(st.lists(st.integers(-3, 3) if isint else exprs.number(), min_size=k, max_size=k))
        out[name] = {'shape': shape, 'v': v}
        if isint:
            out[name]['int'] = True
    return out


def arr(d):
    """Array (or scalar) of one data entry."""
    if d['shape'] == []:
        return int(d['v'][0]) if d.get('int') else float(d['v'][0])
    return np.array(d['v'], dtype=int if d.get('int') else float).reshape(d['shape'])


class Built:
    pass


def build(sp, pattrs=None, cls=None):
    """Symbols and model dict in the prescribed creation and writing order."""
    from symfit import Parameter, Variable
    import sympy
    pattrs = pattrs or sp.get('attrs') or {}
    alln = sp['vars'] + sp['params'] + [c[0] for c in sp['comps']]
    order = sp.get('create') or list(range(len(alln)))
    table = {}
    for i in order:
        name = alln[i]
        if name in sp['params']:
            table[name] = Parameter(name, **pattrs.get(name, {}))
        else:
            table[name] = Variable(name)
    b = Built()
    b.sp, b.table = sp, table
    b.exprs, b.conn = {}, {}
    md = {}
    for i in (sp.get('write') or range(len(sp['comps']))):
        c, ast, kind = sp['comps'][i]
        syms = sorted(exprs.symbols_of(ast))
        if kind == 'num':
            md[table[c]] = exprs.to_callable(ast, syms)
            b.conn[table[c]] = {table[s] for s in syms}
        else:
            e = sympy.sympify(exprs.to_sympy(ast, table))
            if sorted(s.name for s in e.free_symbols) != syms:
                raise Reject('a symbol cancels')
            md[table[c]] = e
            b.exprs[c] = e
    b.model_dict = md
    b.comp_names = sorted(c[0] for c in sp['comps'])
    b.vars, b.params = sorted(sp['vars']), sorted(sp['params'])
    if cls is not None:
        b.model = cls(md, connectivity_mapping=dict(b.conn)) if b.conn else cls(md)
    return b


def ref_values(sp, env, limit=1e6):
    """Component values (natural shapes) and the tolerance scale."""
    mag = exprs.Mag()
    env = dict(env)
    out = {}
    with np.errstate(all='ignore'):
        for c, ast, _ in sp['comps']:
            env[c] = exprs.value(ast, env, mag)
            out[c] = env[c]
    if not mag.m < limit:
        raise Reject('magnitude')
    return out, mag.m


def ref_jets(sp, data, pvals, limit=1e5):
    """Jets of all components with respect to the sorted parameters."""
    ps = sorted(sp['params'])
    P = len(ps)
    mag = exprs.Mag()
    env = {v: exprs.const_jet(data[v], P) for v in sp['vars']}
    for i, p in enumerate(ps):
        env[p] = exprs.param_jet(pvals[p], i, P)
    with np.errstate(all='ignore'):
        for c, ast, _ in sp['comps']:
            env[c] = exprs.jet(ast, env, P, mag)
    if not mag.m < limit:
        raise Reject('magnitude')
    out = {}
    for c, _, _ in sp['comps']:
        j = env[c]
        if j.v.ndim == 0:
            j = exprs.Jet(j.v.reshape(1), j.g.reshape(P, 1), j.h.reshape(P, P, 1))
        shape = j.v.shape
        out[c] = exprs.Jet(j.v, np.broadcast_to(j.g, (P,) + shape), np.broadcast_to(j.h, (P, P) + shape))
    return out, mag.m


@st.composite
def param_values(draw, names, lo=-3, hi=3):
    return {n: draw(exprs.number(lo, hi)) for n in names}
