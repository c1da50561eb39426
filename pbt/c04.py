"""C04: model Hessians are the exact, symmetric second parameter derivatives."""
import numpy as np
from hypothesis import strategies as st

import big
import exprs
import models_gen as mg
from c03 import (case_strategy, chain_strategy, check_eval, get_cls, lab, tol_of, symbolic_point, eval_symbolic,
                 template_strategy, template_case)
from core import facet, info, close, require, Violation, Reject

FACETS = {}


@st.composite
def _hess(draw, **kw):
    c = draw(case_strategy(**kw))
    c['cls'] = draw(st.sampled_from(['Model', 'HessianModel']))
    return c


@facet(FACETS, 'evaluated', lambda: _hess(ncomps=(1, 4), nparams=(1, 3), depth=2),
       'eval_hessian of random acyclic systems of smooth expressions against second-order forward-mode differentiation, '
       'and its symmetry; non-trivial: some second derivative is not zero')
def evaluated(case):
    b, depth, nz = check_eval(case, 'h', get_cls(case))
    return info(nz, *lab(depth, case))


@facet(FACETS, 'deep', chain_strategy,
       'chains of 3-6 components that each build on earlier ones; non-trivial: depth at least 3 and a non-zero entry')
def deep(case):
    b, depth, nz = check_eval(case, 'h', get_cls(case))
    return info(nz and depth >= 3, *lab(depth, case))


@facet(FACETS, 'symbolic', lambda: _hess(ncomps=(1, 4), nparams=(1, 3), depth=2),
       'every entry of model.hessian evaluated exactly with the true values and derivatives of the components it mentions; '
       'non-trivial: at least two components or parameters')
def symbolic(case):
    b = mg.build(case['spec'], cls=get_cls(case))
    point, jets, mag = symbolic_point(case)
    ps = b.params
    hess = b.model.hessian
    require(len(hess) == len(b.comp_names), 'symbolic Hessian has {} components', len(hess))
    for n, mat in zip(b.comp_names, hess):
        require(len(mat) == len(ps), 'Hessian of {} has {} rows', n, len(mat))
        for i, row in enumerate(mat):
            require(len(row) == len(ps), 'row of {} has {} entries', n, len(row))
            for j, e in enumerate(row):
                w = float(jets[n].h[i, j].ravel()[0])
                close(eval_symbolic(e, point, jets, ps), w, tol_of(mag),
                      'symbolic d2{}/d{}d{} = {}'.format(n, ps[i], ps[j], e))
    return info(len(b.comp_names) * len(ps) > 1, 'comps=%d' % len(b.comp_names))


@facet(FACETS, 'functions', template_strategy,
       'powers, exponentials, logs, hyperbolic and inverse functions, piecewise and absolute values, also nested in a '
       'second component, against numerical differentiation with 40 digits; all cases non-trivial')
def functions(case):
    return template_case(case, 'h')


# ---- size ------------------------------------------------------------------------

@st.composite
def _big(draw):
    return {'c': draw(big.case_(K=(7, 11), J=(1, 4), points=(1, 2, 11, 257, 1001)))}


@facet(FACETS, 'big', _big,
       'Hessians of models of 7-11 parameters, up to 4 components and a thousand points against numpy; non-trivial: products of '
       'parameters')
def big_(case):
    pr = big.Problem(case['c'])
    m = pr.build()
    out = m.eval_hessian(**pr.kw(pr.p))
    want = pr.hess(pr.p)
    require(len(out) == pr.J, '{} components', len(out))
    for i, j in enumerate(pr.comps):
        close(out[i], want[j][np.ix_(pr.order, pr.order)], 1e-9 * pr.K, 'Hessian of {} by {}'.format(case['c']['ys'][j], pr.names))
    return info(bool(case['c']['pairs']), *pr.labels())
