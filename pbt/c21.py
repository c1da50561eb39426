"""C21: interactive guessing shows the model at the guesses and stores the guesses."""
import json
import warnings

import numpy as np
from hypothesis import strategies as st

import exprs
import models_gen as mg
import objgen
import odes
from core import facet, info, close, require, Violation, Reject

FACETS = {}


def inside(v, lo, hi):
    return (lo is None or v >= lo) and (hi is None or v <= hi)


@st.composite
def guesses(draw, names):
    """Attributes of the parameters; guesses inside their bounds."""
    out = {}
    for n in names:
        v = draw(exprs.number())
        k = draw(st.sampled_from(['none', 'none', 'min', 'max', 'both', 'edge', 'outside']))
        lo = v - draw(st.sampled_from([0.5, 2.0, 10.0])) if k in ('min', 'both') else None
        hi = v + draw(st.sampled_from([0.5, 2.0, 10.0])) if k in ('max', 'both') else None
        if k == 'edge':
            lo, hi = draw(st.sampled_from([(v, v + 1), (v - 1, v)]))
        if k == 'outside':
            lo, hi = v + 1, v + 2
        out[n] = {'value': v, 'min': lo, 'max': hi, 'fixed': draw(st.integers(0, 4)) == 0}
    return out


@st.composite
def moves(draw, names):
    return [[draw(st.sampled_from(names)), draw(st.sampled_from([0.0, 1.0, 0.25, 0.5, 0.75, 0.125]))] for _ in range(draw(st.integers(0, 4)))]


@st.composite
def _case(draw, nvars):
    # components that are independent of the variables now and then
    # (a name with a leading underscore has no LaTeX form to show as a title)
    sp = draw(mg.spec(nvars=(nvars, nvars), nparams=(1, 3), ncomps=(1, 3) if nvars == 1 else (1, 2), tidy=True, depth=2).map(
        lambda s: json.loads(json.dumps(s).replace('"_u"', '"uu"').replace('"__d"', '"dd"'))))
    n = draw(st.integers(4, 7))
    data = {v: draw(objgen.values([n], exprs.number(-2, 2))) for v in sp['vars']}
    dep, _ = mg.roles(sp)
    y = {c: draw(objgen.values([n], exprs.number())) for c in dep}
    return {'spec': sp, 'data': data, 'y': y, 'attrs': draw(guesses(sp['params'])), 'moves': draw(moves(sp['params'])),
            'n_points': draw(st.sampled_from([4, 7, 10])), 'percentile': draw(st.sampled_from([None, [25, 75], [0, 100], [50, 90.5], [10, 10]])),
            'log': draw(st.booleans()), 'class': draw(st.sampled_from(['Model', 'Model', 'mapping', 'CallableModel', 'CallableNumericalModel'])),
            'positional': draw(st.booleans()), 'draw': draw(st.integers(0, 5)) == 0, 'shift': draw(st.sampled_from([0.0, 0.0, 5.0, -20.0]))}


def open_guess(model, args, kw, ext):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    from symfit.contrib.interactive_guess import InteractiveGuess
    return InteractiveGuess(model, *args, **dict(kw, **ext))


def arrays(d):
    return np.array(d['v'], dtype=float).reshape(d['shape'])


def check_sliders(ig, params, attrs, current):
    """One slider per parameter, with its bounds, showing its value."""
    import matplotlib.pyplot as plt
    require(len(ig._sliders) == len(params), '{} sliders for {} parameters', len(ig._sliders), len(params))
    axes = [s.ax for s in ig._sliders.values()]
    require(len(set(map(id, axes))) == len(axes) and all(a in ig.fig.axes for a in axes), 'sliders share axes or are not in the figure')
    tops = sorted(a.get_position().bounds[1::2] for a in axes)
    require(all(b[0] >= a[0] + a[1] - 1e-9 for a, b in zip(tops, tops[1:])), 'sliders overlap: {}', tops)
    for p in params:
        s = ig._sliders[p]
        require(isinstance(s, plt.Slider), 'slider {!r}', s)
        a = attrs[p.name]
        require(s.label.get_text() == p.name, 'the slider of {} is labelled {}', p.name, s.label.get_text())
        if a['min'] is not None:
            require(s.valmin == a['min'], 'slider of {} starts at {} instead of {}', p.name, s.valmin, a['min'])
        if a['max'] is not None:
            require(s.valmax == a['max'], 'slider of {} ends at {} instead of {}', p.name, s.valmax, a['max'])
        require(s.valmin <= s.val <= s.valmax, 'slider of {} at {} outside its range {}..{}', p.name, s.val, s.valmin, s.valmax)
        g = a['value']
        if inside(g, a['min'], a['max']):
            require(s.valmin <= g <= s.valmax, 'the range {}..{} of {} does not contain the guess {}', s.valmin, s.valmax, p.name, g)
            if g != 0:
                require(s.valmin < s.valmax, 'the range of {} is empty', p.name)
        require(float(s.val) == current[p.name], 'slider of {} shows {} instead of {}', p.name, s.val, current[p.name])
        require(float(p.value) == current[p.name], 'value of {} is {} instead of {}', p.name, p.value, current[p.name])
        require((p.min, p.max, p.fixed) == (a['min'], a['max'], a['fixed']), 'bounds of {} changed', p.name)


def lim_covers(lim, v, what):
    require(min(lim) <= np.min(v) and max(lim) >= np.max(v), '{}: {} does not cover the data {}..{}', what, lim, np.min(v), np.max(v))


def run(ig, params, attrs, case, check_panels):
    current = {}
    for p in params:
        a = attrs[p.name]
        current[p.name] = a['value'] if inside(a['value'], a['min'], a['max']) else float(ig._sliders[p].val)
        if not inside(a['value'], a['min'], a['max']):
            require(inside(current[p.name], a['min'], a['max']), 'slider of {} outside its bounds', p.name)
    check_sliders(ig, params, attrs, current)
    check_panels(current)
    last = case['moves'][-1:]
    for nm, where in case['moves'] + [[m[0], None] for m in last]:
        p = next(q for q in params if q.name == nm)
        s = ig._sliders[p]
        if where is None:  # a tiny move at the end
            v = s.val + (1e-5 if s.val < (s.valmin + s.valmax) / 2 else -1e-5) * (s.valmax - s.valmin)
        else:
            v = s.valmin + where * (s.valmax - s.valmin)
        s.set_val(v)
        current[nm] = float(v)
        check_sliders(ig, params, attrs, current)
        check_panels(current)
    text = str(ig)
    for p in params:
        rows = [l for l in text.split('\n') if l.startswith(p.name + ':')]
        require(len(rows) == 1 and float(rows[0].split(':')[1]) == current[p.name], 'guesses printed as {!r}', text)
    if case.get('draw'):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ig.fig.canvas.draw()
        check_panels(current)
    ig.execute(show=False)
    check_sliders(ig, params, attrs, current)
    return current


def panels_of(ig, xs, ys):
    """The axes of every pair, found by their labels."""
    out = {}
    for x in xs:
        for y in ys:
            got = [a for a in ig.fig.axes if a.get_xlabel() == '${}$'.format(x) and a.get_ylabel() == '${}$'.format(y)]
            require(len(got) == 1, '{} panels for {} against {}', len(got), y, x)
            out[x, y] = got[0]
    return out


def build(case):
    import symfit
    sp = case['spec']
    cls = case['class']
    if cls == 'CallableNumericalModel':
        sp = dict(sp, comps=[[c, a, 'num'] for c, a, _ in sp['comps']])
    b = mg.build(sp, pattrs=case['attrs'])
    if cls == 'mapping':
        model = b.model_dict
    elif b.conn:
        model = symfit.CallableNumericalModel(b.model_dict, connectivity_mapping=dict(b.conn))
    else:
        model = (getattr(symfit, cls, None) or getattr(symfit.core.models, cls))(b.model_dict)
    data = {v: arrays(d) + case['shift'] * (case['class'] != 'x') for v, d in case['data'].items()}
    y = {c: arrays(d) for c, d in case['y'].items()}
    if any(np.ptp(v) == 0 for v in data.values()):
        raise Reject('degenerate range')
    if any(np.ptp(v) == 0 for v in y.values()):
        raise Reject('degenerate range')
    args, kw = [], dict(data, **y)
    if case['positional']:
        args = [data[v] for v in sorted(data)] + [y[c] for c in sorted(y)]
        kw = {}
    return b, model, data, y, args, kw


def ref(case, env, p):
    out, mag = mg.ref_values(case['spec'], dict(env, **p), limit=1e8)
    shape = np.shape(next(iter(env.values())))
    return {c: np.broadcast_to(v, shape) for c, v in out.items()}, mag


@facet(FACETS, 'curve', lambda: _case(1),
       'models of one independent variable (one to three components, layered, constant in the variable, numerical) with random data, '
       'guesses of any sign, bounds, fixed parameters and slider moves: panels, curves, data and sliders after every step; non-trivial: '
       'at least one move')
def curve(case):
    b, model, data, y, args, kw = build(case)
    (x, xd), = data.items()
    dep = sorted(y)
    g = {p: a['value'] for p, a in case['attrs'].items()}
    ref(case, {x: np.array([xd.min(), xd.max()])}, g)
    ext = {'n_points': case['n_points']}
    if case['percentile']:
        ext['percentile'] = case['percentile']
    ig = open_guess(model, args, kw, ext)
    params = [b.table[p] for p in sorted(case['attrs'])]
    panels = panels_of(ig, [x], dep)

    def check(current):
        for c in dep:
            ax = panels[x, c]
            require(len(ax.lines) == 1, '{} curves for {}', len(ax.lines), c)
            gx, gy = [np.asarray(q, dtype=float) for q in ax.lines[0].get_data()]
            require(gx.shape == (case['n_points'],) and np.all(np.diff(gx) > 0), 'the curve of {} has abscissae {}', c, gx)
            lim_covers((gx[0], gx[-1]), xd, 'curve of ' + c)
            lim_covers(ax.get_xlim(), xd, 'horizontal range for ' + c)
            lim_covers(ax.get_ylim(), y[c], 'vertical range for ' + c)
            want, mag = ref(case, {x: gx}, current)
            close(gy, want[c], 1e-9 * mag, 'curve of {} at {}'.format(c, current))
            pts = [np.asarray(k.get_offsets()) for k in ax.collections]
            require(len(pts) == 1 and pts[0].shape == (len(xd), 2), 'data of {} are not shown', c)
            close(pts[0], np.column_stack([xd, y[c]]), 0.0, 'data points of ' + c)
    run(ig, params, case['attrs'], case, check)
    return info(case['moves'], case['class'], 'comps=%d' % len(dep), 'moves=%d' % len(case['moves']),
                *['bounds ' + ('both' if a['min'] is not None and a['max'] is not None else 'one' if a['min'] is not None or a['max'] is not None else 'none')
                  for a in case['attrs'].values()])


def check_surface(panels, xs, data, n, pct, values, current):
    """Mean and percentile bars of every panel; values(mesh, current): expected values and magnitude."""
    from matplotlib.collections import LineCollection
    grids = {}
    for (v, c), ax in panels.items():
        lines = [l for l in ax.lines if len(l.get_xdata()) == n]
        require(len(lines) == 1, '{} curves for {} against {}', len(lines), c, v)
        grids.setdefault(v, np.asarray(lines[0].get_xdata(), dtype=float))
        close(lines[0].get_xdata(), grids[v], 0.0, 'abscissae of {} against {}'.format(c, v))
        require(np.all(np.diff(grids[v]) > 0), 'abscissae {}', grids[v])
        lim_covers(grids[v], data[v], 'curve of {} against {}'.format(c, v))
    mesh = dict(zip(xs, np.meshgrid(*[grids[v] for v in xs], indexing='ij')))
    want, mag = values(mesh, current)
    for (v, c), ax in panels.items():
        axis = tuple(i for i, q in enumerate(xs) if q != v)
        line, = [l for l in ax.lines if len(l.get_xdata()) == n]
        close(line.get_ydata(), want[c].mean(axis=axis), 1e-9 * mag, 'mean of {} against {} at {}'.format(c, v, current))
        bars = []
        for k in ax.collections:
            if isinstance(k, LineCollection):
                segs = [np.asarray(s) for s in k.get_segments()]
                if len(segs) == n and all(s.shape == (2, 2) for s in segs):
                    bars.append(np.array(segs))
        # the vertical bars: at the abscissae
        bars = [q for q in bars if np.array_equal(q[:, 0, 0], grids[v]) and np.array_equal(q[:, 1, 0], grids[v])]
        lo, hi = np.percentile(want[c], pct, axis=axis)
        ok = False
        for q in bars:
            ok = ok or (np.allclose(q[:, 0, 1], lo, rtol=0, atol=1e-9 * mag) and np.allclose(q[:, 1, 1], hi, rtol=0, atol=1e-9 * mag))
        require(ok, 'no bars at the {} percentiles {} .. {} of {} against {}: {}', pct, lo, hi, c, v, [q[:, :, 1] for q in bars])


@facet(FACETS, 'surface', lambda: _case(2),
       'models of two independent variables: every panel shows mean and percentiles over the other variable at every abscissa and the '
       'density of its data, after every slider move; non-trivial: at least one move')
def surface(case):
    from matplotlib.contour import QuadContourSet
    from scipy.stats import gaussian_kde
    b, model, data, y, args, kw = build(case)
    xs, dep = sorted(data), sorted(y)
    g = {p: a['value'] for p, a in case['attrs'].items()}
    ref(case, {v: np.array([d.min(), d.max()]) for v, d in data.items()}, g)
    ext = {'n_points': case['n_points'], 'log_contour': case['log']}
    pct = (5, 95)
    if case['percentile']:
        pct = ext['percentile'] = case['percentile']
    dens = {}
    for v in xs:
        for c in dep:
            try:
                pts = np.vstack([data[v], y[c]])
                if np.linalg.cond(np.cov(pts)) > 1e3:
                    raise Reject('degenerate data')
                dens[v, c] = gaussian_kde(pts)
            except np.linalg.LinAlgError:
                raise Reject('degenerate data')
    ig = open_guess(model, args, kw, ext)
    params = [b.table[p] for p in sorted(case['attrs'])]
    panels = panels_of(ig, xs, dep)
    n = case['n_points']
    for (v, c), ax in panels.items():
        lim_covers(ax.get_xlim(), data[v], 'horizontal range')
        lim_covers(ax.get_ylim(), y[c], 'vertical range')
        cs = [k for k in ax.collections if isinstance(k, QuadContourSet)] or [k for k in ax.get_children() if isinstance(k, QuadContourSet)]
        if cs:
            X, Y = np.meshgrid(np.linspace(*ax.get_xlim(), n), np.linspace(*ax.get_ylim(), n))
            z = dens[v, c].pdf(np.vstack([X.ravel(), Y.ravel()]))
            if case['log']:
                z = np.log(z)
            close(cs[0].zmax, z.max(), 0.02 * (1 + abs(z.max())), 'greatest density in the panel of {} against {}'.format(c, v))
        else:
            require(len(ax.collections) > 1, 'no data in the panel of {} against {}', c, v)

    def check(current):
        check_surface(panels, xs, data, n, pct, lambda mesh, cur: ref(case, mesh, cur), current)
    run(ig, params, case['attrs'], case, check)
    return info(case['moves'], case['class'], 'comps=%d' % len(dep), 'moves=%d' % len(case['moves']), 'log' if case['log'] else 'plain', 'percentile %s' % (case['percentile'],))


@st.composite
def _units(draw):
    ns = [{'_u': 'uu', '__d': 'dd'}.get(n, n) for n in draw(exprs.names(7))]
    nv = draw(st.sampled_from([1, 2, 2, 2]))
    n = draw(st.integers(4, 8))
    return {'xs': ns[:nv], 'y': ns[2], 'ps': ns[3:4 + nv], 'x': [draw(objgen.values([n], exprs.number(-2, 2))) for _ in range(nv)],
            'unit': [draw(st.sampled_from([1.0, 1e-9, 1e-3, 1e5])) for _ in range(nv)],
            'offset': [draw(st.sampled_from([0.0, 0.0, 100.0, -1e5])) for _ in range(nv)], 'yunit': draw(st.sampled_from([1.0, 1e-9, 1e6])),
            'yv': draw(objgen.values([n], exprs.number())), 'p': [draw(exprs.number(-2, 2)) for _ in range(nv + 1)],
            'moves': draw(moves(ns[3:4 + nv])), 'n_points': draw(st.sampled_from([4, 7, 10])),
            'percentile': draw(st.sampled_from([None, [25, 75], [0, 100]]))}


@facet(FACETS, 'units', _units,
       'linear models of one or two variables given in very small or large units, or far from zero compared to their range: curves, means '
       'and percentiles after every slider move; non-trivial: a variable in other units or far from zero')
def units(case):
    from symfit import Variable, Parameter, Model
    xs, n = case['xs'], case['n_points']
    data = {v: (arrays(d) + o) * u for v, d, o, u in zip(xs, case['x'], case['offset'], case['unit'])}
    y = arrays(case['yv']) * case['yunit']
    if any(np.ptp(v) < 1e-2 * u for v, u in zip(data.values(), case['unit'])) or np.ptp(y) == 0:
        raise Reject('degenerate range')
    for v in data:
        if np.linalg.cond(np.corrcoef(np.vstack([data[v], y]))) > 1e3:
            raise Reject('degenerate data')
    attrs = {p: {'value': v, 'min': None, 'max': None, 'fixed': False} for p, v in zip(case['ps'], case['p'])}
    table = {p: Parameter(p, value=a['value']) for p, a in attrs.items()}
    X = {v: Variable(v) for v in xs}
    Y = Variable(case['y'])

    def f(env, p):
        out = p[case['ps'][-1]]
        for v, q, o, u in zip(xs, case['ps'], case['offset'], case['unit']):
            out = out + p[q] * (env[v] / u - o)
        return out * case['yunit']
    model = Model({Y: f(X, table)})
    ext = {'n_points': n}
    pct = (5, 95)
    if case['percentile']:
        pct = ext['percentile'] = case['percentile']
    ig = open_guess(model, [], dict(data, **{case['y']: y}), ext)
    params = [table[p] for p in sorted(attrs)]
    panels = panels_of(ig, sorted(xs), [case['y']])
    mag = case['yunit'] * 10 * (1 + max(abs(o) for o in case['offset']))

    def check(current):
        for (v, c), ax in panels.items():
            lim_covers(ax.get_xlim(), data[v], 'horizontal range')
            lim_covers(ax.get_ylim(), y, 'vertical range')
        if len(xs) == 1:
            ax, = panels.values()
            gx, gy = [np.asarray(q, dtype=float) for q in ax.lines[0].get_data()]
            lim_covers((gx[0], gx[-1]), data[xs[0]], 'curve')
            require(gx.shape == (n,), 'the curve has abscissae {}', gx)
            close(gy, f({xs[0]: gx}, current), 1e-10 * mag, 'curve at {}'.format(current))
        else:
            check_surface(panels, sorted(xs), data, n, pct, lambda mesh, cur: ({case['y']: f(mesh, cur)}, 0.1 * mag), current)
    run(ig, params, attrs, case, check)
    return info(any(case['offset']) or any(u != 1 for u in case['unit']), 'vars=%d' % len(xs), *['unit %g offset %g' % t for t in zip(case['unit'], case['offset'])])


@st.composite
def _ode(draw):
    c = draw(odes.linear(maxk=2))
    n = draw(st.integers(3, 6))
    ts = [c['t0'] + draw(st.integers(0, 12)) / 8 for _ in range(n)]
    y = {v: draw(objgen.values([n], exprs.number())) for v in c['ys']}
    at = draw(guesses(c['pars']))
    for p, a in at.items():     # keep the growth moderate
        a['value'] = v = max(-1.0, min(1.0, a['value']))
        if a['min'] is not None:
            a['min'] = v - 0.5
        if a['max'] is not None:
            a['max'] = v + 0.5
    return {'ode': c, 'ts': ts, 'y': y, 'attrs': at, 'moves': draw(moves(c['pars']))[:3], 'n_points': draw(st.sampled_from([4, 7])), 'draw': draw(st.integers(0, 9)) == 0}


@facet(FACETS, 'ode', _ode,
       'linear ODE systems with known solution: curves after every slider move against the matrix exponential; non-trivial: at least one move')
def ode(case):
    c = case['ode']
    ts = np.array(case['ts'])
    if np.ptp(ts) == 0 or any(np.ptp(arrays(d)) == 0 for d in case['y'].values()):
        raise Reject('degenerate range')
    m, table = odes.build_linear(c, case['attrs'], rtol=1e-9, atol=1e-10)
    y = {v: arrays(d) for v, d in case['y'].items()}
    ig = open_guess(m, [], dict(y, **{c['t']: ts}), {'n_points': case['n_points']})
    params = [table[p] for p in sorted(c['pars'])]
    panels = panels_of(ig, [c['t']], sorted(y))

    def check(current):
        for v in sorted(y):
            ax = panels[c['t'], v]
            gx, gy = [np.asarray(q, dtype=float) for q in ax.lines[0].get_data()]
            lim_covers((gx[0], gx[-1]), ts, 'curve of ' + v)
            scale = odes.growth(c, gx, current)
            close(gy, odes.solve_linear(c, gx, current)[v], 1e-5 * scale, 'curve of {} at {}'.format(v, current))
            pts = [np.asarray(k.get_offsets()) for k in ax.collections]
            require(len(pts) == 1, 'data of {} are not shown', v)
            close(pts[0], np.column_stack([ts, y[v]]), 0.0, 'data points of ' + v)
    run(ig, params, case['attrs'], case, check)
    return info(case['moves'], 'k=%d' % len(c['ys']), 'moves=%d' % len(case['moves']))
