"""C09: spline and bicubic interpolation of grids."""
import itertools

from checks import C08
from checks.grid_model import F, cells, faint, model, queries

UNITS = ['axis', 'dateutils', 'grid', 'bicubic']
RULE = ('all fitting models, boundary conditions and half windows on small '
        'grids in 2 dimensions (regular, irregular, angular and circular '
        'axes), and with real or temporal axes added in 3 and 4; every point '
        'of a sub-cell lattice, points outside, shifted by turns; every '
        'undefined node; compared with the one-dimensional interpolants of '
        'C08 on the window built by the boundary condition')
BOUNDS = {'quick': 'half windows (1,1), (2,2), (3,3), (2,3), (3,2), lattice of '
          '1/2 cell', 'thorough': 'half windows 1..4 in each direction, '
          'lattice of 1/4 cell, every undefined node in every configuration'}
ASSUMPTIONS = [
    'beyond the ends of an axis which is not a circle, the coordinates of the '
    'window are mirrored (sym) or continued with the step of the edge '
    '(expand, wrap)', 'dates are given in the unit of the axis',
    'tolerance of 1e-8 of the magnitude of the values']

X = {
    'regular': ([0, 1, 2, 3, 4, 5], False),
    'irregular': ([-2, -1, 1, F(3, 2), 3, 4], False),
    'circle8': ([45 * k for k in range(8)], True),
    'circle6': ([60 * k - 180 for k in range(6)], True),
    'circle4': ([0, 90, 180, 270], True),
    'sector': ([10, 20, 30, 40, 50, 60], True),
    'sector-seam': ([340, 350, 360, 370, 380, 390], True),
}
Y = {
    'regular': ([-2, -1, 0, 1, 2], False),
    'irregular': ([0, 1, 3, F(7, 2), 5, 7], False),
}
MODELS = ['linear', 'polynomial', 'c_spline', 'c_spline_periodic', 'akima',
          'akima_periodic', 'steffen', 'bicubic']
EDGES = ['undef', 'expand', 'wrap', 'sym']
SIZE = dict(C08.KINDS, bicubic=4)


def windows(tier):
    if tier == 'thorough':
        return list(itertools.product(range(1, 5), repeat=2))
    return [(1, 1), (2, 2), (3, 3), (2, 3), (3, 2)]


def shards(tier):
    out = [{'kind': '2d', 'x': x, 'y': y, 'model': m} for x in X for y in Y
           for m in MODELS]
    out += [{'kind': k, 'x': x, 'model': m} for k in ('3d', '4d')
            for x in ('irregular', 'circle8') for m in MODELS]
    return out + [{'kind': 'api'}]


def window(m, c, half, edge):
    """(indices, coordinates, position) of the window around a coordinate."""
    v = m.values
    n = len(v)
    c = m.norm(F(c))
    i = next((k for k in range(n - 1) if v[k] <= c < v[k + 1]), None)
    if i is None:
        if c == v[-1]:
            i = n - 1 if m.circle else n - 2
        elif m.circle:
            i = n - 1
        else:
            return None
    # a node that ends the axis belongs to the last cell
    if c == v[-1]:
        i = n - 2
    idx, xs = [], []
    for k in range(i - half + 1, i + half + 1):
        if m.circle:
            idx.append(k % n)
            xs.append(v[k % n] + 360 * (k // n))
            continue
        if 0 <= k < n:
            idx.append(k)
            xs.append(v[k])
            continue
        low = k < 0
        d = -k if low else k - n + 1
        if edge == 'undef':
            return None
        if edge == 'expand':
            idx.append(0 if low else n - 1)
            xs.append(v[0] - d * (v[1] - v[0]) if low else
                      v[-1] + d * (v[-1] - v[-2]))
        elif edge == 'sym':
            j = d if low else n - 1 - d
            idx.append(j)
            xs.append(2 * v[0] - v[j] if low else 2 * v[-1] - v[j])
        else:
            idx.append(k % n)
            xs.append(v[0] - (v[1] - v[0]) - (v[-1] - v[k % n]) if low else
                      v[-1] + (v[1] - v[0]) + v[k % n] - v[0])
    return tuple(idx), tuple(xs), c


def explore(ctx, shard):
    import numpy as np
    import pyinterp
    from pyinterp import core

    def axis(desc):
        return core.Axis(np.array([float(v) for v in desc[0]]),
                         is_circle=desc[1])

    def taxis(desc):
        return core.TemporalAxis(np.array(desc[0], dtype='i8').view(desc[1]))

    def generic(shape):
        n = int(np.prod(shape))
        return ((np.arange(n) * 37 % 101) - 40.0).reshape(shape) / 1.003

    def one(kind, xs, ys, p):
        kind = 'c_spline' if kind == 'bicubic' else kind
        xs = np.array([float(v) for v in xs])
        if kind == 'polynomial':
            # Neville
            w = list(ys)
            for k in range(1, len(xs)):
                w = [((p - xs[i + k]) * w[i] + (xs[i] - p) * w[i + 1]) /
                     (xs[i] - xs[i + k]) for i in range(len(w) - 1)]
            return w[0]
        pieces = C08.reference(np, kind, xs, ys)
        k = min(max(int(np.searchsorted(xs, p, 'left')) - 1, 0), len(xs) - 2)
        a, b, c, d = pieces[k]
        t = p - xs[k]
        return a + t * (b + t * (c + t * d))

    lin = {'linear', 'polynomial', 'c_spline', 'c_spline_periodic', 'bicubic'}

    def rows(kind, wx, z):
        """Interpolation along x of every row y of the grid."""
        idx, xs, c = wx
        if kind in lin:
            w = np.array([one(kind, xs, e, float(c))
                          for e in np.eye(len(xs))])
            return w @ z[list(idx)]
        return np.array([one(kind, xs, z[list(idx), j], float(c))
                         for j in range(z.shape[1])])

    def surface(kind, z, wxs, wys):
        """Values of the reference on the product of the points."""
        out = np.full((len(wxs), len(wys)), np.nan)
        cache = {}
        for a, wx in enumerate(wxs):
            if wx is None:
                continue
            if wx not in cache:
                row = rows(kind, wx, z)
                line = np.full(len(wys), np.nan)
                for b, wy in enumerate(wys):
                    if wy is not None:
                        line[b] = one(kind, wy[1], row[list(wy[0])],
                                      float(wy[2]))
                cache[wx] = line
            out[a] = cache[wx]
        return out

    def touched(wxs, wys, shape):
        tx = np.zeros((len(wxs), shape[0]), bool)
        ty = np.zeros((len(wys), shape[1]), bool)
        for a, w in enumerate(wxs):
            if w is not None:
                tx[a, list(w[0])] = True
        for b, w in enumerate(wys):
            if w is not None:
                ty[b, list(w[0])] = True
        return tx, ty

    def call(grid, cols, kw):
        try:
            return pyinterp.bicubic(grid, *cols, num_threads=1, **kw)
        except ValueError as e:
            return str(e) or 'ValueError'

    def shifted(m, q):
        return q + ([c + 360 * k for k in (-2, 1) for c in q]
                    if m.angle else [])

    def compare(name, got, exp, cols, extra, tolerance=1e-8):
        ctx.trace(exp.size)
        ctx.step(exp.size)
        if isinstance(got, str):
            ctx.violation(name, f'{name}: {got}', extra)
            return
        exp = exp.ravel()
        ok = np.where(np.isnan(exp), np.isnan(got),
                      np.abs(got - exp) <= tolerance * 101)
        ctx.outcome('undefined', int(np.isnan(exp).sum()))
        ctx.outcome('defined', int((~np.isnan(exp)).sum()))
        for r in np.nonzero(~ok)[0][:2]:
            p = [str(c[r]) for c in cols]
            ctx.violation(name, f'{name}: {got[r]} instead of {exp[r]} at {p}',
                          dict(extra, point=p))

    def bounds(name, grid, cols, kw, exp, extra):
        exp = exp.ravel()
        inside = ~np.isnan(exp)
        for sel, good in ((inside, True), (~inside, False)):
            ix = np.nonzero(sel)[0]
            if not ix.size:
                continue
            if good:
                got = call(grid, [c[ix] for c in cols],
                           dict(kw, bounds_error=True))
                ctx.check(not isinstance(got, str), name + ':bounds',
                          lambda: f'{name}: points inside are refused: {got}',
                          extra)
                continue
            for r in ix if ctx.thorough else ix[:: max(1, ix.size // 20)]:
                got = call(grid, [c[r:r + 1] for c in cols],
                           dict(kw, bounds_error=True))
                ctx.check(isinstance(got, str), name + ':bounds',
                          lambda: f'{name}: the window of '
                          f'{[str(c[r]) for c in cols]} does not exist but '
                          f'the result is {got}', extra)

    kind = shard['kind']
    if kind == '2d':
        fit = shard['model']
        xd, yd = X[shard['x']], Y[shard['y']]
        mx, my = model(xd), model(yd)
        ax, ay = axis(xd), axis(yd)
        sub = 4 if ctx.thorough else 2
        qx = shifted(mx, queries(mx, sub, 'far') + faint(mx))
        qy = queries(my, sub, 'far') + faint(my)
        cols = [np.array(c) for c in zip(*(
            (float(a), float(b)) for a, b in itertools.product(qx, qy)))]
        shape = (len(mx.values), len(my.values))
        grids = {'f8': pyinterp.Grid2D(ax, ay, generic(shape)),
                 'f4': pyinterp.Grid2D(ax, ay, generic(shape).astype('f4'))}
        for (nx, ny), edge in itertools.product(windows(ctx.tier), EDGES):
            kw = {'nx': nx, 'ny': ny, 'fitting_model': fit, 'boundary': edge}
            name = f'2d:{shard["x"]}:{shard["y"]}:{fit}:{nx}x{ny}:{edge}'
            ctx.state(name)
            extra = dict(kw, x=[str(v) for v in mx.values],
                         y=[str(v) for v in my.values])
            if not mx.circle and edge != 'undef' and (
                    nx > shape[0] or ny > shape[1]):
                continue
            wxs = [window(mx, c, nx, edge) for c in qx]
            wys = [window(my, c, ny, edge) for c in qy]
            if min(nx, ny) * 2 < SIZE[fit]:
                got = call(grids['f8'], cols, kw)
                some = any(wxs) and any(wys)
                ctx.outcome('refused')
                ctx.check(isinstance(got, str) == some, name,
                          lambda: f'{name}: window too small for the model, '
                          'but accepted', extra)
                continue
            exp = surface(fit, generic(shape), wxs, wys)
            compare(name, call(grids['f8'], cols, kw), exp, cols, extra)
            if (nx, ny) == (3, 3) or ctx.thorough:
                exp4 = surface(fit, generic(shape).astype('f4').astype('f8'),
                               wxs, wys)
                compare(name + ':f4', call(grids['f4'], cols, kw), exp4, cols,
                        extra)
            bounds(name, grids['f8'], cols, kw, exp, extra)
            # undefined nodes
            if ctx.thorough or (edge in ('undef', 'sym') and
                                (nx, ny) == (2, 3)) or (
                    2 * nx == SIZE[fit] and edge == 'expand'):
                tx, ty = touched(wxs, wys, shape)
                for i, j in itertools.product(*map(range, shape)):
                    z = generic(shape)
                    z[i, j] = np.nan
                    g = pyinterp.Grid2D(ax, ay, z)
                    ctx.state(name, i, j)
                    e = exp.copy()
                    e[np.outer(tx[:, i], ty[:, j])] = np.nan
                    compare(f'{name}:nan', call(g, cols, kw), e, cols,
                            dict(extra, undefined=[i, j]))
        ctx.sample({'axes': shard, 'points': len(cols[0])})
        return

    if kind in ('3d', '4d'):
        fit = shard['model']
        xd, yd = X[shard['x']], Y['irregular']
        mx, my = model(xd), model(yd)
        ax, ay = axis(xd), axis(yd)
        qx = queries(mx, 2)
        qx = qx[::1 if ctx.thorough else 2] + [qx[-1]] + (
            [qx[1] + 360] if mx.angle else [])
        qy = queries(my, 2)[1::1 if ctx.thorough else 3]
        thirds = [(([0, 2, 4], False), None), (([5, 3, 0], False), None),
                  (([0, 2, 4], 'M8[D]'), 1), (([86400, 3600, -4], 'M8[s]'), 1),
                  (([10**18, 10**18 + 4 * 10**9], 'M8[ns]'), 1)]
        for (zd, temporal), (nx, ny), edge in itertools.product(
                thirds, [(3, 3), (2, 3)] if not ctx.thorough else
                windows(ctx.tier), EDGES if ctx.thorough else
                ['undef', 'sym']):
            if min(nx, ny) * 2 < SIZE[fit]:
                continue
            mz = model((zd[0], False))
            az = taxis(zd) if temporal else axis(zd)
            zv = mz.values
            if temporal:
                qz = sorted({F(int(c)) for c in [
                    *zv, *((a + b) // 2 for a, b in zip(zv, zv[1:])),
                    zv[0] + 1, min(zv) - 1, max(zv) + 1]})
            else:
                qz = queries(mz, 2)
            mu = model(([5, 3, 0], False))
            ms = [mx, my, mz] + ([mu] if kind == '4d' else [])
            shape = [len(m.values) for m in ms]
            qs = [qx, qy, qz] + (
                [[F(5), F(4), F(1), F(0), F(-1)]] if kind == '4d' else [])
            pts = list(itertools.product(*qs))
            cols = [np.array([float(p[d]) for p in pts])
                    for d in range(len(ms))]
            if temporal:
                cols[2] = np.array([int(p[2]) for p in pts], dtype='i8')
            values = generic(shape)
            wxs = [window(mx, c, nx, edge) for c in qx]
            wys = [window(my, c, ny, edge) for c in qy]
            layers = {}
            for k in itertools.product(*(range(n) for n in shape[2:])):
                layers[k] = surface(fit, values[(slice(None), slice(None)) +
                                                k], wxs, wys)
            tx, ty = touched(wxs, wys, shape)
            exp = np.full([len(q) for q in qs], np.nan)
            near = np.zeros(exp.shape[2:] + tuple(shape[2:]), bool)
            must = near.copy()
            for e in itertools.product(*(range(len(q)) for q in qs[2:])):
                per = [cells(m, qs[2 + d][e[d]])
                       for d, m in enumerate(ms[2:])]
                if not all(per):
                    continue
                acc = 0
                for combo in itertools.product(*(
                        ((i, 1 - t), (j, t)) for i, j, t in
                        (p[0] for p in per))):
                    w = F(1)
                    for _, t in combo:
                        w *= t
                    k = tuple(i for i, _ in combo)
                    acc = acc + float(w) * layers[k]
                    must[e + k] |= w > 0
                for combo in itertools.product(*(
                        {k for i, j, _ in p for k in (i, j)} for p in per)):
                    near[e + combo] = True
                exp[(slice(None), slice(None)) + e] = acc
            kw = {'nx': nx, 'ny': ny, 'fitting_model': fit, 'boundary': edge}
            name = (f'{kind}:{shard["x"]}:{fit}:{nx}x{ny}:{edge}:{zd[1]}:'
                    f'{zd[0][0]}')
            extra = dict(kw, z=zd)
            ctx.state(name)
            cls = pyinterp.Grid4D if kind == '4d' else pyinterp.Grid3D
            axes = [ax, ay, az] + ([axis(([5, 3, 0], False))]
                                   if kind == '4d' else [])
            for dtype in ('f8', 'f4'):
                grid = cls(*axes, values.astype(dtype))
                compare(name + ':' + dtype, call(grid, cols, kw), exp, cols,
                        extra, 1e-8 if dtype == 'f8' else 3e-7)
            grid = cls(*axes, values)
            bounds(name, grid, cols, kw, exp, extra)
            if edge != 'undef' and not ctx.thorough:
                continue
            nodes = list(itertools.product(*map(range, shape)))
            for node in nodes if ctx.thorough else nodes[::11]:
                z = values.copy()
                z[node] = np.nan
                got = call(cls(*axes, z), cols, kw)
                ctx.state(name, node)
                if isinstance(got, str):
                    ctx.violation(name + ':nan', got, extra)
                    continue
                got = got.reshape(exp.shape)
                xy = np.outer(tx[:, node[0]], ty[:, node[1]])
                a = (slice(None), slice(None)) + (None, ) * (len(ms) - 2)
                nan = xy[a] & must[(Ellipsis, ) + node[2:]][None, None]
                may = xy[a] & near[(Ellipsis, ) + node[2:]][None, None]
                ok = np.where(nan | np.isnan(exp), np.isnan(got),
                              (np.abs(got - exp) <= 1e-8 * 101) |
                              (may & np.isnan(got)))
                ctx.trace(exp.size)
                ctx.check(bool(ok.all()), name + ':nan',
                          lambda: f'{name} with the node {node} undefined: '
                          f'{got[~ok][:3]} instead of {exp[~ok][:3]}',
                          dict(extra, undefined=node))
        return

    # interface
    ax, ay = axis(X['regular']), axis(Y['regular'])
    v = generic((6, 5))
    g = pyinterp.Grid2D(ax, ay, v)
    p = [np.array([2.5]), np.array([0.5])]
    for kw, good in [({}, True), ({'fitting_model': '_'}, False),
                     ({'boundary': '_'}, False), ({'nx': 0}, False),
                     ({'ny': 0}, False)]:
        got = call(g, p, kw)
        ctx.check(isinstance(got, str) != good, f'api:{kw}',
                  f'arguments {kw}: {got}', kw)
    for fx, fy in ((True, False), (False, True), (True, True)):
        g2 = pyinterp.Grid2D(ax.flip(inplace=False) if fx else ax,
                             ay.flip(inplace=False) if fy else ay, v)
        ctx.check(isinstance(call(g2, p, {}), str), 'api:descending',
                  'descending axes are not refused', [fx, fy])
    for bad in (np.nan, np.inf, -np.inf):
        for d in (0, 1):
            for ed in EDGES:
                q = [c.copy() for c in p]
                q[d][0] = bad
                for fit in MODELS:
                    got = call(g, q, {'boundary': ed, 'fitting_model': fit})
                    ctx.check(not isinstance(got, str) and np.isnan(got[0]),
                              f'api:{bad}:{d}:{ed}', f'coordinate {bad}: '
                              f'{got}', [bad, d, ed, fit])
    for s in ((2, 3), (1, 2)):
        got = call(g, [np.zeros(s[0]), np.zeros(s[1])], {})
        ctx.check(isinstance(got, str), 'api:shape', f'shapes {s}: {got}', s)
