"""C06: bilinear interpolation of grids in 2, 3 and 4 dimensions."""
import itertools

from checks.grid_model import F, X_AXES, Y_AXES, cells, faint, model, queries

UNITS = ['axis', 'dateutils', 'grid', 'bivariate_interpolator', 'bivariate',
         'trivariate', 'quadrivariate']
RULE = ('grids: all pairs of axis layouts (regular or not, both orders, '
        'circles of several origins, sectors) in 2 dimensions, with real or '
        'temporal axes added in 3 and 4; values: every grid with one non zero '
        'node, every grid with one undefined node, a generic grid; points: '
        'every point of a sub-cell lattice, every seam, points outside, '
        'shifted by -1..2 turns; compared with weights on exact rationals')
BOUNDS = {'quick': 'lattice of 1/4 cell (2D), 1/2 and 1/4 cell (3D, 4D)',
          'thorough': 'lattice of 1/16 cell (2D), 1/4 cell (3D), 1/2 cell (4D); '
          'every layout of the first two axes in 3D and 4D'}
ASSUMPTIONS = ['tolerance of 1e-9 of the magnitude of the values',
               'a node of the cell with a null weight may make the result '
               'undefined if it is undefined']

Z_AXES = {
    'z-regular': ([0, 2, 4], False),
    'z-descending': ([5, 3, 0], False),
    'z-pair': ([1, 2], False),
}
T_AXES = {
    't-D': ([0, 2, 4], 'M8[D]'),
    't-ns': ([10**18, 10**18 + 4 * 10**9, 10**18 + 9 * 10**9], 'M8[ns]'),
    't-descending': ([86400, 3600, -4], 'M8[s]'),
    't-delta': ([-8, 0], 'm8[us]'),
}


def shards(tier):
    out = [{'kind': '2d', 'x': x, 'y': y} for x in X_AXES for y in Y_AXES]
    xs = list(X_AXES) if tier == 'thorough' else [
        'regular', 'descending', 'circle', 'circle3-descending', 'sector-seam']
    ys = list(Y_AXES) if tier == 'thorough' else ['regular', 'descending']
    out += [{'kind': '3d', 'x': x, 'y': y} for x in xs for y in ys]
    out += [{'kind': '4d', 'x': x, 'y': y} for x in xs for y in ys]
    out += [{'kind': 'types'}, {'kind': 'api'}]
    return out


def explore(ctx, shard):
    import numpy as np
    import pyinterp
    from pyinterp import core

    def axis(desc):
        return core.Axis(np.array([float(v) for v in desc[0]]),
                         is_circle=desc[1])

    def taxis(desc):
        return core.TemporalAxis(np.array(desc[0], dtype='i8').view(desc[1]))

    def weights(ms, points):
        """Matrix of the weights of the nodes, mask of the points inside, and
        for every point the nodes of the cells it belongs to."""
        shape = tuple(len(m.values) for m in ms)
        n = int(np.prod(shape))
        w = np.zeros((len(points), n))
        inside = np.zeros(len(points), bool)
        touched = np.zeros((len(points), n), bool)
        cache = {}
        for r, p in enumerate(points):
            per = []
            for d, (m, c) in enumerate(zip(ms, p)):
                k = (d, c)
                if k not in cache:
                    cache[k] = cells(m, c)
                per.append(cache[k])
            if not all(per):
                continue
            inside[r] = True
            for combo in itertools.product(*(((i, 1 - t), (j, t))
                                             for i, j, t in
                                             (q[0] for q in per))):
                ix = np.ravel_multi_index([i for i, _ in combo], shape)
                x = F(1)
                for _, t in combo:
                    x *= t
                w[r, ix] += float(x)
            for combo in itertools.product(*(
                    sorted({k for i, j, _ in q for k in (i, j)})
                    for q in per)):
                touched[r, np.ravel_multi_index(combo, shape)] = True
        return w, inside, touched

    def generic(shape):
        n = int(np.prod(shape))
        # values that need the precision of real numbers
        return ((np.arange(n) * 37 % 101) - 40.0).reshape(shape) / 1.003

    def verify(name, ms, axes, points, run, nan_nodes, dtype='f8', one=True):
        """run(grid, list of columns, **kw) -> values"""
        shape = tuple(len(m.values) for m in ms)
        n = int(np.prod(shape))
        w, inside, touched = weights(ms, points)
        grids = [('generic', generic(shape))]
        if one:
            for k in range(n):
                g = np.zeros(n)
                g[k] = 1
                grids.append((f'node{k}', g.reshape(shape)))
        for k in nan_nodes:
            g = generic(shape).ravel()
            g[k] = np.nan
            grids.append((f'nan{k}', g.reshape(shape)))
        for gname, values in grids:
            key = f'{name}:{gname}'
            ctx.state(key)
            grid = axes(values.astype(dtype))
            got = run(grid, points)
            flat = values.ravel()
            bad = np.isnan(flat)
            exp = w @ np.where(bad, 0, flat)
            must = (w[:, bad] > 0).any(axis=1) if bad.any() else np.zeros(
                len(points), bool)
            may = touched[:, bad].any(axis=1) if bad.any() else must
            ok = np.where(
                ~inside | must, np.isnan(got),
                (np.abs(got - exp) <= 1e-9 * 101) | (may & np.isnan(got)))
            ctx.trace(len(points))
            ctx.step(len(points))
            for r in np.nonzero(~ok)[0][:3]:
                p = [float(c) if abs(c) < 2**53 else int(c)
                     for c in points[r]]
                ctx.violation(
                    f'{key}:{p}', f'{name}: value {got[r]!r} at {p}, '
                    f'expected {exp[r] if inside[r] and not must[r] else "nan"}'
                    f' (grid {gname})',
                    {'axes': [[str(v) for v in m.values] for m in ms],
                     'grid': gname, 'point': p})
            ctx.outcome('inside', int(inside.sum()))
            ctx.outcome('outside', int((~inside).sum()))
            if bad.any():
                ctx.outcome('undefined', int(must.sum()))
        return inside

    def bounds(name, grid, points, inside, run):
        """bounds_error: refused exactly outside."""
        keep = [p for p, i in zip(points, inside) if i]
        try:
            run(grid, keep, bounds_error=True)
            failed = None
        except ValueError as e:
            failed = e
        ctx.check(failed is None, f'{name}:bounds:inside',
                  lambda: f'points inside are refused: {failed}',
                  {'axes': name})
        out = [p for p, i in zip(points, inside) if not i]
        for p in out:
            try:
                run(grid, [p], bounds_error=True)
                failed = False
            except ValueError:
                failed = True
            ctx.check(failed, f'{name}:bounds:{[str(c) for c in p]}',
                      lambda: f'{[float(c) for c in p]} is accepted',
                      {'axes': name, 'point': [str(c) for c in p]})

    def column(points, d, dtype='f8'):
        if dtype == 'i8':
            return np.array([int(p[d]) for p in points], dtype='i8')
        return np.array([float(p[d]) for p in points], dtype=dtype)

    def run2(grid, points, **kw):
        return pyinterp.bivariate(grid, column(points, 0), column(points, 1),
                                  num_threads=1, **kw)

    def turns(ms, points):
        if not ms[0].angle:
            return points
        shifts = (-1, 1, 2) if len(ms) == 2 or (
            ctx.thorough and len(ms) == 3) else (-1, )
        return points + [(p[0] + 360 * k, ) + p[1:]
                         for k in shifts for p in points]

    kind = shard['kind']
    if kind == '2d':
        xd, yd = X_AXES[shard['x']], Y_AXES[shard['y']]
        ms = [model(xd), model(yd)]
        sub = 16 if ctx.thorough else 4
        pts = list(itertools.product(
            queries(ms[0], sub, 'far') + faint(ms[0]),
            queries(ms[1], sub, 'far') + faint(ms[1])))
        pts = turns(ms, pts)
        ax, ay = axis(xd), axis(yd)
        ctx.check(ax.is_circle == ms[0].circle, f'{shard}:circle',
                  'is_circle', shard)
        n = len(ms[0].values) * len(ms[1].values)
        name = f'2d:{shard["x"]}:{shard["y"]}'
        mk = lambda v: pyinterp.Grid2D(ax, ay, v)
        inside = verify(name, ms, mk, pts, run2, range(n))
        bounds(name, mk(generic((len(ax), len(ay)))), pts, inside, run2)
        ctx.sample({'axes': name, 'points': len(pts)})
        return

    if kind in ('3d', '4d'):
        xd, yd = X_AXES[shard['x']], Y_AXES[shard['y']]
        sub = 4 if ctx.thorough and kind == '3d' else 2
        ax, ay = axis(xd), axis(yd)
        thirds = [(k, Z_AXES[k], False) for k in Z_AXES] + [
            (k, T_AXES[k], True) for k in T_AXES]
        for zname, zd, temporal in thirds:
            mz = model((zd[0], False))
            az = taxis(zd) if temporal else axis(zd)
            ms = [model(xd), model(yd), mz]
            zq = queries(mz, 4 if kind == '3d' else sub)
            if temporal:
                zq = sorted({F(int(c)) for c in
                             [F(int(v)) for v in mz.values] +
                             [(a + b) // 2 for a, b in zip(
                                 mz.values, mz.values[1:])] +
                             [a + 1 for a in mz.values] +
                             [min(mz.values) - 1, max(mz.values) + 1]})
            qs = [queries(ms[0], sub), queries(ms[1], sub), zq]
            ud = None
            if kind == '4d':
                for uname in ('z-pair', 'z-descending'):
                    ud = Z_AXES[uname]
                    mu = model(ud)
                    au = axis(ud)
                    pts = turns(ms, list(itertools.product(
                        *qs, queries(mu, 2))))

                    def run4(grid, points, **kw):
                        return pyinterp.quadrivariate(
                            grid, column(points, 0), column(points, 1),
                            column(points, 2, 'i8' if temporal else 'f8'),
                            column(points, 3), num_threads=1, **kw)

                    mm = ms + [mu]
                    size = int(np.prod([len(m.values) for m in mm]))
                    name = f'4d:{shard["x"]}:{shard["y"]}:{zname}:{uname}'
                    mk = lambda v: pyinterp.Grid4D(ax, ay, az, au, v)
                    inside = verify(name, mm, mk, pts, run4,
                                    range(size)
                                    if zname == 'z-pair' else (),
                                    one=uname == 'z-pair')
                    if zname in ('z-pair', 't-delta'):
                        bounds(name, mk(generic([len(m.values) for m in mm])),
                               pts, inside, run4)
                continue

            def run3(grid, points, **kw):
                return pyinterp.trivariate(
                    grid, column(points, 0), column(points, 1),
                    column(points, 2, 'i8' if temporal else 'f8'),
                    num_threads=1, **kw)

            pts = turns(ms, list(itertools.product(*qs)))
            size = int(np.prod([len(m.values) for m in ms]))
            name = f'3d:{shard["x"]}:{shard["y"]}:{zname}'
            mk = lambda v: pyinterp.Grid3D(ax, ay, az, v)
            inside = verify(name, ms, mk, pts, run3, range(size))
            bounds(name, mk(generic([len(m.values) for m in ms])), pts,
                   inside, run3)
        ctx.sample({'axes': shard})
        return

    def undefined(grid, n, run, names):
        # one undefined coordinate makes the result undefined
        for d, c in itertools.product(range(n), (np.nan, np.inf, -np.inf)):
            if isinstance(names[d], str):
                continue
            cols = [np.array([float(m.values[0])]) for m in names]
            cols[d] = np.array([c])
            got = run(grid, *cols)
            ctx.check(bool(np.isnan(got).all()), f'undefined:{d}:{c}:'
                      f'{[str(m.values) for m in names]}:{run.__name__}',
                      lambda: f'coordinate {d} = {c}: {got}', {})

    if kind == 'api':
        for xname, yname in itertools.product(X_AXES, Y_AXES):
            ms = [model(X_AXES[xname]), model(Y_AXES[yname])]
            g = pyinterp.Grid2D(axis(X_AXES[xname]), axis(Y_AXES[yname]),
                                generic([len(m.values) for m in ms]))
            for it in ('bilinear', 'nearest', 'inverse_distance_weighting'):
                def f(grid, *cols):
                    return pyinterp.bivariate(grid, *cols, interpolator=it)
                f.__name__ = it
                undefined(g, 2, f, ms)

    if kind == 'types':
        # every type of the array, in 2, 3 and 4 dimensions
        xd, yd = X_AXES['circle'], Y_AXES['irregular-descending']
        ms = [model(xd), model(yd)]
        zd, td, ud = Z_AXES['z-regular'], T_AXES['t-descending'], Z_AXES[
            'z-descending']
        ax, ay, az, at, au = axis(xd), axis(yd), axis(zd), taxis(td), axis(ud)
        for dtype in ('f8', 'f4', 'i8', 'u8', 'i4', 'u4', 'i2', 'u2', 'i1',
                      'u1'):
            whole = lambda shape: np.round(generic(shape) * 1.003)
            vals = lambda shape: np.abs(whole(shape)) if dtype[
                0] == 'u' else whole(shape)
            cases = [((ms[0], ms[1]), (ax, ay), pyinterp.Grid2D, run2)]
            if dtype not in ('i1', 'u1'):
                for z, a in ((zd, az), (td, at)):
                    t = a is at
                    mz = model((z[0], False))
                    r3 = lambda g, p, t=t: pyinterp.trivariate(
                        g, column(p, 0), column(p, 1),
                        column(p, 2, 'i8' if t else 'f8'), num_threads=1)
                    r4 = lambda g, p, t=t: pyinterp.quadrivariate(
                        g, column(p, 0), column(p, 1),
                        column(p, 2, 'i8' if t else 'f8'), column(p, 3),
                        num_threads=1)
                    cases.append(((*ms, mz), (ax, ay, a), pyinterp.Grid3D,
                                  r3))
                    cases.append(((*ms, mz, model(ud)), (ax, ay, a, au),
                                  pyinterp.Grid4D, r4))
            for mm, axes, cls, run in cases:
                shape = [len(m.values) for m in mm]
                pts = list(itertools.product(*(
                    queries(m, 2) if min(m.values) > -3 else
                    sorted(m.values) + [F(0), F(40000)] for m in mm)))
                v = vals(shape).astype(dtype)
                g = cls(*axes, v)
                w, inside, _ = weights(mm, pts)
                got = run(g, pts)
                exp = w @ v.astype('f8').ravel()
                ok = np.where(inside, np.abs(got - exp) <= 1e-9 * 101,
                              np.isnan(got))
                name = f'types:{dtype}:{len(shape)}:{type(axes[-1]).__name__}'
                ctx.state(name)
                ctx.trace(len(pts))
                ctx.check(bool(ok.all()), name,
                          lambda: f'grid of {dtype}: {got[~ok][:3]} expected '
                          f'{exp[~ok][:3]}', {'dtype': dtype,
                                              'shape': shape})
                ctx.check(g.array.astype('f8').tolist() ==
                          v.astype('f8').tolist(), name + ':array',
                          'the array of the grid', {'dtype': dtype})
        return

    # the grid objects: flips asked for, shapes and circles refused
    import pickle
    for xname, yname in itertools.product(X_AXES, Y_AXES):
        xd, yd = X_AXES[xname], Y_AXES[yname]
        ms = [model(xd), model(yd)]
        pts = list(itertools.product(queries(ms[0], 2), queries(ms[1], 2)))
        v = generic([len(m.values) for m in ms])
        w, inside, _ = weights(ms, pts)
        exp = w @ v.ravel()
        for inc in (None, 'copy', 'inplace'):
            ax, ay = axis(xd), axis(yd)
            arr = v.copy()
            g = pyinterp.Grid2D(ax, ay, arr, increasing_axes=inc)
            asc = [m.values[0] < m.values[-1] for m in ms]
            want = [True, True] if inc else asc
            name = f'api:{xname}:{yname}:{inc}'
            ctx.state(name)
            ctx.trace(len(pts))
            ctx.check([g.x.is_ascending(), g.y.is_ascending()] == want
                      and (arr == v).all(), name + ':order',
                      'order of the axes', {'x': xname, 'y': yname})
            ctx.check([ax.is_ascending(), ay.is_ascending()] ==
                      (want if inc == 'inplace' else asc), name + ':given',
                      'order of the given axes', {'x': xname, 'y': yname})
            for how, h in (('', g), ('pickle', pickle.loads(
                    pickle.dumps(g)))):
                got = run2(h, pts)
                ok = np.where(inside, np.abs(got - exp) <= 1e-7,
                              np.isnan(got))
                ctx.check(bool(ok.all()), f'{name}:values:{how}',
                          lambda: f'{how} {[(str(p[0]), str(p[1]), a, b) for p, a, b, o in zip(pts, got, exp, ok) if not o][:3]}',
                          {'x': xname, 'y': yname, 'increasing_axes': inc})
        # every wrong shape is refused
        for shape in itertools.product(range(1, 7), repeat=2):
            try:
                pyinterp.Grid2D(axis(xd), axis(yd), np.zeros(shape))
                failed = False
            except ValueError:
                failed = True
            ctx.check(failed == (shape != v.shape),
                      f'api:{xname}:{yname}:shape:{shape}',
                      f'array of shape {shape}', {'x': xname, 'y': yname})
    circle = axis(X_AXES['circle'])
    ax, ay = axis(X_AXES['regular']), axis(Y_AXES['regular'])
    bad = [(pyinterp.Grid2D, (ax, circle)),
           (pyinterp.Grid3D, (ax, ay, circle)),
           (pyinterp.Grid4D, (ax, ay, circle, ay)),
           (pyinterp.Grid4D, (ax, ay, ay, circle)),
           (pyinterp.Grid3D, (ax, circle, ay))]
    for cls, axes in bad:
        try:
            cls(*axes, np.zeros([len(a) for a in axes]))
            failed = False
        except ValueError:
            failed = True
        ctx.check(failed, f'api:circle:{len(axes)}:{axes.index(circle)}',
                  'a circle is only accepted as first axis', {})
