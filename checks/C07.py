"""C07: nearest and inverse distance interpolation of grids."""
import itertools

from checks.C06 import T_AXES, UNITS, Z_AXES  # noqa: F401
from checks.grid_model import (F, X_AXES, Y_AXES, cells, faint, model,
                               queries)

RULE = ('grids: all pairs of axis layouts in 2 dimensions, with real or '
        'temporal axes added in 3 and 4; methods: nearest, inverse distance '
        'with powers 0..4, combined with linear or nearest on the third and '
        'fourth axes; values: a grid with distinct values, and the same with '
        'every node undefined in turn; points: every point of a sub-cell '
        'lattice; compared with a search of the corners of the cell by '
        'distance on the sphere')
BOUNDS = {'quick': 'lattice of 1/4 cell (2D), 1/2 cell and quarters of the '
          'added axes (3D, 4D)', 'thorough': 'lattice of 1/16 cell (2D), 1/4 '
          '(3D, 4D), every layout'}
ASSUMPTIONS = ['the first two coordinates are degrees of longitude and '
               'latitude, as documented',
               'at equal distances (1e-12), either element is accepted']


def shards(tier):
    out = [{'kind': 2, 'x': x, 'y': y} for x in X_AXES for y in Y_AXES]
    xs = list(X_AXES) if tier == 'thorough' else [
        'irregular', 'descending', 'circle', 'circle3-descending']
    ys = list(Y_AXES) if tier == 'thorough' else ['irregular', 'descending']
    out += [{'kind': k, 'x': x, 'y': y} for k in (3, 4)
            for x in xs for y in ys]
    out.append({'kind': 'dates'})
    return out


def explore(ctx, shard):
    import numpy as np
    import pyinterp
    from pyinterp import core

    def axis(desc):
        return core.Axis(np.array([float(v) for v in desc[0]]),
                         is_circle=desc[1])

    def taxis(desc):
        return core.TemporalAxis(np.array(desc[0], dtype='i8').view(desc[1]))

    def haversine(a, b):
        la, pa, lb, pb = np.radians([float(a[0]), float(a[1]), float(b[0]),
                                     float(b[1])])
        h = (np.sin((pa - pb) / 2)**2 +
             np.cos(pa) * np.cos(pb) * np.sin((la - lb) / 2)**2)
        return 2 * np.arcsin(min(1.0, np.sqrt(h)))

    METHODS = [('nearest', {})] + [('inverse_distance_weighting', {'p': p})
                                   for p in range(5)]
    METHODS.append(('inverse_distance_weighting', {}))

    def surface(mx, my, x, y, method, kw):
        """List of possible answers, each a list of (ix, iy, weight)."""
        out = []
        for (i0, i1, _), (j0, j1, _) in itertools.product(
                cells(mx, x), cells(my, y)):
            corners = [(i, j) for i in (i0, i1) for j in (j0, j1)]
            d = [haversine((x, y), (mx.values[i], my.values[j]))
                 for i, j in corners]
            at = [k for k, c in enumerate(corners)
                  if mx.distance(x, c[0]) == 0 and my.values[c[1]] == y]
            if method == 'nearest':
                best = min(d)
                out += [[(*c, 1.0)] for c, v in zip(corners, d)
                        if v <= best + 1e-12]
            elif at:
                out.append([(*corners[at[0]], 1.0)])
            else:
                w = [1 / v**kw.get('p', 2) for v in d]
                t = sum(w)
                out.append([(*c, v / t) for c, v in zip(corners, w)])
        return out

    def line(m, c, method):
        """List of possible answers along an added axis."""
        out = []
        for i, j, t in cells(m, c):
            if method == 'linear':
                out.append([(i, float(1 - t)), (j, float(t))])
            else:
                # the real axes are searched in floating point
                if t <= F(1, 2):
                    out.append([(i, 1.0)])
                if t >= F(1, 2):
                    out.append([(j, 1.0)])
        return out

    def verify(name, ms, mk, run, points, smethods, lmethods, undefined):
        shape = tuple(len(m.values) for m in ms)
        n = int(np.prod(shape))
        values = (np.arange(n) * 37 % 101 - 40.0) / 1.003
        grids = [('generic', values)]
        for k in undefined:
            g = values.copy()
            g[k] = np.nan
            grids.append((f'nan{k}', g))
        scache = {}
        for method, kw in smethods:
            for lm in itertools.product(lmethods, repeat=len(ms) - 2):
                answers = []
                for p in points:
                    k = (p[0], p[1], method, str(kw))
                    if k not in scache:
                        scache[k] = surface(ms[0], ms[1], p[0], p[1], method,
                                            kw)
                    s = scache[k]
                    extra = [line(m, c, x) for m, c, x in zip(
                        ms[2:], p[2:], lm)]
                    alts = []
                    for combo in itertools.product(s, *extra):
                        ids, ws = [], []
                        for sel in itertools.product(*combo):
                            idx = [sel[0][0], sel[0][1]] + [e[0] for e in
                                                            sel[1:]]
                            w = sel[0][2]
                            for e in sel[1:]:
                                w *= e[1]
                            ids.append(np.ravel_multi_index(idx, shape))
                            ws.append(w)
                        alts.append((ids, ws))
                    answers.append(alts)
                for gname, g in grids:
                    key = f'{name}:{method}:{kw}:{lm}:{gname}'
                    ctx.state(key)
                    got = run(mk(g.reshape(shape)), points, method, kw, lm)
                    ctx.trace(len(points))
                    ctx.step(len(points))
                    flat = g.tolist()
                    for p, r, alts in zip(points, got.tolist(), answers):
                        if not alts:
                            ok = r != r
                            exp = ['nan']
                            ctx.outcome('outside')
                        else:
                            exp = []
                            ok = False
                            for ids, ws in alts:
                                v = sum(flat[i] * w for i, w in zip(ids, ws))
                                exp.append(v)
                                if v != v:
                                    # an undefined node with a null weight
                                    # may be ignored
                                    v2 = sum(flat[i] * w for i, w in
                                             zip(ids, ws) if w)
                                    ok = ok or r != r or abs(r - v2) <= 1e-7
                                else:
                                    ok = ok or abs(r - v) <= 1e-7
                            ctx.outcome(method)
                        if not ok:
                            q = [float(c) for c in p]
                            ctx.violation(
                                f'{key}:{q}', f'{method}{kw}{lm}: {r} at {q}, '
                                f'expected {exp[:3]}',
                                {'axes': name, 'point': q, 'method': method,
                                 'p': kw, 'added': lm, 'grid': gname})

    def column(points, d, i8=False):
        if i8:
            return np.array([int(p[d]) for p in points], dtype='i8')
        return np.array([float(p[d]) for p in points])

    kind = shard['kind']
    if kind == 'dates':
        # the nearest date, in every unit, whatever the distance
        for unit in ('Y', 'D', 'h', 's', 'ms', 'us', 'ns', 'ps'):
            for step in (2, 10, 5 * 10**9, 10**12, 86400 * 10**9,
                         4 * 10**17):
                if step > 10**12 and unit not in ('ns', 'ps', 'us'):
                    continue
                for origin in (0, -step, 10**6):
                    v = [origin + k * step for k in (0, 1, 3)]
                    at = core.TemporalAxis(
                        np.array(v, dtype='i8').view(f'M8[{unit}]'))
                    ax = axis(X_AXES['regular'])
                    ay = axis(Y_AXES['pair'])
                    val = np.arange(4 * 2 * 3.0).reshape(4, 2, 3)
                    g3 = pyinterp.Grid3D(ax, ay, at, val)
                    g4 = pyinterp.Grid4D(
                        ax, ay, at, axis(Y_AXES['pair']),
                        np.stack((val, val + 100), axis=-1))
                    qs = sorted({a + (b - a) * k // 8 + d
                                 for a, b in zip(v, v[1:])
                                 for k in range(9) for d in (-1, 0, 1)
                                 if a <= a + (b - a) * k // 8 + d <= b})
                    z = np.array(qs, dtype='i8')
                    one = np.ones(len(qs))
                    r3 = pyinterp.trivariate(g3, one, one * 0, z,
                                             z_method='nearest')
                    r4 = pyinterp.quadrivariate(
                        g4, one, one * 0, z, one * 2, z_method='nearest')
                    case = {'unit': unit, 'dates': v}
                    ctx.state(unit, step, origin)
                    ctx.trace()
                    for q, a, b in zip(qs, r3, r4):
                        d = [abs(q - x) for x in v]
                        ok = {6 + k for k in range(3) if d[k] == min(d)}
                        ctx.check(a in ok and b - 100 in ok,
                                  f'dates:{unit}:{v}:{q}',
                                  lambda: f'nearest date of {q} in {v}: '
                                  f'{a - 6:g}, {b - 106:g}',
                                  {**case, 'date': q})
        return

    xd, yd = X_AXES[shard['x']], Y_AXES[shard['y']]
    mx, my = model(xd), model(yd)
    ax, ay = axis(xd), axis(yd)
    sub = (16 if kind == 2 else 4) if ctx.thorough else (4 if kind == 2 else 2)
    qx = queries(mx, sub)
    if mx.angle:
        qx += [q + 360 * s for q, s in zip(qx, itertools.cycle((-1, 1, 2)))]
    qy = queries(my, sub)
    if kind == 2:
        qx += faint(mx)
        qy += faint(my)

        def run(g, p, method, kw, lm):
            return pyinterp.bivariate(g, column(p, 0), column(p, 1),
                                      interpolator=method, num_threads=1,
                                      **kw)

        verify(f'2:{shard["x"]}:{shard["y"]}', [mx, my],
               lambda v: pyinterp.Grid2D(ax, ay, v), run,
               list(itertools.product(qx, qy)), METHODS, (),
               range(len(mx.values) * len(my.values)))
        return
    few = [METHODS[0], METHODS[-1], METHODS[2]]
    for zname, zd, temporal in [(k, Z_AXES[k], False) for k in Z_AXES] + [
            (k, T_AXES[k], True) for k in T_AXES]:
        mz = model((zd[0], False))
        az = taxis(zd) if temporal else axis(zd)
        qz = queries(mz, 4)
        if temporal:
            v = sorted(mz.values)
            qz = sorted({(a * k + b * (4 - k)) // 4
                         for a, b in zip(v, v[1:]) for k in range(5)} | {
                             v[0] - 1, v[-1] + 1})
            qz = [F(q) for q in qz]
        if kind == 3:
            def run(g, p, method, kw, lm):
                return pyinterp.trivariate(
                    g, column(p, 0), column(p, 1), column(p, 2, temporal),
                    interpolator=method, z_method=lm[0], num_threads=1, **kw)

            verify(f'3:{shard["x"]}:{shard["y"]}:{zname}', [mx, my, mz],
                   lambda v: pyinterp.Grid3D(ax, ay, az, v), run,
                   list(itertools.product(qx, qy, qz)), few,
                   ('linear', 'nearest'),
                   range(len(mx.values) * len(my.values) * len(mz.values))
                   if ctx.thorough or zname in ('z-pair', 't-delta') else ())
        elif ctx.thorough or zname in ('z-pair', 't-delta'):
            ud = Z_AXES['z-descending']
            mu, au = model(ud), axis(ud)

            def run(g, p, method, kw, lm):
                return pyinterp.quadrivariate(
                    g, column(p, 0), column(p, 1), column(p, 2, temporal),
                    column(p, 3), interpolator=method, z_method=lm[0],
                    u_method=lm[1], num_threads=1, **kw)

            qu = queries(mu, 4 if ctx.thorough else 2)
            verify(f'4:{shard["x"]}:{shard["y"]}:{zname}', [mx, my, mz, mu],
                   lambda v: pyinterp.Grid4D(ax, ay, az, au, v), run,
                   list(itertools.product(qx, qy, qz[1:], qu)), few,
                   ('linear', 'nearest'), ())
