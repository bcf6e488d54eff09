"""C13: binning."""
import itertools
import math
from fractions import Fraction as F

from checks import grid_model as gm
from checks.stats_model import NAN, close, reference

UNITS = ['axis', 'binning', 'dateutils', 'geodetic-min']
RULE = ('every point of a lattice of each pair of axes, pushed alone in simple '
        'and in linear mode; every sequence of pushes, merges, clears, copies '
        'and pickles of two binnings; every way of cutting a push in blocks '
        'and of adding the blocks; compared with a list of weighted points in '
        'rational numbers')
BOUNDS = {'quick': 'axes of 2 to 5 nodes, 4 positions per cell, sequences of '
          '3 operations', 'thorough': 'sequences of 4 operations, 8 positions '
          'per cell'}
ASSUMPTIONS = ['in simple mode a point beyond the ends of an axis belongs to '
               'its outermost bin', 'between two bins at the same distance, '
               'either may take the point', 'geographic weights: those of a '
               'sphere, within 2 %', 'the minimum and maximum of weighted '
               'values are those of the products of values and weights']
NAMES = ('count', 'sum_of_weights', 'sum', 'min', 'max', 'mean', 'variance',
         'skewness', 'kurtosis')
POINTS = ((0.25, 0.5, 2.1), (1.0, 1.0, -1.0), (2.5, -0.75, 0.7),
          (3.5, 0.0, 8.0), (1.75, 0.25, NAN), (NAN, 0.0, 5.0),
          (0.0, NAN, 3.0))


def shards(tier):
    out = [{'kind': 'points', 'x': x, 'linear': lin} for x in gm.X_AXES
           for lin in (False, True)]
    out += [{'kind': 'scale', 'part': i} for i in range(4)]
    out += [{'kind': 'geo', 'part': i} for i in range(4)]
    out += [{'kind': 'one', 'x': x} for x in gm.X_AXES]
    out += [{'kind': 'history', 'first': i, 'linear': lin, 'dims': d}
            for i in range(OPS) for lin in (False, True) for d in (2, 1)
            if d == 2 or not lin]
    out += [{'kind': 'delayed', 'dims': d} for d in (1, 2)]
    out += [{'kind': 'refused'}]
    return out


OPS = 11


def explore(ctx, shard):
    import copy
    import pickle

    import numpy as np
    import pyinterp
    from pyinterp import core
    from pyinterp.binning import Binning1D, Binning2D
    import dask.array.core as dac
    kind = shard['kind']

    def axis(desc):
        values, circle = desc
        return core.Axis(np.array([float(v) for v in values]),
                         is_circle=circle)

    def compare(b, model, key, case, tol=1e-9):
        """model: {(i, j): [(value, weight)]}"""
        bad = []
        got = {}
        for name in NAMES:
            got[name] = b.variable(name)
            ctx.step()
        got['variance1'] = b._instance.variance(1)
        shape = got['count'].shape
        for cell in itertools.product(*map(range, shape)):
            pairs = tuple(sorted(model.get(cell, model.get(cell[:1], ()))))
            exp = reference(pairs)
            for name, want in exp.items():
                g = float(got[name][cell])
                if not close(g, want, tol):
                    bad.append(f'{name}{list(cell)}={g} expected {want}')
        if bad:
            ctx.violation(key, '; '.join(bad[:4]), case)
        return not bad

    if kind == 'points':
        xd = gm.X_AXES[shard['x']]
        mx = gm.model(xd)
        linear = shard['linear']
        sub = 8 if ctx.thorough else 4
        for yname, yd in gm.Y_AXES.items():
            my = gm.model(yd)
            X, Y = axis(xd), axis(yd)
            qx = gm.queries(mx, sub, outside='far')
            qy = gm.queries(my, sub, outside='far')
            if mx.angle:
                qx += [q + 360 for q in qx[:3]] + [q - 360 for q in qx[:3]]
            # next to the nodes, where some of the weights are faint
            faint = (F(1, 2**12), F(1, 2**24))
            qx += [mx.values[i] + s * e for i in (0, -1) for e in faint
                   for s in (1, -1)]
            qy += [my.values[i] + s * e for i in (0, -1) for e in faint
                   for s in (1, -1)]
            bins = {np.dtype(t): Binning2D(X, Y, dtype=np.dtype(t))
                    for t in ('f8', 'f4')}
            for x, y in itertools.product([*qx, None], [*qy, None]):
                if linear:
                    cells = [] if x is None or y is None else [
                        (cx, cy) for cx in gm.cells(mx, x)
                        for cy in gm.cells(my, y)]
                    allowed = []
                    for (i0, i1, s), (j0, j1, t) in cells:
                        w = {}
                        for c, p in (((i0, j0), (1 - s) * (1 - t)),
                                     ((i0, j1), (1 - s) * t),
                                     ((i1, j1), s * t), ((i1, j0),
                                                         s * (1 - t))):
                            if p:
                                w[c] = w.get(c, 0) + p
                        if w not in allowed:
                            allowed.append(w)
                    allowed = allowed or [{}]
                elif x is None or y is None:
                    allowed = [{}]
                else:
                    allowed = [{(i, j): 1} for i in mx.index_allowed(x, True)
                               for j in my.index_allowed(y, True)]
                for dt, b in bins.items():
                    b.clear()
                    px, py = (NAN if v is None else float(v) for v in (x, y))
                    if dt == np.dtype('f4') and any(
                            v is not None and float(np.float32(float(v))
                                                    ) != v for v in (x, y)):
                        continue
                    key = f'{shard["x"]}:{yname}:{linear}:{px}:{py}:{dt}'
                    case = {'x': xd[0], 'circle': xd[1], 'y': yd[0],
                            'point': [px, py], 'linear': linear,
                            'dtype': str(dt)}
                    ctx.state(key)
                    ctx.trace()
                    b.push(np.array([px], dtype=dt), np.array([py], dtype=dt),
                           np.array([2.0], dtype=dt), simple=not linear)
                    count = b.variable('count')
                    sow = b.variable('sum_of_weights')
                    mean = b.variable('mean')
                    ctx.step(3)
                    found = {tuple(map(int, c)): float(sow[tuple(c)])
                             for c in np.argwhere(count)}
                    tol = 1e-12 if dt == np.dtype('f8') else 1e-6
                    # a weight that the type can not tell from 0 may be 0
                    eps = 1e-12 if dt == np.dtype('f8') else 5e-7
                    ok = any(set(found) <= set(a) and all(
                        abs(found.get(c, 0) - a[c]) <= tol and
                        (c in found or a[c] <= eps) for c in a)
                        for a in allowed)
                    ok = ok and all(count[c] == 1 and abs(mean[c] - 2) < 1e-6
                                    for c in found)
                    ctx.outcome('outside' if allowed == [{}] else
                                'several' if len(allowed) > 1 else 'inside')
                    if not ok:
                        ctx.violation(key, f'bins {found} expected one of '
                                      f'{[{c: float(w) for c, w in a.items()} for a in allowed]}',
                                      case)
                    # pushing an undefined value changes nothing
                    before = b.variable('count').copy()
                    b.push(np.array([px], dtype=dt), np.array([py], dtype=dt),
                           np.array([NAN], dtype=dt), simple=not linear)
                    ctx.check((b.variable('count') == before).all(),
                              key + ':undefined', 'an undefined value was '
                              'counted', case)
        ctx.sample({'x': xd[0], 'y': yd[0], 'linear': linear})
        return

    if kind == 'scale':
        # grids of any resolution
        for e in range(0, 31):
            step = 2.0**-e if shard['part'] < 2 else 2.0**e
            n = 3 if shard['part'] % 2 else 4
            X = core.Axis(np.arange(n) * step)
            Y = core.Axis(np.arange(3) * step)
            b = Binning2D(X, Y)
            for i, j in itertools.product(range(4 * (n - 1) + 1), range(9)):
                b.clear()
                x, y = i * step / 4, j * step / 4
                b.push(np.array([x]), np.array([y]), np.array([1.0]),
                       simple=False)
                sow = b.variable('sum_of_weights')
                w = np.zeros((n, 3))
                for k in range(n):
                    for m in range(3):
                        w[k, m] = max(0, 1 - abs(k - i / 4)) * max(
                            0, 1 - abs(m - j / 4))
                key = f'scale:{n}:{step}:{i}:{j}'
                ctx.state(key)
                ctx.trace()
                ctx.check(np.allclose(sow, w, atol=1e-9, rtol=0), key,
                          lambda: f'weights {sow.tolist()} expected '
                          f'{w.tolist()}', {'n': n, 'step': step,
                                            'point': [x, y]})
        return

    if kind == 'geo':
        wgs = [core.geodetic.Spheroid(), core.geodetic.Spheroid(6371000.0,
                                                                0.0)]
        lat0 = (-60, -2, 0, 45)[shard['part']]
        for s, w84 in enumerate(wgs):
            for lons, circle in (([10, 11, 12], True), ([179, 180, 181], True),
                                 ([358, 359, 360], True),
                                 ([-1, 0, 1], True), ([1, 0, -1], True),
                                 (list(range(0, 360, 2)), True),
                                 (list(range(-180, 180, 2)), True),
                                 (list(range(358, -1, -2)), True)):
                for lats in ([lat0, lat0 + 1, lat0 + 2],
                             [lat0 + 2, lat0 + 1, lat0]):
                    X, Y = axis((lons, circle)), axis((lats, False))
                    mx, my = gm.model((lons, circle)), gm.model((lats, False))
                    b = Binning2D(X, Y, wgs=w84)
                    qx = gm.queries(mx, 4)
                    if len(qx) > 16:
                        qx = qx[:6] + qx[len(qx) // 2:][:4] + qx[-6:]
                    # and next to the nodes
                    e = F(1, 2**30)
                    qx += [mx.values[0] + e, mx.values[1] - e,
                           mx.values[1] + e]
                    for x, y, turn in itertools.product(
                            qx, [*gm.queries(my, 4), my.values[1] + e,
                                 my.values[1] - e], (-360, 0, 360)):
                        allowed = []
                        sn = lambda v: math.sin(math.radians(float(v)))
                        for i0, i1, p in gm.cells(mx, x):
                            for j0, j1, _ in gm.cells(my, y):
                                a0, a1 = my.values[j0], my.values[j1]
                                q = (sn(y) - sn(a0)) / (sn(a1) - sn(a0))
                                p = float(p)
                                allowed.append({
                                    c: v for c, v in {
                                        (i0, j0): (1 - p) * (1 - q),
                                        (i0, j1): (1 - p) * q,
                                        (i1, j1): p * q,
                                        (i1, j0): p * (1 - q)}.items()})
                        b.clear()
                        b.push(np.array([float(x) + turn]),
                               np.array([float(y)]), np.array([1.0]),
                               simple=False)
                        sow = b.variable('sum_of_weights')
                        found = {tuple(map(int, c)): float(sow[tuple(c)])
                                 for c in np.argwhere(sow)}
                        key = f'geo:{s}:{lons[:3]}:{lats}:{float(x)}:{float(y)}:{turn}'
                        ctx.state(key)
                        ctx.trace()
                        ok = (not allowed and not found) or any(
                            all(abs(found.get(c, 0) - a.get(c, 0)) < 0.02
                                for c in set(found) | set(a))
                            for a in allowed)
                        ctx.outcome('geo' if allowed else 'geo outside')
                        ctx.check(ok, key, lambda: f'weights {found} expected '
                                  f'{allowed}', {'x': lons[:4], 'y': lats,
                                                 'point': [float(x) + turn,
                                                           float(y)]})
        return

    if kind == 'one':
        xd = gm.X_AXES[shard['x']]
        mx = gm.model(xd)
        X = axis(xd)
        lo, hi = float(mx.lo), float(mx.hi)
        for rng in (None, (lo, hi), (lo - 10, hi + 10),
                    (lo + (hi - lo) / 4, hi - (hi - lo) / 4), (hi, lo)):
            a, c = rng or (lo, hi)
            b = Binning1D(X, range=rng)
            ctx.check(tuple(b.range()) == (a, c), f'one:{shard["x"]}:{rng}',
                      lambda: f'range {b.range()}', {'x': xd[0]})
            for x in [*gm.queries(mx, 8, outside='far'), None]:
                for weight in (None, 0.0, 0.5, 3.0):
                    for z in (2.0, NAN):
                        b.clear()
                        px = NAN if x is None else float(x)
                        args = () if weight is None else (np.array([weight]), )
                        b.push(np.array([px]), np.array([z]), *args)
                        allowed = mx.index_allowed(x, True) if (
                            x is not None and a <= px <= c and z == z
                        ) else {None}
                        count = b.variable('count').reshape(-1)
                        sow = b.variable('sum_of_weights').reshape(-1)
                        found = [int(i) for i in np.flatnonzero(count)]
                        key = f'one:{shard["x"]}:{rng}:{px}:{weight}:{z}'
                        ctx.state(key)
                        ctx.trace()
                        ok = found == [] if None in allowed else (
                            len(found) == 1 and found[0] in allowed and
                            count[found[0]] == 1 and sow[found[0]] ==
                            (1 if weight is None else weight))
                        ctx.outcome('1d in' if found else '1d out')
                        ctx.check(ok, key, lambda: f'bins {found} expected '
                                  f'{allowed}', {'x': xd[0], 'range': rng,
                                                 'point': px,
                                                 'weight': weight, 'z': z})
        return

    if kind == 'history':
        # two binnings of the same grid, and lists of weighted points
        dims, linear = shard['dims'], shard['linear']
        X = core.Axis(np.array([0.0, 1.0, 2.0, 3.0]))
        Y = core.Axis(np.array([-1.0, 0.0, 1.0]))
        mx, my = gm.model(([0, 1, 2, 3], False)), gm.model(([-1, 0, 1], False))

        def new():
            return Binning2D(X, Y) if dims == 2 else Binning1D(X)

        def where(k):
            x, y, z = POINTS[k]
            if z != z or x != x or (dims == 2 and y != y):
                return []
            if dims == 1:
                if not 0 <= x <= 3:
                    return []
                near = mx.nearest(x)
                return [((min(near), ), 1)] if len(near) == 1 else []
            if linear:
                out = {}
                for i0, i1, s in gm.cells(mx, x)[:1]:
                    for j0, j1, t in gm.cells(my, y)[:1]:
                        for c, w in (((i0, j0), (1 - s) * (1 - t)),
                                     ((i0, j1), (1 - s) * t),
                                     ((i1, j1), s * t), ((i1, j0),
                                                         s * (1 - t))):
                            if w:
                                out[c] = out.get(c, 0) + w
                return list(out.items())
            return [((min(mx.nearest(x)), min(my.nearest(y))), 1)]

        # points half way between two bins are left to the other kinds
        POINT = [k for k, (x, y, z) in enumerate(POINTS)
                 if linear or not (x == x and y == y) or (
                     len(mx.nearest(x)) == 1 and (
                         dims == 1 or len(my.nearest(y)) == 1))]
        groups = [tuple(POINT[:1]), tuple(POINT[1:3]), tuple(POINT)]

        def push(b, m, group):
            pts = [POINTS[k] for k in group]
            x, y, z = (np.array(c) for c in zip(*pts))
            if dims == 2:
                b.push(x, y, z, simple=not linear)
                for k in group:
                    for c, w in where(k):
                        m.setdefault(c, []).append((F(POINTS[k][2]), F(w)))
            else:
                weights = np.array([(0.0, 1.0, 0.5, 2.0)[k % 4]
                                    for k in group])
                b.push(x, z, weights)
                for k, w in zip(group, weights):
                    for c, _ in where(k):
                        m.setdefault(c, []).append((F(POINTS[k][2]), F(w)))

        def merge(m1, m2):
            return {c: [*m1.get(c, ()), *m2.get(c, ())]
                    for c in {*m1, *m2}}

        def run(ops):
            b = [new(), new()]
            m = [{}, {}]
            for op in ops:
                if op < 6:
                    w = op // 3
                    push(b[w], m[w], groups[op % 3])
                elif op == 6:
                    b[0], m[0] = b[0] + b[1], merge(m[0], m[1])
                elif op == 7:
                    b[1], m[1] = b[0] + b[1], merge(m[0], m[1])
                elif op == 8:
                    b[0].clear()
                    m[0] = {}
                elif op == 9:
                    b[0] = pickle.loads(pickle.dumps(b[0]))
                elif op == 10:
                    # a duplicate that goes on alone
                    b[1] = copy.deepcopy(b[0])
                    m[1] = {c: list(v) for c, v in m[0].items()}
            return b, m

        depth = 4 if ctx.thorough else 3
        for n in range(1, depth + 1):
            for rest in itertools.product(range(OPS), repeat=n - 1):
                ops = (shard['first'], *rest)
                key = f'history:{dims}:{linear}:{ops}'
                case = {'dims': dims, 'linear': linear, 'ops': ops}
                b, m = run(ops)
                ctx.state(key)
                ctx.trace()
                ctx.step(len(ops))
                for i in range(2):
                    compare(b[i], {c: tuple(v) for c, v in m[i].items()},
                            f'{key}:{i}', case)
        ctx.sample({'dims': dims, 'ops': ops})
        return

    if kind == 'delayed':
        dims = shard['dims']
        X = core.Axis(np.array([0.0, 1.0, 2.0, 3.0]))
        Y = core.Axis(np.array([-1.0, 0.0, 1.0]))
        pts = [POINTS[k] for k in (0, 1, 2, 4, 1)]
        x, y, z = (np.array(c) for c in zip(*pts))
        w = np.array([1.0, 0.0, 2.0, 1.0, 0.5])
        n = len(x)
        for mask in range(2**(n - 1)):
            cuts, size = [], 1
            for i in range(n - 1):
                if mask >> i & 1:
                    cuts.append(size)
                    size = 0
                size += 1
            cuts.append(size)
            for tree in ('left', 'right', 'tree'):
                dac.TREE = tree
                for dt in ('f8', 'f4'):
                    dt = np.dtype(dt)
                    arrs = [dac.Array(v.astype(dt), tuple(cuts))
                            for v in (x, y, z, w)]
                    if dims == 2:
                        modes = [(Binning2D(X, Y, dtype=dt), s)
                                 for s in (True, False)]
                    else:
                        modes = [(Binning1D(X, range=r, dtype=dt), wt)
                                 for r in (None, (0.5, 2.0))
                                 for wt in (False, True)]
                    for k, (b, mode) in enumerate(modes):
                        key = f'delayed:{dims}:{cuts}:{tree}:{dt}:{k}'
                        ctx.state(key)
                        ctx.trace()
                        whole = copy.deepcopy(b)
                        if dims == 2:
                            d = b.push_delayed(*arrs[:3], simple=mode)
                            whole.push(x, y, z, simple=mode)
                        else:
                            d = b.push_delayed(arrs[0], arrs[2], arrs[3] if
                                               mode else None)
                            whole.push(x, z, w if mode else None)
                        got = d.compute()
                        bad = [s for s in NAMES if not np.allclose(
                            got.variable(s), whole.variable(s), rtol=1e-4,
                            atol=1e-5, equal_nan=True)
                            and s not in ('skewness', 'kurtosis')]
                        ctx.step(len(NAMES))
                        ctx.check(not bad, key, lambda: f'{bad[0]}: '
                                  f'{got.variable(bad[0]).tolist()} expected '
                                  f'{whole.variable(bad[0]).tolist()}',
                                  {'cuts': cuts, 'tree': tree, 'dims': dims,
                                   'dtype': str(dt)})
                        ctx.check(type(got._instance) == type(b._instance),
                                  key + ':type', lambda: 'type '
                                  f'{type(got._instance).__name__}',
                                  {'dtype': str(dt)})
        return

    # refused: arrays of different sizes, grids that differ
    X = core.Axis(np.array([0.0, 1.0, 2.0]))
    X2 = core.Axis(np.array([0.0, 1.0, 2.5]))
    Y = core.Axis(np.array([0.0, 1.0]))

    def refused(f, key, case):
        ctx.state(key)
        ctx.trace()
        try:
            f()
        except (ValueError, TypeError):
            ctx.outcome('refused')
            ctx.step()
            return
        ctx.violation(key, 'accepted', case)

    for sizes in itertools.product((0, 1, 2, 3), repeat=3):
        arrs = [np.zeros(s) for s in sizes]
        same = len(set(sizes)) == 1
        for simple in (True, False):
            b = Binning2D(X, Y)
            if same:
                b.push(*arrs, simple=simple)
                ctx.check(b.variable('count').sum() == sizes[0],
                          f'sizes:{sizes}', 'count', {'sizes': sizes})
            else:
                refused(lambda: b.push(*arrs, simple=simple),
                        f'sizes2:{sizes}:{simple}', {'sizes': sizes})
        b = Binning1D(X)
        if same:
            b.push(*arrs)
            ctx.check(b.variable('count').sum() == sizes[0],
                      f'sizes1:{sizes}', 'count', {'sizes': sizes})
        else:
            refused(lambda: b.push(*arrs), f'sizes1:{sizes}',
                    {'sizes': sizes})
    wgs = core.geodetic.Spheroid()
    variants = {
        'plain': lambda: Binning2D(X, Y), 'x': lambda: Binning2D(X2, Y),
        'y': lambda: Binning2D(X, X2), 'wgs': lambda: Binning2D(X, Y, wgs),
        'sphere': lambda: Binning2D(X, Y, core.geodetic.Spheroid(6371e3, 0)),
        'float': lambda: Binning2D(X, Y, dtype=np.dtype('f4'))}
    for p, q in itertools.product(variants, repeat=2):
        a, b = variants[p](), variants[q]()
        for pa, pb in itertools.product((False, True), repeat=2):
            if pa:
                a = pickle.loads(pickle.dumps(a))
            if pb:
                b = pickle.loads(pickle.dumps(b))
            key = f'merge:{p}:{q}:{pa}:{pb}'
            ctx.state(key)
            ctx.check((a.wgs is None) == (p not in ('wgs', 'sphere')) and
                      (a.wgs is None or (a.wgs.semi_major_axis, a.wgs.flattening)
                       == (variants[p]().wgs.semi_major_axis,
                           variants[p]().wgs.flattening)),
                      key + ':wgs', lambda: f'wgs {a.wgs}', {'kind': p})
            if p == q:
                (a + b)
                ctx.step()
            else:
                refused(lambda: a + b, key, {'a': p, 'b': q})
    ones = {'plain': lambda: Binning1D(X), 'x': lambda: Binning1D(X2),
            'float': lambda: Binning1D(X, dtype=np.dtype('f4'))}
    for p, q in itertools.product(ones, repeat=2):
        if p != q:
            refused(lambda: ones[p]() + ones[q](), f'merge1:{p}:{q}',
                    {'a': p, 'b': q})
