"""C08: one-dimensional interpolators."""
import itertools

UNITS = ['dateutils', 'axis', 'interpolate1d']

RULE = ('every data set with abscissae of gaps 1 or 2 and values on a small '
        'lattice, for every kind and number of points; every point of a finer '
        'lattice, and points outside; values and derivatives compared with '
        'the closed form of the interpolant; every history of calls of depth '
        '3 on one interpolator compared with a new one; windows of '
        'interpolate1d: every half window, every order of the points')
BOUNDS = {'quick': 'minimum size to 5-6 points, values {0,1,3} or {0,1}, '
          'lattice 1/4', 'thorough': 'up to 7 points, values {-1,0,1,3}, '
          'lattice 1/8, histories of depth 4'}
ASSUMPTIONS = ['periodic splines are compared on data whose first and last '
               'values are equal', 'tolerance 1e-9 relative to the values',
               'derivatives at a node may be those of either side']

KINDS = {'linear': 2, 'polynomial': 3, 'c_spline': 4, 'c_spline_periodic': 2,
         'akima': 5, 'akima_periodic': 5, 'steffen': 3}


def build(out, tier):
    from vk import build as b
    return {'ext': b.module('vk1d', f'{b.VERIF}/cpp/vk1d.cpp', out)}


def shards(tier):
    out = []
    for k, n in KINDS.items():
        top = max(n + 1, 5) + (1 if tier == 'thorough' else 0)
        for size in range(n, top + 1):
            out.append({'part': 'values', 'kind': k, 'n': size})
        out.append({'part': 'history', 'kind': k})
        out.append({'part': 'window', 'kind': k})
    return sorted(out, key=lambda s: -s.get('n', 9))


def reference(np, kind, x, y):
    """Pieces [(a, b, c, d)] of the interpolant (None for polynomials)."""
    n = len(x)
    h = np.diff(x)
    m = np.diff(y) / h

    def hermite(s):
        return [(y[i], s[i], (3 * m[i] - 2 * s[i] - s[i + 1]) / h[i],
                 (s[i] + s[i + 1] - 2 * m[i]) / h[i]**2)
                for i in range(n - 1)]

    if kind == 'linear':
        return [(y[i], m[i], 0.0, 0.0) for i in range(n - 1)]
    if kind == 'polynomial':
        return None
    if kind in ('akima', 'akima_periodic'):
        if kind == 'akima':
            e = np.concatenate(([3 * m[0] - 2 * m[1], 2 * m[0] - m[1]], m,
                                [2 * m[-1] - m[-2], 3 * m[-1] - 2 * m[-2]]))
        else:
            e = np.concatenate((m[-2:], m, m[:2]))
        s = []
        for i in range(n):
            a, b, c, d = e[i:i + 4]
            w0, w1 = abs(d - c), abs(b - a)
            s.append((b + c) / 2 if w0 + w1 == 0 else
                     (w0 * b + w1 * c) / (w0 + w1))
        return hermite(s)
    if kind == 'steffen':
        s = [m[0]]
        for i in range(1, n - 1):
            p = (m[i - 1] * h[i] + m[i] * h[i - 1]) / (h[i - 1] + h[i])
            if m[i - 1] * m[i] <= 0:
                s.append(0.0)
            else:
                s.append(np.sign(m[i]) * min(2 * abs(m[i - 1]),
                                             2 * abs(m[i]), abs(p)))
        s.append(m[-1])
        return hermite(s)
    # cubic splines: second derivatives k
    A = np.zeros((n, n))
    r = np.zeros(n)
    for i in range(1, n - 1):
        A[i, i - 1], A[i, i], A[i, i + 1] = h[i - 1], 2 * (h[i - 1] + h[i]), \
            h[i]
        r[i] = 6 * (m[i] - m[i - 1])
    if kind == 'c_spline':
        A[0, 0] = A[-1, -1] = 1
    else:
        A[0, 0], A[0, -1] = 1, -1
        A[-1, -1] += 2 * (h[-1] + h[0])
        A[-1, -2] += h[-1]
        A[-1, 1] += h[0]
        r[-1] = 6 * (m[0] - m[-1])
    k = np.linalg.solve(A, r)
    return [(y[i], m[i] - h[i] * (2 * k[i] + k[i + 1]) / 6, k[i] / 2,
             (k[i + 1] - k[i]) / (6 * h[i])) for i in range(n - 1)]


def evaluate(np, pieces, x, y, p):
    """(value, set of derivatives) at p."""
    n = len(x)
    if not x[0] <= p <= x[-1]:
        return None
    if pieces is None:
        v = dv = 0.0
        for i in range(n):
            den = np.prod([x[i] - x[j] for j in range(n) if j != i])
            num = np.prod([p - x[j] for j in range(n) if j != i])
            dn = sum(np.prod([p - x[j] for j in range(n) if j not in (i, q)])
                     for q in range(n) if q != i)
            v += y[i] * num / den
            dv += y[i] * dn / den
        return v, [dv]
    value, ds = None, []
    for i in range(n - 1):
        if x[i] <= p <= x[i + 1]:
            a, b, c, d = pieces[i]
            t = p - x[i]
            value = a + t * (b + t * (c + t * d))
            ds.append(b + t * (2 * c + t * 3 * d))
    return value, ds


def explore(ctx, shard):
    import sys
    sys.path.insert(0, ctx.info['ext'])
    import numpy as np
    import vk1d
    kind = shard['kind']
    {'values': values, 'history': history, 'window': window}[shard['part']](
        ctx, np, vk1d, kind, shard)


def layouts(n, gaps):
    for g in itertools.product(gaps, repeat=n - 1):
        x = [0.0]
        for v in g:
            x.append(x[-1] + v)
        yield x


def values(ctx, np, vk1d, kind, shard):
    n = shard['n']
    big = ctx.thorough
    alphabet = ([-1, 0, 1, 3] if n <= 4 else [0, 1, 3] if n <= 5 else
                [0, 1]) if big else ([0, 1, 3] if n <= 4 else [0, 1])
    sets = list(itertools.product(alphabet, repeat=n))
    if n >= 5:
        sets += [tuple((i * k + i * i) % 7 for i in range(n))
                 for k in range(7)]
    sub = 8 if big else 4
    if kind == 'c_spline_periodic':
        sets = [s for s in sets if s[0] == s[-1]]
    f = vk1d.Interpolator(kind)
    ctx.check(f.min_size() == KINDS[kind], 'min_size',
              f'{kind}: minimum of {f.min_size()} points', kind)
    for x in layouts(n, (1.0, 2.0)):
        xs = np.array(x)
        pts = np.arange(-1, int(x[-1] * sub) + 2) / sub
        for data in sets:
            y = np.array(data, dtype='f8')
            ctx.state(kind, tuple(x), data)
            pieces = reference(np, kind, xs, y)
            got = f(xs, y, pts)
            der = f.derivative(xs, y, pts)
            ctx.trace()
            for p, v, d in zip(pts, got, der):
                ref = evaluate(np, pieces, xs, y, p)
                case = {'kind': kind, 'x': x, 'y': data, 'xi': p}
                if ref is None:
                    ctx.check(np.isnan(v) and np.isnan(d),
                              f'{kind}:outside',
                              lambda: f'{kind}: {v} (derivative {d}) outside '
                              'the data', lambda: case)
                    continue
                scale = max(1.0, np.abs(y).max())
                ctx.check(abs(v - ref[0]) <= 1e-9 * scale, f'{kind}:value',
                          lambda: f'{kind} at {p}: {v} instead of {ref[0]}',
                          lambda: case)
                ctx.check(any(abs(d - e) <= 1e-8 * scale for e in ref[1]),
                          f'{kind}:derivative',
                          lambda: f'derivative of {kind} at {p}: {d} instead '
                          f'of {ref[1]}', lambda: case)
                if p in x:
                    ctx.outcome('node')
                    ctx.check(abs(v - y[x.index(p)]) <= 1e-9 * scale,
                              f'{kind}:node', lambda: f'{kind} at the node '
                              f'{p}: {v}, not {y[x.index(p)]}', lambda: case)
                else:
                    ctx.outcome('between')
                if kind == 'steffen':
                    i = min(int(np.searchsorted(xs, p, 'right')) - 1, n - 2)
                    lo, hi = sorted(y[i:i + 2])
                    ctx.check(lo - 1e-9 <= v <= hi + 1e-9, 'steffen:overshoot',
                              lambda: f'steffen at {p}: {v} out of '
                              f'[{lo}, {hi}]', lambda: case)
    ctx.sample({'kind': kind, 'x': x, 'y': data, 'first points': pts[:6],
                'values': got[:6]})


def history(ctx, np, vk1d, kind, shard):
    n = KINDS[kind]
    ops = []
    for size in (n - 1, n, n + 1, n + 3):
        for seed in ((1,) if size == n - 1 else (1, 2)):
            x = np.cumsum([1.0 + (i * seed) % 2 for i in range(size)])
            y = np.array([float((i * i * seed + 3 * i) % 7)
                          for i in range(size)])
            if size:
                y[-1] = y[0]
            for what in ('call', 'derivative'):
                ops.append((what, x, y, (x[:-1] + x[1:]) / 2))

    def apply(f, op):
        what, x, y, p = op
        try:
            r = f(x, y, p) if what == 'call' else f.derivative(x, y, p)
            return r.tobytes()
        except ValueError:
            return 'ValueError'

    fresh = [apply(vk1d.Interpolator(kind), op) for op in ops]
    for op, r in zip(ops, fresh):
        ctx.check((r == 'ValueError') == (len(op[1]) < n), f'{kind}:size',
                  f'{kind} with {len(op[1])} points: {r}', kind)
    for h in itertools.product(range(len(ops)),
                               repeat=4 if ctx.thorough else 3):
        f = vk1d.Interpolator(kind)
        ctx.state(kind, h)
        ctx.trace()
        for k in h:
            r = apply(f, ops[k])
            ctx.outcome('refused' if r == 'ValueError' else 'computed')
            ctx.check(r == fresh[k], f'{kind}:history',
                      lambda: f'{kind} depends on the previous calls', lambda: {
                          'kind': kind, 'sizes': [len(ops[i][1]) for i in h],
                          'calls': [ops[i][0] for i in h], 'expected':
                          str(fresh[k]), 'got': str(r)})


def window(ctx, np, vk1d, kind, shard):
    from pyinterp import core
    axes = {'regular': np.arange(8.0), 'irregular': np.array(
        [0, 1, 3, 4, 6, 7, 9, 10.0]), 'offset': np.arange(8.0) * 0.5 - 3,
        'angle': np.array([0, 20, 50, 80, 120, 200, 250, 300.0])}
    for name, x in axes.items():
        axis = core.Axis(x, is_circle=name == 'angle')
        y = np.array([2.0, -1, 3, 3, 0, 5, 1, 2])
        span = x[-1] - x[0]
        pts = [x[0], x[0] + span * 0.03, (x[1] + x[2]) / 2, x[3],
               x[4] + (x[5] - x[4]) * 0.25, x[6] + (x[7] - x[6]) * 0.875,
               x[7]]
        outside = [x[-1] + 0.01, np.nan]
        if name != 'angle':
            outside += [x[0] - 0.25, x[-1] + 100, x[0] - 1e-9, np.inf, -np.inf]
        for half in range(0, 10):
            ref = {}
            for p in pts:
                d = np.abs(x - p)
                ref[p] = []
                for i in np.flatnonzero(d == d.min()):
                    a, b = max(i - half, 0), min(i + half, 7)
                    if b - a + 1 < KINDS[kind]:
                        ref[p].append('ValueError')
                    else:
                        ref[p].append(float(vk1d.Interpolator(kind).one(
                            x[a:b + 1], y[a:b + 1], p)))

            def run(xi, **kw):
                try:
                    return core.interpolate1d(axis, y, np.array(xi),
                                              half_window_size=half,
                                              kind=kind, **kw)
                except (ValueError, IndexError) as e:
                    return type(e).__name__

            ok = [p for p in pts if 'ValueError' not in ref[p]]
            for p in pts:
                ctx.state(kind, name, half, float(p))
                r = run([p])
                case = {'kind': kind, 'axis': x, 'y': y, 'half': half,
                        'xi': p}
                if isinstance(r, str):
                    ctx.outcome('refused')
                    ctx.check(r in ref[p], f'{kind}:window:refused',
                              lambda: f'interpolate1d raises {r}, not '
                              f'{ref[p]}', case)
                else:
                    ctx.outcome('window')
                    ctx.check(any(not isinstance(e, str) and
                                  abs(r[0] - e) <= 1e-9 for e in ref[p]),
                              f'{kind}:window:value', lambda: 'interpolate1d '
                              f'gives {r[0]}, the window {ref[p]}', case)
                if name == 'angle':
                    for turn in (-720, -360, 360):
                        s = run([p + turn])
                        same = (s == r) if isinstance(r, str) else (
                            not isinstance(s, str) and
                            abs(s[0] - r[0]) <= 1e-6)
                        ctx.check(same, f'{kind}:window:turn',
                                  lambda: f'interpolate1d gives {s} for '
                                  f'{p + turn} and {r} for {p}', case)
            for size in (2, 3, 4):
                for xi in itertools.permutations(ok, size):
                    ctx.trace()
                    r = run(xi)
                    one = [run([p]) for p in xi] if size < 3 else None
                    if one is not None:
                        good = not isinstance(r, str) and all(
                            v == o[0] for v, o in zip(r, one))
                    else:
                        good = not isinstance(r, str) and all(
                            any(not isinstance(e, str) and abs(v - e) <= 1e-9
                                for e in ref[p]) for v, p in zip(r, xi))
                    ctx.check(good, f'{kind}:window:order',
                              lambda: f'the points {xi} together give {r}',
                              lambda: {'kind': kind, 'axis': x, 'y': y,
                                       'half': half, 'xi': xi})
                if len(ok) > 5 and size == 3 and not ctx.thorough:
                    break
            for o in outside:
                for before in ([], ok[:1]):
                    case = {'kind': kind, 'axis': x, 'half': half, 'xi': o}
                    if True:
                        r = run(before + [o])
                        ctx.outcome('outside')
                        ctx.check(isinstance(r, str) and r == 'IndexError',
                                  f'{kind}:bounds_error',
                                  lambda: f'{o} is outside the axis and gives '
                                  f'{r}', case)
                        r = run(before + [o], bounds_error=False)
                        ctx.check(not isinstance(r, str) and np.isnan(r[-1])
                                  and not np.isnan(r[:-1]).any(),
                                  f'{kind}:outside', lambda: f'{o} is outside '
                                  f'the axis and gives {r}', case)
    for n in (7, 9):
        try:
            core.interpolate1d(axis, np.zeros(n), np.array([1.0]), kind=kind)
            ctx.check(False, 'shape', 'axis of 8 values accepted with '
                      f'{n} data', n)
        except ValueError:
            ctx.check(True, 'shape', '', n)
