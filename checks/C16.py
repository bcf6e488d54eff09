"""C16: filling undefined values."""
import itertools
import math
from fractions import Fraction as F

UNITS = ['enum', 'axis', 'dateutils', 'grid', 'fill']
RULE = ('every mask of small vectors, matrices and grids, over several value '
        'fields, types, memory layouts and undefined values, with every '
        'filling method and option; compared with linear interpolation in '
        'rational numbers, with the exact solution of the Laplace equation '
        'and with the weighted means of the definition')
BOUNDS = {'quick': 'vectors of up to 9, matrices of up to 12 and grids of up '
          'to 12 elements, half windows of 1 to 3, circles of 4 to 36 nodes',
          'thorough': 'vectors of up to 12, matrices of up to 16 elements'}
ASSUMPTIONS = ['the distance of loess is in the unit of the axes, divided by '
               'the half window; its window is mirrored at the ends of an '
               'axis and wraps around angles',
               'vectors of integers and dates are rounded by less than one '
               'unit', 'relative tolerance 1e-9 (1e-4 for float32)']
NAN = float('nan')
FIELDS = (tuple(i * i for i in range(20)),
          (7, -3, 12, 5, 5, -20, 1, 0, 33, 8, -6, 2, 14, 3, 3, 9, -1, 0, 4, 1),
          tuple(3 - 2 * i for i in range(20)))


def shards(tier):
    out = [{'kind': 'vector', 'n': n} for n in range(0, 13 if tier ==
                                                    'thorough' else 10)]
    shapes = [(1, 1), (1, 4), (4, 1), (2, 2), (2, 4), (4, 2), (3, 3), (2, 5)]
    shapes += [(3, 4), (4, 3)]
    if tier == 'thorough':
        shapes += [(2, 7), (3, 5), (4, 4)]
    out += [{'kind': 'matrix', 'shape': s} for s in shapes]
    for s in ((1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2),
              (5, 2), (3, 4) if tier == 'thorough' else (2, 4)):
        for circle in (False, True):
            if circle and s[0] == 1:
                continue
            out.append({'kind': 'gauss', 'shape': s, 'circle': circle})
    out.append({'kind': 'gauss3d'})
    out += [{'kind': 'loess', 'case': i} for i in range(len(LOESS))]
    out += [{'kind': 'loess3d', 'dim': d} for d in (3, 4)]
    return out


# x values, is_circle, y values, half windows, number of masks
LOESS = [
    ((0., 1., 2.), False, (0., 1., 2.), (1, 2, 3), 'all'),
    ((2., 1., 0.), False, (1., 0.5), (1, 2, 3), 'all'),
    ((0., 0.5, 2.), False, (3., 1., 0.), (1, 2, 3), 'all'),
    ((5., ), False, (0., 1., 2.), (1, 2, 3), 'all'),
    ((0., 1., 2., 3.), False, (1., ), (1, 2, 3), 'all'),
    ((7., ), False, (1., ), (1, 2, 3), 'all'),
    ((0., 90., 180., 270.), True, (0., 1.), (1, 100, 190), 'all'),
    ((270., 180., 90., 0.), True, (0., 1.), (1, 100, 190), 'all'),
    ((-180., -135., -90., -45., 0., 45., 90., 135.), True, (0., ),
     (1, 50, 100), 'all'),
    (tuple(10. * i for i in range(36)), True, (0., 1.), (3, 11, 15), 'few'),
    (tuple(350. - 10. * i for i in range(36)), True, (0., 1.), (3, 11, 15),
     'few'),
    (tuple(-180. + 10. * i for i in range(36)), True, (0., 1.), (11, 17),
     'few'),
    (tuple(180. - 10. * i for i in range(36)), True, (1., 0.), (11, 17),
     'few'),
    ((355., 356., 357., 358., 359., 360., 361.), True, (0., ), (1, 2, 3),
     'all'),
    ((4., 3., 2., 1., 0., -1.), True, (0., ), (1, 2, 3), 'all'),
]


def line(values, mask):
    """Linear interpolation between defined values, extrapolation with the
    slope between the first and the last ones. mask: True if defined."""
    where = [i for i, m in enumerate(mask) if m]
    if len(where) < 2:
        return list(values), list(mask)
    out = []
    a, b = where[0], where[-1]
    slope = (F(values[b]) - F(values[a])) / (b - a)
    for i in range(len(values)):
        if mask[i]:
            out.append(F(values[i]))
        elif i < a or i > b:
            out.append(F(values[a]) + slope * (i - a))
        else:
            p = max(j for j in where if j < i)
            n = min(j for j in where if j > i)
            out.append(F(values[p]) + (F(values[n]) - F(values[p])) *
                       (i - p) / (n - p))
    return out, [True] * len(values)


def masks(n):
    return itertools.product((True, False), repeat=n)


def laplace(values, mask, circle):
    """Exact solution; values, mask: arrays (nx, ny)."""
    import numpy as np
    nx, ny = values.shape
    hidden = [tuple(p) for p in np.argwhere(~mask)]
    where = {p: k for k, p in enumerate(hidden)}
    a = np.zeros((len(hidden), len(hidden)))
    b = np.zeros(len(hidden))

    def mirror(i, n):
        if n == 1:
            return 0
        return 1 if i < 0 else n - 2 if i >= n else i

    for (i, j), k in where.items():
        a[k, k] += 4
        for di, dj in ((-1, 0), (1, 0), (0, -1), (0, 1)):
            p = ((i + di) % nx if circle else mirror(i + di, nx),
                 mirror(j + dj, ny))
            if p in where:
                a[k, where[p]] -= 1
            else:
                b[k] += values[p]
    out = values.copy()
    if mask.any():
        sol = np.linalg.solve(a, b)
        for p, k in where.items():
            out[p] = sol[k]
    else:
        out[:] = 0
    return out


def residual(grid, mask, circle):
    import numpy as np
    nx, ny = grid.shape
    worst = 0.0
    for i, j in np.argwhere(~mask):
        ns = []
        for d in (-1, 1):
            ii = i + d
            if circle:
                ii %= nx
            elif not 0 <= ii < nx:
                ii = i - d if nx > 1 else i
            jj = j + d
            if not 0 <= jj < ny:
                jj = j - d if ny > 1 else j
            ns += [grid[ii, j], grid[i, jj]]
        worst = max(worst, abs(sum(ns) / 4 - grid[i, j]))
    return worst


def window(i, half, n, wraps):
    out = []
    for k in range(i - half, i + half + 1):
        if wraps:
            k %= n
        elif n == 1:
            k = 0
        else:
            period = 2 * (n - 1)
            k %= period
            if k >= n:
                k = period - k
        out.append(k)
    return out


def loess_weights(x, circle, y, nx, ny, np):
    """W[i, j, k, l]: weight of the value (k, l) in the mean at (i, j)."""
    out = np.zeros((len(x), len(y), len(x), len(y)))
    for i in range(len(x)):
        for j in range(len(y)):
            for k in window(i, nx, len(x), circle):
                dx = x[k] - x[i]
                if circle:
                    dx = (dx + 180) % 360 - 180
                for m in window(j, ny, len(y), False):
                    d = math.hypot(dx / nx, (y[m] - y[j]) / ny)
                    if d <= 1:
                        out[i, j, k, m] += (1 - d**3)**3
    return out


def explore(ctx, shard):
    globals()['run_' + shard['kind']](ctx, shard)


def run_vector(ctx, shard):
    import numpy as np
    from pyinterp import fill
    n = shard['n']
    wide = [np.array(f[:n]) for f in FIELDS]
    nat = np.datetime64('NaT')
    for mask in masks(n):
        m = np.array(mask, dtype=bool)
        for fi, field in enumerate(wide):
            values = field.tolist()
            exp, full = line(values, mask)
            expf = [float(v) if ok else NAN for v, ok in zip(exp, full)]
            text = ''.join('x' if v else '.' for v in mask)
            key = f'vector:{text}:{fi}'
            ctx.state(key)
            for dtype, hole, tol in (('f8', NAN, 1e-9), ('f4', NAN, 1e-4),
                                     ('f8', -999.0, 1e-9),
                                     ('f4', 1e20, 1e-4)):
                for in_place in (True, False):
                    data = field.astype(dtype)
                    data[~m] = hole
                    before = data.copy()
                    got = fill.vector(data, dtype(hole) if callable(dtype)
                                      else hole, in_place) \
                        if hole == hole or n % 2 else fill.vector(
                            data, in_place=in_place)
                    case = {'field': values, 'mask': text, 'dtype': dtype,
                            'undefined': hole, 'in_place': in_place}
                    ctx.trace()
                    ctx.check(got.dtype == data.dtype and (
                        (got is data) == in_place) and (in_place or
                                                        np.array_equal(
                        data, before, equal_nan=True)),
                        key + ':place', 'not filled in place as asked', case)
                    hol = float(np.array(hole, dtype))
                    want = [v if ok else hol for v, ok in zip(expf, full)]
                    ctx.check(np.array_equal(got[m], before[m]) and all(
                        (g == w or (g != g and w != w) or
                         abs(g - w) <= tol * max(1, abs(w)))
                        for g, w in zip(got.tolist(), want)),
                        key + f':{dtype}:{hole}',
                        lambda: f'{got.tolist()} expected {want}', case)
            # integers
            for scale in (1, 10**15 + 7):
                big = [v * scale for v in values]
                exact, full = line(big, mask)
                for kind in ('int', 'M8[s]', 'M8[ns]', 'm8[us]', 'M8[D]'):
                    if scale > 1 and kind == 'M8[D]':
                        continue
                    data = np.array(big, dtype='i8')
                    hole = -1234567 if kind == 'int' else np.iinfo('i8').min
                    data[~m] = hole
                    before = data.copy()
                    if kind == 'int':
                        got = fill.vector(data, hole)
                    elif kind == 'M8[s]':
                        got = fill.vector(data.view(kind))
                    elif kind[0] == 'M':
                        got = fill.vector(data.view(kind), nat)
                    else:
                        got = fill.vector(data.view(kind),
                                          np.timedelta64('NaT'))
                    got = got.view('i8').tolist()
                    ctx.trace()
                    ctx.check(all(
                        g == e if ok and (b or e.denominator == 1) else
                        abs(g - e) < 1 if ok else g == hole
                        for g, e, ok, b in zip(got, map(F, exact), full,
                                               mask)),
                        key + f':{kind}', lambda:
                        f'{got} expected {[str(e) for e in exact]}',
                        {'field': big, 'mask': text, 'kind': kind})
                # a date in another unit than the vector
                if scale == 1 and 12 * 86400 not in big:
                    data = np.array([v * 86400 for v in values],
                                    dtype='M8[s]')
                    special = np.datetime64('1969-11-03')
                    data[~m] = special
                    got = fill.vector(data, special).view('i8').tolist()
                    hole = int(special.astype('M8[s]').astype('i8'))
                    if hole not in [v * 86400 for v in values]:
                        e2, _ = line([v * 86400 for v in values], mask)
                        ctx.check(all(abs(g - e) < 1 if ok else g == hole
                                      for g, e, ok in zip(got, e2, full)),
                                  key + ':unit', lambda:
                                  f'{got} expected {[str(e) for e in e2]}',
                                  {'field': values, 'mask': text,
                                   'undefined': str(special)})
            ctx.outcome('filled' if all(full) else 'not enough values')
    for bad in (np.zeros((2, 2)), np.zeros(2, dtype='i4'), [1.0, NAN]):
        try:
            fill.vector(bad)
            ctx.violation('vector:accepted', f'accepted {bad!r}', {})
        except ValueError:
            pass
    ctx.sample({'mask': text, 'expected': expf})


def run_matrix(ctx, shard):
    import numpy as np
    from pyinterp import fill
    rows, cols = shard['shape']
    n = rows * cols
    for mask in masks(n):
        m = np.array(mask, dtype=bool).reshape(rows, cols)
        text = '/'.join(''.join('x' if v else '.' for v in r) for r in m)
        for fi, field in enumerate(FIELDS[:2]):
            values = [list(field[i * cols:(i + 1) * cols])
                      for i in range(rows)]
            out = []
            state = []
            for v, k in zip(values, m.tolist()):
                a, b = line(v, k)
                out.append(a)
                state.append(b)
            for j in range(cols):
                a, b = line([out[i][j] for i in range(rows)],
                            [state[i][j] for i in range(rows)])
                for i in range(rows):
                    out[i][j], state[i][j] = a[i], b[i]
            ok = np.array(state)
            exp = np.array(out, dtype='f8')
            key = f'matrix:{text}:{fi}'
            ctx.state(key)
            base = np.array(values, dtype='f8')
            for layout, dtype, hole, in_place in (
                ('C', 'f8', NAN, True), ('F', 'f8', NAN, True),
                ('strided', 'f8', -999.0, True), ('C', 'f4', NAN, True),
                ('F', 'f4', 1e20, False), ('reversed', 'f8', NAN, False)):
                if (fi + len(layout)) % 2 and n > 10:
                    continue
                data = np.where(m, base, hole).astype(dtype)
                hol = float(np.array(hole, dtype))
                if layout == 'F':
                    data = np.asfortranarray(data)
                elif layout == 'strided':
                    big = np.full((rows * 2, cols * 3), 5.0)
                    big[::2, ::3] = data
                    data = big[::2, ::3]
                elif layout == 'reversed':
                    data = np.ascontiguousarray(data[::-1])[::-1]
                before = data.copy()
                case = {'field': values, 'mask': text, 'layout': layout,
                        'dtype': dtype, 'undefined': hole}
                got = fill.matrix(data, hole, in_place) if hole == hole else \
                    fill.matrix(data, in_place=in_place)
                ctx.trace()
                tol = 1e-4 if dtype == 'f4' else 1e-9
                want = np.where(ok, exp, hol)
                good = (got == want) | np.isclose(got, want, rtol=tol,
                                                  atol=tol, equal_nan=True)
                ctx.check(bool(good.all()) and np.array_equal(
                    got[m], before[m]), key + f':{layout}:{dtype}:{hole}',
                    lambda: f'{got.tolist()} expected {want.tolist()}', case)
                ctx.check((got is data) == in_place and (
                    in_place or np.array_equal(data, before, equal_nan=True)),
                    key + ':place', 'not filled in place as asked', case)
                if layout == 'strided':
                    rest = np.ones(big.shape, dtype=bool)
                    rest[::2, ::3] = False
                    ctx.check(bool((big[rest] == 5).all()), key + ':outside',
                              'wrote outside of the matrix', case)
            ctx.outcome('filled' if ok.all() else 'partly filled')
    for bad in (np.zeros(2), np.zeros((2, 2), dtype='i8')):
        try:
            fill.matrix(bad)
            ctx.violation('matrix:accepted', f'accepted {bad!r}', {})
        except (ValueError, TypeError):
            pass
    ctx.sample({'mask': text, 'expected': exp.tolist()})


def axes(nx, ny, circle):
    import numpy as np
    import pyinterp
    x = pyinterp.Axis(np.arange(nx) * (360.0 / nx) if circle else
                      np.arange(nx) * 1.0, is_circle=circle)
    return x, pyinterp.Axis(np.arange(ny) * 1.0)


def run_gauss(ctx, shard):
    import numpy as np
    import pyinterp
    from pyinterp import fill
    nx, ny = shard['shape']
    circle = shard['circle']
    x, y = axes(nx, ny, circle)
    circle = x.is_circle
    n = nx * ny
    for mask in masks(n):
        m = np.array(mask, dtype=bool).reshape(nx, ny)
        text = '/'.join(''.join('x' if v else '.' for v in r) for r in m)
        for fi, field in enumerate(FIELDS[:2]):
            base = np.array(field[:n], dtype='f8').reshape(nx, ny)
            exp = laplace(base, m, circle)
            data = np.where(m, base, NAN)
            grid = pyinterp.Grid2D(x, y, data.copy())
            key = f'gauss:{circle}:{text}:{fi}'
            ctx.state(key)
            first = None
            for guess, threads, relax in itertools.product(
                ('zonal_average', 'zero'), (1, ), (None, 1.0)):
                case = {'field': base.tolist(), 'mask': text,
                        'first_guess': guess, 'num_threads': threads,
                        'is_circle': circle, 'relaxation': relax}
                ok, got = fill.gauss_seidel(
                    grid, guess, max_iteration=20000, epsilon=1e-11,
                    relaxation=relax, num_threads=threads)
                ctx.trace()
                ctx.check(bool(ok) and np.array_equal(got[m], base[m]) and
                          np.allclose(got, exp, rtol=1e-6, atol=1e-6),
                          key + f':{guess}:{relax}', lambda:
                          f'converged: {ok}, {got.tolist()} expected '
                          f'{exp.tolist()}', case)
            # few iterations
            for it, eps, threads in itertools.product((0, 1, 2, 5, None),
                                                      (1e-1, 1e-4),
                                                      (1, 2 + fi * 3)):
                case = {'field': base.tolist(), 'mask': text,
                        'max_iteration': it, 'epsilon': eps,
                        'num_threads': threads, 'is_circle': circle}
                ok, got = fill.gauss_seidel(grid, max_iteration=it,
                                            epsilon=eps, relaxation=1.0,
                                            num_threads=threads)
                if it == 0 and not m.all():
                    continue  # the first guess, whose residual is unknown
                worst = residual(got, m, circle) if not np.isnan(
                    got).any() else math.inf
                if threads == 1:
                    first = got
                ctx.check(np.array_equal(got[m], base[m]) and (
                    not ok or worst <= eps * (1 + 1e-6)) and np.array_equal(
                        got, first), key + f':{it}:{eps}', lambda:
                    f'converged: {ok}, {got.tolist()}, residual {worst}, one '
                    f'thread: {first.tolist()}', case)
                ctx.outcome('converged' if ok else 'not converged')
            ctx.check(np.array_equal(np.asarray(grid.array), data,
                                     equal_nan=True), key + ':modified',
                      'the grid given was modified', {'mask': text})
            if fi == 0:
                g32 = pyinterp.Grid2D(x, y, data.astype('f4'))
                ok, got = fill.gauss_seidel(g32, max_iteration=2000,
                                            epsilon=1e-5, num_threads=1)
                ctx.check(got.dtype == np.float32 and np.array_equal(
                    got[m], base[m]) and np.allclose(got, exp, atol=2e-2),
                    key + ':f4', lambda: f'{got.tolist()} expected '
                    f'{exp.tolist()}', {'mask': text, 'dtype': 'float32'})
    try:
        fill.gauss_seidel(grid, 'unknown')
        ctx.violation('gauss:guess', 'unknown first guess accepted', {})
    except ValueError:
        pass
    ctx.sample({'mask': text, 'expected': exp.tolist()})


def run_gauss3d(ctx, shard):
    import numpy as np
    import pyinterp
    from pyinterp import fill
    base = np.array(FIELDS[1][:12], dtype='f8').reshape(2, 2, 3)
    for circle in (False, True):
        x, y = axes(2, 2, circle)
        z = pyinterp.Axis(np.arange(3.0))
        for mask in masks(12):
            m = np.array(mask, dtype=bool).reshape(2, 2, 3)
            data = np.where(m, base, NAN)
            grid = pyinterp.Grid3D(x, y, z, data.copy())
            text = ''.join('x' if v else '.' for v in mask)
            key = f'gauss3d:{circle}:{text}'
            ctx.state(key)
            ok, got = fill.gauss_seidel(grid, max_iteration=5000,
                                        epsilon=1e-11,
                                        num_threads=sum(mask) % 3)
            ctx.trace()
            exp = np.stack([laplace(base[:, :, k], m[:, :, k], x.is_circle)
                            for k in range(3)], axis=2)
            ctx.check(bool(ok) and np.allclose(got, exp, atol=1e-6) and
                      np.array_equal(got[m], base[m]) and np.array_equal(
                          np.asarray(grid.array), data, equal_nan=True),
                      key, lambda: f'{got.tolist()} expected {exp.tolist()}',
                      {'mask': text, 'is_circle': circle})
    ctx.outcome('3D')


def run_loess(ctx, shard):
    import numpy as np
    import pyinterp
    from pyinterp import fill
    xs, circle, ys, halves, which = LOESS[shard['case']]
    x, y = pyinterp.Axis(np.array(xs), is_circle=circle), pyinterp.Axis(
        np.array(ys))
    nx, ny = len(xs), len(ys)
    n = nx * ny
    base = np.array([(FIELDS[1][i % 20] + i) for i in range(n)],
                    dtype='f8').reshape(nx, ny)
    if which == 'all':
        every = [np.array(m).reshape(nx, ny) for m in masks(n)]
    else:  # one or two values, defined or undefined, close to the seam
        every = []
        spots = [(i, j) for i in (0, 1, 2, nx - 3, nx - 1, nx // 2)
                 for j in range(ny)]
        for size in (1, 2):
            for c in itertools.combinations(spots, size):
                m = np.zeros((nx, ny), dtype=bool)
                for p in c:
                    m[p] = True
                every += [m, ~m]
    wh = [(a, b) for a in halves for b in ((1, 2) if a < 4 else (1, ))]
    for hx, hy in wh:
        w = loess_weights(xs, circle, ys, hx, hy, np)
        for mi, m in enumerate(every):
            data = np.where(m, base, NAN)
            total = np.einsum('ijkl,kl->ij', w, m.astype('f8'))
            mean = np.einsum('ijkl,kl->ij', w, np.where(m, base, 0.0))
            # a weight that is zero up to rounding is not judged
            near = total > 1e-12
            mean = np.where(near, mean / np.where(near, total, 1), data)
            text = '/'.join(''.join('x' if v else '.' for v in r) for r in m)
            key = f'loess:{shard["case"]}:{hx}:{hy}:{mi}'
            ctx.state(key)
            for vt in ('undefined', 'defined', 'all', None):
                if vt == 'all':
                    exp = mean
                elif vt == 'defined':
                    exp = np.where(m, mean, data)
                else:
                    exp = np.where(m, data, mean)
                dtype = 'f4' if vt is None else 'f8'
                grid = pyinterp.Grid2D(x, y, data.astype(dtype))
                got = fill.loess(grid, hx, hy, vt, num_threads=(1, 2, 0)[
                    mi % 3] if mi % 50 == 0 else 1)
                tol = 1e-4 if dtype == 'f4' else 1e-9
                unsure = ~near & (total > 0)
                good = np.isclose(got, exp, rtol=tol, atol=tol * 10,
                                  equal_nan=True) | unsure
                ctx.trace()
                ctx.check(bool(good.all()) and got.dtype == np.dtype(dtype),
                          key + f':{vt}', lambda:
                          f'{got.tolist()} expected {exp.tolist()}',
                          {'x': xs, 'is_circle': circle, 'y': ys, 'nx': hx,
                           'ny': hy, 'mask': text, 'value_type': vt})
                if vt == 'undefined':
                    ctx.check(np.array_equal(got[m], base[m]), key + ':kept',
                              'defined values modified', {'mask': text})
            ctx.outcome('filled' if not np.isnan(mean).any() else 'holes')
    for a, b, vt in ((0, 1, None), (1, 0, None), (1, 1, 'unknown')):
        try:
            fill.loess(grid, a, b, vt)
            ctx.violation('loess:accepted', f'accepted {a}, {b}, {vt}', {})
        except ValueError:
            pass
    ctx.sample({'x': xs, 'mask': text, 'expected': exp.tolist()})


def run_loess3d(ctx, shard):
    import numpy as np
    import pyinterp
    from pyinterp import fill
    dim = shard['dim']
    for xs, circle in (((0., 1., 2.), False), ((270., 180., 90., 0.), True)):
        ys = (0., 1.)
        x, y = pyinterp.Axis(np.array(xs), is_circle=circle), pyinterp.Axis(
            np.array(ys))
        half = (1, 2) if not circle else (100, )
        weights = {h: loess_weights(xs, circle, ys, h, 2, np) for h in half}
        nx, ny = len(xs), 2
        n = nx * ny
        for temporal in (False, True):
            z = pyinterp.TemporalAxis(np.arange(2).astype('M8[s]')) \
                if temporal else pyinterp.Axis(np.arange(2.0))
            u = pyinterp.Axis(np.arange(3.0))
            tail = (2, ) if dim == 3 else (2, 3)
            layers = int(np.prod(tail))
            for mi, mask in enumerate(masks(n)):
                # every layer has a mask of its own
                shift = [np.roll(np.array(mask), k).reshape(nx, ny) ^
                         (k % 2 == 1) for k in range(layers)]
                m = np.stack(shift, axis=2).reshape(nx, ny, *tail)
                base = np.arange(m.size, dtype='f8').reshape(m.shape)**1.5
                data = np.where(m, base, NAN)
                args = (x, y, z) if dim == 3 else (x, y, z, u)
                grid = getattr(pyinterp, f'Grid{dim}D')(*args, data.copy())
                for h in half:
                    w = weights[h]
                    total = np.einsum('ijkl,kl...->ij...', w, m.astype('f8'))
                    mean = np.einsum('ijkl,kl...->ij...', w,
                                     np.where(m, base, 0.0))
                    near = total > 1e-12
                    mean = np.where(near, mean / np.where(near, total, 1),
                                    data)
                    key = f'loess{dim}d:{circle}:{temporal}:{h}:{mi}'
                    ctx.state(key)
                    for vt in ('undefined', 'defined', 'all'):
                        exp = mean if vt == 'all' else np.where(
                            m, mean, data) if vt == 'defined' else np.where(
                                m, data, mean)
                        got = fill.loess(grid, h, 2, vt,
                                         num_threads=1 + mi % 2)
                        good = np.isclose(got, exp, rtol=1e-9, atol=1e-8,
                                          equal_nan=True) | (
                                              ~near & (total > 0))
                        ctx.trace()
                        ctx.check(bool(good.all()), key + f':{vt}', lambda:
                                  f'{got.tolist()} expected {exp.tolist()}',
                                  {'x': xs, 'mask': m.tolist(), 'nx': h,
                                   'value_type': vt})
    ctx.outcome(f'{dim}D')
