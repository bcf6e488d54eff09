"""C18: interpolation of the values of an RTree."""
import itertools
import math

from checks.rtree_model import cover, dist, ecef

UNITS = ['enum', 'geodetic-min', 'rtree']
RULE = ('every small set of points of a lattice, at generic positions and at '
        'the points themselves, with every interpolation method, function, '
        'power, radius, number of neighbours and option; compared with the '
        'formulas of the documentation evaluated on the neighbours found by '
        'a linear search')
BOUNDS = {'quick': 'sets of up to 3 points out of 18 (Cartesian) or 7 '
          '(geodetic), 21 positions', 'thorough': 'sets of up to 4 points'}
ASSUMPTIONS = ['the neighbours are the k nearest within the radius; IDW and '
               'window functions require that the k nearest surround the '
               'position, RBF and kriging that those within the radius do',
               'ill conditioned systems (above 1e9) are not judged',
               'a radial function with a single neighbour is not judged']
NAN = float('nan')
LATTICE = [(float(x), float(y), float(z)) for x in (-1, 0, 2)
           for y in (-2, 0, 1) for z in (0, 1)]
QUERIES = [(0.31, -0.77, 0.13), (-0.42, 0.35, 0.61), (1.23, 0.58, 0.47),
           (-2.1, 0.7, 0.2), (0.9, -1.3, 0.72), (3.3, 2.2, -1.4)]
GEO = [(0., 0., 0.), (1.3, 0.4, 0.), (0.2, 1.1, 20000.), (359., -0.5, 0.),
       (-0.7, 0.9, -3000.), (0.6, -1.2, 50000.), (1.0, 1.0, 1000.)]
GEO_Q = [(0.33, 0.21, 500.), (0.11, 0.52, 9000.), (359.8, 0.1, 1500.),
         (0.7, 0.3, 0.), (2.0, 2.1, 7.)]
VALUES = (3.1, -1.0, 4.7, 2.3, 0.25, -7.9, 1.1)


def shards(tier):
    out = []
    for n in range(0, 5 if tier == 'thorough' else 4):
        parts = {3: 16, 4: 48}.get(n, 2)
        out += [{'kind': 'plain', 'n': n, 'part': i, 'of': parts}
                for i in range(parts)]
    out += [{'kind': 'geo', 'n': n} for n in range(1, 6)]
    out += [{'kind': 'names'}]
    return out


# -- formulas ---------------------------------------------------------------
def sinc(x):
    return 1.0 if x == 0 else math.sin(math.pi * x) / (math.pi * x)


def cosines(*a):
    def f(d, r, _):
        t = math.pi * (d + r) / r
        return sum((-1)**i * c * math.cos(i * t) for i, c in enumerate(a))
    return f


WINDOWS = {
    'blackman': cosines(7938 / 18608, 9240 / 18608, 1430 / 18608),
    'blackman_harris': cosines(0.35875, 0.48829, 0.14128, 0.01168),
    'boxcar': lambda d, r, _: 1.0,
    'flat_top': cosines(0.21557895, 0.41663158, 0.277263158, 0.083578947,
                        0.006947368),
    'hamming': cosines(0.53836, 0.46164),
    'nuttall': cosines(0.3635819, 0.4891775, 0.1365995),
    'gaussian': lambda d, r, s: math.exp(-0.5 * (d / s)**2),
    'lanczos': lambda d, r, a: sinc(d / r) * sinc(d / (a * r)),
    'parzen': lambda d, r, a: 1 - 6 * (d / r)**2 * (1 - d / r)
    if d <= (2 * r + a) / 4 else 2 * (1 - d / r)**3,
    'parzen_swot': lambda d, r, _: 1 - 6 * (d / r)**2 + 6 * (d / r)**3
    if d <= r / 2 else 2 * (1 - d / r)**3,
}
S3, S5 = math.sqrt(3), math.sqrt(5)
COVARIANCES = {
    'matern_12': lambda t: math.exp(-t),
    'matern_32': lambda t: (1 + S3 * t) * math.exp(-S3 * t),
    'matern_52': lambda t: (1 + S5 * t + 5 * t * t / 3) * math.exp(-S5 * t),
    'whittle_matern': lambda t: (1 + S3 * t) * math.exp(-S3 * t),
    'cauchy': lambda t: 1 / (1 + t * t),
    'exponential': lambda t: math.exp(-t),
    'gaussian': lambda t: math.exp(-t * t),
    'spherical': lambda t: 1 - 1.5 * t + 0.5 * t**3 if t <= 1 else 0.0,
    'linear': lambda t: 1 - t if t <= 1 else 0.0,
}
RBFS = {
    'cubic': lambda r, e: r**3,
    'gaussian': lambda r, e: math.exp(-(r / e)**2),
    'inverse_multiquadric': lambda r, e: 1 / math.sqrt(1 + (r / e)**2),
    'linear': lambda r, e: r,
    'multiquadric': lambda r, e: math.sqrt(1 + (r / e)**2),
    'thin_plate': lambda r, e: r * r * math.log(r) if r else 0.0,
}
MAYBE = object()


def idw(near, q, radius, p):
    if near and near[0][0] < 1e-6:
        return near[0][2], None
    near = [x for x in near if x[0] <= radius]
    if not near:
        return NAN, 0
    w = [x[0]**-p for x in near]
    return sum(a * x[2] for a, x in zip(w, near)) / sum(w), len(near)


def window(near, q, radius, f, arg):
    r = radius if radius < math.inf else near[-1][0] if near else 0.0
    near = [x for x in near if x[0] <= radius]
    if not near:
        return NAN, 0
    w = [f(x[0], r, arg) if r else 1.0 for x in near]
    if abs(sum(w)) < max(1e-6, 1e-5 * max(map(abs, w))):
        return MAYBE, None
    return sum(a * x[2] for a, x in zip(w, near)) / sum(w), len(near)


def solve(a, b, np, limit=1e9):
    a = np.array(a)
    if np.linalg.cond(a) > limit:
        return None
    return np.linalg.solve(a, np.array(b))


def rbf(near, q, radius, f, eps, smooth, np, dist=dist, limit=1e9):
    near = [x for x in near if x[0] <= radius]
    n = len(near)
    if not n:
        return NAN, 0
    if n == 1:
        return MAYBE, 1
    pts = [x[1] for x in near]
    d = [[dist(a, b) for b in pts] for a in pts]
    e = eps or sum(map(sum, d)) / (n * (n - 1))
    w = solve([[f(x, e) - (smooth if i == j else 0)
                for j, x in enumerate(r)] for i, r in enumerate(d)],
              [x[2] for x in near], np, limit)
    if w is None:
        return MAYBE, n
    return sum(f(x[0], e) * c for x, c in zip(near, w)), n


def kriging(near, q, radius, f, sigma, rho, np):
    near = [x for x in near if x[0] <= radius]
    n = len(near)
    if not n:
        return NAN, 0
    pts = [x[1] for x in near]
    w = solve([[f(dist(a, b) / rho) for b in pts] for a in pts],
              [f(x[0] / rho) for x in near], np)
    if w is None:
        return MAYBE, n
    return sum(x[2] * c for x, c in zip(near, w)), n


def nearest(model, q, k):
    """The k nearest points, None if several are as close."""
    d = sorted(((dist(p, q), p, v) for p, v in model), key=lambda x: x[0])
    if k < len(d) and d[k][0] - d[k - 1][0] < 1e-9 * (1 + d[k][0]):
        return None
    return d[:k]


def surrounded(near, q, eps):
    c = cover([x[1] for x in near], q, eps)
    return c if c is not None or eps > 1e-7 else cover(
        [x[1] for x in near], q, 0)


def calls(scale, full):
    """(method, options, formula(near, q, radius) -> (value, count), whether
    'within' looks at the neighbours within the radius)."""
    import numpy as np
    for p in (1, 2, 3):
        yield ('inverse_distance_weighting', {'p': p},
               lambda n, q, r, p=p: idw(n, q, r, p), False)
    for name, f in RBFS.items():
        adjustable = name in ('gaussian', 'inverse_multiquadric',
                              'multiquadric')
        for eps in (None, 0.7 * scale) if adjustable else (None, ):
            for smooth in (0, 0.25):
                yield ('radial_basis_function', {
                    'rbf': name, 'epsilon': eps, 'smooth': smooth},
                    lambda n, q, r, f=f, e=eps, s=smooth:
                    rbf(n, q, r, f, e, s, np), True)
    for name, f in WINDOWS.items():
        args = {'gaussian': (scale, 3 * scale), 'lanczos': (None, 1, 2.5),
                'parzen': (None, 0, 0.5 * scale)}.get(name, (None, ))
        for arg in args:
            value = {'lanczos': 1, 'parzen': 0}.get(name) if arg is None \
                else arg
            yield ('window_function', {'wf': name, 'arg': arg},
                   lambda n, q, r, f=f, a=value: window(n, q, r, f, a), False)
    for name, f in COVARIANCES.items():
        for sigma, rho in ((1.0, 0.8 * scale), (2.5, 5 * scale)):
            yield ('universal_kriging', {'covariance': name, 'sigma': sigma,
                                         'alpha': rho},
                   lambda n, q, r, f=f, s=sigma, a=rho:
                   kriging(n, q, r, f, s, a, np), True)
    yield ('radial_basis_function', {}, lambda n, q, r: rbf(
        n, q, r, RBFS['multiquadric'], None, 0, np), True)
    yield ('universal_kriging', {}, lambda n, q, r: kriging(
        n, q, r, COVARIANCES['matern_32'], 1.0, 1e6, np), True)
    yield ('inverse_distance_weighting', {}, lambda n, q, r: idw(
        n, q, r, 2), False)


def verify(ctx, tree, model, queries, key, case, scale, turn, eps, tol=1e-6,
           columns=3):
    import numpy as np
    xyz = np.array([q[0][:columns] for q in queries]).reshape(-1, columns)
    top = max([abs(v) for _, v in model], default=1.0)
    every = list(calls(scale, True))
    for c, (method, options, formula, after) in enumerate(every):
        settings = list(itertools.product((1, 2, 3, 9), (None, 1.6 * scale,
                                                         0.4 * scale),
                                          (False, True)))
        if columns == 3 and scale == 1:
            # Neighbours exactly at the radius
            settings += [(k, r, False) for k in (9, 2) for r in (1.0, 2.0, 3.0)]
        # the settings are spread over the methods and the sets
        for k, radius, within in settings[(c + turn) % 4::4]:
            got, count = getattr(tree, method)(
                xyz, radius=radius, k=k, within=within, num_threads=1 + (
                    turn + c) % 97 // 96, **options)
            ctx.trace()
            for i, (given, q) in enumerate(queries):
                near = nearest(model, q, k)
                if near is None:
                    continue
                r = math.inf if radius is None else radius
                want, n = formula(near, q, r)
                if within:
                    used = [x for x in near if x[0] <= r] if after else near
                    s = surrounded(used, q, eps)
                    if s is None:
                        continue
                    if not s:
                        want, n = NAN, 0
                if want is MAYBE:
                    continue
                g = float(got[i])
                # formulas without a system to solve
                fine = 1e-9 if tol == 1e-6 and method in (
                    'window_function', 'inverse_distance_weighting') else tol
                ok = (g != g) if want != want else abs(g - want) <= fine * (
                    abs(want) + top)
                if ok and n is not None and want == want:
                    ok = int(count[i]) == n
                elif ok and want != want:
                    ok = int(count[i]) == 0
                ctx.check(ok, f'{key}:{method}:{options}:{k}:{radius}:'
                          f'{within}:{given}', lambda:
                          f'{method}({given}, k={k}, radius={radius}, within='
                          f'{within}, {options}) = {g}, {int(count[i])} '
                          f'neighbours; expected {want}, {n}', case)
                ctx.outcome('undefined' if want != want else method)


def explore(ctx, shard):
    globals()['run_' + shard['kind']](ctx, shard)


def run_plain(ctx, shard):
    import numpy as np
    import pyinterp
    n = shard['n']
    for c, pts in enumerate(itertools.combinations(range(len(LATTICE)), n)):
        if c % shard['of'] != shard['part']:
            continue
        model = [(LATTICE[p], VALUES[i]) for i, p in enumerate(pts)]
        key = f'plain:{pts}'
        ctx.state(key)
        dtype = 'f4' if c % 11 == 10 else 'f8'
        tree = pyinterp.RTree(ecef=True, dtype=np.dtype(dtype))
        tree.packing(np.array([m[0] for m in model], dtype=dtype).reshape(
            n, 3), np.array([m[1] for m in model], dtype=dtype))
        queries = [(q, q) for q in QUERIES + [m[0] for m in model] +
                   [(0.0, 0.0, 0.5)]]
        verify(ctx, tree, model, queries, key, {
            'points': model, 'ecef': True, 'dtype': dtype}, 1.0, c,
            1e-9 if dtype == 'f8' else 1e-5,
            1e-6 if dtype == 'f8' else 5e-3)
        # at the points
        if n:
            xyz = np.array([m[0] for m in model])
            for method, options, formula, _ in calls(1.0, True):
                if method == 'window_function' or options.get(
                        'smooth') or dtype == 'f4' or formula(
                            nearest(model, model[0][0], n), model[0][0],
                            math.inf)[0] is MAYBE:
                    continue
                got, _ = getattr(tree, method)(xyz, k=n, within=False,
                                               num_threads=1, **options)
                ctx.trace()
                ctx.check(all(abs(g - m[1]) < 1e-4 for g, m in zip(
                    got.tolist(), model)), key + f':{method}:{options}:nodes',
                    lambda: f'{method}({options}) at the points: '
                    f'{got.tolist()}', {'points': model})
    ctx.outcome(f'{n} points')


def run_geo(ctx, shard):
    import numpy as np
    import pyinterp
    n = shard['n']
    for c, pts in enumerate(itertools.combinations(range(len(GEO)), n)):
        model = [(ecef(*GEO[p]), VALUES[i]) for i, p in enumerate(pts)]
        key = f'geo:{pts}'
        ctx.state(key)
        tree = pyinterp.RTree()
        tree.insert(np.array([GEO[p] for p in pts]), np.array(
            [m[1] for m in model]))
        queries = [(q, ecef(*q)) for q in GEO_Q]
        verify(ctx, tree, model, queries, key, {
            'points': [GEO[p] for p in pts]}, 1e5, c, 1e-3)
        if c % 3 == 0:
            flat = [(q, ecef(*q[:2], 0.0)) for q in GEO_Q]
            verify(ctx, tree, model, flat, key + ':2', {
                'points': [GEO[p] for p in pts]}, 1e5, c + 1, 1e-3,
                columns=2)
    ctx.sample({'points': [GEO[p] for p in pts]})


def run_names(ctx, shard):
    import numpy as np
    import pyinterp
    tree = pyinterp.RTree(ecef=True)
    tree.packing(np.array(LATTICE), np.arange(18.0))
    x = np.array(QUERIES)
    bad = [('radial_basis_function', {'rbf': 'unknown'}),
           ('radial_basis_function', {'rbf': 'cubic', 'epsilon': 1.0}),
           ('window_function', {'wf': 'unknown'}),
           ('window_function', {'wf': 'gaussian'}),
           ('window_function', {'wf': 'lanczos', 'arg': 0.5}),
           ('window_function', {'wf': 'parzen', 'arg': -1.0}),
           ('window_function', {'wf': 'hamming', 'arg': 1.0}),
           ('universal_kriging', {'covariance': 'unknown'}),
           ('universal_kriging', {'sigma': 0.0}),
           ('universal_kriging', {'alpha': 0.0})]
    for method, options in bad:
        ctx.state(method, str(options))
        try:
            getattr(tree, method)(x, **options)
            ctx.violation(f'names:{method}:{options}', 'accepted', {})
        except ValueError:
            ctx.step()
    # undefined positions, number of threads, number of neighbours
    hole = x.copy()
    hole[1, 0] = NAN
    many = np.concatenate([hole] * 9)
    for method, options, _, _ in calls(1.0, True):
        f = getattr(tree, method)
        a, na = f(many, k=5, within=False, num_threads=1, **options)
        ctx.trace()
        ctx.check(bool(np.isnan(a[1::6]).all()), f'names:nan:{method}:'
                  f'{options}', lambda: f'{a[1::6].tolist()} at an undefined '
                  'position', {})
        for threads in (0, 2, 7):
            b, nb = f(many, k=5, within=False, num_threads=threads, **options)
            ctx.check(np.array_equal(a, b, equal_nan=True) and
                      np.array_equal(na, nb), f'names:threads:{method}:'
                      f'{options}', 'depends on the number of threads', {})
        e, ne = f(x[:0], **options)
        ctx.check(e.shape == (0, ), f'names:empty:{method}', 'not empty', {})
    ctx.outcome('names')
