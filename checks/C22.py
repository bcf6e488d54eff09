"""C22: the spatial index over longitudes and latitudes."""
import copy
import itertools
import math
import pickle

from checks.C18 import MAYBE, RBFS, WINDOWS, idw, rbf, window
from checks.geo_model import WGS84, inverse

UNITS = ['enum', 'geodetic']
RULE = ('every small set of positions of a lattice that has the poles and both '
        'sides of the date line, packed or inserted in several orders, every '
        'position of a finer lattice in every convention of longitude, every '
        'number of neighbours, option and interpolation; trees of several '
        'levels; every history of operations up to a depth; compared with a '
        'linear search by geodesic distances (Vincenty)')
BOUNDS = {'quick': 'sets of up to 3 positions of 13, trees of up to 200 '
          'positions, histories of 4 operations',
          'thorough': 'sets of up to 4 positions, trees of up to 600 '
          'positions, histories of 5 operations'}
ASSUMPTIONS = ['among positions at the same distance any may be chosen; '
               'distances are compared within 2e-5 of their value (2e-4 on the '
               'flatter spheroid)',
               'distances between nearly antipodal points (more than 170 '
               'degrees apart) are not judged',
               'the neighbours are ordered by their distance on WGS84',
               '"within" is not judged with a position at a pole, or when '
               'two different arcs of longitudes could enclose the '
               'neighbours',
               'ill conditioned systems (above 1e4) and radial functions '
               'with a single neighbour are not judged']
NAN = float('nan')
# the last ones are close enough for the interpolations to be conditioned
POINTS = [(0., 0.), (90., 0.), (180., 0.), (-179., 45.), (179., 45.),
          (-90., -60.), (0., 90.), (30., -90.), (1., 1.), (359., -0.5),
          (2., -1.), (179.5, -0.7), (-179.2, 0.6)]
QUERIES = [(0., 0.), (0.4, 0.3), (179.7, 0.1), (-180., 0.), (179.9, 45.),
           (-135., -30.), (45., 89.), (10., -89.5), (91., 0.), (-1., 1.),
           (0.2, -0.1), (120., 45.), (180., 44.5), (-0.3, 0.05)]
SYSTEMS = (WGS84, (1000.0, 0.005))
# spheroids that share one parameter with the default
MIXED = ((WGS84[0], 0.005), (1000.0, WGS84[1]))
TOL = 2e-5


def shards(tier):
    out = []
    for n in range(0, 5 if tier == 'thorough' else 4):
        parts = {0: 1, 1: 1, 2: 3, 3: 12, 4: 40}[n]
        out += [{'kind': 'sets', 'n': n, 'part': i, 'of': parts}
                for i in range(parts)]
    sizes = (16, 17, 33, 90, 200) + ((600, ) if tier == 'thorough' else ())
    out += [{'kind': 'large', 'n': n, 'way': w} for n in sizes
            for w in range(3)]
    out += [{'kind': 'history', 'first': i} for i in range(7)]
    out += [{'kind': 'errors'}]
    return out


_memo = {}


def distance(p, q, system=WGS84):
    """None when the points are nearly antipodal."""
    key = (p, q, system)
    if key not in _memo:
        if len(_memo) > 400000:
            _memo.clear()
        a, f = system
        if abs(p[1]) == 90 or abs(q[1]) == 90:
            # the meridians meet at the poles
            p, q = (0., p[1]), (0., q[1])
        d, _ = inverse(p, q, a, f)
        _memo[key] = None if d is None or d > a * math.radians(170) else d
    return _memo[key]


def near(model, q, k, system):
    """(the k nearest sorted by distance, whether they are the only choice),
    None if a distance is not known."""
    d = []
    for p, v in model:
        x = distance(p, q, WGS84)
        if x is None:
            # farther than all the others
            d.append((math.inf, p, v))
        else:
            d.append((x, p, v))
    d.sort(key=lambda x: x[0])
    best = d[:k]
    if any(x[0] == math.inf for x in best):
        return None
    unique = len(d) <= k or not best or \
        d[k][0] - best[-1][0] > TOL * (1 + best[-1][0])
    return [(distance(p, q, system), p, v) for _, p, v in best], unique


def within(points, q):
    """The smallest box of longitudes and latitudes of the points holds the
    position; None when it cannot be told."""
    if not points:
        return False
    if abs(q[1]) == 90 or any(abs(p[1]) == 90 for p in points):
        return None
    lats = [p[1] for p in points]
    if not min(lats) - 1e-9 <= q[1] <= max(lats) + 1e-9:
        return False
    if min(abs(x - q[1]) for x in (min(lats), max(lats))) < 1e-9 and \
            q[1] not in (min(lats), max(lats)):
        return None
    lons = sorted({p[0] % 360 for p in points})
    gaps = [(lons[(i + 1) % len(lons)] - x) % 360 or 360
            for i, x in enumerate(lons)]
    wide = max(gaps)
    if sum(abs(g - wide) < 1e-9 for g in gaps) > 1:
        return None
    i = gaps.index(wide)
    start = lons[(i + 1) % len(lons)]
    lon = q[0] % 360
    return lon in lons or (lon - start) % 360 <= 360 - wide


def make(points, values, spheroid=None, insert=False):
    import numpy as np
    import pyinterp.geodetic
    tree = pyinterp.geodetic.RTree(spheroid)
    lon = np.array([p[0] for p in points], dtype='f8')
    lat = np.array([p[1] for p in points], dtype='f8')
    (tree.insert if insert else tree.packing)(lon, lat, np.array(
        values, dtype='f8'))
    return tree


def coordinates(queries, shift=0.0):
    import numpy as np
    return (np.array([q[0] + shift for q in queries], dtype='f8'),
            np.array([q[1] for q in queries], dtype='f8'))


def close(a, b, system):
    return abs(a - b) <= (TOL + 8 * system[1]**2 * (system is not WGS84)
                          ) * b + 1e-6 * system[0] / 6.4e6


def verify_query(ctx, tree, model, queries, ks, key, case, system=WGS84,
                 shift=0.0, threads=(1, )):
    lon, lat = coordinates(queries, shift)
    ctx.check(len(tree) == len(model) and bool(tree) == bool(model),
              key + ':len', lambda: f'len {len(tree)}, bool {bool(tree)} for '
              f'{len(model)} positions', case)
    place = {v: p for p, v in model}
    for k, inside, nt in itertools.product(ks, (False, True), threads):
        d, v = tree.query(lon, lat, k=k, within=inside, num_threads=nt)
        ctx.trace()
        if d.shape != (len(queries), k) or v.shape != d.shape:
            ctx.violation(key + ':shape', f'shapes {d.shape} {v.shape} for '
                          f'k={k}', case)
            continue
        for i, q in enumerate(queries):
            found = near(model, q, k, system)
            if found is None:
                continue
            want, unique = found
            di, vi = d[i].tolist(), v[i].tolist()
            bad = None
            n = len(want)
            if inside:
                s = within([x[1] for x in want], q)
                if s is None or not unique:
                    continue
                n = n if s else 0
            ctx.step()
            if di[n:] != [-1.0] * (k - n) or vi[n:] != [-1.0] * (k - n):
                bad = f'{n} neighbours expected'
            elif any(not close(a, b[0], system)
                     for a, b in zip(
                         di if system is WGS84 else sorted(di[:n]),
                         sorted(want)[:n])):
                bad = f'distances {[x[0] for x in want]} expected'
            elif len(set(vi[:n])) != n or any(x not in place
                                              for x in vi[:n]):
                bad = 'values that are not those of distinct positions'
            elif any(not close(a, distance(place[x], q, system) or a, system)
                     for a, x in zip(di[:n], vi)):
                bad = 'values that are not those at the distances'
            elif unique and set(vi[:n]) != {x[2] for x in want[:n]}:
                bad = f'values {[x[2] for x in want]} expected'
            if bad:
                ctx.violation(f'{key}:query:{q}:{shift}:{k}:{inside}:{nt}',
                              f'query({q}, longitude {shift:+}, k={k}, '
                              f'within={inside}) = {di}, {vi}: {bad}', case)
            ctx.outcome('surrounded' if inside and n else 'nearest')


def calls(system):
    import numpy as np

    def between(p, q):
        return 0.0 if p == q else distance(p, q, system)

    scale = 1e5 * system[0] / WGS84[0]
    limit = 1e4 if system is WGS84 else 1e3
    for p in (None, 1, 3):
        yield ('inverse_distance_weighting', {} if p is None else {'p': p},
               lambda n, q, r, p=p or 2: idw(n, q, r, p), False)
    for name, f in RBFS.items():
        adjustable = name in ('gaussian', 'inverse_multiquadric',
                              'multiquadric')
        for eps in (None, 0.7 * scale) if adjustable else (None, ):
            for smooth in (0, 0.25):
                yield ('radial_basis_function', {
                    'rbf': name, 'epsilon': eps, 'smooth': smooth},
                    lambda n, q, r, f=f, e=eps, s=smooth:
                    rbf(n, q, r, f, e, s, np, between,
                    limit), True)
    yield ('radial_basis_function', {}, lambda n, q, r: rbf(
        n, q, r, RBFS['multiquadric'], None, 0, np, between,
                    limit), True)
    for name, f in WINDOWS.items():
        args = {'gaussian': (scale, 3 * scale), 'lanczos': (None, 1, 2.5),
                'parzen': (None, 0, 0.5 * scale)}.get(name, (None, ))
        for arg in args:
            value = {'lanczos': 1, 'parzen': 0}.get(name) if arg is None \
                else arg
            yield ('window_function', {'wf': name, 'arg': arg},
                   lambda n, q, r, f=f, a=value: window(n, q, r, f, a), False)


def verify_values(ctx, tree, model, queries, key, case, system, turn,
                  shift=0.0):
    lon, lat = coordinates(queries, shift)
    top = max([abs(v) for _, v in model], default=1.0)
    scale = 1e5 * system[0] / WGS84[0]
    every = calls(system)
    for c, (method, options, formula, after) in enumerate(every):
        settings = list(itertools.product(
            (1, 2, 3, 9), (None, 1.6 * scale, 0.4 * scale, 90 * scale),
            (False, True)))
        for k, radius, inside in settings[(c + turn) % 4::4]:
            if radius is None and method == 'window_function':
                radius = 3.3 * scale
            try:
                got, count = getattr(tree, method)(
                    lon, lat, radius=radius, k=k, within=inside,
                    num_threads=1 + (turn + c) % 97 // 96, **options)
            except (ValueError, TypeError) as err:
                ctx.violation(f'{key}:{method}:{options}', f'{method}(k={k}, '
                              f'radius={radius}, {options}) raised {err!r}',
                              case)
                continue
            ctx.trace()
            for i, q in enumerate(queries):
                found = near(model, q, k, system)
                if found is None or not found[1]:
                    continue
                r = math.inf if radius is None else radius
                if any(abs(x[0] - r) < 2e-4 * r for x in found[0]):
                    continue
                if any(distance(a[1], b[1], system) is None
                       for a in found[0] for b in found[0] if a is not b):
                    continue
                want, n = formula(found[0], q, r)
                if inside:
                    used = [x[1] for x in found[0] if not after or x[0] <= r]
                    s = within(used, q)
                    if s is None:
                        continue
                    if not s:
                        want, n = NAN, 0
                if want is MAYBE:
                    continue
                ctx.step()
                g = float(got[i])
                ok = (g != g and int(count[i]) == 0) if want != want else \
                    abs(g - want) <= 2e-2 * (abs(want) + top) and (
                        n is None or int(count[i]) == n)
                ctx.check(ok, f'{key}:{method}:{options}:{k}:{radius}:'
                          f'{inside}:{q}', lambda:
                          f'{method}({q}, longitude {shift:+}, k={k}, radius='
                          f'{radius}, within={inside}, {options}) = {g}, '
                          f'{int(count[i])} neighbours; expected {want}, {n}',
                          case)
                ctx.outcome('undefined' if want != want else method)


def explore(ctx, shard):
    globals()['run_' + shard['kind']](ctx, shard)


def run_sets(ctx, shard):
    import pyinterp.geodetic
    n = shard['n']
    for c, pts in enumerate(itertools.combinations(range(len(POINTS)), n)):
        if c % shard['of'] != shard['part']:
            continue
        system = SYSTEMS[c % 5 == 4]
        spheroid = None if system is WGS84 and c % 2 else \
            pyinterp.geodetic.Spheroid(system)
        orders = list(itertools.permutations(pts))
        for o, order in enumerate(orders if c % 7 == 0 else
                                  {orders[0], orders[-1]}):
            # longitudes of the positions in another convention
            shift = (0.0, 360.0, -360.0)[(c + o) % 3]
            model = [(POINTS[p], 2.5 * p - 7) for p in order]
            key = f'sets:{order}:{system[0]}'
            ctx.state(key)
            case = {'positions': [m[0] for m in model], 'shift': shift,
                    'spheroid': system}
            tree = make([(p[0] + shift, p[1]) for p, _ in model],
                        [v for _, v in model], spheroid, (o + c) % 2 == 0)
            verify_query(ctx, tree, model, QUERIES, (1, 2, 3, 4)[o % 2::2],
                         key, case, system,
                         (0.0, 360.0, -360.0)[(c + 2 * o) % 3],
                         (1, ) if c % 9 else (0, 2))
            if o == 0:
                verify_values(ctx, tree, model, QUERIES, key, case, system,
                              c, (0.0, 360.0)[c % 2])
    ctx.sample({'positions': [POINTS[p] for p in pts]})


def run_large(ctx, shard):
    """Trees of several levels, over the whole globe."""
    import numpy as np
    n, way = shard['n'], shard['way']
    # a spiral from pole to pole, with no two positions alike
    points = []
    for i in range(n):
        z = 1 - (2 * i + 1) / n
        points.append((round(math.remainder(i * 137.50776, 360), 3),
                       round(math.degrees(math.asin(z)), 3)))
    if way == 1:
        points.sort()
    if way == 2:
        # concentrated around the date line
        points = [(round(math.remainder(180 + p[0] / 60, 360), 4), p[1] / 40)
                  for p in points]
    values = [float(i) for i in range(n)]
    model = list(zip(points, values))
    queries = [(lon, lat) for lon in (-180., -179.6, -91.3, 0., 37.7, 91.,
                                      179.3)
               for lat in (-89., -44.1, -0.6, 0., 1.3, 61., 89.5)]
    for insert in (False, True):
        key = f'large:{n}:{way}:{insert}'
        ctx.state(key)
        case = {'positions': n, 'way': way, 'insert': insert}
        tree = make(points, values, None, insert)
        if insert:
            tree.clear()
            for start in range(0, n, 7):
                part = slice(start, start + 7)
                # in every convention of longitude
                tree.insert(np.array([p[0] + 360 * ((start + i) % 3 - 1)
                                      for i, p in enumerate(points[part])]),
                            np.array([p[1] for p in points[part]]),
                            np.array(values[part]))
        for shift in (0.0, 360.0):
            verify_query(ctx, tree, model, queries, (1, 3, 8, 20), key, case,
                         WGS84, shift, (1, 3))
        verify_values(ctx, tree, model, queries[::5], key, case, WGS84, n)
        other = pickle.loads(pickle.dumps(tree))
        verify_query(ctx, other, model, queries, (5, ), key + ':pickle',
                     case)


def run_history(ctx, shard):
    import pyinterp.geodetic
    import numpy as np
    block = ([(0., 0.), (1., 1.), (359., -0.5)], [(181., 10.), (-179., -5.)],
             [(30., 40.)])
    operations = [('insert', b) for b in block] + [
        ('packing', block[0]), ('packing', block[1]), ('clear', ),
        ('pickle', )]
    queries = QUERIES[:5]
    depth = 5 if ctx.thorough else 4
    counter = itertools.count()
    for system in SYSTEMS + MIXED:
        for n in range(depth):
            for rest in itertools.product(range(7), repeat=n):
                history = (shard['first'], ) + rest
                tree = pyinterp.geodetic.RTree(pyinterp.geodetic.Spheroid(
                    system))
                model, value = [], 0.0
                for o in history:
                    op = operations[o]
                    if op[0] == 'clear':
                        tree.clear()
                        model = []
                    elif op[0] == 'pickle':
                        tree = pickle.loads(pickle.dumps(tree))
                    else:
                        v = [value + i for i in range(len(op[1]))]
                        value += len(v)
                        getattr(tree, op[0])(
                            np.array([p[0] for p in op[1]]),
                            np.array([p[1] for p in op[1]]), np.array(v))
                        model = (model if op[0] == 'insert' else []) + list(
                            zip(op[1], v))
                if not ctx.state(system, history):
                    continue
                key = f'history:{system}:{history}'
                case = {'operations': [operations[o] for o in history],
                        'spheroid': system}
                c = next(counter)
                # positions inserted twice share their distances
                if len({p for p, _ in model}) == len(model):
                    verify_query(ctx, tree, model, queries, (1, 4), key,
                                 case, system)
                    if c % 11 == 0:
                        verify_values(ctx, tree, model, queries, key, case,
                                      system, c)
                else:
                    lon, lat = coordinates(queries)
                    d, v = tree.query(lon, lat, k=len(model), num_threads=1)
                    ctx.trace()
                    for i, q in enumerate(queries):
                        if any(distance(p, q, system) is None
                               for p, _ in model):
                            continue
                        want = sorted(distance(p, q, system)
                                      for p, _ in model)
                        ctx.check(sorted(v[i].tolist()) == sorted(
                            x for _, x in model) and all(
                                close(a, b, system) for a, b in
                                zip(d[i].tolist(), want)), key + f':{q}',
                            lambda: f'neighbours of {q}: {d[i].tolist()}, '
                            f'{v[i].tolist()}', case)
                ctx.check(len(tree) == len(model), key + ':size', lambda:
                          f'len {len(tree)} for {len(model)} positions', case)


def run_errors(ctx, shard):
    import numpy as np
    tree = make([(0., 0.), (1., 1.), (2., 0.)], [1., 2., 3.])
    x2, x3 = np.zeros(2), np.zeros(3)
    bad = [('packing', (x2, x3, x3), {}), ('packing', (x3, x2, x3), {}),
           ('packing', (x3, x3, x2), {}), ('insert', (x2, x3, x3), {}),
           ('insert', (x3, x2, x3), {}), ('insert', (x3, x3, x2), {}),
           ('query', (x2, x3), {}), ('query', (x3, x2), {}),
           ('inverse_distance_weighting', (x2, x3), {}),
           ('inverse_distance_weighting', (x3, x2), {}),
           ('radial_basis_function', (x2, x3), {}),
           ('radial_basis_function', (x3, x2), {}),
           ('window_function', (x2, x3, 1e5), {}),
           ('window_function', (x3, x2, 1e5), {}),
           ('radial_basis_function', (x3, x3), {'rbf': 'unknown'}),
           ('radial_basis_function', (x3, x3), {'rbf': 'cubic',
                                                'epsilon': 1.0}),
           ('window_function', (x3, x3, 1e5), {'wf': 'unknown'}),
           ('window_function', (x3, x3, 1e5), {'wf': 'gaussian'}),
           ('window_function', (x3, x3, 1e5), {'wf': 'parzen', 'arg': -1.}),
           ('window_function', (x3, x3, 1e5), {'wf': 'hamming', 'arg': 1.})]
    for name, args, options in bad:
        key = f'errors:{name}:{[len(a) for a in args[:3] if not isinstance(a, float)]}:{options}'
        ctx.state(key)
        try:
            getattr(tree, name)(*args, **options)
            ctx.violation(key, f'{key} was accepted', {'call': key})
        except (ValueError, RuntimeError, TypeError):
            pass
        ctx.trace()
        ctx.check(len(tree) == 3, key + ':size', lambda: 'the tree changed',
                  {'call': key})
    # an empty request
    none = np.zeros(0)
    d, v = tree.query(none, none, k=3)
    ctx.check(d.shape == (0, 3) == v.shape, 'errors:empty', lambda:
              f'{d.shape} {v.shape}', {})
    # defaults
    d, v = tree.query(x2, x2)
    ctx.check(d.shape == (2, 4) and v[0].tolist()[3] == -1.0, 'errors:default',
              lambda: f'{d} {v}', {})
    clone = copy.copy(tree)
    e, w = clone.query(x2, x2)
    ctx.check(len(clone) == 3 and (d == e).all() and (v == w).all(),
              'errors:copy', lambda: f'{e} {w}', {})
