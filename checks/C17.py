"""C17: RTree queries."""
import collections
import itertools
import math

from checks.rtree_model import cover, dist, ecef, nearest_sets

UNITS = ['enum', 'geodetic-min', 'rtree']
RULE = ('every small set of points of a lattice, Cartesian or geodetic, in '
        'every order of insertion, all positions of a finer lattice, all '
        'numbers of neighbours and options; trees large enough to split '
        'their nodes, built in several orders; every history of operations '
        'of the tree up to a depth; compared with a linear search')
BOUNDS = {'quick': 'sets of up to 3 points of 9 (Cartesian) or 14 '
          '(geodetic), trees of up to 144 points, histories of 3 operations',
          'thorough': 'sets of up to 5 points, trees of up to 400 points, '
          'histories of 4 operations'}
ASSUMPTIONS = ['among points at the same distance any may be chosen',
               'a position within a millimetre of the border of the box of '
               'its neighbours may be inside or outside']
NAN = float('nan')

GEO = [(0., 0., 0.), (90., 0., 0.), (180., 0., 0.), (-90., 0., 100.),
       (0., 90., 0.), (0., -90., 0.), (45., 45., 0.), (225., -45., 500.),
       (1., 1., 0.), (359., 1., -50.), (-1., -1., 0.), (179.5, 60., 0.),
       (-179.5, 60., 0.), (10., 89.9, 0.)]
GEO_Q = GEO + [(180., 90., 0.), (-180., 0., 0.), (360., 0., 0.),
               (180., 60., 0.), (270., 0., 100.), (0., 0., 10000.),
               (0.5, 0.2, 0.), (-135., -45., 0.), (30., -20., 0.),
               (-0.2, 0.1, 0.)]


def shards(tier):
    top = 5 if tier == 'thorough' else 3
    out = []
    for dtype in ('f8', 'f4'):
        for n in range(0, top + 1 if dtype == 'f8' else 3):
            parts = 1 if n < 3 else 4
            out += [{'kind': 'plane', 'n': n, 'dtype': dtype, 'part': i,
                     'of': parts} for i in range(parts)]
    out += [{'kind': 'space', 'part': i, 'of': 4} for i in range(4)]
    for n in range(1, (5 if tier == 'thorough' else 4)):
        parts = 1 if n < 3 else 4
        out += [{'kind': 'geo', 'n': n, 'part': i, 'of': parts,
                 'system': s} for i in range(parts)
                for s in (0, 1)]
    out += [{'kind': 'large', 'n': n} for n in (15, 16, 17, 33, 64, 144)]
    if tier == 'thorough':
        out += [{'kind': 'large', 'n': 400}]
    out += [{'kind': 'history', 'first': i, 'ecef': e} for i in range(8)
            for e in (True, False)]
    out += [{'kind': 'errors'}]
    return out


def tree_of(points, dtype, system=None, is_ecef=True, insert=False,
            columns=3):
    import numpy as np
    import pyinterp
    tree = pyinterp.RTree(system, dtype=np.dtype(dtype), ecef=is_ecef)
    xyz = np.array([p[0][:columns] for p in points], dtype=dtype).reshape(
        len(points), columns)
    v = np.array([p[1] for p in points], dtype=dtype)
    (tree.insert if insert else tree.packing)(xyz, v)
    return tree


def fuzzy(eps):
    return eps if eps > 1e-7 else 0


def answers(model, certain, possible, n, q, eps):
    """Whether the k nearest may or may not surround the position."""
    import itertools
    sure = [model[j][0] for j in certain]
    missing = n - len(certain)
    if math.comb(len(possible), missing) > 300:
        return {True, False}
    out = {cover(sure + [model[j][0] for j in c], q, fuzzy(eps))
           for c in itertools.combinations(possible, missing)}
    return {True, False} if None in out else out


def verify(ctx, tree, model, queries, ks, key, case, eps=1e-9, tol=1e-9,
           columns=3, radii=(), threads=(1, ), place=None):
    """model: [(Cartesian position, value)], queries: [(coordinates given to
    the tree, Cartesian position)]; place: (value -> coordinates)."""
    import numpy as np
    coordinates = np.array([q[0][:columns] for q in queries],
                           dtype='f8').reshape(len(queries), columns)
    values = collections.Counter(v for _, v in model)
    byvalue = {v: p for p, v in model}
    ctx.check(len(tree) == len(model) and bool(tree) == bool(model),
              key + ':len', lambda: f'len {len(tree)}, bool {bool(tree)} for '
              f'{len(model)} points', case)
    for k, within, nt in itertools.product(ks, (False, True), threads):
        d, v = tree.query(coordinates, k=k, within=within, num_threads=nt)
        ctx.trace()
        if d.shape != (len(queries), k) or v.shape != d.shape:
            ctx.violation(key + ':shape', f'shapes {d.shape} {v.shape} for '
                          f'k={k}', case)
            continue
        for i, (given, q) in enumerate(queries):
            di, vi = d[i].tolist(), v[i].tolist()
            certain, possible, want = nearest_sets(model, q, k, eps)
            n = len(want)
            bad = None
            if within:
                allowed = answers(model, certain, possible, n, q, eps)
                if di[0] == -1 and vi[0] == -1 and False in allowed:
                    want, n = [], 0
                elif True not in allowed:
                    want, n = [], 0
                elif True in allowed and vi[n - 1:n] != [-1.0] and all(
                        vi.count(x) == 1 == values[x] for x in vi[:n]):
                    chosen = cover([byvalue[x] for x in vi[:n]], q,
                                   fuzzy(eps))
                    if chosen is False:
                        bad = 'neighbours that do not surround the position'
            if bad:
                pass
            elif di[n:] != [-1.0] * (k - n) or vi[n:] != [-1.0] * (k - n):
                bad = f'{n} neighbours expected'
            elif any(abs(a - b) > max(tol * max(1, b), eps if eps > 1 else 0)
                     for a, b in zip(di, want)):
                bad = f'distances {want} expected'
            elif any(c > values[x] for x, c in collections.Counter(
                    vi[:n]).items()):
                bad = 'values that are not those of distinct points'
            elif any(abs(dist(byvalue[x], q) - a) > max(eps, tol * max(1, a))
                     for x, a in zip(vi[:n], di) if values[x] == 1):
                bad = 'values that are not those at the distances'
            ctx.step()
            if bad:
                ctx.violation(f'{key}:query:{given}:{k}:{within}',
                              f'query({given}, k={k}, within={within}) = '
                              f'{di}, {vi}: {bad}', case)
    for k, radius, within in itertools.product(ks, radii, (False, True)):
        p, v = tree.value(coordinates, radius=radius, k=k, within=within,
                          num_threads=1)
        ctx.trace()
        for i, (given, q) in enumerate(queries):
            certain, possible, want = nearest_sets(model, q, k, eps)
            if any(radius is not None and
                   abs(dist(model[j][0], q) - radius) < eps and eps > 1e-6
                   for j in certain + possible):
                continue
            full = [x for x in want if radius is None or x <= radius]
            n = len(full)
            if within and n:
                inside = [j for j in certain
                          if radius is None or
                          dist(model[j][0], q) <= radius]
                edge = [j for j in possible
                        if radius is None or dist(model[j][0], q) <= radius]
                allowed = answers(model, inside, edge, n, q, eps)
                if len(allowed) > 1:
                    n = n if v[i, 0] == v[i, 0] else 0
                elif False in allowed:
                    n = 0
            vi = v[i].tolist()
            pi = p[i]
            got = [x for x in vi if x == x]
            ok = len(got) == n and all(x != x for x in vi[n:]) and bool(
                np.isnan(pi[n:]).all()) and all(
                    got.count(x) <= values[x] for x in got) and all(
                        x in values for x in got)
            if ok and place is not None:
                for a, b in zip(got, pi[:n].tolist()):
                    if values[a] == 1 and any(
                            not math.isclose(s, t, rel_tol=1e-9,
                                             abs_tol=1e-5)
                            for s, t in zip(place[a], b)):
                        ok = False
            if ok and n:
                have = sorted(dist(byvalue[x], q) for x in got
                              if values[x] == 1)
                if len(have) == n and any(
                        abs(a - b) > max(eps, tol * max(1, b))
                        for a, b in zip(have, full)):
                    ok = False
            ctx.check(ok, f'{key}:value:{given}:{k}:{radius}:{within}',
                      lambda: f'value({given}, radius={radius}, k={k}, '
                      f'within={within}) = {pi.tolist()}, {vi}; {n} '
                      f'neighbours at {full[:n]} expected', case)


def explore(ctx, shard):
    globals()['run_' + shard['kind']](ctx, shard)


def bounds_of(ctx, tree, model, key, case, tol=1e-6):
    b = tree.bounds()
    if not model:
        ctx.check(b == (), key + ':bounds', lambda: f'bounds of an empty '
                  f'tree: {b}', case)
        return
    want = tuple(tuple(f(p[0][i] for p in model) for i in range(3))
                 for f in (min, max))
    ctx.check(all(math.isclose(x, y, rel_tol=tol, abs_tol=tol)
                  for s, t in zip(b, want) for x, y in zip(s, t)),
              key + ':bounds', lambda: f'bounds {b} expected {want}', case)


def run_plane(ctx, shard):
    """Cartesian points of a plane: exact arithmetic."""
    n, dtype = shard['n'], shard['dtype']
    lattice = [(float(x), float(y), 0.0) for x in (-2, -1, 1)
               for y in (-1, 0, 2)]
    queries = [(q, q) for q in ((x / 2, y / 2, 0.0) for x in (-6, -4, -3,
                                                              -2, 0, 1, 2)
                                for y in (-3, -2, -1, 0, 1, 4, 5))]
    for c, pts in enumerate(itertools.combinations_with_replacement(
            range(9), n)):
        if c % shard['of'] != shard['part']:
            continue
        model = [(lattice[p], float(10 + i)) for i, p in enumerate(pts)]
        key = f'plane:{dtype}:{pts}'
        ctx.state(key)
        case = {'points': [m[0] for m in model], 'ecef': True,
                'dtype': dtype}
        for insert in (False, True):
            tree = tree_of(model, dtype, insert=insert,
                           columns=2 if insert else 3)
            verify(ctx, tree, model, queries, (1, 2, n, n + 1) if n > 2 else
                   (1, 2, 3), key + f':{insert}', case,
                   tol=1e-6 if dtype == 'f4' else 1e-9,
                   columns=3 if insert else 2,
                   radii=(None, 1.0, 2.0, 0.0) if not insert else (),
                   place={v: p[:2] for p, v in model})
            bounds_of(ctx, tree, model, key + f':{insert}', case)
        ctx.outcome(f'{n} points')


def run_space(ctx, shard):
    """Cartesian points in space, and every order of insertion."""
    lattice = [(float(x), float(y), float(z)) for x in (-1, 1)
               for y in (-2, 0) for z in (1, 3)]
    queries = [(q, q) for q in itertools.product(
        (-1.5, -1.0, 0.0, 1.0), (-2.0, -1.0, 0.5), (0.0, 1.0, 2.0, 3.0))]
    for c, pts in enumerate(itertools.combinations(range(8), 3)):
        if c % shard['of'] != shard['part']:
            continue
        for order in itertools.permutations(pts):
            model = [(lattice[p], float(p)) for p in order]
            key = f'space:{order}'
            ctx.state(key)
            case = {'points': [m[0] for m in model], 'ecef': True}
            tree = tree_of(model, 'f8', insert=order < pts[::-1])
            verify(ctx, tree, model, queries, (2, 4), key, case,
                   radii=(2.0, ), place=dict((v, p) for p, v in model))
            bounds_of(ctx, tree, model, key, case)
    ctx.outcome('space')


def run_geo(ctx, shard):
    import pyinterp
    a, f = ((6378137.0, 1 / 298.257223563), (1000.0, 0.005))[shard['system']]
    system = None if not shard['system'] else pyinterp.geodetic.Spheroid((a, f))
    queries = [(q, ecef(*q, a, f)) for q in GEO_Q]
    flat = [(q[:2], ecef(*q[:2], 0.0, a, f)) for q in GEO_Q]
    n = shard['n']
    for c, pts in enumerate(itertools.combinations(range(len(GEO)), n)):
        if c % shard['of'] != shard['part']:
            continue
        key = f'geo:{shard["system"]}:{pts}'
        ctx.state(key)
        model = [(ecef(*GEO[p], a, f), float(p)) for p in pts]
        case = {'points': [GEO[p] for p in pts], 'system': [a, f]}
        tree = tree_of([(GEO[p], float(p)) for p in pts], 'f8', system,
                       False, insert=c % 2)
        place = {float(p): ((GEO[p][0] + 180) % 360 - 180, *GEO[p][1:])
                 for p in pts if abs(GEO[p][1]) != 90 and GEO[p][0] != 180}
        verify(ctx, tree, model, queries, (1, n + 1), key, case, eps=1e-3,
               tol=1e-9, radii=(None, a / 2))
        verify(ctx, tree, model, flat, (n, ), key + ':flat', case, eps=1e-3,
               tol=1e-9, columns=2)
        if len(place) == n:
            got_p, got_v = tree.value(
                __import__('numpy').array([GEO[p] for p in pts]), k=1,
                within=False)
            for v, p in zip(got_v[:, 0].tolist(), got_p[:, 0].tolist()):
                ctx.check(all(math.isclose(s, t, abs_tol=1e-6)
                              for s, t in zip(place[v], p)), key + ':place',
                          lambda: f'value() gives {p} for the point '
                          f'{place[v]}', case)
            model2 = [((place[float(p)]), 0) for p in pts]
            bounds_of(ctx, tree, model2, key, case, 1e-5)
        if c % 7 == 0:  # positions without altitude
            model = [(ecef(*GEO[p][:2], 0.0, a, f), float(p)) for p in pts]
            tree = tree_of([(GEO[p], float(p)) for p in pts], 'f8', system,
                           False, columns=2)
            verify(ctx, tree, model, queries, (1, ), key + ':2', case,
                   eps=1e-3)
        if c % 7 == 1 and not shard['system']:
            tree = tree_of([(GEO[p], float(p)) for p in pts], 'f4', system,
                           False)
            verify(ctx, tree, model, queries, (1, n), key + ':f4', case,
                   eps=8.0, tol=1e-5)
        ctx.outcome(f'{n} points')


def orders(n):
    """Several orders of a sequence of n elements."""
    a = list(range(n))
    yield a
    yield a[::-1]
    yield a[::2] + a[1::2]
    yield [x for p in zip(a[:n // 2], a[::-1]) for x in p] + (
        [a[n // 2]] if n % 2 else [])
    for step in (7, 11):
        if math.gcd(step, n) == 1:
            yield [(i * step) % n for i in a]


def run_large(ctx, shard):
    n = shard['n']
    side = math.ceil(math.sqrt(n))
    pts = [(float(i % side), float(i // side) * 1.5, float(i % 3))
           for i in range(n)]
    queries = [(q, q) for q in itertools.product(
        [side * t / 6 for t in range(-1, 8)],
        [side * t / 5 for t in range(-1, 9)], (0.0, 1.0))]
    for o, order in enumerate(orders(n)):
        if sorted(order) != list(range(n)):
            raise RuntimeError('not a permutation')
        model = [(pts[i], float(i)) for i in order]
        key = f'large:{n}:{o}'
        ctx.state(key)
        case = {'points': n, 'order': o}
        for how in ('packing', 'insert', 'one by one', 'both'):
            import numpy as np
            if how in ('packing', 'insert'):
                tree = tree_of(model, 'f8', insert=how == 'insert')
            elif how == 'both':
                tree = tree_of(model[:n // 2], 'f8')
                tree.insert(np.array([m[0] for m in model[n // 2:]]),
                            np.array([m[1] for m in model[n // 2:]]))
            else:
                tree = tree_of([], 'f8')
                for p, v in model:
                    tree.insert(np.array([p]), np.array([v]))
            verify(ctx, tree, model, queries, (1, 4, 9, n + 2) if o < 2 else
                   (1, 5), key + ':' + how, case, radii=(1.5, ),
                   threads=(1, 3) if o == 0 else (1, ))
            bounds_of(ctx, tree, model, key + ':' + how, case)
    ctx.outcome(f'{n} points')


OPS = ('pack A', 'pack B', 'pack none', 'insert A', 'insert C', 'clear',
       'pickle', 'copy')


def run_history(ctx, shard):
    import copy
    import pickle

    import numpy as np
    import pyinterp
    depth = 4 if ctx.thorough else 3
    is_ecef = shard['ecef']
    A = [((0., 0., 0.), 1.0), ((2., -1., 3.), 2.0)]
    B = [((-3., 4., 1.), 3.0), ((-3., 4., 1.), 4.0), ((5., 5., 5.), 5.0)]
    C = [((1., 1., -2.), 6.0)]
    system = None if is_ecef else pyinterp.geodetic.Spheroid((100.0, 0.2))

    def place(p):
        return p if is_ecef else ecef(*p, 100.0, 0.2)

    queries = [(q, place(q)) for q in ((0., 0., 0.), (1., 2., 0.5),
                                       (-2., 3., 1.), (4., 4., 4.))]
    for rest in itertools.product(OPS, repeat=depth - 1):
        history = (OPS[shard['first']], *rest)
        key = f'history:{is_ecef}:{history}'
        ctx.state(key)
        tree = pyinterp.RTree(system, ecef=is_ecef)
        model = []
        old = []  # objects that were copied, and what they hold
        for op in history:
            name, what = op.split() if ' ' in op else (op, '')
            data = {'A': A, 'B': B, 'C': C, 'none': []}.get(what)
            if data is not None:
                xyz = np.array([d[0] for d in data]).reshape(-1, 3)
                v = np.array([d[1] for d in data])
            if name == 'pack':
                tree.packing(xyz, v)
                model = list(data)
            elif name == 'insert':
                tree.insert(xyz, v)
                model = model + data
            elif name == 'clear':
                tree.clear()
                model = []
            else:
                old.append((tree, list(model)))
                tree = pickle.loads(pickle.dumps(tree)) if name == 'pickle' \
                    else copy.copy(tree)
                model = list(model)
        case = {'history': history, 'ecef': is_ecef}
        for who, (t, m) in enumerate([(tree, model), *old]):
            mm = [(place(p), v) for p, v in m]
            verify(ctx, t, mm, queries, (1, 3), f'{key}:{who}', case,
                   eps=1e-9 if is_ecef else 1e-6)
            if is_ecef:
                bounds_of(ctx, t, mm, f'{key}:{who}', case)
        ctx.outcome('history')


def run_errors(ctx, shard):
    import numpy as np
    import pyinterp
    t = pyinterp.RTree(ecef=True)
    bad = [(np.zeros((2, 1)), np.zeros(2)), (np.zeros((2, 4)), np.zeros(2)),
           (np.zeros((2, 3)), np.zeros(3)), (np.zeros(3), np.zeros(1)),
           (np.zeros((2, 3)), np.zeros((2, 1))),
           (np.zeros((1, 1, 3)), np.zeros(1))]
    for x, v in bad:
        for f in (t.packing, t.insert):
            ctx.state(f.__name__, x.shape, v.shape)
            try:
                f(x, v)
                ctx.violation(f'errors:{f.__name__}:{x.shape}:{v.shape}',
                              'accepted', {})
            except ValueError:
                ctx.step()
    t.packing(np.zeros((1, 3)), np.zeros(1))
    for f in (t.query, t.value, t.inverse_distance_weighting,
              t.radial_basis_function, t.window_function,
              t.universal_kriging):
        for x in (np.zeros((2, 1)), np.zeros((2, 4)), np.zeros(3)):
            ctx.state(f.__name__, x.shape)
            try:
                f(x)
                ctx.violation(f'errors:{f.__name__}:{x.shape}', 'accepted',
                              {})
            except ValueError:
                ctx.step()
    for kw in ({'dtype': np.dtype('i4')},
               {'system': pyinterp.geodetic.Spheroid(), 'ecef': True}):
        try:
            pyinterp.RTree(**kw)
            ctx.violation(f'errors:{sorted(kw)}', 'accepted', {})
        except ValueError:
            ctx.step()
    # views of arrays
    big = np.arange(60.0).reshape(10, 6)
    for x in (big[::2, ::2], big[:5, 1:4], np.asfortranarray(big[:5, :3]),
              big[4::-1, 3:]):
        v = np.arange(20.0)[::4]
        t.packing(x, v)
        d, got = t.query(x[::-1], k=1, within=False)
        ctx.check(bool((d == 0).all()) and got[:, 0].tolist() ==
                  v[::-1].tolist(), 'errors:layout', lambda:
                  f'{d.tolist()} {got.tolist()}', {'strides': x.strides})
    ctx.trace()
    ctx.outcome('errors')
