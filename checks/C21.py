"""C21: line strings and the crossovers of tracks."""
import copy
import itertools
import math
import pickle
from fractions import Fraction as F

from checks.geo_model import WGS84, central_angle, ecef, inverse

UNITS = ['enum', 'geodetic']
RULE = ('every pair of tracks of a lattice (3 or 4 points, every direction, '
        'common points included) at several places, across the date line, in '
        'the conventions [-180, 180[ and [0, 360[: the crossovers, the nearest '
        'indexes and the limit of distance against exact intersections of '
        'segments; every line string of a lattice: distance along it, closest '
        'point, simplification, text, GeoJSON, pickle, histories of appends')
BOUNDS = {'quick': '27 x 27 tracks x 4 pairs of lattices, 81 x 27 longer ones',
          'thorough': 'more places, conventions and directions'}
ASSUMPTIONS = ['segments are geodesics of half a degree: crossings that are '
               'closer than 2% of a segment to its ends, without being common '
               'points of the tracks, are not judged', 'no segment lies on '
               'the equator', 'tracks that have common points use the same '
               'convention of longitudes', 'the plane mode needs tracks of three points']
H = 0.5
PLACES = [(10, 10.15), (179.5, -30), (-0.7, 45), (178.83, -66), (-180, 20.5),
          (-179.81, -12)]
MARGIN = F(2, 100)
R = WGS84[0]


def tracks(n, dx, dy, turn, values=(0, 1, 2)):
    """Tracks of n points, one per column of the lattice."""
    for v in itertools.product(values, repeat=n):
        t = [(F(i) + dx, F(y) + dy) for i, y in enumerate(v)]
        if turn:
            # from south to north
            t = [(y, x) for x, y in t]
        yield tuple(t)


def family(name):
    """The pairs of tracks of a family."""
    o = (F(23, 100), F(9, 20))
    a3, z = list(tracks(3, 0, 0, False)), (0, 0)
    if name == 'same':
        return a3, list(tracks(3, *z, False))
    if name == 'shift':
        return a3, list(tracks(3, *o, False))
    if name == 'turn':
        return a3, list(tracks(3, *z, True))
    if name == 'turnshift':
        return a3, list(tracks(3, *o, True))
    if name == 'long':
        return (list(tracks(4, 0, 0, False)),
                list(tracks(3, F(9, 20), F(23, 100), False, (0, 1, 2))))
    return (list(tracks(5, F(-1), 0, False, (0, 2))),
            list(tracks(5, F(-3, 5), F(9, 20), False, (0, 1))))


def cross(a, b, c, d):
    """Intersection of two segments: None, 'unsure', 'overlap', or
    (point, sure)."""
    r = (b[0] - a[0], b[1] - a[1])
    s = (d[0] - c[0], d[1] - c[1])
    w = (c[0] - a[0], c[1] - a[1])
    det = r[0] * s[1] - r[1] * s[0]
    common = [p for p in (a, b) if p in (c, d)]
    if det == 0:
        if w[0] * r[1] - w[1] * r[0] == 0:
            lo = max(min(a, b), min(c, d))
            hi = min(max(a, b), max(c, d))
            if lo < hi:
                return 'overlap'
            if lo == hi:
                return lo if common else 'unsure'
            return None
        # parallel segments: the bulge of geodesics is below the margin
        n2 = r[0]**2 + r[1]**2
        gap = (w[0] * r[1] - w[1] * r[0])**2 / n2
        return 'unsure' if gap < MARGIN**2 else None
    if common:
        return common[0]
    t = (w[0] * s[1] - w[1] * s[0]) / det
    u = (w[0] * r[1] - w[1] * r[0]) / det
    m = MARGIN
    if m < t < 1 - m and m < u < 1 - m:
        return (a[0] + t * r[0], a[1] + t * r[1])
    if t < -m or t > 1 + m or u < -m or u > 1 + m:
        return None
    return 'unsure'


def crossings(a, b):
    out = []
    for p, q in zip(a, a[1:]):
        for r, s in zip(b, b[1:]):
            x = cross(p, q, r, s)
            if x in ('unsure', 'overlap'):
                return x
            if x is not None and x not in out:
                out.append(x)
    return out


def wrap(lon, convention):
    if convention == '360':
        return lon % 360
    if convention == '180':
        return (lon + 180) % 360 - 180
    return lon


def coordinates(track, place, convention):
    return ([wrap(place[0] + H * float(x), convention) for x, _ in track],
            [place[1] + H * float(y) for _, y in track])


def near(p, q, tol=0.02):
    return math.hypot((p[0] - q[0] + 180) % 360 - 180, p[1] - q[1]) < tol


def shards(tier):
    thorough = tier == 'thorough'
    out = [{'kind': 'odd'}]
    places = range(len(PLACES)) if thorough else range(4)
    names = ['same', 'shift', 'turn', 'turnshift', 'long']
    if thorough:
        names.append('five')
    for i in places:
        for n in names:
            out += [{'kind': 'pairs', 'place': i, 'family': n, 'part': j,
                     'of': 3 if thorough else 1}
                    for j in range(3 if thorough else 1)]
    for i in places:
        out.append({'kind': 'line', 'place': i})
    out.append({'kind': 'history'})
    return out


def attempt(call):
    try:
        return call()
    except RuntimeError as err:
        return err


def indexes(lon, lat, p):
    """The points of a track nearest to p, within rounding errors."""
    d = [central_angle((x, y), p) for x, y in zip(lon, lat)]
    return {i for i, v in enumerate(d) if v <= min(d) * 1.004 + 1e-7}


def plane_indexes(lon, lat, p):
    d = [math.hypot((x - p[0] + 180) % 360 - 180, y - p[1])
         for x, y in zip(lon, lat)]
    return {i for i, v in enumerate(d) if v <= min(d) + 1e-3}


def pair(ctx, g, np, name, place, a, b, conv, flags, memo):
    key = (name, place, tuple(flags), conv,
           tuple(int(100 * v) for p in a + b for v in p))
    if not ctx.state(*key):
        return
    ctx.trace()
    want = memo
    if flags[0]:
        a = a[::-1]
    if flags[1]:
        b = b[::-1]
    (x1, y1), (x2, y2) = (coordinates(a, place, conv[0]),
                          coordinates(b, place, conv[1]))
    case = {'lon1': x1, 'lat1': y1, 'lon2': x2, 'lat2': y2}
    k = f'{name}:{place}:{conv}:{flags}:' + ','.join(
        str(float(v)) for p in a + b for v in p)
    x1, y1, x2, y2 = map(np.array, (x1, y1, x2, y2))
    l1, l2 = g.LineString(x1, y1), g.LineString(x2, y2)
    obj = g.Crossover(l1, l2)
    ctx.outcome(want if isinstance(want, str) else f'{len(want)} crossings')
    if want == 'unsure':
        # the queries only have to agree
        found = obj.search_all()
        ctx.check(bool(found) == obj.exists(), f'agree:{k}',
                  'exists() and search_all() differ', case)
        return
    ctx.check(obj.exists() == (want == 'overlap' or bool(want)) and
              l1.intersects(l2) == obj.exists(), f'exists:{k}',
              lambda: f'exists() is {obj.exists()}, the tracks cross at '
              f'{want}', case)
    if want == 'overlap':
        return
    at = [(place[0] + H * float(x), place[1] + H * float(y))
          for x, y in want]
    for mode in ('class', 'sphere', 'geodetic', 'plane'):
        wgs = g.Spheroid((6371000., 0.)) if mode == 'sphere' else None
        if mode == 'sphere' and len(at) != 1:
            continue
        args = (x1, y1, x2, y2)
        if mode in ('class', 'sphere'):
            found = obj.search_all(wgs)
            one = attempt(lambda: obj.search(wgs))
        else:
            pairs = g.calculate_crossover_list(
                *args, cartesian_plane=mode == 'plane')
            found = [p for p, _ in pairs]
            one = attempt(lambda: g.calculate_crossover(
                *args, cartesian_plane=mode == 'plane'))
        got = [(p.lon, p.lat) for p in found]
        ok = len(got) == len(at) and all(
            sum(near(p, q) for q in got) == 1 for p in at)
        if not ctx.check(ok, f'{mode}:list:{k}', lambda: f'the crossovers are '
                         f'{got}, not {at}', case):
            continue
        if len(at) > 1:
            ctx.check(isinstance(one, RuntimeError), f'{mode}:many:{k}',
                      lambda: f'{one} instead of an error for {at}', case)
        elif not at:
            ctx.check(one is None, f'{mode}:none:{k}', lambda: f'{one} '
                      'instead of None', case)
        else:
            p = one
            if isinstance(one, tuple):
                ctx.check(one == pairs[0], f'{mode}:same:{k}', lambda:
                          f'{one} and {pairs}', case)
                p = one[0]
            ctx.check(not isinstance(p, Exception) and p is not None and
                      near((p.lon, p.lat), at[0]), f'{mode}:one:{k}',
                      lambda: f'the crossover is {p}, not {at[0]}', case)
        if mode in ('class', 'sphere'):
            pairs = [(p, obj.nearest(p, None, 'thomas', wgs)) for p in found]
        for p, ix in pairs:
            ctx.check(-180 <= p.lon <= 180 if mode == 'plane' else True,
                      f'{mode}:range:{k}', lambda: f'longitude {p.lon}', case)
            q = (p.lon, p.lat)
            w1, w2 = ((plane_indexes(x1, y1, q), plane_indexes(x2, y2, q))
                      if mode == 'plane' else
                      (indexes(x1, y1, q), indexes(x2, y2, q)))
            if not ctx.check(ix is not None and ix[0] in w1 and ix[1] in w2,
                             f'{mode}:nearest:{k}', lambda: f'the nearest '
                             f'points of {q} are {ix}, not {w1}, {w2}', case):
                continue
            d = [p.distance(g.Point(float(x[i]), float(y[i])), 'thomas', wgs)
                 for x, y, i in ((x1, y1, ix[0]), (x2, y2, ix[1]))]
            for limit in {0.0, min(d) * 0.999, (min(d) + max(d)) / 2,
                          max(d) * 0.999, max(d) * 1.001 + 1e-3}:
                close = max(d) <= limit
                if abs(max(d) - limit) < 1e-6:
                    continue
                if mode in ('class', 'sphere'):
                    r = obj.nearest(p, limit, 'thomas', wgs)
                    ctx.check(r == (ix if close else None),
                              f'{mode}:limit:{k}', lambda: f'nearest is {r} '
                              f'for a limit of {limit}, the distances being '
                              f'{d}', case)
                else:
                    r = g.calculate_crossover_list(
                        *args, predicate=limit,
                        cartesian_plane=mode == 'plane')
                    ctx.check(((p, ix) in r) == close, f'{mode}:limit:{k}',
                              lambda: f'{r} for a limit of {limit}, the '
                              f'distances being {d}', case)
                    if len(pairs) == 1:
                        r = g.calculate_crossover(
                            *args, predicate=limit,
                            cartesian_plane=mode == 'plane')
                        ctx.check(r == ((p, ix) if close else None),
                                  f'{mode}:limit:one:{k}', lambda: f'{r} for '
                                  f'a limit of {limit}', case)


def pairs(ctx, g, np, shard):
    name, i = shard['family'], shard['place']
    place = PLACES[i]
    one, two = family(name)
    convs = [('180', '180')]
    if place[0] + 3 * H > 180 or place[0] < -179:
        convs += [('360', '360'), ('raw', '180'), ('180', '360'),
                  ('360', '180')]
    elif place[0] < 0:
        convs += [('360', '360')]
    turns = [(False, False), (True, False), (False, True), (True, True)]
    n = 0
    for a in one:
        for b in two:
            n += 1
            if n % shard['of'] != shard['part']:
                continue
            memo = crossings(a, b)
            if ctx.thorough:
                combos = list(itertools.product(convs, turns))
            else:
                # every direction and every convention, not their product
                c, t = n % len(convs), (n // len(convs)) % len(turns)
                combos = [(convs[c], turns[t])]
                if name in ('same', 'shift'):
                    combos += [(convs[(c + 1) % len(convs)],
                                turns[(t + 2) % 4])]
            for conv, flags in combos:
                if conv[0] != conv[1] and set(a) & set(b):
                    # Boost.Geometry may miss a common point whose longitude
                    # is not written in the same way in both tracks
                    continue
                pair(ctx, g, np, name, place, a, b, conv, flags, memo)


def odd(ctx, g, np):
    """Unusual arguments."""
    e = np.array([])
    one = (np.array([10.]), np.array([10.]))
    two = (np.array([10., 11.]), np.array([10., 11.]))
    four = (np.array([10., 10.5, 10.9, 11.]), np.array([11., 10.6, 10.3, 10.]))
    tracks_ = {'empty': (e, e), 'one': one, 'two': two, 'four': four}
    for (na, a), (nb, b) in itertools.product(tracks_.items(), repeat=2):
        ctx.state('size', na, nb)
        ctx.trace()
        case = {'tracks': [na, nb]}
        la, lb = g.LineString(*a), g.LineString(*b)
        x = g.Crossover(la, lb)
        meet = {na, nb} == {'two', 'four'}
        same = na == nb and na in ('two', 'four')
        if not same and 'one' not in (na, nb):
            ctx.check(x.exists() == meet and len(x.search_all()) == meet and
                      (x.search() is None) != meet, f'size:{na}:{nb}',
                      'wrong crossover of short tracks', case)
            r = g.calculate_crossover_list(*a, *b, cartesian_plane=False)
            ctx.check(len(r) == meet, f'size:list:{na}:{nb}', lambda:
                      f'crossovers of short tracks: {r}', case)
        r = attempt(lambda: x.nearest(g.Point(10.2, 10.2)))
        if 'empty' in (na, nb):
            ctx.check(r is None, f'size:nearest:{na}:{nb}', lambda: f'nearest '
                      f'point of an empty track: {r}', case)
        else:
            ctx.check(isinstance(r, tuple) and r[0] < len(a[0]) and
                      r[1] < len(b[0]), f'size:nearest:{na}:{nb}', lambda:
                      f'nearest points {r}', case)
        if min(len(a[0]), len(b[0])) < 3:
            for f in (g.calculate_crossover, g.calculate_crossover_list):
                r = attempt(lambda: f(*a, *b, cartesian_plane=True))
                ctx.check(isinstance(r, RuntimeError),
                          f'size:plane:{na}:{nb}', lambda: f'{r} for tracks '
                          'that are too short', case)
    t = np.arange(4.)
    for f in (g.calculate_crossover, g.calculate_crossover_list):
        for plane in (False, True):
            for sizes in itertools.product((3, 4), repeat=4):
                args = [t[:n] for n in sizes]
                bad = sizes[0] != sizes[1] or sizes[2] != sizes[3]
                ctx.state('shape', f.__name__, plane, sizes)
                try:
                    f(*args, cartesian_plane=plane)
                    got = None
                except ValueError as err:
                    got = err
                except RuntimeError:
                    got = None
                ctx.check((got is not None) == bad,
                          f'shape:{f.__name__}:{plane}:{sizes}', lambda:
                          f'{got!r} for arrays of {sizes} items',
                          {'sizes': sizes})
            for strategy in ('andoyer', 'thomas', 'vincenty', 'flat'):
                args = (*four, four[0], four[1][::-1].copy())
                try:
                    r = f(*args, strategy=strategy, cartesian_plane=plane)
                except ValueError:
                    r = 'error'
                ctx.check((r == 'error') == (strategy == 'flat') and bool(r),
                          f'strategy:{strategy}:{plane}', lambda: f'{r} for '
                          f'{strategy}', {'strategy': strategy})
    # pickles and copies
    x = g.Crossover(g.LineString(*four), g.LineString(*two))
    y = pickle.loads(pickle.dumps(x))
    ctx.check(y.half_orbit_1 == x.half_orbit_1 and
              y.half_orbit_2 == x.half_orbit_2 and y.search() == x.search(),
              'pickle', 'the crossover restored differs', {})
    for strategy in ('andoyer', 'thomas', 'vincenty'):
        for wgs in (None, g.Spheroid((6371000., 0.)),
                    g.Spheroid((6371000., 0.01))):
            p = x.search(wgs)
            d = [p.distance(l[i], strategy, wgs) for l, i in zip(
                (x.half_orbit_1, x.half_orbit_2),
                x.nearest(p, None, strategy, wgs))]
            for limit in (min(d) * .999, max(d) * .999, max(d) * 1.001):
                r = x.nearest(p, limit, strategy, wgs)
                ctx.check((r is not None) == (limit >= max(d)),
                          f'limit:{strategy}:{limit}', lambda: f'nearest is '
                          f'{r} for a limit of {limit}, the distances being '
                          f'{d}', {'distances': d})


def arc(p, q, n):
    """Points of the arc of a great circle."""
    u, v = ecef(*p, 0, 1., 0.), ecef(*q, 0, 1., 0.)
    w = central_angle(p, q)
    out = []
    for i in range(n + 1):
        t = i / n
        if w < 1e-12:
            out.append(p)
            continue
        s, c = math.sin((1 - t) * w) / math.sin(w), math.sin(t * w) / math.sin(
            w)
        z = [s * m + c * k for m, k in zip(u, v)]
        out.append((math.degrees(math.atan2(z[1], z[0])),
                    math.degrees(math.atan2(z[2], math.hypot(z[0], z[1])))))
    return out


def along(p, a, b):
    """Distance in the tangent plane between a point and a segment."""
    k = math.cos(math.radians(p[1]))

    def xy(q):
        return (((q[0] - p[0] + 180) % 360 - 180) * k, q[1] - p[1])

    (x0, y0), (x1, y1) = xy(a), xy(b)
    dx, dy = x1 - x0, y1 - y0
    n = dx * dx + dy * dy
    t = min(max(-(x0 * dx + y0 * dy) / n, 0), 1) if n else 0
    return math.radians(math.hypot(x0 + t * dx, y0 + t * dy)) * R


def peucker(pts, tolerance):
    """Points kept by Douglas-Peucker; None if a choice is too close."""
    keep = {0, len(pts) - 1}
    todo = [(0, len(pts) - 1)]
    while todo:
        i, j = todo.pop()
        d = sorted(((along(pts[k], pts[i], pts[j]), k)
                    for k in range(i + 1, j)), reverse=True)
        if not d:
            continue
        if abs(d[0][0] - tolerance) < 0.02 * d[0][0] + 600 or (
                len(d) > 1 and d[0][0] > tolerance and
                d[0][0] - d[1][0] < 0.02 * d[0][0] + 600):
            return None
        if d[0][0] > tolerance:
            k = d[0][1]
            keep.add(k)
            todo += [(i, k), (k, j)]
    return sorted(keep)


def line(ctx, g, np, shard):
    place = PLACES[shard['place']]
    targets = [(x + 0.13, y + 0.21) for x in (-2, 0, 1, 2, 4)
               for y in (-2, 0, 1, 3)]
    for n in (1, 2, 3, 4):
        lines = list(tracks(n, 0, 0, False)) + [
            t for t in tracks(n, 0, 0, True) if n < 4]
        for t in lines:
            for conv in ('180', '360'):
                lon, lat = coordinates(t, place, conv)
                key = (place, conv, tuple(int(v) for p in t for v in p))
                if not ctx.state('line', *key):
                    continue
                ctx.trace()
                k = f'{place}:{conv}:' + ','.join(
                    str(int(v)) for p in t for v in p)
                case = {'lon': lon, 'lat': lat}
                ls = g.LineString(np.array(lon), np.array(lat))
                pts = list(zip(lon, lat))
                one_line(ctx, g, np, k, case, ls, pts)
                if n > 1:
                    closest(ctx, g, np, k, case, ls, pts, place, targets)
                if n > 2:
                    simpler(ctx, g, k, case, ls, pts)


def one_line(ctx, g, np, k, case, ls, pts):
    for strategy, (ref, tol), wgs in itertools.product(
            ('andoyer', 'thomas', 'vincenty'),
            ((WGS84, 2e-5), ((6371000., 0.), 1e-6)), (0, 1)):
        if wgs == 0 and ref != WGS84:
            continue
        args = (strategy, g.Spheroid(ref)) if wgs else (strategy, )
        d = ls.curvilinear_distance(*args)
        total, want = 0., [0.]
        for p, q in zip(pts, pts[1:]):
            total += inverse(p, q, *ref)[0]
            want.append(total)
        ctx.check(len(d) == len(want) and all(
            abs(x - y) <= tol * y + 1e-3 for x, y in zip(d, want)),
            f'along:{strategy}:{wgs}:{k}', lambda: f'distances {list(d)}, not '
            f'{want}', case)
    wkt = g.LineString.read_wkt(ls.wkt())
    points = [g.Point(*p) for p in pts]
    geo = ls.to_geojson()
    ctx.check(geo['type'] == 'LineString', f'form:geojson:{k}',
              lambda: f'{geo}', case)
    same = [('wkt', wkt), ('geojson', g.LineString.from_geojson(
        geo['coordinates'])), ('pickle', pickle.loads(pickle.dumps(ls))),
        ('copy', copy.copy(ls)), ('list', g.LineString(points))]
    if hasattr(ls, '__deepcopy__'):
        same.append(('deepcopy', copy.deepcopy(ls)))
    for name, x in same:
        ctx.check([(p.lon, p.lat) for p in list(x)] == pts and
                  len(x) == len(pts), f'form:{name}:{k}', lambda: f'the line '
                  f'made from {name} is {x}', case)
        ctx.check((x == ls and not x != ls) or len(pts) < 2,
                  f'form:eq:{name}:{k}', 'the lines differ', case)
    ctx.check([ls[i] for i in range(len(ls))] == points, f'item:{k}',
              'wrong points', case)
    for i in (len(pts), len(pts) + 7):
        try:
            ls[i]
            ctx.check(False, f'item:out:{k}', f'item {i} exists', case)
        except IndexError:
            ctx.check(True, '', '', {})


def closest(ctx, g, np, k, case, ls, pts, place, targets):
    dense = [s for p, q in zip(pts, pts[1:]) for s in arc(p, q, 8)]
    dense = list(zip(dense, dense[1:]))
    xs = np.array([place[0] + H * x for x, _ in targets])
    ys = np.array([place[1] + H * y for _, y in targets])
    for wgs in (None, g.Spheroid((6371000., 0.))):
        base = None
        for threads in (1, 2, 0):
            lon, lat = ls.closest_point(xs, ys, wgs, threads)
            got = list(zip(lon.tolist(), lat.tolist()))
            if base is None:
                base = got
            ctx.check(got == base, f'closest:threads:{k}',
                      'the number of threads changes the result', case)
        for x, y, q in zip(xs.tolist(), ys.tolist(), base):
            p = (x, y)
            r = ls.closest_point(g.Point(x, y), wgs)
            ctx.check((r.lon, r.lat) == q, f'closest:one:{k}:{p}', lambda:
                      f'{r} for one point, {q} for an array', case)
            d = [along(p, *s) / R for s in dense]
            off = min(along(q, *s) for s in dense) / R
            have = central_angle(p, q)
            ctx.check(have <= min(d) * 1.01 + 1e-5 and off <= math.radians(
                H / 60), f'closest:{wgs is None}:{k}:{p}', lambda: f'{q} is '
                f'at {math.degrees(have)} degrees of {p} and '
                f'{math.degrees(off)} of the line, the closest point is at '
                f'{math.degrees(min(d))}', case)


def simpler(ctx, g, k, case, ls, pts):
    for tolerance in (1., 2e3, 1e4, 2e4, 3e4, 5e4, 1e5, 1e6):
        keep = peucker(pts, tolerance)
        for strategy in ('andoyer', 'thomas', 'vincenty'):
            got = [(p.lon, p.lat)
                   for p in list(ls.simplify(tolerance, strategy))]
            if keep is not None:
                ctx.check(got == [pts[i] for i in keep],
                          f'simplify:{strategy}:{tolerance}:{k}', lambda:
                          f'{got} is kept, not the points {keep}', case)
            else:
                it = iter(pts)
                ctx.check(got[0] == pts[0] and got[-1] == pts[-1] and all(
                    p in it for p in got),
                    f'simplify:{strategy}:{tolerance}:{k}', lambda: f'{got} '
                    'is kept', case)


def history(ctx, g, np):
    """Every sequence of additions to a line, its copies, and queries."""
    letters = [g.Point(1., 2.), g.Point(-179.5, 3.25), g.Point(180., -4.)]
    depth = 6 if ctx.thorough else 5

    def same(ls, want):
        return (len(ls) == len(want) and list(ls) == want and
                [ls[i] for i in range(len(want))] == want)

    def walk(ls, path, copies):
        ctx.state('append', *(p.lon for p in path), len(copies))
        ctx.trace()
        case = {'points': [str(p) for p in path]}
        ctx.check(same(ls, path), f'append:{case["points"]}', lambda: f'the '
                  f'line is {ls}', case)
        for c, want in copies:
            ctx.check(same(c, want), f'append:copy:{case["points"]}', lambda:
                      f'a copy made before became {c}', case)
        if len(path) == depth:
            return
        for p in letters:
            c = copy.copy(ls) if len(path) % 2 else pickle.loads(
                pickle.dumps(ls))
            keep = c
            c = copy.copy(ls)
            c.append(p)
            walk(c, path + [p], copies + [(keep, path)])

    walk(g.LineString(), [], [])
    for n, m in itertools.product(range(4), repeat=2):
        x = np.arange(float(max(n, m)))
        try:
            g.LineString(x[:n], x[:m])
            got = True
        except ValueError:
            got = False
        ctx.check(got == (n == m), f'size:{n}:{m}', 'sizes are not checked',
                  {'sizes': [n, m]})
        ls = g.LineString(np.array([0., 1.]), np.array([0., 1.]))
        for threads in (1, 2):
            try:
                r = ls.closest_point(x[:n], x[:m], None, threads)
                got = len(r[0]) == len(r[1]) == n
            except ValueError:
                got = False
            ctx.check(got == (n == m), f'size:closest:{n}:{m}',
                      'sizes are not checked', {'sizes': [n, m]})
    ctx.check(len(g.LineString().curvilinear_distance()) == 0 and
              len(g.LineString().simplify(10.)) == 0, 'empty',
              'an empty line', {})


def explore(ctx, shard):
    import numpy as np
    import pyinterp.geodetic as g

    kind = shard['kind']
    if kind in ('pairs', 'line'):
        {'pairs': pairs, 'line': line}[kind](ctx, g, np, shard)
    else:
        {'odd': odd, 'history': history}[kind](ctx, g, np)
