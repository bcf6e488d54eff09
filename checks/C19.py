"""C19: geodetic coordinates, spheroids and distances."""
import copy
import itertools
import math
import pickle

from checks.geo_model import WGS84, central_angle, ecef, inverse

UNITS = ['enum', 'geodetic']
RULE = ('every position of a lattice of longitudes (with the seams and '
        'several turns), latitudes (with the poles) and altitudes, and every '
        'point of a Cartesian lattice, on every spheroid: converted, '
        'converted back, transformed; every pair of positions with every '
        'distance strategy; every value next to the seams normalized, in '
        'every layout; every derived parameter of every spheroid; compared '
        'with the definition of the ellipsoid and with Vincenty geodesics')
BOUNDS = {'quick': '23 longitudes x 17 latitudes x 9 altitudes x 6 '
          'spheroids, 11x12 positions for pairs',
          'thorough': '23x17 positions for pairs'}
ASSUMPTIONS = ['longitudes given to the distances are within [-180, 360]',
               'flattening at most 1/100; altitude above -0.3 a',
               'geodesics of nearly antipodal points are only bounded',
               'accuracy of the strategies: Vincenty 1 mm, Thomas 3e-7 and '
               '2 cm, Andoyer 2e-5 and 20 cm on the Earth']
LONS = [-720., -540., -360., -180., math.nextafter(-180, 0), -179.9999, -90.,
        -45.3, -1e-9, 0., 1e-9, 0.01, 30., 45., 89.9999, 90., 135.,
        179.9999, math.nextafter(180, 0), 180., 270., 359.5, 720.25]
LATS = [-90., -89.99999, -60., -45., -30.1, -1e-9, 0., 1e-9, 10., 30.1, 45.,
        56.8, 57., 60., 89., 89.99999, 90.]
ALTS = [-0.3, -0.05, -0.002, 0., 0.0014, 0.2, 5.6, 60., 1500.]
SPHEROIDS = [WGS84, (6378137., 1 / 298.257222101), (6371000., 0.),
             (6378137., 0.01), (3396190., 1 / 169.9), (1., 1 / 300)]
DLONS = [-180., -179.99, -90., -45.3, 0., 0.01, 30., 90., 179.99, 180., 270.]
DLATS = [-90., -89.99, -60., -45., -0.1, 0., 10., 30.1, 45., 60., 89.9999,
         90.]
STRATEGIES = ('andoyer', 'thomas', 'vincenty')


def shards(tier):
    out = [{'kind': 'spheroid'}, {'kind': 'normalize'}, {'kind': 'arrays'}]
    for i in range(len(SPHEROIDS)):
        out += [{'kind': 'lla', 'i': i}, {'kind': 'xyz', 'i': i}]
    for i in range(4):
        parts = 48 if tier == 'thorough' else 4
        out += [{'kind': 'distance', 'i': i, 'part': j, 'of': parts}
                for j in range(parts)]
    return out


def spheroid(ctx, g):
    axes = [1., 6378137., 6371000., 3396190.]
    flats = [0., 1e-12, 1e-9, 1e-6, 1 / 298.257223563, 0.01, 0.0649, 0.5]
    made = {}
    for a, f in itertools.product(axes, flats):
        ctx.state(a, f)
        b = a * (1 - f)
        e2 = f * (2 - f)
        e = math.sqrt(e2)
        lin = a * e
        # expansion of atanh(e)/e where the closed form cancels
        ath = math.atanh(e) / e if e > 1e-3 else 1 + e2 / 3 + e2 * e2 / 5
        want = {
            'semi_major_axis': a, 'flattening': f, 'semi_minor_axis': b,
            'first_eccentricity_squared': e2,
            'second_eccentricity_squared': e2 / (1 - f)**2,
            'polar_radius_of_curvature': a / (1 - f),
            'equatorial_radius_of_curvature': b * (1 - f),
            'axis_ratio': 1 - f, 'linear_eccentricity': lin,
            'mean_radius': (2 * a + b) / 3,
            'authalic_radius': a * math.sqrt((1 + (1 - e2) * ath) / 2),
            'volumetric_radius': a * (1 - f)**(1 / 3),
            'equatorial_circumference': 2 * math.pi * a,
        }
        for cls in (g.geodetic.Spheroid, g.core.geodetic.Spheroid):
            s = (cls((a, f)) if cls is g.geodetic.Spheroid else cls(a, f))
            case = {'spheroid': [a, f]}
            for name, w in want.items():
                v = getattr(s, name)
                v = v() if callable(v) else v
                # differences of squares lose the digits of a small f
                tol = 1e-12 * abs(w)
                if name == 'authalic_radius':
                    tol += 5e-16 * a / max(e, 1e-8)
                if 'eccentricity' in name:
                    tol += 5e-16 if 'squared' in name else (
                        a * 5e-16 / max(e, 1e-8))
                ctx.check(abs(v - w) <= tol, f'spheroid:{name}:f={f!r}',
                          lambda: f'Spheroid({a}, {f}).{name} is {v!r}, its '
                          f'definition gives {w!r}', case)
            ctx.check(abs(s.equatorial_circumference(False) - 2 * math.pi * b)
                      <= 1e-12 * a, f'spheroid:polar-circumference:f={f!r}',
                      'the circumference of the semi-minor axis is wrong',
                      case)
            for lat in LATS:
                v = s.geocentric_radius(lat)
                w = math.dist(ecef(0., lat, 0., a, f), (0, 0, 0))
                ctx.check(abs(v - w) <= 1e-12 * a,
                          f'spheroid:geocentric:f={f!r}:{lat}',
                          lambda: f'geocentric radius {v!r} at {lat}, the '
                          f'point is at {w!r} of the centre', case)
            for c in (pickle.loads(pickle.dumps(s)), ):
                ctx.check(c == s and not c != s and type(c) is type(s) and
                          c.semi_major_axis == a and c.flattening == f,
                          f'spheroid:pickle:{f!r}',
                          'a pickled spheroid differs', case)
            made[cls.__module__, a, f] = s
        ctx.check(repr(g.geodetic.Spheroid((a, f))) == f'Spheroid({a}, {f})',
                  f'spheroid:repr:{f!r}', 'the representation is wrong', case)
        ctx.trace()
    for (k1, s), (k2, t) in itertools.product(made.items(), made.items()):
        same = k1[1:] == k2[1:]
        ctx.check((s == t) == same and (s != t) == (not same),
                  f'spheroid:eq:{k1}:{k2}', 'spheroids are compared wrongly',
                  {'a': k1, 'b': k2})
    d = g.geodetic.Spheroid()
    ctx.check((d.semi_major_axis, d.flattening) == WGS84, 'spheroid:default',
              'the default spheroid is not WGS84', {})


def near_lon(v, w):
    return abs(math.remainder(v - w, 360))


def lla(ctx, g, np, shard):
    a, f = SPHEROIDS[shard['i']]
    c = g.geodetic.Coordinates(g.geodetic.Spheroid((a, f)))
    ctx.check(c.spheroid == g.core.geodetic.Spheroid(a, f), 'lla:spheroid',
              'the coordinates do not hold their spheroid', {'i': shard['i']})
    pts = [(x, y, z * a) for x in LONS for y in LATS for z in ALTS]
    cols = [np.array(v) for v in zip(*pts)]
    for n in (0, 1, 3):
        x, y, z = c.lla_to_ecef(*cols, num_threads=n)
        back = c.ecef_to_lla(x, y, z, num_threads=n)
        for i, (lo, la, h) in enumerate(pts):
            ctx.state(shard['i'], lo, la, h)
            ctx.trace()
            r = a + h
            w = ecef(lo, la, h, a, f)
            v = (x[i], y[i], z[i])
            case = {'lla': [lo, la, h], 'spheroid': [a, f], 'threads': n}
            if not ctx.check(math.dist(v, w) <= 1e-14 * r,
                             f'lla:ecef:{lo}:{la}:{h / a}',
                             lambda: f'{pts[i]} is at {w}, not {v}', case):
                continue
            lo2, la2, h2 = (t[i] for t in back)
            tol = r * (2e-15 + (5e-12 * (0.3 * r / a)**-4 if f > 0.005 else
                                0)) if r < 2 * a else 4e-15 * r
            bad = (abs(math.radians(la2 - la)) * r > tol + 1e-15 * a or
                   abs(h2 - h) > tol + 1e-15 * a or not -180 <= lo2 <= 180 or
                   not -90 <= la2 <= 90 or
                   math.radians(near_lon(lo2, lo)) *
                   math.cos(math.radians(la)) * r > tol + 1e-15 * a)
            ctx.check(not bad, f'lla:back:{lo}:{la}:{h / a}',
                      lambda: f'{pts[i]} is converted back to '
                      f'{(lo2, la2, h2)}', case)
    # transformation to another spheroid = composition
    for j, other in enumerate(SPHEROIDS[:4]):
        t = g.geodetic.Coordinates(g.geodetic.Spheroid(other))
        if not 0.9 < other[0] / a < 1.1:
            continue
        got = c.transform(t, *cols, num_threads=1)
        for i, (lo, la, h) in enumerate(pts):
            ctx.step()
            w = ecef(lo, la, h, a, f)
            v = ecef(got[0][i], got[1][i], got[2][i], *other)
            ctx.check(math.dist(v, w) <= 1e-8 * a / 6e6 + 2e-14 * (a + h) +
                      (1e-5 if max(f, other[1]) > 0.005 else 0),
                      f'lla:transform:{j}:{lo}:{la}:{h / a}',
                      lambda: f'{pts[i]} is transformed to another place '
                      f'{v} instead of {w}',
                      {'lla': pts[i], 'from': [a, f], 'to': other})


def xyz(ctx, g, np, shard):
    a, f = SPHEROIDS[shard['i']]
    c = g.geodetic.Coordinates(g.geodetic.Spheroid((a, f)))
    side = [v * a for v in (-8., -1.2, -1., -0.4, -1e-9, 0., 1e-9, 0.3, 1.,
                            1.4, 60.)]
    pts = [p for p in itertools.product(side, side, side)
           if math.dist(p, (0, 0, 0)) > 0.7 * a]
    cols = [np.array(v) for v in zip(*pts)]
    lo, la, h = c.ecef_to_lla(*cols, num_threads=1)
    for i, p in enumerate(pts):
        ctx.state(shard['i'], *p)
        ctx.trace()
        v = ecef(lo[i], la[i], h[i], a, f)
        r = math.dist(p, (0, 0, 0))
        ctx.check(-180 <= lo[i] <= 180 and -90 <= la[i] <= 90 and
                  math.dist(v, p) <= 1e-14 * r + a * (
                      5e-12 if f > 0.005 else 0), f'xyz:{p}',
                  lambda: f'{p} is located at {(lo[i], la[i], h[i])}, '
                  f'which is {v}', {'xyz': p, 'spheroid': [a, f]})


def normalize(ctx, g, np):
    def around(v):
        return [v, math.nextafter(v, 1e9), math.nextafter(v, -1e9)]

    for lo in (-180., 0., -90., 100., -360., 1000., 0.1, -1e-13):
        vals = []
        for turn in (-3, -1, 0, 1, 2):
            vals += around(lo + 360 * turn) + around(lo + 180 + 360 * turn)
            vals += [lo + 360 * turn + d for d in (1e-20, -1e-14, 12.5)]
        vals += [0., -0., 5e-324, -5e-324, 1e-20, -1e-20, 1e6, -1e6]
        for layout in ('plain', 'read-only', 'strided', 'reversed', 'float32',
                       'int64', 'column', 'nan'):
            x = np.array(vals)
            if layout == 'float32':
                x = x.astype('f4')
            if layout == 'int64':
                x = x.astype('i8')
            if layout == 'nan':
                x[::3] = math.nan
            if layout == 'strided':
                x = np.repeat(x, 2)[::2]
            if layout == 'reversed':
                x = x[::-1]
            if layout == 'column':
                x = np.stack([x, x], 1)[:, 1]
            if layout == 'read-only':
                x.flags.writeable = False
            before = x.copy()
            case = {'min': lo, 'layout': layout}
            ctx.state(lo, layout)
            ctx.trace()
            got = g.geodetic.normalize_longitudes(x, lo)
            ctx.check(got.shape == before.shape, f'normalize:shape:{layout}',
                      'the shape changes', case)
            if layout == 'read-only':
                ctx.check(x.tobytes() == before.tobytes(),
                          f'normalize:{layout}:modified',
                          'a read-only array is modified', case)
            ref = np.array(vals)
            if layout in ('float32', 'int64'):
                ref = ref.astype(before.dtype).astype('f8')
            if layout == 'nan':
                ref[::3] = math.nan
            if layout == 'reversed':
                ref = ref[::-1]
            for v, w in zip(ref.tolist(), got.tolist()):
                ctx.step()
                if v != v:
                    ok = w != w
                else:
                    ok = lo <= w < lo + 360 and near_lon(w, v) <= 1e-15 * max(
                        abs(v), abs(lo), 360)
                ctx.check(ok, f'normalize:{layout}:{lo}:{v!r}',
                          lambda: f'{v!r} is normalized to {w!r} for a '
                          f'minimum of {lo} ({layout} array)', case)


def bound(strategy, f):
    k = max(f * 298, 1e-4)
    return {'vincenty': (2e-3, 1e-9 if f > 0.005 else 1e-11),
            'thomas': (0.02, 3e-7 * max(k * k, 1e-3)),
            'andoyer': (0.2, 2e-5 * max(k * k, 1e-5))}[strategy]


def distance(ctx, g, np, shard):
    a, f = SPHEROIDS[shard['i']]
    wgs = g.geodetic.Spheroid((a, f))
    lons, lats = (LONS, LATS) if ctx.thorough else (DLONS, DLATS)
    lons = [x for x in lons if -180 <= x <= 360]
    pts = [(x, y) for x in lons for y in lats]
    points = [g.geodetic.Point(*p) for p in pts]
    col = [np.array(v) for v in zip(*pts)]
    for i in range(shard['part'], len(pts), shard['of']):
        p = pts[i]
        ctx.state(*p)
        one = [np.full(len(pts), p[0]), np.full(len(pts), p[1])]
        turned = np.full(len(pts), p[0] + (
            360 if p[0] <= 0 else -360 if p[0] >= 180 else 0))
        ref = [inverse(p, q, a, f) for q in pts]
        for s in STRATEGIES:
            absolute, rel = bound(s, f)
            absolute *= a / 6.4e6
            fwd = g.geodetic.coordinate_distances(*one, *col, s, wgs,
                                                  i % 3)
            rev = g.geodetic.coordinate_distances(*col, *one, s, wgs, 1)
            trn = g.geodetic.coordinate_distances(turned, one[1], *col, s,
                                                  wgs, 1)
            if shard['i'] == 0:
                none = g.geodetic.coordinate_distances(*one, *col, s)
            for j, q in enumerate(pts):
                ctx.trace()
                w = ref[j][0]
                d = fwd[j]
                case = {'a': p, 'b': q, 'strategy': s, 'spheroid': [a, f]}
                if w is None:
                    lo, hi = (1 - 4 * f) * math.pi * a, math.pi * a
                else:
                    lo = w - absolute - rel * w
                    hi = w + absolute + rel * w
                if p == q:
                    lo = hi = 0.0
                far = math.degrees(central_angle(p, q))
                # (Boost.Geometry gives up next to the antipode)
                if 179.9999 < far < 180 - 1e-12 or far > 179 and 90 > max(
                        abs(p[1]), abs(q[1])) > 89.9999:
                    continue
                far = far > 179
                if far and s != 'vincenty':
                    # these formulas are not made for antipodal points
                    lo -= 4 * f * a
                    hi += 4 * f * a
                ctx.check(lo <= d <= hi, f'distance:{s}:{f:.5f}:{p}:{q}',
                          lambda: f'{s} distance of {p} and {q}: {d!r}, the '
                          f'geodesic is {w!r}', case)
                tol = absolute + rel * (w or 0)
                for name, t in (('swapped', rev), ('turned', trn)):
                    ctx.check(abs(t[j] - d) <= tol or (w is None and abs(
                        t[j] - d) <= 4 * f * a), f'distance:{name}:{s}:{p}:'
                        f'{q}', lambda: f'{s} distance of {p} and {q} is '
                        f'{d!r}, and {t[j]!r} {name}', case)
                v = points[i].distance(points[j], s, wgs)
                ctx.check(v == d, f'distance:point:{s}:{p}:{q}',
                          lambda: f'Point.distance {v!r}, '
                          f'coordinate_distances {d!r}', case)
                if shard['i'] == 0:
                    v = points[i].distance(points[j], s)
                    ctx.check(v == d == none[j], f'distance:wgs:{s}:{p}:{q}',
                              lambda: f'without spheroid {v!r} and '
                              f'{none[j]!r}, with WGS84 {d!r}', case)
        for j, q in enumerate(pts):
            az = ref[j][1]
            # (the azimuth is not defined at the poles, and is rounded next to
            # them)
            if az is None or abs(q[1]) == 90 or 90 > max(
                    abs(p[1]), abs(q[1])) > 89.9999 or math.degrees(
                    central_angle(p, q)) > 179 and f == 0:
                continue
            if ref[j][0] < 1e-3 * a / 6e6:
                continue
            tol = 0.02 * (298 * f)**2 + 1e-6
            v = points[i].azimuth(points[j], wgs)
            ctx.check(abs(math.remainder(v - az, 360)) <= tol,
                      f'azimuth:{f:.5f}:{p}:{q}',
                      lambda: f'azimuth from {p} to {q}: {v!r}, the geodesic '
                      f'starts at {az!r}', {'a': p, 'b': q})
            if shard['i'] == 0:
                v = points[i].azimuth(points[j])
                ctx.check(abs(math.remainder(v - az, 360)) <= tol,
                          f'azimuth:default:{p}:{q}',
                          lambda: f'azimuth from {p} to {q}: {v!r}, the '
                          f'geodesic starts at {az!r}', {'a': p, 'b': q})


def arrays(ctx, g, np):
    c = g.geodetic.Coordinates()
    base = np.array([[10., 20., 30.], [40., 50., 60.], [1., 2., 3.]])
    three = {'ecef_to_lla': c.ecef_to_lla, 'lla_to_ecef': c.lla_to_ecef,
             'transform': lambda *x: c.transform(
                 g.geodetic.Coordinates(g.geodetic.Spheroid((6371000., 0.))),
                 *x)}
    four = {'coordinate_distances': lambda *x:
            (g.geodetic.coordinate_distances(*x), )}
    for fns, n in ((three, 3), (four, 4)):
        for name, fn in fns.items():
            for size in range(4):
                good = [base[i % 3, :size] * (1e6 if name == 'ecef_to_lla'
                                            else 1) for i in range(n)]
                ctx.state(name, size)
                ref = fn(*good)
                ctx.check(all(len(r) == size for r in ref),
                          f'arrays:{name}:size:{size}', 'wrong size',
                          {'size': size})
                alone = [fn(*[v[i:i + 1] for v in good]) for i in range(size)]
                for i, one in enumerate(alone):
                    ctx.check(all(x[i] == y[0] for x, y in zip(ref, one)),
                              f'arrays:{name}:alone:{size}:{i}',
                              'the result depends on the other elements',
                              {'size': size})
                for j, other in itertools.product(range(n), range(4)):
                    if other == size:
                        continue
                    bad = list(good)
                    bad[j] = base[j % 3, :other].copy()
                    ctx.trace()
                    try:
                        fn(*bad)
                        err = None
                    except (ValueError, TypeError) as e:
                        err = e
                    ctx.check(err is not None,
                              f'arrays:{name}:mismatch:{j}:{size}:{other}',
                              lambda: f'{name} accepts arrays of {size} '
                              f'elements with argument {j} of {other}',
                              {'sizes': [len(b) for b in bad]})
    for bad in ('', 'Thomas', 'haversine'):
        try:
            g.geodetic.coordinate_distances(*[base[0]] * 4, strategy=bad)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, f'arrays:strategy:{bad}', 'unknown strategy accepted',
                  {'strategy': bad})
    d = g.geodetic.Coordinates(g.geodetic.Spheroid((6371000., 0.)))
    for c in (c, d):
        b = pickle.loads(pickle.dumps(c))
        e = copy.deepcopy(c)
        for k in (b, e):
            ctx.check(k.spheroid == c.spheroid, 'arrays:pickle',
                      'the pickled coordinates differ', {})
            x = [v.tolist() for v in k.lla_to_ecef(*base)]
            y = [v.tolist() for v in c.lla_to_ecef(*base)]
            ctx.check(x == y, 'arrays:pickle-result',
                      'the pickled coordinates compute something else', {})


def explore(ctx, shard):
    import numpy as np
    import pyinterp.core
    import pyinterp.geodetic

    kind = shard['kind']
    if kind == 'spheroid':
        spheroid(ctx, pyinterp)
    elif kind == 'normalize':
        normalize(ctx, pyinterp, np)
    elif kind == 'arrays':
        arrays(ctx, pyinterp, np)
    else:
        {'lla': lla, 'xyz': xyz, 'distance': distance}[kind](
            ctx, pyinterp, np, shard)
