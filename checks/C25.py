"""C25: orbits, passes and swaths."""
import itertools
import math

from . import geo_model

UNITS = ['axis', 'dateutils', 'enum', 'geodetic', 'grid',
         'interpolate1d']
RULE = ('orbits calculated from every ephemeris of a lattice (revolutions, '
        'inclination, point of departure, sampling, unit of the time, '
        'convention of the longitudes, duration of the cycle, spheroid), '
        'their passes in every box, every swath; every handmade orbit of a '
        'few passes with every first date, last date and pass number; '
        'compared with the analytic circular orbit, with the rotation of the '
        'nadir around the direction of motion and with Vincenty geodesics')
BOUNDS = {'quick': '14 ephemerides; 60 handmade orbits, 5 first dates, 7 '
          'durations, 15 pass numbers; 240 short tracks, 24 swaths',
          'thorough': '72 ephemerides; 300 handmade orbits; 1200 short '
          'tracks, 60 swaths'}
ASSUMPTIONS = ['the ephemeris covers the cycle, and the satellite comes back '
               'to its first position at the end of it',
               'Orbit.x_al is in kilometres, the step being the along track '
               'resolution (its documentation says metres)',
               'numbers of pixels within rounding of an integer are not '
               'judged']
DAY = 86400.0
OMEGA = 2 * math.pi / DAY


def analytic(np, cfg, t):
    """Position of the circular orbit."""
    n = 2 * math.pi * cfg['revs'] / (cfg['days'] * DAY)
    u = math.radians(cfg['phase']) + n * t
    i = math.radians(cfg['inc'])
    lon = np.degrees(np.arctan2(np.sin(u) * math.cos(i), np.cos(u)) -
                     OMEGA * t) + cfg['lon0']
    return lon, np.degrees(np.arcsin(np.sin(u) * math.sin(i)))


def wrap(x):
    return (x + 180) % 360 - 180


def ephemeris(np, cfg):
    total = cfg['days'] * DAY
    t = np.arange(0, total + cfg['extra'] - 1e-6, cfg['dt'])
    lon, lat = analytic(np, cfg, t)
    lon = lon % 360 if cfg['360'] else wrap(lon)
    unit = cfg['unit']
    scale = {'s': 1, 'ms': 1e3, 'us': 1e6, 'ns': 1e9}[unit]
    return lon, lat, np.rint(t * scale).astype('i8').astype(f'm8[{unit}]')


def configurations(tier):
    base = {'revs': 5, 'days': 1, 'inc': 77.6, 'dt': 30, 'phase': -90,
            'lon0': 0, 'extra': 900, '360': False, 'unit': 's', 'cycle': True,
            'res': 10, 'spheroid': None}
    half = {'dt': .5, 'unit': 'ms'}
    changes = [
        {}, {'phase': 0, **half}, {'phase': 35, 'inc': 98, 'dt': 20},
        {'phase': 90, 'inc': 60, '360': True, **half},
        {'phase': -45, 'inc': 50, 'res': 25, 'lon0': 170, 'unit': 'ns'},
        {'phase': 200, 'revs': 14, 'days': 1, **half},
        {'phase': -91, 'extra': 0, 'cycle': False, **half},
        {'phase': 120, 'extra': 0, 'cycle': False, 'inc': 98, **half},
        {'phase': -90, 'extra': 0, 'cycle': False, 'lon0': 77, **half},
        {'phase': 10, 'revs': 3, 'days': 2, 'res': 50, 'unit': 'us'},
        {'phase': -80, 'spheroid': (6371000., 0.), **half},
        {'phase': 150, 'spheroid': (6378000., .01), **half},
        {'phase': -100, 'res': None, 'revs': 2, **half},
        {'phase': -89.9, 'res': 3.3, **half},
    ]
    if tier == 'thorough':
        for i, (revs, inc, phase) in enumerate(itertools.product(
                (2, 5, 15), (50, 77.6, 98), (-90, -70, 0, 40, 90, 180))):
            changes.append({'revs': revs, 'inc': inc, 'phase': phase,
                            'dt': (.5, .25, 10, 30)[i % 4],
                            'unit': ('ms', 'ms', 's', 'ns')[i % 4],
                            'res': (10, 4, 30)[i % 3], '360': bool(i % 2),
                            'lon0': (i * 47) % 360})
        for phase in (-90, -60, 30, 150):
            changes.append({'phase': phase, 'revs': 29, 'days': 2, **half})
    return [dict(base, **c) for c in changes]


def shards(tier):
    count = len(configurations(tier))
    return ([('orbit', i) for i in range(count)] +
            [('handmade', i) for i in range(4)] +
            [('tracks', i) for i in range(8)])


def explore(ctx, shard):
    kind, index = shard
    if kind == 'orbit':
        orbit(ctx, configurations('thorough')[index])
    elif kind == 'handmade':
        handmade(ctx, index)
    else:
        tracks(ctx, index)


def orbit(ctx, cfg):
    import numpy as np
    from pyinterp import geodetic
    from pyinterp import orbit as po
    key = 'orbit'
    case = {'orbit': {k: str(v) for k, v in cfg.items()}}
    spheroid = geodetic.Spheroid(cfg['spheroid']) if cfg['spheroid'] else None
    lon, lat, time = ephemeris(np, cfg)
    keep = lon.copy(), lat.copy(), time.copy()
    total = cfg['days'] * DAY
    kwargs = {}
    if cfg['cycle']:
        kwargs['cycle_duration'] = np.timedelta64(int(total), 's')
    if cfg['res']:
        kwargs['along_track_resolution'] = cfg['res']
    if spheroid:
        kwargs['spheroid'] = spheroid
    res = cfg['res'] or 2
    ctx.state('orbit', tuple(sorted((k, str(v)) for k, v in cfg.items())))
    ctx.step()
    ctx.trace()
    o = po.calculate_orbit(850e3, lon, lat, time, **kwargs)
    ctx.check(all((a == b).all() for a, b in zip(keep, (lon, lat, time))),
              f'{key}:input', lambda: 'the ephemeris was modified', case)
    tt = o.time.astype('m8[ns]').astype('i8') / 1e9
    n = len(tt)
    a = cfg['spheroid'][0] if cfg['spheroid'] else geo_model.WGS84[0]
    f = cfg['spheroid'][1] if cfg['spheroid'] else geo_model.WGS84[1]
    ok = ctx.check(
        n > 50 and len(o.latitude) == n and len(o.longitude) == n and
        len(o.x_al) == n and o.height == 850e3 and
        o.wgs == geodetic.Spheroid((a, f)), f'{key}:fields',
        lambda: f'{n} times, {len(o.latitude)} latitudes, height {o.height}',
        case)
    if not ok:
        return
    # Duration of one step along the track, which is slower at some latitudes
    step = res * 1e3 / (2 * math.pi * a * cfg['revs'] / total) * 1.2
    ctx.check(tt[0] == 0 and (np.diff(tt) > 0).all() and
              total - 2 * step - 2 < tt[-1] <= total, f'{key}:time',
              lambda: f'the times are not those of a cycle of {total} s: '
              f'{tt[:3]}..{tt[-3:]}', case)
    ctx.check(np.abs(np.diff(o.x_al) - res).max() < 1e-6 and o.x_al[0] == 0,
              f'{key}:x_al', lambda: 'the positions are not '
              f'spaced by {res} km: {o.x_al[:4]}', case)
    # Passes
    pt = o.pass_time.astype('m8[ns]').astype('i8') / 1e9
    passes = 2 * cfg['revs']
    ok = ctx.check(o.passes_per_cycle() == passes and len(pt) == passes,
                   f'{key}:passes', lambda: f'{o.passes_per_cycle()} '
                   f'passes instead of {passes}', case)
    if not ok:
        return
    half = total / passes
    tol = 2 * step + 2
    ctx.check(pt[0] == 0 and
              np.abs(pt - half * np.arange(passes)).max() < tol,
              f'{key}:pass_time', lambda: 'the passes do not '
              f'start every {half} s: {pt}', case)
    # Each pass is ascending (odd) or descending (even)
    for p in range(passes):
        end = pt[p + 1] if p + 1 < passes else np.inf
        inside = np.flatnonzero((tt >= pt[p] + tol) & (tt < end - tol) &
                                (tt < total - tol))
        d = np.diff(o.latitude[inside])
        ctx.check(len(d) > 0 and (d > 0 if p % 2 == 0 else d < 0).all(),
                  f'{key}:direction', lambda: f'the pass {p + 1} is '
                  'not ' + ('ascending' if p % 2 == 0 else 'descending'),
                  {**case, 'pass': p + 1})
    # Positions: same circular orbit, from a southernmost latitude
    period = total / cfg['revs']
    south = ((-90 - cfg['phase']) / 360 * period) % period
    s = np.flatnonzero((o.latitude[:-1] < 0) & (o.latitude[1:] >= 0))[0]
    w = -o.latitude[s] / (o.latitude[s + 1] - o.latitude[s])
    offset = (-cfg['phase'] / 360 * period - tt[s] -
              w * (tt[s + 1] - tt[s])) % period
    best = None
    for rev in range(cfg['revs']):
        x, y = analytic(np, cfg, tt + offset + rev * period)
        d = np.hypot(wrap(x - o.longitude) * np.cos(np.radians(y)),
                     y - o.latitude)
        if best is None or d.max() < best[0]:
            best = d.max(), rev, int(d.argmax())
    limit = 1e-6 if cfg['dt'] <= .5 else 2e-3
    limit = max(limit, (res / 2000)**2)
    ctx.check(best[0] < limit, f'{key}:position', lambda: 'the '
              f'satellite is {best[0]} degrees away from the ephemeris at '
              f'{tt[best[2]]} s', case)
    late = (offset - south) % period
    ctx.check(min(late, period - late) < 2, f'{key}:start', lambda: 'the '
              f'first pass starts {late} s after the southernmost latitude',
              case)
    start = offset + best[1] * period
    # Methods
    methods(ctx, np, o, key, case)
    dist = o.curvilinear_distance()
    ctx.check(dist.shape == (n, ) and dist[0] == 0 and
              (np.abs(dist[1:] / (o.x_al[1:] * 1e3) - 1) < 1e-3).all(),
              f'{key}:distance', lambda: f'the curvilinear distance '
              f'{dist[-1]} m is not {o.x_al[-1]} km', case)
    for i in list(range(0, n - 1, max(1, n // 40))):
        d = geo_model.inverse((o.longitude[i], o.latitude[i]),
                              (o.longitude[i + 1], o.latitude[i + 1]), a,
                              f)[0]
        ctx.check(abs(d / (res * 1e3) - 1) < 2e-3, f'{key}:spacing',
                  lambda: f'{d} m between the points {i} and '
                  f'{i + 1}, spaced by {res} km', case)
    boxes = [None, (-180, -90, 180, 90), (-60, -30, 60, 30),
             (-180, 10, 180, 40), (100, -50, 140, -5), (-10, -80, 10, 80),
             (-1, -1, 1, 1)]
    seen = [0] * n
    for p in range(1, passes + 1):
        for box in boxes:
            got = one_pass(ctx, np, o, p, box, key, case, cfg, start)
            if box is None and got is not None:
                for t in np.searchsorted(o.time, got.time):
                    seen[t] += 1
            if got is not None and p in (1, 2, passes) and len(got) > 2:
                swaths(ctx, np, got, key, case, a, f, spheroid,
                       regular=box is None, few=True)
    ctx.check(seen == [1] * n, f'{key}:partition', lambda: 'the passes do '
              f'not split the orbit: {seen.count(0)} points in no pass, '
              f'{sum(v > 1 for v in seen)} in several', case)
    ctx.outcome('orbits')


def methods(ctx, np, o, key, case):
    """Durations and numbering."""
    passes = len(o.pass_time)
    t, p = o.time, o.pass_time
    ctx.check(o.cycle_duration() == t[-1], f'{key}:cycle',
              lambda: f'cycle of {o.cycle_duration()}', case)
    if passes > 1:
        want = int(t[-1].astype('m8[us]').astype('i8')) / (passes // 2)
        ctx.check(abs(int(o.orbit_duration().astype('m8[us]').astype('i8')) -
                      want) <= 1, f'{key}:revolution', lambda: 'the orbit '
                  f'lasts {o.orbit_duration()}', case)
    ctx.check(o.delta_t() == np.diff(t).mean(), f'{key}:delta_t',
              lambda: f'delta_t is {o.delta_t()}', case)
    for i in range(1, passes + 1):
        want = (p[i] - p[i - 1] if i < passes else
                t[-1] - p[-1] + t[1] - t[0])
        got = o.pass_duration(i)
        ctx.check(got == want, f'{key}:duration', lambda: f'the pass '
                  f'{i} lasts {got} instead of {want}', case)
    for i in (-passes, -1, 0, passes + 1, 2 * passes):
        refused(ctx, o.pass_duration, (i, ), f'{key}:duration', case)
        refused(ctx, o.encode_absolute_pass_number, (1, i), f'{key}:encode',
                case)
    big = passes * 10**17
    for first in (1 - 3 * passes, big - 3, 1 - big):
        previous = None
        for number in range(first, first + 6 * passes + 1):
            ctx.step()
            cycle, i = o.decode_absolute_pass_number(number)
            back = (o.encode_absolute_pass_number(cycle, i)
                    if 1 <= i <= passes else None)
            ctx.check(back == number, f'{key}:decode', lambda: f'the pass '
                      f'{number} is the pass {i} of the cycle {cycle}, '
                      f'encoded {back}', {**case, 'number': number})
            if number == 1:
                ctx.check((cycle, i) == (1, 1), f'{key}:decode', lambda: 'the '
                          f'first pass is {(cycle, i)}', case)
            if previous:
                want = ((previous[0], previous[1] + 1)
                        if previous[1] < passes else (previous[0] + 1, 1))
                ctx.check((cycle, i) == want, f'{key}:decode', lambda: 'the '
                          f'pass {(cycle, i)} follows {previous}', case)
            previous = cycle, i


def refused(ctx, f, args, key, case):
    ctx.step()
    try:
        got = f(*args)
    except ValueError:
        return
    ctx.violation(key, f'{f.__name__}{args} returned {got}', case)


def inside(np, box, lon, lat):
    x1, y1, x2, y2 = box
    return (lon >= x1) & (lon <= x2) & (lat >= y1) & (lat <= y2)


def one_pass(ctx, np, o, p, box, key, case, cfg, start):
    """The points of a pass, its equator crossing."""
    from pyinterp import geodetic
    from pyinterp import orbit as po
    case = {**case, 'pass': p, 'box': box}
    ctx.step()
    kwargs = {}
    if box is not None:
        kwargs['bbox'] = geodetic.Box(geodetic.Point(*box[:2]),
                                      geodetic.Point(*box[2:]))
    got = po.calculate_pass(p, o, **kwargs)
    begin = o.pass_time[p - 1]
    want = o.time >= begin
    if p < len(o.pass_time):
        want &= o.time < o.pass_time[p]
    short = want.sum() < 5
    if box is not None and not short:
        m = inside(np, box, o.longitude, o.latitude)
        edge = want & (
            (np.abs(o.longitude - box[0]) < 1e-9) |
            (np.abs(o.longitude - box[2]) < 1e-9) |
            (np.abs(o.latitude - box[1]) < 1e-9) |
            (np.abs(o.latitude - box[3]) < 1e-9)) & (
                abs(box[0]) != 180)
        if edge.any():
            ctx.outcome('point on the edge of the box')
            return None
        want &= m
    index = np.flatnonzero(want)
    if short or len(index) == 0:
        ctx.check(got is None, f'{key}:pass', lambda: 'a pass without point '
                  f'returned {got}', case)
        return None
    ok = ctx.check(
        got is not None and len(got) == len(index) and
        (got.lon_nadir == o.longitude[index]).all() and
        (got.lat_nadir == o.latitude[index]).all() and
        (got.time == o.time[index]).all() and
        (got.x_al == o.x_al[index]).all(), f'{key}:pass',
        lambda: f'{None if got is None else len(got)} points instead of '
        f'{len(index)}', case)
    if not ok:
        return None
    lat, lon = o.latitude[index], o.longitude[index]
    t = o.time[index].astype('m8[ns]').astype('i8')
    eq = got.equator_coordinates
    cross = [i for i in range(len(lat) - 1)
             if (lat[i] <= 0 <= lat[i + 1] or lat[i] >= 0 >= lat[i + 1])
             and lat[i] != lat[i + 1]]
    if not cross:
        ctx.check(math.isnan(eq.longitude) and np.isnat(eq.time),
                  f'{key}:equator', lambda: 'a pass which does not '
                  f'cross the equator crosses it at {eq}', case)
        ctx.outcome('no equator')
        return got
    i = cross[0]
    if len(cross) > 1 or index[i + 1] != index[i] + 1:
        return got
    w = -lat[i] / (lat[i + 1] - lat[i])
    x = lon[i] + wrap(lon[i + 1] - lon[i]) * w
    when = t[i] + w * (t[i + 1] - t[i])
    width = math.hypot(wrap(lon[i + 1] - lon[i]), lat[i + 1] - lat[i])
    limit = 1e-6 + 1e-3 * width
    if cfg is not None:
        # Against the analytic orbit
        period = cfg['days'] * DAY / cfg['revs']
        n0 = round((when / 1e9 + start + cfg['phase'] / 360 * period) /
                   (period / 2))
        instant = n0 * period / 2 - cfg['phase'] / 360 * period
        x = float(analytic(np, cfg, np.array([instant]))[0][0])
        when = (instant - start) * 1e9
        limit += 1e-6 if cfg['dt'] <= .5 else 5e-3
        limit = max(limit, ((cfg['res'] or 2) / 2000)**2)
    ctx.check(abs(wrap(eq.longitude - x)) < limit and
              -180 <= eq.longitude < 180, f'{key}:equator',
              lambda: f'equator crossed at {eq.longitude} instead of '
              f'{wrap(x)} (+/- {limit})', case)
    got_when = int(eq.time.astype('m8[ns]').astype('i8'))
    tick = int(np.timedelta64(1, np.datetime_data(eq.time.dtype)[0]).astype(
        'm8[ns]').astype('i8'))
    tolerance = max(1e6, (t[i + 1] - t[i]) * .02, tick)
    ctx.check(abs(got_when - when) < tolerance, f'{key}:equator time',
              lambda: f'equator crossed at {got_when} ns instead of {when} ns',
              case)
    ctx.outcome('equator')
    return got


def rotated(np, lon, lat, distances, a, f):
    """Positions of the pixels: rotation of the nadir around the direction of
    the satellite."""
    v = np.array([geo_model.ecef(x, y, 0, a, f) for x, y in zip(lon, lat)])
    n = len(v)
    axis = np.empty_like(v)
    if n == 2:
        axis[:] = v[1] - v[0]
    else:
        axis[1:-1] = v[2:] - v[:-2]
        axis[0], axis[-1] = axis[1], axis[-2]
    axis /= np.linalg.norm(axis, axis=1)[:, None]
    radius = np.linalg.norm(v, axis=1)
    angle = np.asarray(distances)[None, :] / radius[:, None]
    k = axis[:, None, :]
    p = v[:, None, :]
    c, s = np.cos(angle)[..., None], np.sin(angle)[..., None]
    r = (p * c + np.cross(k, p) * s +
         k * (k * p).sum(-1, keepdims=True) * (1 - c))
    x, y, z = r[..., 0], r[..., 1], r[..., 2]
    e2 = f * (2 - f)
    q = np.hypot(x, y)
    phi = np.arctan2(z, q * (1 - e2))
    for _ in range(20):
        big = a / np.sqrt(1 - e2 * np.sin(phi)**2)
        phi = np.arctan2(z + e2 * big * np.sin(phi), q)
    return np.degrees(np.arctan2(y, x)), np.degrees(phi)


def swath_parameters(tier):
    result = list(itertools.product((2, 5, 10.5, .7), (20, 70.3, 120.),
                                    (0, 2, 10.)))
    if tier:
        result += itertools.product((1, 3.3), (4, 35, 60.), (.5, 1, 3.7, 4))
    return result


def swaths(ctx, np, half_orbit, key, case, a, f, spheroid, regular, few):
    from pyinterp import orbit as po
    parameters = [(None, None, None)] + swath_parameters(ctx.thorough)
    if few:
        parameters = parameters[::9 if not regular else 5]
        if len(half_orbit) > 60 and not regular:
            return
    for res, width, gap in parameters:
        sub = {**case, 'swath': [res, width, gap]}
        ctx.state('swath', key, repr(case), res, width, gap)
        ctx.step()
        kwargs = {k: v for k, v in (('across_track_resolution', res),
                                    ('half_swath', width), ('half_gap', gap),
                                    ('spheroid', spheroid)) if v is not None}
        s = po.calculate_swath(half_orbit, **kwargs)
        r, h, g = (2. if res is None else res, 70. if width is None else
                   width, 2. if gap is None else gap)
        exact = (h - g) / r
        sizes = {math.floor(exact - 1e-9) + 1, math.floor(exact + 1e-9) + 1}
        n = s.x_ac.shape[1] // 2
        ok = ctx.check(
            n in sizes and s.x_ac.shape == s.lon.shape == s.lat.shape ==
            (len(half_orbit), 2 * n), f'{key}:swath:shape', lambda: 'swath '
            f'of {s.x_ac.shape}, {s.lon.shape} pixels instead of {sizes}',
            sub)
        if not ok:
            continue
        d = np.array([g + j * r for j in range(n)]) * 1e3
        d = np.concatenate([-d[::-1], d])
        ctx.check(np.abs(s.x_ac - d).max() < 1e-6, f'{key}:swath:x_ac',
                  lambda: f'distances across track {s.x_ac[0]} instead of '
                  f'{d}', sub)
        x, y = rotated(np, half_orbit.lon_nadir, half_orbit.lat_nadir, d, a,
                       f)
        err = np.hypot(wrap(s.lon - x) * np.cos(np.radians(y)), s.lat - y)
        where = np.unravel_index(np.argmax(np.where(np.isnan(err), 1e9, err)),
                                 err.shape)
        ctx.check(err[where] < 1e-6, f'{key}:swath:position',
                  lambda: f'the pixel {where} is at '
                  f'{(s.lon[where], s.lat[where])} instead of '
                  f'{(x[where], y[where])}', sub)
        ctx.check((np.abs(s.lon) <= 180).all() and
                  (np.abs(s.lat) <= 90).all(), f'{key}:swath:range',
                  lambda: 'pixels out of range', sub)
        # Distances and directions on the ellipsoid, for some pixels
        lines = sorted({0, len(half_orbit) // 2, len(half_orbit) - 1})
        for i, j in itertools.product(lines, {0, n // 2, n - 1, n, n + n // 2,
                                              2 * n - 1}):
            nadir = (half_orbit.lon_nadir[i], half_orbit.lat_nadir[i])
            got, az = geo_model.inverse(nadir, (s.lon[i, j], s.lat[i, j]), a,
                                        f)
            if d[j] == 0:
                ctx.check(got < 1e-3, f'{key}:swath:distance', lambda: 'the '
                          f'nadir pixel is {got} m away', sub)
                continue
            ctx.check(abs(got / abs(d[j]) - 1) < .01 + 2 * f,
                      f'{key}:swath:distance', lambda: f'the pixel {(i, j)} '
                      f'is {got} m away instead of {d[j]}', sub)
            if not regular or abs(d[j]) < 500 or not 0 < i < len(
                    half_orbit) - 1:
                continue
            _, track = geo_model.inverse(
                (half_orbit.lon_nadir[i - 1], half_orbit.lat_nadir[i - 1]),
                (half_orbit.lon_nadir[i + 1], half_orbit.lat_nadir[i + 1]), a,
                f)
            _, first = geo_model.inverse(
                nadir, (half_orbit.lon_nadir[i + 1],
                        half_orbit.lat_nadir[i + 1]), a, f)
            side = wrap(az - first)
            ctx.check(abs(side - (90 if d[j] > 0 else -90)) < 3,
                      f'{key}:swath:side', lambda: f'the pixel {(i, j)} at '
                      f'{d[j]} m is in the direction {side} degrees from the '
                      'track', sub)
        attached(ctx, np, s, half_orbit, n, d, f'{key}:swath', sub)
    ctx.outcome('swaths')


def attached(ctx, np, s, half_orbit, n, d, key, case):
    """What the swath keeps, the mask and the central pixel."""
    def same(x):
        return (all((getattr(x, k) == getattr(half_orbit, k)).all()
                    for k in ('lon_nadir', 'lat_nadir', 'time', 'x_al')) and
                repr(x.equator_coordinates) == repr(
                    half_orbit.equator_coordinates) and
                len(x) == len(half_orbit))

    ctx.check(same(s), f'{key}:nadir', lambda: 'the swath has lost its pass',
              case)
    for low, high in ((0, 1e9), (d[n], d[-1]), (d[n] + 1, d[-1] - 1),
                      (15e3, 45e3), (1e9, 2e9)):
        m = s.mask((low, high))
        want = np.where((np.abs(s.x_ac) >= low) & (np.abs(s.x_ac) <= high), 1,
                        np.nan)
        ctx.check(m.shape == want.shape and np.array_equal(
            m, want, equal_nan=True), f'{key}:mask', lambda: 'mask of '
            f'{(low, high)}: {m[0]}', case)
    c = s.insert_central_pixel()
    ok = same(c) and c.lon.shape == c.lat.shape == c.x_ac.shape == (
        len(half_orbit), 2 * n + 1)
    if ok:
        for name, middle in (('lon', half_orbit.lon_nadir),
                             ('lat', half_orbit.lat_nadir),
                             ('x_ac', np.zeros(len(half_orbit)))):
            new, old = getattr(c, name), getattr(s, name)
            ok &= ((new[:, n] == middle).all() and
                   (new[:, :n] == old[:, :n]).all() and
                   (new[:, n + 1:] == old[:, n:]).all())
    ctx.check(ok, f'{key}:central', lambda: 'the central pixel is not the '
              'nadir, or the others have moved', case)


def handmade(ctx, index):
    """Every small orbit: numbering, iterations, passes."""
    import numpy as np
    from pyinterp import geodetic
    from pyinterp import orbit as po
    lengths = (5, 6, 9) if not ctx.thorough else (3, 5, 6, 9, 13)
    orbits = [c for n in (1, 2, 3, 4)
              for c in itertools.product(lengths, repeat=n)
              if n < 4 or ctx.thorough or len(set(c)) == 3]
    units = (('s', 1), ('ns', 10**9), ('us', 250000))
    for k, sizes in enumerate(orbits):
        if k % 4 != index:
            continue
        unit, step = units[k % 3]
        total = sum(sizes)
        ticks = np.arange(total) * step
        time = ticks.astype('i8').astype(f'm8[{unit}]')
        pass_time = time[[sum(sizes[:i]) for i in range(len(sizes))]]
        lat, lon = [], []
        for i, size in enumerate(sizes):
            ramp = [-10 + 20 * (j + .37) / size for j in range(size)]
            if (k + i) % 3 == 1:
                ramp = [v + 11 for v in ramp]  # never at the equator
            elif (k + i) % 3 == 2:
                # first or last segment
                ramp = [v - ramp[0] - 1e-3 for v in ramp]
            lat += ramp if i % 2 == 0 else ramp[::-1]
            lon += [wrap(170 + 40 * k + 1.7 * len(lon) + j * 1.7)
                    for j in range(size)]
        o = po.Orbit(800e3, np.array(lat), np.array(lon), pass_time, time,
                     np.arange(total) * 2., geodetic.Spheroid())
        case = {'handmade': sizes, 'unit': unit}
        key = 'handmade'
        ctx.state('handmade', sizes, unit)
        ctx.trace()
        methods(ctx, np, o, key, case)
        for p in range(1, len(sizes) + 1):
            for box in (None, (-180, -90, 180, 90), (-180, -5.01, 180, 5.01),
                        (-60, -3.01, 60.5, 50), (0, 60, 1, 61)):
                one_pass(ctx, np, o, p, box, key, case, None, None)
        iterations(ctx, np, o, sizes, unit, step, case)


def iterations(ctx, np, o, sizes, unit, step, case):
    n = len(sizes)
    firsts = ['1970-01-01', '2000-02-28T23:59:59', '1969-12-31T23:59:58',
              '2024-06-01T12:00:00.5']
    for first, number in itertools.product(
            firsts, range(-n - 1, 2 * n + 2)):
        date = np.datetime64(first).astype(f'M8[{unit}]')
        for ticks in (None, -1, 0, 1, sizes[0] - 1, sizes[0], sum(sizes) * 2):
            last = (None if ticks is None else
                    date + np.timedelta64(ticks * step, unit))
            ctx.step()
            sub = {**case, 'first': first, 'ticks': ticks, 'number': number}
            got = []
            for item in o.iterate(date, last, number):
                got.append(item)
                if len(got) > 4 * n + 8:
                    break
            end = (date + o.cycle_duration() if last is None else last)
            want = []
            current, i = date, number
            while current <= end:
                cycle, p = (i - 1) // n + 1, (i - 1) % n + 1
                want.append((cycle, p, current))
                current = current + np.timedelta64(sizes[p - 1] * step, unit)
                i += 1
            ctx.check(got == want, 'iterate', lambda: f'passes '
                      f'{got[:3]}... ({len(got)}) instead of {want[:3]}... '
                      f'({len(want)})', sub)
    # The current date
    before = np.datetime64('now')
    got = next(iter(o.iterate()))
    after = np.datetime64('now')
    ctx.check(got[:2] == (1, 1) and before <= got[2] <= after, 'iterate:now',
              lambda: f'the first pass is {got} at {before}', case)
    got = list(itertools.islice(
        o.iterate(absolute_pass_number=n + 1), 3 * n + 5))
    # Up to the end of a cycle after the current date
    want = [(2 + i // n, i % n + 1) for i in range(len(got))]
    ctx.check([g[:2] for g in got] == want and n <= len(got) <= n + 1,
              'iterate:now', lambda: f'passes {got}', case)


def tracks(ctx, index):
    """Swaths of every short track."""
    import numpy as np
    from pyinterp import core, geodetic
    from pyinterp import orbit as po
    spheroids = [None, (6371000., 0.), (6378000., .01)]
    steps = (2., 150.) if not ctx.thorough else (.5, 2., 20., 150.)
    count = 0
    for inc, u, size, step in itertools.product(
            (0.1, 50, 90, 98, 150), (-90, -89.99, -45, 0, 60, 90, 135, 179.9),
            (2, 3, 6) if not ctx.thorough else (2, 3, 4, 6, 11), steps):
        count += 1
        if count % 8 != index:
            continue
        sp = spheroids[count % 3]
        a, f = sp or geo_model.WGS84
        cfg = {'revs': 14, 'days': 1, 'inc': inc, 'phase': u, 'lon0': 177}
        period = DAY / 14
        t = np.arange(size) * step / (2 * math.pi * 6378.137 / period)
        lon, lat = analytic(np, cfg, t)
        lon = wrap(lon)
        if np.abs(lat).max() > 89.999999:
            lat = np.clip(lat, -90, 90)
        half_orbit = po.Pass(lon, lat, (t * 1e9).astype('m8[ns]'), t * 6.6,
                             po.EquatorCoordinates.undefined())
        case = {'track': {'inc': inc, 'u': u, 'size': size, 'step': step},
                'spheroid': sp}
        ctx.state('track', inc, u, size, step, sp)
        ctx.trace()
        swaths(ctx, np, half_orbit, 'track', case, a, f,
               geodetic.Spheroid(sp) if sp else None, regular=False,
               few=False)
    # A direction is needed
    one = po.Pass(np.array([1.]), np.array([2.]), np.zeros(1, 'm8[ns]'),
                  np.zeros(1), po.EquatorCoordinates.undefined())
    refused(ctx, po.calculate_swath, (one, ), 'track:single', {'points': 1})
    none = po.Pass(np.empty(0), np.empty(0), np.zeros(0, 'm8[ns]'),
                   np.zeros(0), po.EquatorCoordinates.undefined())
    got = po.calculate_swath(none)
    ctx.check(got.lon.shape == got.lat.shape == got.x_ac.shape == (0, 70),
              'track:empty', lambda: f'the swath of an empty pass is '
              f'{got.lon.shape}', {'points': 0})
    for m, n in ((2, 3), (3, 0), (1, 3)):
        refused(ctx, core.geodetic.calculate_swath,
                (np.zeros(m), np.zeros(n), 2000., 2000., 3, None),
                'track:sizes', {'sizes': [m, n]})
