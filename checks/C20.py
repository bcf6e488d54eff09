"""C20: boxes, polygons and multi-polygons as sets of points."""
import copy
import itertools
import math
import pickle
import sys

from checks.geo_model import WGS84, central_angle, ecef, inverse
from checks.plane import Shape, relation

UNITS = ['enum', 'geodetic']
RULE = ('every rectangle and triangle of a lattice and shapes with notches '
        'and holes, at several places of the Earth and across the date line: '
        'every pair through union, intersection, difference and every '
        'predicate, the results compared point by point with exact plane '
        'geometry; multi-polygons of every pair against a third; every '
        'history of additions; areas and perimeters against spherical '
        'geometry; text, GeoJSON, pickle and copies')
BOUNDS = {'quick': '62 shapes x 4 places, pairs on a shifted lattice',
          'thorough': 'all rectangles of a 4x4 and triangles of a 3x3 lattice'}
ASSUMPTIONS = ['edges are geodesics: points within 0.03 degrees of an edge '
               'drawn in the plane are not judged', 'polygons are closed and '
               'clockwise, as Boost.Geometry requires; correct() makes them '
               'so', 'no line crosses an edge lying on the equator (known '
               'finding)', 'the distance of places more than 170 degrees '
               'apart is not judged']
MARGIN = 0.03
LINE_PLACES = [(0, 0.4), (-1.5, -1.5), (100, -12), (178.25, 5)]
PLACES = [(0, 0.4), (-1.5, -1.6), (178.25, 40), (20, -60)]
R = WGS84[0]


def rectangles(n):
    for x0, x1 in itertools.combinations(range(n), 2):
        for y0, y1 in itertools.combinations(range(n), 2):
            yield Shape([(x0, y0), (x0, y1), (x1, y1), (x1, y0)])


def triangles(n):
    pts = list(itertools.product(range(n), range(n)))
    for a, b, c in itertools.combinations(pts, 3):
        s = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
        if s:
            yield Shape([a, b, c] if s < 0 else [a, c, b])


def special():
    yield Shape([(0, 0), (0, 3), (1, 3), (1, 1), (3, 1), (3, 0)])
    yield Shape([(0, 0), (0, 3), (3, 3), (3, 0), (2, 0), (2, 2), (1, 2),
                 (1, 0)])
    yield Shape([(0, 0), (0, 3), (3, 3), (3, 0)],
                [[(1, 1), (2, 1), (2, 2), (1, 2)]])
    yield Shape([(0, 0), (0, 3), (3, 3), (3, 0)],
                [[(0.5, 0.5), (1, 0.5), (1, 2.5), (0.5, 2.5)],
                 [(2, 1), (2.5, 1), (2, 2)]])
    yield Shape([(0, 0), (1.5, 3), (3, 0), (1.5, 1)])


def shapes(thorough):
    r = list(rectangles(4))
    t = list(triangles(3))
    if not thorough:
        r, t = r[::2], t[::2]
    return list(special()) + r + t


def shards(tier):
    out = [{'kind': 'box'}, {'kind': 'history'}, {'kind': 'forms'},
           {'kind': 'lines'}]
    parts = 24 if tier == 'thorough' else 4
    for i in range(len(PLACES)):
        out += [{'kind': 'pairs', 'place': i, 'part': j, 'of': parts}
                for j in range(parts)]
        out.append({'kind': 'single', 'place': i})
        out.append({'kind': 'multi', 'place': i})
    return out


class Maker:
    def __init__(self, g, place, wrapped=False):
        self.g, self.place, self.wrapped = g, place, wrapped

    def lon(self, x):
        x = x + self.place[0]
        return x - 360 if self.wrapped and x >= 180 else x

    def point(self, v):
        return self.g.Point(self.lon(v[0]), v[1] + self.place[1])

    def ring(self, r):
        return [self.point(v) for v in [*r, r[0]]]

    def polygon(self, s):
        return self.g.Polygon(self.ring(s.outer),
                              [self.ring(h) for h in s.holes])

    def coords(self, s):
        return [[[self.lon(x), y + self.place[1]] for x, y in [*r, r[0]]]
                for r in s.rings]


def samples():
    # no sample is on the meridian of a vertex, whose side Boost.Geometry
    # decides within rounding errors
    lons = [-0.6131 + 0.2917 * i for i in range(18)]
    lats = [-0.61 + 0.29 * i for i in range(18)]
    return [(x, y) for x in lons for y in lats]


class Space:
    """The sample points and which of them the shapes hold."""

    def __init__(self, maker, np):
        self.np = np
        self.pts = samples()
        self.lon = np.array([maker.lon(p[0]) for p in self.pts])
        self.lat = np.array([p[1] + maker.place[1] for p in self.pts])
        self.cache = {}

    def of(self, s):
        key = id(s)
        if key not in self.cache:
            np = self.np
            sure = np.array([s.border(p) > MARGIN for p in self.pts])
            self.cache[key] = (np.array([s.inside(p) for p in self.pts]),
                               sure, s)
        return self.cache[key][:2]

    def held(self, geometry, threads=1):
        return self.np.array(
            geometry.covered_by(self.lon, self.lat, threads)).astype(bool)


def describe(m, *ss):
    return {'place': list(m.place), 'wrapped': m.wrapped,
            'shapes': [s.rings for s in ss]}


def one_pair(ctx, m, space, a, b, pa, pb, key):
    """pa, pb: the polygons (or multi-polygons) of the shapes a and b."""
    np = space.np
    (ia, sa), (ib, sb) = space.of(a), space.of(b)
    sure = sa & sb
    area = {}
    ops = [('union', ia | ib), ('intersection', ia & ib)]
    if hasattr(pa, 'difference'):
        ops.append(('difference', ia & ~ib))
    area_a, area_b = pa.area(), pb.area()
    for name, want in ops:
        r = getattr(pa, name)(pb)
        ctx.trace()
        got = space.held(r)
        bad = sure & (got != want)
        ctx.check(not bad.any(), f'{name}:{key}',
                  lambda: f'{name} holds {space.pts[int(np.argmax(bad))]}: '
                  f'{bool(got[int(np.argmax(bad))])}', lambda: describe(
                      m, a, b))
        area[name] = r.area()
    scale = 1e-4 * (area_a + area_b)
    ctx.check(abs(area['union'] + area['intersection'] - area_a - area_b) <=
              scale, f'areas:union:{key}',
              lambda: f'area of the union {area["union"]} and of the '
              f'intersection {area["intersection"]}, of the shapes {area_a} '
              f'and {area_b}', lambda: describe(m, a, b))
    if 'difference' in area:
        ctx.check(abs(area['difference'] + area['intersection'] - area_a) <=
                  scale, f'areas:difference:{key}',
                  lambda: f'area of the difference {area["difference"]} and '
                  f'of the intersection {area["intersection"]}, of the shape '
                  f'{area_a}', lambda: describe(m, a, b))
    rel = relation(a, b, MARGIN)
    ctx.outcome(str(rel))
    if rel is None:
        return
    case = (lambda: describe(m, a, b))
    got = pa.intersects(pb)
    ctx.check(got == (rel != 'apart'), f'intersects:{key}',
              lambda: f'intersects is {got} for shapes that {rel}', case)
    touch = pa.touches(pb)
    ctx.check(touch == (rel == 'meet'), f'touches:{key}',
              lambda: f'touches is {touch} for shapes that {rel}', case)
    d = pa.distance(pb)
    ctx.check((d == 0) == (rel != 'apart') and d >= 0, f'distance:{key}',
              lambda: f'distance {d!r} for shapes that {rel}', case)
    if rel == 'apart':
        d2 = pb.distance(pa)
        ctx.check(abs(d - d2) <= 1e-3 + 1e-6 * d, f'distance:sym:{key}',
                  lambda: f'distance {d!r} one way, {d2!r} the other', case)
        lo, hi = reach(m, a, b)
        ctx.check(lo <= d <= hi, f'distance:value:{key}',
                  lambda: f'distance {d!r}, the borders are {lo!r} to '
                  f'{hi!r} apart', case)


def reach(m, a, b):
    """Bounds of the distance of two shapes, from points of their borders."""
    def border(s):
        out = []
        for p, q in s.edges:
            for k in range(5):
                t = k / 5
                out.append((m.lon(p[0] + t * (q[0] - p[0])),
                            p[1] + t * (q[1] - p[1]) + m.place[1]))
        return [ecef(x, y, 0, *WGS84) for x, y in out]

    best = min(math.dist(p, q) for p, q in itertools.product(border(a),
                                                             border(b)))
    return 0.6 * best - 45000, best * 1.001 + 3000


def pairs(ctx, g, np, shard):
    first = shapes(ctx.thorough)
    second = [s.moved(0.37, 0.29) for s in first]
    for wrapped in (False, True) if PLACES[shard['place']][0] > 90 else (
            False, ):
        m = Maker(g, PLACES[shard['place']], wrapped)
        space = Space(m, np)
        poly = [m.polygon(s) for s in first]
        other = [m.polygon(s) for s in second]
        for i in range(shard['part'], len(first), shard['of']):
            for j in range(len(first)):
                ctx.state(shard['place'], wrapped, i, j)
                if not wrapped or (i + j) % 5 == 0:
                    one_pair(ctx, m, space, first[i], second[j], poly[i],
                             other[j], f'{shard["place"]}:{wrapped}:{i}:{j}')
                if wrapped or (i + j) % 3:
                    continue
                # the same lattice: shared vertices and edges
                rel = relation(first[i], first[j], MARGIN)
                if rel is not None:
                    one_pair(ctx, m, space, first[i], first[j], poly[i],
                             poly[j], f'{shard["place"]}:same:{i}:{j}')
                ctx.check((poly[i] == poly[j]) == (i == j) and
                          (poly[i] != poly[j]) == (i != j),
                          f'equal:{shard["place"]}:{i}:{j}',
                          'polygons are compared wrongly',
                          lambda: describe(m, first[i], first[j]))


def excess(ring):
    """Area of a ring of great circles on the unit sphere (its edges are
    short)."""
    v = [ecef(x, y, 0, 1., 0.) for x, y in ring]
    total = 0.0
    for a, b in zip(v[1:], v[2:]):
        o = v[0]
        num = (o[0] * (a[1] * b[2] - a[2] * b[1]) +
               o[1] * (a[2] * b[0] - a[0] * b[2]) +
               o[2] * (a[0] * b[1] - a[1] * b[0]))
        den = 1 + sum(x * y for x, y in zip(o, a)) + sum(
            x * y for x, y in zip(a, b)) + sum(x * y for x, y in zip(b, o))
        total += 2 * math.atan2(num, den)
    return -total


def single(ctx, g, np, shard):
    sphere = g.Spheroid((6371000., 0.))
    twice = g.Spheroid((2 * WGS84[0], WGS84[1]))
    for wrapped in (False, True):
        m = Maker(g, PLACES[shard['place']], wrapped)
        space = Space(m, np)
        for i, s in enumerate(shapes(True)):
            p = m.polygon(s)
            ctx.state(shard['place'], wrapped, i)
            ctx.trace()
            key = f'{shard["place"]}:{wrapped}:{i}'
            case = describe(m, s)
            inside, sure = space.of(s)
            for n in (0, 1, 2):
                got = space.held(p, n)
                bad = sure & (got != inside)
                ctx.check(not bad.any(), f'covered:{n}:{key}',
                          lambda: f'the polygon holds '
                          f'{space.pts[int(np.argmax(bad))]}: '
                          f'{bool(got[int(np.argmax(bad))])}', case)
            one = np.array([p.covered_by(g.Point(x, y)) for x, y in
                            zip(space.lon, space.lat)])
            ctx.check((one == got).all(), f'covered:point:{key}',
                      'covered_by differs for points and arrays', case)
            far = p.covered_by(space.lon + np.where(space.lon > 0, -360, 360),
                               space.lat)
            bad = sure & (np.array(far).astype(bool) != inside)
            ctx.check(not bad.any(), f'covered:turned:{key}',
                      'covered_by depends on the turn of the longitudes',
                      case)
            for v in s.vertices:
                ctx.check(p.covered_by(m.point(v)) and p.distance(
                    m.point(v)) == 0, f'covered:vertex:{key}:{v}',
                    lambda: f'the vertex {v} is not in its polygon', case)
            # distance to points
            for k in range(0, len(space.pts), 7):
                if not sure[k]:
                    continue
                v = space.pts[k]
                d = p.distance(g.Point(space.lon[k], space.lat[k]))
                lo, hi = reach(m, s, Shape([v]))
                ok = d == 0 if inside[k] else max(lo, 1e-3) <= d <= hi
                ctx.check(ok, f'distance:point:{key}:{k}',
                          lambda: f'the point {v} is at {d!r} of the '
                          f'polygon, not in {(lo, hi)}', case)
            # area and perimeter
            rings = m.coords(s)
            want = 6371000.**2 * sum(excess(r) for r in rings)
            got = p.area(sphere)
            ctx.check(abs(got - want) <= 1e-6 * want, f'area:sphere:{key}',
                      lambda: f'area {got!r} on a sphere instead of {want!r}',
                      case)
            got = p.area()
            want *= (R / 6371000.)**2
            ctx.check(abs(got - want) <= 7e-3 * want, f'area:earth:{key}',
                      lambda: f'area {got!r} instead of about {want!r}', case)
            ctx.check(p.area(g.Spheroid()) == got and abs(
                p.area(twice) - 4 * got) <= 1e-6 * got, f'area:wgs:{key}',
                'the area does not follow the spheroid', case)
            want = sum(6371000. * central_angle(u, v) for r in rings
                       for u, v in zip(r, r[1:]))
            got = p.perimeter(sphere)
            ctx.check(abs(got - want) <= 1e-6 * want,
                      f'perimeter:sphere:{key}', lambda: f'perimeter {got!r} '
                      f'on a sphere instead of {want!r}', case)
            want = sum(inverse(u, v, *WGS84)[0] for r in rings
                       for u, v in zip(r, r[1:]))
            got = p.perimeter()
            ctx.check(abs(got - want) <= 3e-5 * want,
                      f'perimeter:earth:{key}', lambda: f'perimeter {got!r} '
                      f'instead of {want!r}', case)
            ctx.check(p.perimeter(g.Spheroid()) == got and abs(
                p.perimeter(twice) - 2 * got) <= 1e-6 * got,
                f'perimeter:wgs:{key}',
                'the perimeter does not follow the spheroid', case)
            # envelope
            e = p.envelope()
            x = [v[0] + m.place[0] for v in s.vertices]
            y = [v[1] + m.place[1] for v in s.vertices]
            ok = (abs(math.remainder(e.min_corner.lon - min(x), 360)) < 1e-9
                  and abs(e.max_corner.lon - e.min_corner.lon -
                          (max(x) - min(x))) < 1e-9 and
                  -MARGIN <= e.min_corner.lat - min(y) <= 1e-9 and
                  -1e-9 <= e.max_corner.lat - max(y) <= MARGIN)
            ctx.check(ok, f'envelope:{key}', lambda: f'envelope {e} of '
                      f'longitudes {min(x)} to {max(x)} and latitudes '
                      f'{min(y)} to {max(y)}', case)
            for c in (pickle.loads(pickle.dumps(e)) if e.max_corner.lon <= 180
                      else e, copy.copy(e)):
                ctx.check(same_box(c, e), f'envelope:copy:{key}',
                          'the copy of an envelope differs', case)
            # validity, orientation, form
            ctx.check(p.is_valid, f'valid:{key}', 'the polygon is not valid',
                      case)
            ctx.check(p.num_interior_rings() == len(s.holes) == len(p.inners),
                      f'rings:{key}', 'wrong number of interior rings', case)
            back = g.Polygon(m.ring(s.outer)[::-1],
                             [m.ring(h)[::-1] for h in s.holes])
            ctx.check(not back.is_valid and back.correct() == p and
                      back.correct().is_valid, f'correct:{key}',
                      'correct() does not restore the polygon', case)
            opened = g.Polygon(m.ring(s.outer)[:-1],
                               [m.ring(h)[:-1] for h in s.holes])
            ctx.check(opened.correct() == p, f'correct:open:{key}',
                      'correct() does not close the polygon', case)
            ctx.check(p.to_geojson() == {'type': 'Polygon',
                                         'coordinates': rings},
                      f'geojson:{key}', 'the GeoJSON form is wrong', case)
            for name, c in forms(g, p):
                ctx.check(p == c and not p != c and
                          c.to_geojson() == p.to_geojson(),
                          f'form:{name}:{key}', lambda: f'the polygon '
                          f'restored from {name} differs: {c}', case)
            for name, line in [('outer', p.outer), *(
                    (f'inner {k}', v) for k, v in enumerate(p.inners))]:
                k = 0 if name == 'outer' else int(name[6:]) + 1
                got = [[q.lon, q.lat] for q in list(line)]
                ctx.check(got == rings[k], f'{name}:{key}',
                          'a ring is not restored', case)
            # simplification
            ctx.check(p.simplify(0) == p, f'simplify:0:{key}',
                      'simplify(0) changes the polygon', case)


def same_box(a, b):
    return all(getattr(getattr(a, c), v) == getattr(getattr(b, c), v)
               for c in ('min_corner', 'max_corner') for v in ('lon', 'lat'))


def forms(g, p):
    cls = type(p)
    yield 'pickle', pickle.loads(pickle.dumps(p))
    yield 'pickle 2', pickle.loads(pickle.dumps(p, 2))
    yield 'copy', copy.copy(p)
    yield 'deepcopy', copy.deepcopy(p)
    yield 'WKT', cls.read_wkt(p.wkt())
    yield 'GeoJSON', cls.from_geojson(p.to_geojson()['coordinates'])


def multi(ctx, g, np, shard):
    m = Maker(g, PLACES[shard['place']])
    space = Space(m, np)
    left = [s for s in shapes(True) if max(v[0] for v in s.outer) <= 1][::3]
    right = [s.moved(2.2, 0.1) for s in left][::2]
    third = [s.moved(0.37, 0.29) for s in shapes(True)[::9]]
    third_poly = [m.polygon(s) for s in third]
    for i, a in enumerate(left):
        for j, b in enumerate(right):
            pa, pb = m.polygon(a), m.polygon(b)
            both = g.MultiPolygon([pa, pb])
            ctx.state(shard['place'], i, j)
            key = f'{shard["place"]}:{i}:{j}'
            case = describe(m, a, b)
            (ia, sa), (ib, sb) = space.of(a), space.of(b)
            for n in (0, 1, 3):
                bad = sa & sb & (space.held(both, n) != (ia | ib))
                ctx.check(not bad.any(), f'multi:covered:{n}:{key}',
                          'the multi-polygon does not hold its polygons',
                          case)
            v = m.point(b.outer[0])
            ctx.check(both.covered_by(v) and not both.covered_by(
                g.Point(v.lon + 60, v.lat)), f'multi:point:{key}',
                'covered_by is wrong for a point', case)
            ctx.check(abs(both.area() - pa.area() - pb.area()) <= 1e-9 *
                      both.area() and abs(both.area(g.Spheroid(
                          (2 * R, WGS84[1]))) - 4 * both.area()) <=
                      1e-6 * both.area(), f'multi:area:{key}',
                      'the area is not that of the polygons', case)
            e = both.envelope()
            x = [w[0] + m.place[0] for w in a.vertices + b.vertices]
            ctx.check(abs(math.remainder(e.min_corner.lon - min(x), 360)) <
                      1e-9 and abs(e.max_corner.lon - e.min_corner.lon -
                                   max(x) + min(x)) < 1e-9,
                      f'multi:envelope:{key}', lambda: f'envelope {e}', case)
            for w in (g.Point(m.lon(-1), m.place[1]),
                      g.Point(m.lon(5), m.place[1] + 1)):
                d = both.distance(w)
                ctx.check(abs(d - min(pa.distance(w), pb.distance(w))) <=
                          1e-6 * d, f'multi:distance:point:{key}',
                          'the distance is not that of the nearest polygon',
                          case)
            ctx.check(both.distance(pa) == 0 and both.distance(both) == 0,
                      f'multi:distance:own:{key}',
                      'the distance to itself is not 0', case)
            ctx.check(both.to_geojson() == {
                'type': 'MultiPolygon', 'coordinates': [m.coords(a),
                                                        m.coords(b)]},
                f'multi:geojson:{key}', 'the GeoJSON form is wrong', case)
            for name, c in forms(g, both):
                ctx.check(both == c and not both != c and
                          c.to_geojson() == both.to_geojson(),
                          f'multi:form:{name}:{key}', lambda: f'the geometry '
                          f'restored from {name} differs: {c}', case)
            for k in range((i + j) % 3, len(third), 3):
                c, pc = third[k], third_poly[k]
                ic, sc = space.of(c)
                sure = sa & sb & sc
                for other in (pc, g.MultiPolygon([pc])):
                    ctx.trace()
                    u = space.held(both.union(other))
                    n = space.held(both.intersection(other))
                    bad = sure & ((u != (ia | ib | ic)) |
                                  (n != ((ia | ib) & ic)))
                    ctx.check(not bad.any(), f'multi:ops:{key}:{k}',
                              'union or intersection with a multi-polygon '
                              'is wrong', lambda: describe(m, a, b, c))
                    rel = {relation(a, c, MARGIN), relation(b, c, MARGIN)}
                    if None in rel:
                        continue
                    ctx.check(both.intersects(other) == (rel != {'apart'}),
                              f'multi:intersects:{key}:{k}',
                              lambda: f'intersects is wrong for {rel}',
                              lambda: describe(m, a, b, c))
                    ctx.check(both.touches(other) == (
                        'meet' in rel and 'cross' not in rel),
                        f'multi:touches:{key}:{k}',
                        lambda: f'touches is wrong for {rel}',
                        lambda: describe(m, a, b, c))
                    d = both.distance(other)
                    w = min(pa.distance(pc), pb.distance(pc))
                    ctx.check(abs(d - w) <= 1e-3 + 1e-6 * w,
                              f'multi:distance:{key}:{k}',
                              lambda: f'distance {d!r}, the nearest polygon '
                              f'is at {w!r}', lambda: describe(m, a, b, c))


def history(ctx, g, np):
    """All sequences of operations on a list of polygons."""
    m = Maker(g, (10, 20))
    base = [Shape([(x, 0), (x, 1), (x + 1, 1), (x + 1, 0)])
            for x in (0, 2, 4)]
    base[1] = Shape([(2, 0), (2, 3), (5, 3), (5, 0)],
                    [[(3, 1), (4, 1), (4, 2), (3, 2)]])
    polys = [m.polygon(s) for s in base]
    ops = ['append 0', 'append 1', 'add 2', 'iadd 1', 'iadd self', 'copy',
           'pickle', 'radd']

    def look(mp, model, key, path):
        case = {'history': path}
        ok = len(mp) == len(model)
        ctx.check(ok, f'history:len:{key}', lambda: f'{len(mp)} polygons '
                  f'instead of {len(model)} after {path}', case)
        if not ok:
            return
        got = [mp[i] for i in range(len(mp))]
        it = [p for p in mp]
        ctx.check(all(p == polys[k] for p, k in zip(got, model)) and
                  all(p == polys[k] for p, k in zip(it, model)) and
                  len(it) == len(model), f'history:items:{key}',
                  lambda: f'wrong polygons after {path}', case)
        for k in range(3):
            ctx.check((polys[k] in mp) == (k in model),
                      f'history:in:{k}:{key}',
                      lambda: f'membership of {k} is wrong after {path}',
                      case)
        ctx.check(mp.num_interior_rings() == sum(k == 1 for k in model),
                  f'history:rings:{key}', 'wrong number of rings', case)
        ctx.check(len(mp.to_geojson()['coordinates']) == len(model),
                  f'history:geojson:{key}', 'wrong GeoJSON', case)
        for i in (len(model), len(model) + 7):
            try:
                mp[i]
                ok = False
            except IndexError:
                ok = True
            ctx.check(ok, f'history:range:{key}',
                      'no IndexError past the end', case)

    depth = 4 if ctx.thorough else 3
    for cls in (g.MultiPolygon, g.core.MultiPolygon):
        for n in range(depth + 1):
            for path in itertools.product(ops, repeat=n):
                ctx.state(path)
                ctx.trace()
                mp, model = cls(), []
                alias, alias_model = mp, model
                for op in path:
                    name, _, arg = op.partition(' ')
                    if name == 'append':
                        p = copy.copy(polys[int(arg)])
                        mp.append(p)
                        model.append(int(arg))
                    elif name == 'add':
                        mp = mp + g.MultiPolygon([polys[int(arg)]])
                        model = model + [int(arg)]
                    elif name == 'radd':
                        mp = g.MultiPolygon([polys[0]]) + mp
                        model = [0] + model
                    elif op == 'iadd self':
                        mp += mp
                        model += list(model)
                    elif name == 'iadd':
                        mp += g.MultiPolygon([polys[int(arg)]])
                        model += [int(arg)]
                    elif name == 'copy':
                        mp, model = copy.copy(mp), list(model)
                    elif name == 'pickle':
                        mp, model = (pickle.loads(pickle.dumps(mp)),
                                     list(model))
                    if len(model) > 12:
                        break
                look(mp, model, ','.join(path), path)
                look(alias, alias_model, 'first:' + ','.join(path), path)
    # iterators keep what they iterate on
    for p in polys:
        for make in (lambda: p.outer, lambda: g.MultiPolygon([p, p])):
            x = make()
            n = sys.getrefcount(x)
            it = iter(x)
            ctx.check(sys.getrefcount(x) > n, f'iterator:{type(x).__name__}',
                      'an iterator does not keep its geometry alive',
                      {'type': str(type(x))})
            del it
    bad = [([1], TypeError), ([g.Point(0, 0)], ValueError)]
    for arg, _ in bad:
        for cls in (g.MultiPolygon, g.core.MultiPolygon):
            try:
                cls(arg)
                ok = False
            except (ValueError, TypeError):
                ok = True
            ctx.check(ok, 'history:bad', 'a multi-polygon of something else',
                      {})
    for args in (([1, 2], ), ([g.Point(0, 0)], [1]),
                 ([g.Point(0, 0)], [[g.Point(0, 0), 2]])):
        for cls in (g.Polygon, g.core.Polygon):
            try:
                cls(*args)
                ok = False
            except (ValueError, TypeError):
                ok = True
            ctx.check(ok, 'history:bad polygon', 'a polygon of something '
                      'else', {})


def box(ctx, g, np):
    lons = [-180., -179.5, -1., 0., 2.5, 179., 180.]
    lats = [-90., -45., -0.5, 0., 30., 90.]
    px = np.array(sorted({*lons, *(x + d for x in lons for d in (-0.25,
                                                                 0.25))}))
    px = px[(px >= -180) & (px <= 180)]
    py = np.array(sorted({*lats, *(y + d for y in lats for d in (-0.25,
                                                                 0.25))}))
    py = py[(py >= -90) & (py <= 90)]
    gx, gy = (v.ravel() for v in np.meshgrid(px, py))
    boxes = {}
    for x0, x1 in itertools.combinations(lons, 2):
        for y0, y1 in itertools.combinations(lats, 2):
            ctx.state(x0, y0, x1, y1)
            ctx.trace()
            case = {'box': [x0, y0, x1, y1]}
            key = f'{x0}:{y0}:{x1}:{y1}'
            b = g.Box(g.Point(x0, y0), g.Point(x1, y1))
            boxes[x0, y0, x1, y1] = b
            inside = (gx >= x0) & (gx <= x1) & (gy >= y0) & (gy <= y1)
            # -180 and 180 are the same place, and a pole is on all meridians
            other = np.where(gx <= -180, 180, np.where(gx >= 180, -180, gx))
            inside |= ((other >= x0) & (other <= x1) & (gy >= y0) &
                       (gy <= y1))
            sure = np.abs(gy) < 90
            for n in (0, 1, 3):
                got = np.array(b.covered_by(gx, gy, n)).astype(bool)
                bad = sure & (got != inside)
                ctx.check(not bad.any(), f'box:covered:{n}:{key}',
                          lambda: f'the box holds {gx[np.argmax(bad)]}, '
                          f'{gy[np.argmax(bad)]}: {got[np.argmax(bad)]}',
                          case)
            one = np.array([b.covered_by(g.Point(x, y))
                            for x, y in zip(gx, gy)])
            ctx.check((one == got).all(), f'box:point:{key}',
                      'covered_by differs for points and arrays', case)
            far = np.array(b.covered_by(np.where(gx > 0, gx - 360, gx + 360),
                                        gy)).astype(bool)
            ctx.check((far == got)[sure].all(), f'box:turned:{key}',
                      'covered_by depends on the turn of the longitudes',
                      case)
            c = b.centroid()
            ctx.check(abs(c.lon - (x0 + x1) / 2) < 1e-9 and
                      abs(c.lat - (y0 + y1) / 2) < 1e-9,
                      f'box:centroid:{key}', lambda: f'centroid {c}', case)
            corners = [[x0, y0], [x0, y1], [x1, y1], [x1, y0], [x0, y0]]
            ctx.check(b.to_geojson() == b.as_polygon().to_geojson() == {
                'type': 'Polygon', 'coordinates': [corners]},
                f'box:geojson:{key}', lambda: f'{b.to_geojson()}', case)
            for name, k in (
                    ('pickle', pickle.loads(pickle.dumps(b))),
                    ('copy', copy.copy(b)), ('deepcopy', copy.deepcopy(b)),
                    ('WKT', g.Box.read_wkt(b.wkt())),
                    ('GeoJSON', g.Box.from_geojson([x0, y0, x1, y1])),
                    ('longitudes swapped', g.Box(g.Point(x1, y0),
                                                 g.Point(x0, y1))),
                    ('latitudes swapped', g.Box(g.Point(x0, y1),
                                                g.Point(x1, y0))),
                    ('corners swapped', g.Box(g.Point(x1, y1),
                                              g.Point(x0, y0)))):
                ctx.check(same_box(k, b) and k == b and not k != b,
                          f'box:{name}:{key}', lambda: f'the box made from '
                          f'{name} is {k}', case)
            if x1 - x0 < 100 and y1 - y0 < 100:
                p = b.as_polygon()
                w = g.Spheroid((6371000., 0.))
                ctx.check(b.area() == p.area() and b.area(w) == p.area(w),
                          f'box:area:{key}', 'the area is not that of its '
                          'polygon', case)
                if abs(y0) < 90 and abs(y1) < 90:
                    want = 6371000.**2 * excess(corners)
                    ctx.check(abs(b.area(w) - want) <= 1e-6 * want,
                              f'box:area:sphere:{key}', lambda: f'area '
                              f'{b.area(w)!r} instead of {want!r}', case)
    keys = [k for k in boxes if abs(k[1]) < 90 and abs(k[3]) < 90 and
            k[2] - k[0] < 90]
    for k, j in itertools.product(boxes, keys):
        ctx.check((boxes[k] == boxes[j]) == (k == j) and
                  (boxes[k] != boxes[j]) == (k != j), f'box:eq:{k}:{j}',
                  'boxes are compared wrongly', {'boxes': [k, j]})
    for k, j in itertools.product(keys, keys):
        gap = max(max(k[0], j[0]) - min(k[2], j[2]),
                  max(k[1], j[1]) - min(k[3], j[3]))
        if gap > 0 and ({k[2], j[2]} & {180.} and {k[0], j[0]} & {-180.} or
                        max(k[2], j[2]) - min(k[0], j[0]) > 170):
            continue
        d = boxes[k].distance(boxes[j])
        ctx.check((d == 0) == (gap <= 0) and abs(
            boxes[j].distance(boxes[k]) - d) <= 1e-6 * d + 1e-3,
            f'box:distance:{k}:{j}', lambda: f'distance {d!r} of boxes '
            f'separated by {gap} degrees', {'boxes': [k, j]})
    for k in keys:
        for x, y in itertools.product(lons, lats):
            if abs(x) == 180 or max(k[2], x) - min(k[0], x) > 170:
                continue
            d = boxes[k].distance(g.Point(x, y))
            inside = k[0] <= x <= k[2] and k[1] <= y <= k[3]
            corner = (x in (k[0], k[2]) and y in (k[1], k[3]))
            strictly = k[0] < x < k[2] and k[1] < y < k[3]
            if inside and not (corner or strictly):
                continue
            ctx.check((d == 0) == inside, f'box:distance:point:{k}:{x}:{y}',
                      lambda: f'distance {d!r} to the point ({x}, {y})',
                      {'box': k})
    w = g.Box.whole_earth()
    ctx.check((w.min_corner.lon, w.min_corner.lat, w.max_corner.lon,
               w.max_corner.lat) == (-180, -90, 180, 90), 'box:whole',
              'wrong box of the Earth', {})
    ctx.check(bool(np.array(w.covered_by(gx, gy)).all()), 'box:whole-covered',
              'the whole Earth does not hold a point', {})
    for x0, x1 in ((-180.5, 0.), (0., 180.5), (-200., 200.), (190., 200.)):
        for make in (lambda: g.Box(g.Point(x0, 0.), g.Point(x1, 1.)),
                     lambda: g.Box.from_geojson([x0, 0., x1, 1.])):
            try:
                make()
                ok = False
            except ValueError:
                ok = True
            ctx.check(ok, f'box:range:{x0}:{x1}', 'longitudes out of range '
                      'accepted', {'lon': [x0, x1]})
    # a corner can be replaced
    b = g.Box(g.Point(0, 0), g.Point(5, 6))
    b.min_corner = g.Point(1, 2)
    b.max_corner = g.Point(3, 4)
    ctx.check(same_box(b, g.Box(g.Point(1, 2), g.Point(3, 4))), 'box:set',
              'the corners are not replaced', {})


def form_cases(ctx, g, np):
    """Text forms keep the coordinates."""
    vals = [0., -0.1, 1 / 3, 123.456789012345, -179.99999999, 1e-9, 45.0000001,
            math.nextafter(1, 2)]
    for x, y in itertools.product(vals, vals):
        y = math.remainder(y, 90)
        ctx.state(x, y)
        ctx.trace()
        p = g.Point(x, y)
        case = {'point': [x, y]}
        for name, c in (('pickle', pickle.loads(pickle.dumps(p))),
                        ('copy', copy.copy(p)),
                        ('deepcopy', copy.deepcopy(p)),
                        ('WKT', g.Point.read_wkt(p.wkt()))):
            ctx.check((c.lon, c.lat) == (x, y) and c == p and not c != p,
                      f'point:{name}:{x}:{y}', lambda: f'the point ({x!r}, '
                      f'{y!r}) is restored from {name} as ({c.lon!r}, '
                      f'{c.lat!r})', case)
        ctx.check(p.to_geojson() == {'type': 'Point', 'coordinates': [x, y]},
                  f'point:geojson:{x}:{y}', 'wrong GeoJSON', case)
        q = g.Point()
        q.lon, q.lat = x, y
        ctx.check((q.lon, q.lat) == (x, y), f'point:set:{x}:{y}',
                  'the coordinates are not set', case)
        tri = [p, g.Point(x + 0.123456789, y), g.Point(x, y - 0.987654321), p]
        poly = g.Polygon(tri)
        line = g.LineString(np.array([x, x + 1 / 3, x]),
                            np.array([y, y - 1 / 7, y]))
        mp = g.MultiPolygon([poly])
        b = g.Box(g.Point(x, y), g.Point(x + 1 / 7, y + 1 / 3))
        for name, a, c in (
                ('Polygon', poly, g.Polygon.read_wkt(poly.wkt())),
                ('LineString', line, g.LineString.read_wkt(line.wkt())),
                ('MultiPolygon', mp, g.MultiPolygon.read_wkt(mp.wkt())),
                ('Box', b, g.Box.read_wkt(b.wkt()))):
            ctx.check(a.to_geojson() == c.to_geojson(),
                      f'wkt:{name}:{x}:{y}', lambda: f'{name} restored from '
                      f'its WKT as {c.to_geojson()} instead of '
                      f'{a.to_geojson()}', case)


def near(a, b):
    return math.hypot((a[0] - b[0] + 180) % 360 - 180, a[1] - b[1]) < 0.04


def lines(ctx, g, np):
    """Line strings across polygons."""
    # Boost.Geometry misses crossings of a segment of the equator.
    m = Maker(g, (0, 0))
    p = m.polygon(Shape([(0, 0), (0, 3), (3, 3), (3, 0)]))
    line = g.LineString([g.Point(4.2, -1), g.Point(0.4, 0.3)])
    ctx.check(len(p.intersection(line)) == 1, 'line:equator', lambda:
              'Polygon.intersection(LineString) returns '
              f'{p.intersection(line)} for a line from (4.2, -1) to '
              '(0.4, 0.3) crossing the edge of a polygon from (0, 0) to '
              '(3, 0)', {'line': [(4.2, -1), (0.4, 0.3)]})
    for place in LINE_PLACES:
        m = Maker(g, place)
        for i, s in enumerate([Shape([(0, 0), (0, 3), (3, 3), (3, 0)]),
                               list(special())[2]]):
            p = m.polygon(s)
            ends = [(-1, -1), (-1, 1.5), (-1, 4), (1.5, 4), (4, 4.3),
                    (4, 0.7), (4.2, -1), (1.4, -1), (0.4, 0.3), (2.6, 2.4),
                    (0.5, 2.3)]
            for a, b in itertools.permutations(ends, 2):
                ctx.state(place, i, a, b)
                ctx.trace()
                line = g.LineString([m.point(a), m.point(b)])
                case = {'polygon': s.rings, 'line': [a, b]}
                key = f'{place}:{i}:{a}:{b}'
                cuts = []
                for c, d in s.edges:
                    x = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (
                        d[0] - c[0])
                    if x:
                        t = ((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) *
                             (d[0] - c[0])) / x
                        u = ((c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) *
                             (b[0] - a[0])) / x
                        if -0.02 < t < 1.02 and -0.02 < u < 1.02:
                            cuts.append((t, u))
                if any(not 0.03 < v < 0.97 for c in cuts for v in c):
                    continue
                cuts = sorted(t for t, _ in cuts)
                spans = []
                t = [0.0, *cuts, 1.0]
                for u, v in zip(t, t[1:]):
                    w = (u + v) / 2
                    if s.inside((a[0] + w * (b[0] - a[0]),
                                 a[1] + w * (b[1] - a[1]))):
                        spans.append((u, v))

                def at(t):
                    return (a[0] + t * (b[0] - a[0]) + place[0],
                            a[1] + t * (b[1] - a[1]) + place[1])

                got = line.intersection(p)
                ok = len(got) == len(spans)
                if ok:
                    ok = all(len(k) == 2 and all(
                        near((q.lon, q.lat), at(w))
                        for q, w in zip(list(k), span))
                        for k, span in zip(got, spans))
                ctx.check(ok, f'line:pieces:{key}', lambda: f'the pieces are '
                          f'{got}, not {[[at(x) for x in s] for s in spans]}',
                          case)
                got = p.intersection(line)
                if spans and not cuts:
                    # the line is inside the polygon
                    ctx.check(len(got) == 2, 'line:inside', lambda:
                              'Polygon.intersection(LineString) returns '
                              f'{got} for a line inside the polygon', case)
                else:
                    want = [at(t) for t in cuts]
                    have = [(q.lon, q.lat) for q in list(got)]
                    ok = len(have) == len(want) and all(
                        any(near(x, y) for x in have) for y in want)
                    ctx.check(ok, f'line:points:{key}', lambda: f'the border '
                              f'is crossed at {have}, not {want}', case)


def explore(ctx, shard):
    import numpy as np
    import pyinterp.geodetic as g
    from pyinterp.core import geodetic as core

    g.core = core
    kind = shard['kind']
    if kind in ('pairs', 'single', 'multi'):
        {'pairs': pairs, 'single': single, 'multi': multi}[kind](
            ctx, g, np, shard)
    else:
        {'box': box, 'history': history, 'forms': form_cases,
         'lines': lines}[kind](ctx, g, np)
