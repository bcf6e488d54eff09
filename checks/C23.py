"""C23: pickled and copied objects."""
import copy
import itertools
import math
import pickle

UNITS = ['axis', 'binning', 'bivariate', 'bivariate_interpolator',
         'dateutils', 'descriptive_statistics', 'enum', 'geodetic', 'geohash',
         'grid', 'histogram2d', 'period', 'quadrivariate', 'rtree',
         'streaming_histogram', 'trivariate']
RULE = ('every class that can be pickled or copied, in every state reached by '
        'a sequence of its operations up to a depth; each state restored in '
        'every way (pickle protocols 2 to 5, pickled twice, deep copy, '
        'shallow copy, copy method), then every operation applied to the '
        'original or to the restored object; compared with the original, and '
        'with an object built by replaying the operations')
BOUNDS = {'quick': 'sequences of 2 operations, then 1 operation; every '
          'truncation of every state',
          'thorough': 'sequences of 3 operations, then 2 operations'}
ASSUMPTIONS = ['the shallow copies of the RTrees share their points, and '
               'those of the wrapper classes written in Python the object '
               'they hold: only their answers are compared',
               'the state of an object is what its methods answer; two '
               'undefined values are alike']


def plain(x):
    """A comparable image of an answer."""
    import numpy as np
    if isinstance(x, np.ma.MaskedArray):
        return ('masked', plain(x.data), plain(np.ma.getmaskarray(x)))
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return ('struct', x.shape, x.dtype.names,
                    tuple(plain(x[n]) for n in x.dtype.names))
        if x.dtype.kind in 'Mm':
            return (str(x.dtype), x.shape, tuple(
                x.astype('i8').ravel().tolist()))
        return (str(x.dtype), x.shape, plain(x.ravel().tolist()))
    if isinstance(x, np.generic):
        return (str(x.dtype), plain(x.item()))
    if isinstance(x, float):
        return 'nan' if math.isnan(x) else x
    if isinstance(x, (list, tuple)):
        return tuple(plain(v) for v in x)
    if isinstance(x, dict):
        return tuple(sorted((k, plain(v)) for k, v in x.items()))
    if isinstance(x, (int, str, bytes, bool, type(None))):
        return x
    return (type(x).__name__, repr(x))


def answer(f, *a, **k):
    try:
        return plain(f(*a, **k))
    except (ValueError, RuntimeError, TypeError, IndexError,
            ArithmeticError) as err:
        return 'raises ' + type(err).__name__


def nothing(o):
    pass


# -- the classes ------------------------------------------------------------
# name: (list of constructors, list of (name, operation), observation,
#        == is defined, ways of copying that make independent objects)
def axes():
    import numpy as np
    from pyinterp import core
    x = np.linspace(-5, 25, 31)

    def observe(a):
        return [plain(a[:]), answer(len, a), answer(a.front),
                answer(a.back), answer(a.is_ascending),
                answer(a.is_regular), answer(a.increment),
                a.is_circle, answer(a.min_value), answer(a.max_value),
                answer(a.find_index, x), answer(a.find_index, x, True),
                answer(a.find_indexes, x), repr(a), str(a)]

    def flip(a):
        return a.flip(inplace=True)

    def fresh(a):
        return a.flip()
    makers = [lambda v=v, k=k: core.Axis(np.array(v, dtype='f8'), **k)
              for v, k in (([0, 1, 2, 3], {}), ([0, 1, 3], {}),
                           ([3, 2, 1], {}), ([7, 2, 1], {}), ([4], {}),
                           (np.arange(0, 360, 60), {'is_circle': True}),
                           (np.arange(350, -10, -30), {'is_circle': True}),
                           ([0, 5, 20, 100, 300], {'is_circle': True}),
                           ([10, 20, 30], {'is_circle': True}),
                           ([0, 1, 2.4, 3], {'epsilon': 0.5}))]
    yield ('Axis', makers, [('flip', flip), ('new', fresh)], observe, True,
           True)

    def observe64(a):
        i = np.arange(-5, 26)
        return [plain(a[:]), len(a), answer(a.front), answer(a.back),
                answer(a.is_ascending), answer(a.is_regular),
                answer(a.increment), answer(a.min_value),
                answer(a.max_value), answer(a.find_index, i),
                answer(a.find_index, i, True), answer(a.find_indexes, i),
                repr(a)]
    yield ('AxisInt64', [lambda v=v: core.AxisInt64(np.array(v)) for v in (
        [0, 1, 2], [0, 1, 5], [9, 4, -1], [2**53 + 1, 2**53 + 3], [5])],
        [('flip', flip)], observe64, True, True)

    def observet(a):
        d = np.arange(-5, 26).astype(a[:].dtype.name)
        return [plain(a[:]), len(a), answer(a.front), answer(a.back),
                answer(a.is_ascending), answer(a.is_regular),
                answer(a.increment), answer(a.min_value),
                answer(a.max_value), answer(a.find_index, d),
                answer(a.find_index, d, True), answer(a.find_indexes, d),
                str(a.dtype()) if callable(a.dtype) else str(a.dtype),
                repr(a)]
    yield ('TemporalAxis', [
        lambda v=v, u=u: core.TemporalAxis(np.array(v, dtype='i8').astype(u))
        for v in ([0, 1, 2], [0, 1, 5], [9, 4, -1], [5])
        for u in ('M8[ns]', 'M8[s]', 'M8[D]', 'm8[ms]', 'M8[M]')],
        [('flip', flip)], observet, True, True)


def periods():
    import numpy as np
    from pyinterp import core
    from pyinterp.period import Period, PeriodList
    dates = np.array(['2000-01-01', '2000-01-02', '2000-01-04', '2000-02-01',
                      '1999-12-31'], dtype='M8[ns]')

    def observe(p):
        return [plain(p.begin), plain(p.last), plain(p.end), p.is_null(),
                plain(p.duration()), [p.contains(d) for d in dates], repr(p)]
    yield ('Period', [lambda a=a, b=b, u=u, w=w: Period(
        np.datetime64(a, u), np.datetime64(b, u), w)
        for a, b in (('2000-01-01', '2000-01-03'), ('2000-01-02',
                                                    '2000-01-01'),
                     ('1969-01-01', '2000-01-01'))
        for u in ('D', 's', 'ns') for w in (True, False)], [], observe, True,
        True)

    def basic(p):
        return [p.begin, p.last, p.end(), p.is_null(), p.duration()]
    yield ('core.Period', [lambda a=a, b=b, w=w: core.Period(a, b, w)
                           for a, b in ((0, 5), (5, 0), (-3, -3), (2**62, 4))
                           for w in (True, False)], [], basic, None, None)

    def lists(p):
        return [len(p), plain(p.periods), plain(p.duration()),
                p.are_periods_sorted_and_disjointed(),
                answer(p.cross_a_period, dates),
                answer(p.belong_to_a_period, dates),
                answer(p.is_it_close, dates[0], np.timedelta64(1, 'D')),
                repr(p)]

    def of(items, unit):
        return PeriodList(np.array(items, dtype=f'M8[{unit}]').
                                   reshape(-1, 2).T)
    lists_ = [([], 'ns'), ([('2000-01-01', '2000-01-02')], 'D'),
              ([('2000-01-01', '2000-01-02'), ('2000-01-03', '2000-01-05')],
               's'),
              ([('2000-01-03', '2000-01-05'), ('1999-01-01', '2000-01-03')],
               'ns')]
    other = [('2000-01-04', '2000-03-01')]
    yield ('PeriodList', [lambda i=i, u=u: of(i, u) for i, u in lists_], [
        ('join', lambda p: p.join_adjacent_periods()),
        ('sort', lambda p: p.sort()),
        ('merge', lambda p: p.merge(of(other, 'D'))),
        ('filter', lambda p: p.filter(np.timedelta64(2, 'D')))],
        lists, None, False)


def geohashes():
    from pyinterp import GeoHash

    def observe(g):
        b = g.bounding_box()
        return [str(g), repr(g), g.precision(), g.number_of_bits(),
                plain([g.center().lon, g.center().lat]),
                plain([b.min_corner.lon, b.min_corner.lat, b.max_corner.lon,
                       b.max_corner.lat]),
                [str(n) for n in g.neighbors()], plain(g.area())]
    yield ('GeoHash', [lambda p=p, n=n: GeoHash(p[0], p[1], n)
                       for p in ((0., 0.), (-180., -90.), (179.999, 89.999),
                                 (-67.4, 12.3)) for n in range(1, 13)], [],
           observe, None, True)


def geometries():
    import numpy as np
    from pyinterp import geodetic as g
    points = [g.Point(lon, lat) for lon in (-180., -170., 0., 5., 12., 175.)
              for lat in (-40., 0.5, 10., 20.)]

    def sphere(s):
        return [s.semi_major_axis, s.flattening, plain(s.semi_minor_axis()),
                plain(s.first_eccentricity_squared()),
                plain(s.mean_radius()), plain(s.authalic_radius()),
                plain(s.geocentric_radius(30.))]
    spheroids = [lambda p=p: g.Spheroid(p) for p in (
        None, (6378137.0, 1 / 298.257222101), (1000.0, 0.01), (1.0, 0.0))]
    yield ('Spheroid', spheroids, [], sphere, True, True)

    def coordinates(c):
        x = np.array([0., 1e6, 6.4e6])
        return [sphere(c.spheroid), answer(c.ecef_to_lla, x, x + 5e6, x),
                answer(c.lla_to_ecef, x / 1e5, x / 1e6, x)]
    yield ('Coordinates', [lambda s=s: g.Coordinates(s()) for s in spheroids],
           [], coordinates, None, True)

    def point(p):
        return [p.lon, p.lat, p.wkt(), str(p), repr(p),
                plain([p.distance(q) for q in points])]

    def lon(p):
        p.lon = 33.5

    def lat(p):
        p.lat = -7.25
    yield ('Point', [lambda a=a: g.Point(*a) for a in (
        (0., 0.), (1.0000000001, -2.5), (180., 90.), (-180., -90.),
        (1e-300, 1 / 3))], [('lon', lon), ('lat', lat)], point, True, True)

    def box(b):
        return [point(b.min_corner), point(b.max_corner), b.wkt(), str(b),
                plain(b.area()), [b.covered_by(p) for p in points]]

    def corner(b):
        b.min_corner = g.Point(-11., -6.)

    def other(b):
        b.max_corner = g.Point(7., 60.)
    yield ('Box', [lambda a=a: g.Box(g.Point(*a[0]), g.Point(*a[1]))
                   for a in (((-3., -2.), (6., 5.)), ((170., 0.),
                                                      (-170., 11.)),
                             ((-180., -90.), (180., 90.)),
                             ((1 / 3, 0.1), (2 / 3, 0.2)))],
           [('min', corner), ('max', other)], box, True, True)
    ring = [(0., 0.), (10., 0.), (10., 12.), (0., 11.)]
    hole = [(2., 2.), (2., 4.), (4., 4.), (4., 2.)]

    def ring_of(r, dx=0.0):
        return [g.Point(x + dx, y) for x, y in r + r[:1]]

    def polygon(p):
        return [p.wkt(), str(p), plain(p.to_geojson()), plain(p.area()),
                p.num_interior_rings(), plain(p.perimeter()),
                box(p.envelope()), [p.covered_by(q) for q in points],
                [point(q) for q in p.outer],
                [[point(q) for q in r] for r in p.inners]]
    polygons = [lambda a=a: g.Polygon(*a) for a in (
        (ring_of(ring), ), (ring_of(ring), [ring_of(hole)]),
        (ring_of(ring, 175.), ),
        (ring_of(ring), [ring_of(hole), ring_of(hole, 4.)]))]
    yield ('Polygon', polygons, [], polygon, True, True)

    def multi(m):
        return [m.wkt(), str(m), plain(m.to_geojson()), plain(m.area()),
                len(m), m.num_interior_rings(),
                [polygon(p) for p in m], [m.covered_by(q) for q in points]]

    def append(m):
        m.append(g.Polygon(ring_of(ring, 30.)))

    def extend(m):
        m += g.MultiPolygon([g.Polygon(ring_of(hole, -60.))])
        return m
    yield ('MultiPolygon', [
        lambda: g.MultiPolygon(), lambda: g.MultiPolygon([polygons[1]()]),
        lambda: g.MultiPolygon([polygons[0](), g.Polygon(ring_of(
            hole, 60.))])], [('append', append), ('+=', extend)], multi,
        None, True)

    def line(s):
        return [s.wkt(), len(s), plain(s.to_geojson()),
                [point(p) for p in s],
                answer(s.curvilinear_distance)]

    def more(s):
        s.append(g.Point(22., -3.))
    strings = [((), ()), ((0., 10.), (0., 5.)),
               ((170., 179., -172., -160.), (1., 2., 3., 4.)),
               ((1 / 3, ), (2 / 3, ))]
    yield ('LineString', [lambda a=a: g.LineString(
        np.array(a[0], dtype='f8'), np.array(a[1], dtype='f8'))
        for a in strings], [('append', more)], line, None, True)

    def crossing(c):
        found = c.search()
        return [line(c.half_orbit_1), line(c.half_orbit_2), c.exists(),
                None if found is None else point(found)]
    yield ('Crossover', [lambda a=a, b=b: g.Crossover(
        g.LineString(*map(np.array, a)), g.LineString(*map(np.array, b)))
        for a, b in ((((0., 10.), (0., 10.)), ((0., 10.), (9., 1.))),
                     (((0., 10.), (0., 10.)), ((0., 10.), (19., 21.))),
                     (((175., -175.), (0., 10.)), ((175., 185.), (9., 1.))))],
        [], crossing, None, None)

    # The windows and the radial functions are those of the Python class
    q = (np.array([0.1, 5., 179.9, -170.]), np.array([0.3, 4., 1., -20.]))

    def tree(t):
        return [len(t), bool(t), answer(t.query, *q, k=3, num_threads=1),
                answer(t.query, *q, k=3, within=True, num_threads=1),
                answer(t.inverse_distance_weighting, *q, k=3, within=False,
                       num_threads=1),
                answer(t.radial_basis_function, *q, rbf='cubic', k=3,
                       within=False, num_threads=1),
                answer(t.window_function, *q, wf='boxcar', k=3, radius=1e7,
                       within=False, num_threads=1)]
    yield ('geodetic.RTree', [lambda s=s: g.RTree(s()) for s in
                              [lambda: None] + spheroids[1:3]], [
        ('insert', lambda t: t.insert(np.array([1., 179., -171.]), np.array(
            [2., 3., -20.]), np.array([1., 2., 3.]))),
        ('packing', lambda t: t.packing(np.array([5., -180.]), np.array(
            [2., 3.5]), np.array([7., 8.]))),
        ('clear', lambda t: t.clear())], tree, None, True)


def trees():
    import numpy as np
    import pyinterp
    q = np.array([[0.1, 0.2, 0.], [5., 4., 10.], [179.9, -1., 0.]])

    def observe(t):
        return [len(t), bool(t), str(t.dtype), plain(t.bounds()),
                answer(t.query, q, k=3, num_threads=1),
                answer(t.query, q, k=2, within=True, num_threads=1),
                answer(t.inverse_distance_weighting, q, k=3, within=False,
                       num_threads=1),
                answer(t.radial_basis_function, q, k=3, within=False,
                       num_threads=1)]
    makers = [lambda d=d, e=e, s=s: pyinterp.RTree(
        pyinterp.geodetic.Spheroid(s) if s else None, dtype=np.dtype(d),
        ecef=e) for d in ('f8', 'f4') for e, s in (
            (True, None), (False, None), (False, (1000.0, 0.01)))]
    yield ('RTree', makers, [
        ('insert', lambda t: t.insert(np.array([
            [1., 2., 0.], [3., -4., 5.], [-2., 0., 0.]]), np.array(
                [1., 2., 3.]))),
        ('packing', lambda t: t.packing(np.array([[5., 4., 9.], [
            180., 0., 0.]]), np.array([7., 8.]))),
        ('clear', lambda t: t.clear())], observe, None, False)


def statistics():
    import numpy as np
    import pyinterp
    from pyinterp import core
    from pyinterp.binning import Binning1D, Binning2D
    from pyinterp.histogram2d import Histogram2D
    from pyinterp.statistics import DescriptiveStatistics, StreamingHistogram
    names = ('count', 'sum', 'mean', 'var', 'skewness', 'kurtosis', 'min',
             'max', 'sum_of_weights')
    fields = names[:3] + ('variance', ) + names[4:]
    data = [np.array([1., 2., 4.]), np.array([[1., -2.], [np.nan, 7.]]),
            np.array([np.nan]), np.array([[3.25, 1.5, 1e300]])]

    def moments(s):
        return [answer(getattr(s, n)) for n in names] + [str(s)]

    def iadd(make):
        def add(s):
            s += make()
            return s
        return add

    def core_of(make):
        return lambda: make()._instance
    makers = [lambda v=v, a=a, d=d: DescriptiveStatistics(
        v.astype(d), np.abs(v).astype(d) if a == 0 else None, a,
        dtype=np.dtype(d))
        for d in ('f8', 'f4') for v in data[:3] for a in (None, 0)]
    for m in makers:
        add = [('+=', iadd(m))]
        yield ('DescriptiveStatistics', [m], add, moments, None, False)
        yield ('core.DescriptiveStatistics', [core_of(m)],
               [('+=', iadd(core_of(m)))],
               lambda s: [answer(getattr(s, n)) for n in fields], None, True)

    def bins(s):
        return [answer(getattr(s, n)) for n in names[:1] + names[2:]] + [
            answer(s.size), answer(s.bins), answer(s.quantile, 0.3)]

    def core_bins(s):
        return [answer(getattr(s, n)) for n in fields[:1] + fields[2:]] + [
            answer(s.size), answer(s.bins), answer(s.quantile, 0.3)]
    makers = [lambda v=v, a=a, d=d, b=b: StreamingHistogram(
        v.astype(d), None, a, bin_count=b, dtype=np.dtype(d))
        for d in ('f8', 'f4') for v in data[:3] for a in (None, 0)
        for b in (None, 2)]
    for m in makers:
        yield ('StreamingHistogram', [m], [('+=', iadd(m))], bins, None,
               False)
        yield ('core.StreamingHistogram', [core_of(m)],
               [('+=', iadd(core_of(m)))], core_bins, None, True)
    ax = [lambda: core.Axis(np.array([0., 1., 2.])),
          lambda: core.Axis(np.arange(0, 360, 90.), is_circle=True)]
    def binned(b):
        return [answer(b.variable, n) for n in fields] + [
            repr(b), plain(b.x[:]), plain(b.y[:]),
            b.x.is_circle, sphere_of(b.wgs)]

    def core_binned(b):
        return [answer(getattr(b, n)) for n in fields] + [plain(b.x[:]),
                                                           plain(b.y[:])]

    def sphere_of(s):
        return None if s is None else (s.semi_major_axis, s.flattening)

    def push(simple):
        def f(b):
            b.push(np.array([0.2, 1.6, 1.5]), np.array([1., 0.2, 1.3]),
                   np.array([3., 4., -5.]), simple)
        return f

    def core_add(make):
        def f(b):
            o = make()
            push(True)(o)
            b += o
            return b
        return f
    for d in ('f8', 'f4'):
        for i, w in itertools.product((0, 1), (None, (1000.0, 0.01))):
            def make(d=d, i=i, w=w):
                return Binning2D(ax[i](), ax[0](), pyinterp.geodetic.Spheroid(
                    w) if w else None, np.dtype(d))

            def full(make=make):
                b = make()
                push(False)(b)
                return b
            ops = [('push', push(True)), ('linear', push(False)),
                   ('clear', lambda b: b.clear())]
            yield ('Binning2D', [make], ops + [
                ('+', lambda b, m=full: b + m())], binned, None, False)
            yield ('core.Binning2D', [core_of(make)], ops + [
                ('+=', core_add(core_of(make)))], core_binned, None, True)

            def hist(d=d, i=i, w=w):
                return Histogram2D(ax[i](), ax[0](), 2 if w else None,
                                   np.dtype(d))

            def hpush(b):
                b.push(np.array([0.2, 1.6, 1.5, 1.5]), np.array(
                    [1., 0.2, 1.3, 1.4]), np.array([3., 4., -5., 0.]))

            def hobserve(b):
                return [answer(b.variable, n) for n in (
                    'count', 'mean', 'min', 'max', 'variance',
                    'sum_of_weights')] + [answer(b.variable, 'quantile', 0.4),
                                          repr(b), plain(b.x[:])]

            def hcore(b):
                return [answer(getattr(b, n)) for n in (
                    'count', 'mean', 'min', 'max', 'variance',
                    'sum_of_weights', 'histograms')] + [answer(
                        b.quantile, 0.4), plain(b.x[:]), plain(b.y[:])]

            def hadd(make):
                def f(b):
                    o = make()
                    hpush(o)
                    b += o
                    return b
                return f
            hops = [('push', hpush), ('clear', lambda b: b.clear())]
            yield ('Histogram2D', [hist], hops, hobserve, None, False)
            yield ('core.Histogram2D', [core_of(hist)], hops + [
                ('+=', hadd(core_of(hist)))], hcore, None, True)
        for i, r in itertools.product((0, 1), (None, (0., 1.5))):
            def make1(d=d, i=i, r=r):
                return Binning1D(ax[i](), r, np.dtype(d))

            def push1(b):
                b.push(np.array([0.2, 1.6, 1.4]), np.array([3., 4., -5.]))

            def push1w(b):
                b.push(np.array([0.2, 1.6, 1.4]), np.array([3., 4., -5.]),
                       np.array([1., 2., 0.5]))

            def one(b):
                return [answer(b.variable, n) for n in fields] + [
                    repr(b), plain(b.x[:]), plain(b.range)
                    if not callable(b.range) else plain(b.range())]

            def core_one(b):
                return [answer(getattr(b, n)) for n in fields] + [plain(
                    b.x[:]), answer(b.range)]
            ops = [('push', push1), ('weights', push1w),
                   ('clear', lambda b: b.clear())]
            yield ('Binning1D', [make1], ops, one, None, False)
            yield ('core.Binning1D', [core_of(make1)], ops, core_one, None,
                   True)


def grids():
    import numpy as np
    import pyinterp
    from pyinterp import core
    xs = [lambda: core.Axis(np.array([0., 1., 2.5])),
          lambda: core.Axis(np.arange(0, 360, 120.), is_circle=True),
          lambda: core.Axis(np.array([10., 0., -10.]))]
    zs = [lambda: core.Axis(np.array([0., 2., 3.])),
          lambda: core.TemporalAxis(np.array([0, 2, 3], dtype='M8[D]')),
          lambda: core.TemporalAxis(np.array([5, 3, 1], dtype='m8[ms]'))]
    us = [lambda: core.Axis(np.array([4., 6.]))]
    q = np.array([0.25, 1.5, 0., 9., -5.])

    def write(g):
        g.array.flat[1] = 77

    def flip(g):
        g.x.flip(inplace=True)

    def flipz(g):
        g.z.flip(inplace=True)

    def axis(a):
        return [type(a).__name__, str(a), plain(a[:]), a.is_ascending()] + (
            [str(a.dtype())] if isinstance(a, core.TemporalAxis) else [])

    def values(g, instance, size, dtype):
        z = g.z if size > 2 else None
        if dtype in ('int8', 'uint8') and size > 2:
            return None
        kind = '' if z is None or isinstance(z, core.Axis) else 'Temporal'
        name = {2: 'bivariate', 3: 'trivariate', 4: 'quadrivariate'}[size]
        method = getattr(core, f'{kind}Nearest{min(size, 3)}D'
                         if kind else f'Nearest{min(size, 3)}D')()
        args = [q, q * 2] + ([] if size == 2 else [
            q.astype('i8') if kind else q]) + ([q * 0 + 5] if size == 4
                                               else [])
        return answer(getattr(core, f'{name}_{dtype}'), instance, *args,
                      method, num_threads=1)

    def observer(size, dtype, python):
        def observe(g):
            out = [type(g).__name__, axis(g.x), axis(g.y), plain(g.array)]
            out += [axis(g.z)] if size > 2 else []
            out += [axis(g.u)] if size > 3 else []
            out.append(values(g, g._instance if python else g, size, dtype))
            return out + ([repr(g)] if python else [])
        return observe

    def array(shape, dtype, order):
        return np.asarray(np.arange(1, 1 + np.prod(shape)).reshape(
            shape).astype(dtype), order=order)
    for size, (dtype, order) in itertools.product((2, 3, 4), (
            ('float64', 'C'), ('float64', 'F'), ('float32', 'F'),
            ('int8', 'C'), ('uint8', 'C'))):
        for i, x in enumerate(xs if dtype == 'float64' else xs[:1]):
            for z in (zs if i == 0 else zs[1:2]) if size > 2 else [None]:
                def make(size=size, dtype=dtype, order=order, x=x, z=z):
                    axes = [x(), xs[0]()] + ([] if size == 2 else [z()]) + (
                        [us[0]()] if size == 4 else [])
                    return getattr(pyinterp, f'Grid{size}D')(*axes, array(
                        [len(a) for a in axes], dtype, order))
                ops = [('write', write), ('flip', flip)] + (
                    [('flip z', flipz)] if size > 2 else [])
                yield (f'Grid{size}D', [make], ops, observer(
                    size, dtype, True), None, False)
                if i == 0:
                    # The shallow copies share the array and the axes
                    yield (f'core.Grid{size}D', [
                        lambda make=make: make()._instance], ops, observer(
                            size, dtype, False), None, None)


def interpolators():
    import numpy as np
    import pyinterp
    from pyinterp import core
    grid2 = pyinterp.Grid2D(core.Axis(np.arange(3.)), core.Axis(np.arange(
        3.)), np.arange(9.).reshape(3, 3)**2)
    cube = np.arange(27.).reshape(3, 3, 3)**2
    grid3 = pyinterp.Grid3D(core.Axis(np.arange(3.)), core.Axis(np.arange(
        3.)), core.Axis(np.arange(3.)), cube)
    gridt = pyinterp.Grid3D(core.Axis(np.arange(3.)), core.Axis(np.arange(
        3.)), core.TemporalAxis(np.arange(3).astype('M8[D]')), cube)
    q = np.array([0.25, 1.5, 0., 1.9])

    def two(i):
        return [answer(core.bivariate_float64, grid2._instance, q, q[::-1], i,
                       num_threads=1)]

    def three(i):
        return [answer(core.trivariate_float64, grid3._instance, q, q[::-1],
                       q, i, num_threads=1)]

    def temporal(i):
        return [answer(core.trivariate_float64, gridt._instance, q, q[::-1],
                       q.astype('i8'), i, num_threads=1)]
    for prefix, suffix, observe in (('', '2D', two), ('', '3D', three),
                                    ('Temporal', '3D', temporal)):
        for kind in ('Bilinear', 'Nearest', 'InverseDistanceWeighting'):
            for args in ((), (1, ), (5, )) if kind[0] == 'I' else ((), ):
                cls = getattr(core, prefix + kind + suffix)
                yield (cls.__name__, [lambda c=cls, a=args: c(*a)], [],
                       observe, None, None)


GROUPS = ('axes', 'periods', 'geohashes', 'geometries', 'trees',
          'statistics', 'grids', 'interpolators')


def shards(tier):
    out = []
    for g in GROUPS:
        parts = {'statistics': 12, 'geometries': 6, 'axes': 4, 'grids': 8}.get(g, 2)
        out += [{'group': g, 'part': i, 'of': parts} for i in range(parts)]
    return out


def ways(independent):
    for p in (2, 3, 4, 5):
        yield f'pickle {p}', lambda o, p=p: pickle.loads(pickle.dumps(
            o, protocol=p)), True
    yield 'pickled twice', lambda o: pickle.loads(pickle.dumps(
        pickle.loads(pickle.dumps(o)))), True
    yield 'in a list', lambda o: pickle.loads(pickle.dumps([o, o]))[1], True
    yield 'deep copy', copy.deepcopy, True
    if independent is not None:
        yield 'copy', copy.copy, independent


def apply(o, op):
    """The object after the operation."""
    new = op(o)
    return o if new is None else new


def explore(ctx, shard):
    depth, after = (3, 2) if ctx.thorough else (2, 1)
    n = 0
    for name, makers, ops, observe, equal, independent in globals()[
            shard['group']]():
        names = [x for x, _ in ops]
        for m, make in enumerate(makers):
            n += 1
            if n % shard['of'] != shard['part']:
                continue
            for size in range(depth + 1 if ops else 1):
                for seq in itertools.product(range(len(ops)), repeat=size):
                    one(ctx, name, m, n, make, ops, names, seq, observe,
                        equal, independent, after)


def one(ctx, name, m, n, make, ops, names, seq, observe, equal, independent,
        after):
    key = f'{name}:{n}:{[names[s] for s in seq]}'
    case = {'class': name, 'state': m, 'operations': [names[s] for s in seq]}
    if not ctx.state(key):
        return

    def build(history):
        o = make()
        for s in history:
            o = apply(o, ops[s][1])
        return o

    every = list(ways(independent))
    if hasattr(make(), 'copy'):
        every.append(('copy method', lambda o: o.copy(), True))
    for way, restore, separate in every:
        ctx.trace()
        o = build(seq)
        want = observe(o)
        try:
            r = restore(o)
        except Exception as err:
            if name == 'core.Period' and isinstance(err, TypeError):
                ctx.outcome('cannot be pickled')
                return
            ctx.violation(f'{key}:{way}', f'{way} raised {err!r}', case)
            continue
        got = observe(r)
        ctx.check(isinstance(o, type(r)) and got == want, f'{key}:{way}:state',
                  lambda: f'{way} of {name}: {first(got, want)}', case)
        ctx.check(observe(o) == want, f'{key}:{way}:original', lambda:
                  f'{way} changed the original', case)
        if equal:
            ctx.check(r == o and not r != o, f'{key}:{way}:equal', lambda:
                      f'{way} of {name} is not equal to the original', case)
        ctx.outcome(name)
        if not separate:
            continue
        for length in range(1, after + 1):
            for later in itertools.product(range(len(ops)), repeat=length):
                for first_one in (True, False):
                    o = build(seq)
                    r = restore(o)
                    changed, kept = (o, r) if first_one else (r, o)
                    for s in later:
                        changed = apply(changed, ops[s][1])
                    what = [names[s] for s in later]
                    ctx.step()
                    ctx.check(observe(kept) == want,
                              f'{key}:{way}:{what}:{first_one}:kept', lambda:
                              f'{name}: {what} on the '
                              f'{"original" if first_one else way} is seen '
                              f'in the other: {first(observe(kept), want)}',
                              case)
                    expected = observe(build(seq + later))
                    ctx.check(observe(changed) == expected,
                              f'{key}:{way}:{what}:{first_one}:changed',
                              lambda: f'{name}: {what} after {way}: '
                              f'{first(observe(changed), expected)}', case)
    truncate(ctx, build(seq), key, case, observe)


def truncate(ctx, o, key, case, observe):
    """A truncated state is refused, or restores the same object."""
    if not hasattr(type(o), '__getstate__') or not hasattr(
            type(o), '__setstate__'):
        return
    state = o.__getstate__()
    if not isinstance(state, tuple):
        return
    # The previous versions did not save the last value of the state of an axis
    last = len(state) - ('Axis' in key)
    shorter = [state[:i] for i in range(last)]
    for i, item in enumerate(state):
        if isinstance(item, bytes):
            for size in sorted({0, 1, 7, 8, 9, len(item) // 2,
                                len(item) - 1} & set(range(len(item)))):
                shorter.append(state[:i] + (item[:size], ) + state[i + 1:])
    for bad in shorter:
        new = type(o).__new__(type(o))
        ctx.step()
        try:
            new.__setstate__(bad)
        except Exception:
            continue
        if observe(new) == observe(o):
            ctx.outcome('truncated state, same object')
            continue
        ctx.violation(f'{key}:truncated:{len(bad)}', f'the truncated state '
                      f'{str(bad)[:200]} was accepted', case)


def first(got, want):
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return f'answer {i} is {str(a)[:150]} instead of {str(b)[:150]}'
    return 'another type'
