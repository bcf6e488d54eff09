"""C24: memory layout of the arrays given to the functions."""
import itertools
import math

UNITS = ['axis', 'bicubic', 'binning', 'bivariate', 'bivariate_interpolator',
         'dateutils', 'descriptive_statistics', 'enum', 'fill', 'geodetic',
         'geohash', 'geohash/int64', 'geohash/string', 'grid', 'histogram2d',
         'interpolate1d', 'period', 'quadrivariate', 'rtree',
         'streaming_histogram', 'trivariate']
RULE = ('every function that takes arrays, every array of its arguments in '
        'every memory layout of a catalogue (C, Fortran, every order of the '
        'axes, strided along every subset of the axes, reversed along every '
        'subset of the axes, inside a larger array, read-only, unaligned, '
        'other byte order, other types, lists), one argument at a time, all '
        'the arguments together, and every pair of arguments; the answer is '
        'that of the contiguous arrays, and the arrays are left unchanged')
BOUNDS = {'quick': 'one argument at a time, all together, pairs of arguments '
          'in the main layouts',
          'thorough': 'every combination of the main layouts over all the '
          'arguments, every pair in every layout'}
ASSUMPTIONS = ['an array of another type or byte order may be refused with an '
               'exception instead of converted',
               'an array filled in place may be refused']


# -- layouts --------------------------------------------------------------------
def garbage(shape, dtype):
    """An array whose elements are not those expected."""
    import numpy as np
    if dtype.kind in 'Mm':
        return np.full(shape, 987654321, 'i8').view(dtype)
    if dtype.kind == 'S':
        return np.full(shape, b'z' * dtype.itemsize, dtype)
    if dtype.kind in 'iu':
        return np.full(shape, 77, dtype)
    return np.full(shape, -7.25e7, dtype)


def layouts(a):
    """(name, array of the same values, main) for every layout."""
    import numpy as np
    nd = a.ndim
    yield 'read-only', frozen(a.copy()), True
    raw = np.zeros(a.nbytes + 1, 'u1')
    u = raw[1:].view(a.dtype) if a.nbytes else raw[1:1].view(a.dtype)
    u = u[:a.size].reshape(a.shape)
    u[...] = a
    yield 'unaligned', u, True
    axes = range(nd)
    for n in range(1, nd + 1):
        for sub in itertools.combinations(axes, n):
            full = n == nd
            big = garbage([s * 3 if i in sub else s for i, s in
                           enumerate(a.shape)], a.dtype)
            v = big[tuple(slice(1, None, 3) if i in sub else slice(None)
                          for i in axes)]
            v[...] = a
            yield f'strided {sub}', v, full
            if full:
                v = big.copy()[tuple(slice(1, None, 3) for i in axes)]
                v[...] = a
                yield 'strided read-only', frozen(v), True
            back = tuple(slice(None, None, -1) if i in sub else slice(None)
                         for i in axes)
            yield f'reversed {sub}', a[back].copy()[back], full
    if nd:
        big = garbage([s + 3 for s in a.shape], a.dtype)
        v = big[tuple(slice(2, -1) for _ in axes)]
        v[...] = a
        yield 'inside', v, nd > 1
    for order in itertools.permutations(axes):
        if list(order) != list(axes):
            v = np.ascontiguousarray(a.transpose(order)).transpose(
                np.argsort(order))
            yield f'order {order}', v, list(order) == list(axes)[::-1]
    if nd > 1:
        v = garbage(a.shape[::-1], a.dtype)
        v = np.repeat(v, 2, axis=0)[::2].T
        v[...] = a
        yield 'Fortran strided', v, False


def conversions(a):
    """The same values in other types."""
    import numpy as np
    yield 'byte order', a.astype(a.dtype.newbyteorder())
    if a.dtype.kind != 'S':
        yield 'list', a.tolist() if a.dtype.kind not in 'Mm' else list(a)
    if a.dtype == np.float64:
        for kind in ('f4', 'i8', 'i4', 'g', 'i2', 'u8', 'f2'):
            if np.all(np.isfinite(a)) and np.all(np.abs(a) < 30000) and (
                    kind != 'u8' or np.all(a >= 0)):
                b = a.astype(kind)
                if np.array_equal(b.astype('f8'), a):
                    yield kind, b
    if a.dtype.kind in 'Mm':
        yield 'finer unit', a.astype(f'{a.dtype.kind}8[ns]')


def frozen(a):
    a.flags.writeable = False
    return a


# -- results ---------------------------------------------------------------------
def plain(x):
    """A comparable image of an answer, whatever its type."""
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return tuple(plain(x[n]) for n in x.dtype.names)
        if x.dtype.kind in 'Mm':
            return (x.shape, str(x.dtype.newbyteorder('=')), tuple(
                x.astype('i8').ravel().tolist()))
        return (x.shape, plain(x.ravel().tolist()))
    if isinstance(x, np.generic):
        return plain(x.item())
    if isinstance(x, float):
        return 'nan' if math.isnan(x) else x
    if isinstance(x, (list, tuple)):
        return tuple(plain(v) for v in x)
    if isinstance(x, dict):
        return tuple(sorted((k, plain(v)) for k, v in x.items()))
    if isinstance(x, (int, str, bytes, bool, type(None))):
        return x
    return repr(x)


# -- functions -------------------------------------------------------------------
def table():
    """(name, function of the arrays, arrays, indexes of the arrays filled)"""
    import numpy as np
    import pyinterp
    import pyinterp.fill
    import pyinterp.geodetic as geo
    import pyinterp.geohash as gh
    from pyinterp import core
    from pyinterp.period import Period, PeriodList
    out = []
    nan = float('nan')

    def add(name, f, *arrays, filled=(), types=True):
        out.append((name, f, [np.asarray(a) for a in arrays], filled, types))

    def f8(*v):
        return np.array(v, dtype='f8')

    # axes
    def axis(a):
        return [a[:], a.is_regular(), a.is_circle, a.is_ascending(),
                a.find_index(f8(0.5, 1.5, 2.5, 4.9))]
    for v in ((0, 1, 2, 3, 4), (0, 1, 3, 4, 9), (9, 4, 3, 1)):
        add('Axis', lambda a: axis(core.Axis(a)), f8(*v))
    add('Axis circle', lambda a: axis(core.Axis(a, is_circle=True)),
        f8(0, 60, 120, 180, 240, 300))
    add('AxisInt64', lambda a: [core.AxisInt64(a)[:]],
        np.array([1, 2, 5, 9], 'i8'))
    x = core.Axis(f8(0, 1, 3, 4, 9))
    r = core.Axis(np.arange(0, 360, 60.), is_circle=True)
    for name, a in (('irregular', x), ('circle', r)):
        for b in (False, True):
            add(f'Axis.find_index {name}', lambda c, a=a, b=b: a.find_index(
                c, b), f8(0, 0.75, 3, 8, 9, 12, -1))
        add(f'Axis.find_indexes {name}', lambda c, a=a: a.find_indexes(c),
            f8(0, 0.75, 3, 8, 9, 12, -1))
    i = core.AxisInt64(np.array([1, 2, 5, 9]))
    add('AxisInt64.find_index', lambda c: [
        i.find_index(c), i.find_indexes(c)], np.array([0, 1, 3, 4, 9, 11]))
    days = np.array(['2000-01-01', '2000-01-02', '2000-01-05', '2000-02-01'],
                    'M8[D]')
    hours = days.astype('M8[h]')
    t = core.TemporalAxis(days)
    add('TemporalAxis', lambda c: [core.TemporalAxis(c)[:].astype('M8[ns]')],
        days)
    add('TemporalAxis.find_index', lambda c: [t.find_index(
        c), t.find_index(c, True), t.find_indexes(c)], days)
    add('TemporalAxis.safe_cast', lambda c: t.safe_cast(c), hours)
    add('TemporalAxis durations', lambda c: core.TemporalAxis(
        (days - days[0])).find_index(c), days - days[0])
    # dates
    for unit in ('s', 'ms', 'us', 'ns'):
        d = np.array(['2000-02-29T12:34:56', '1969-12-31T23:59:59',
                      '2024-01-01T00:00:00', 'NaT'][:3], f'M8[{unit}]')
        for n in ('date', 'datetime', 'isocalendar', 'time', 'weekday',
                  'timedelta_since_january'):
            f = getattr(core.dateutils, n)
            add(f'dateutils.{n}', lambda c, f=f: plain(
                f(c)) if f is not core.dateutils.timedelta_since_january
                else f(c).astype('m8[ns]'), d)
    # periods
    lists = np.array([['2000-01-01', '2000-01-04', '2000-03-01'],
                      ['2000-01-02', '2000-01-05', '2000-04-01']], 'M8[D]')
    add('PeriodList', lambda p: PeriodList(p).periods.astype(
        [('begin', 'M8[ns]'), ('last', 'M8[ns]')]), lists)
    plist = PeriodList(lists)
    add('PeriodList dates', lambda c: [
        plist.cross_a_period(c), plist.belong_to_a_period(c)],
        np.array(['1999-01-01', '2000-01-02', '2000-01-03', '2000-03-20'],
                 'M8[D]'))
    raw = np.array([(1, 4), (6, 9)], dtype=[('begin', 'i8'), ('last', 'i8')])
    add('core.PeriodList', lambda a, b: plain(core.PeriodList(
        np.rec.fromarrays([a, b], raw.dtype)).periods),
        raw['begin'].copy(), raw['last'].copy())
    c = core.PeriodList(raw.view(np.recarray))
    add('core.PeriodList dates', lambda d: [
        c.cross_a_period(d), c.belong_to_a_period(d)],
        np.array([0, 1, 5, 6, 9, 10], 'i8'))
    # binning and statistics
    w = core.Axis(f8(0, 1, 2, 3))
    px, py, pz = f8(0.25, 1.5, 2, 3), f8(0.5, 1.75, 2, 0), f8(3, -4, 5, 7)
    variables = ('count', 'mean', 'variance', 'min', 'max', 'sum',
                 'sum_of_weights')

    def values(b):
        return [b.variable(n) for n in variables]
    for kind in ('f8', 'f4'):
        for simple in (True, False):
            def push(*a, kind=kind, simple=simple):
                b = pyinterp.Binning2D(w, w, dtype=np.dtype(kind))
                b.push(*a, simple)
                return values(b)
            add(f'Binning2D {kind}', push, px, py, pz)

        def push1(a, b, d=None, kind=kind):
            o = pyinterp.Binning1D(w, dtype=np.dtype(kind))
            o.push(a, b, d)
            return values(o)
        add(f'Binning1D {kind}', push1, px, pz)
        add(f'Binning1D weights {kind}', push1, px, pz, f8(1, 2, 0.5, 3))

        def histogram(*a, kind=kind):
            o = pyinterp.Histogram2D(w, w, dtype=np.dtype(kind))
            o.push(*a)
            return [o.variable(n) for n in ('count', 'mean', 'min', 'max')]
        add(f'Histogram2D {kind}', histogram, px, py, pz)
        block = np.array([[1., nan, 3., 9.], [4., 5., -6., 0.5]])[:, :, None] * [
            1., 2., -3.]
        weights = np.abs(np.nan_to_num(block)) + 1
        for data, wts in ((block, weights), (block[:, :, 0].copy(), weights[
                :, :, 0].copy()), (block[0, :, 0].copy(), weights[
                    0, :, 0].copy())):
            for n in range(data.ndim + 1):
                for ax in itertools.combinations(range(data.ndim), n):
                    ax = list(ax) or None

                    def stats(a, b=None, ax=ax, kind=kind):
                        s = pyinterp.DescriptiveStatistics(
                            a, b, ax, dtype=np.dtype(kind))
                        return [getattr(s, n)() for n in (
                            'count', 'mean', 'var', 'skewness', 'kurtosis',
                            'min', 'max', 'sum', 'sum_of_weights')]
                    add(f'DescriptiveStatistics {kind} {ax}', stats,
                        data.astype(kind), types=False)
                    add(f'DescriptiveStatistics {kind} {ax} weights', stats,
                        data.astype(kind), wts.astype(kind), types=False)

                    def hist(a, b=None, ax=ax, kind=kind):
                        s = pyinterp.StreamingHistogram(
                            a, b, ax, dtype=np.dtype(kind), bin_count=3)
                        return [getattr(s, n)() for n in (
                            'count', 'mean', 'var', 'min', 'max', 'bins',
                            'sum_of_weights')]
                    add(f'StreamingHistogram {kind} {ax}', hist,
                        data.astype(kind), types=False)
                    add(f'StreamingHistogram {kind} {ax} weights', hist,
                        data.astype(kind), wts.astype(kind), types=False)
    # grids
    gx, gy = core.Axis(f8(0, 1, 2, 4)), core.Axis(f8(0, 1, 3))
    gz, gu = core.Axis(f8(0, 2, 3)), core.Axis(f8(1, 2))
    gt = core.TemporalAxis(days[:3])
    rng = np.arange(72.)**2 % 101
    v2 = rng[:12].reshape(4, 3)
    v3 = rng[:36].reshape(4, 3, 3)
    v4 = rng.reshape(4, 3, 3, 2)
    qx, qy = f8(0.5, 1.25, 2, 3.5), f8(0.25, 1, 2.5, 3)
    qz, qu = f8(0.5, 1, 2.5, 3), f8(1.5, 1, 1.25, 2)
    qt = days[:3].astype('i8')[[0, 1, 2, 1]] + np.array([1, 2, 0, 1])
    methods = ('bilinear', 'nearest', 'inverse_distance_weighting')
    for m in methods:
        add(f'bivariate {m}', lambda v, a, b, m=m: pyinterp.bivariate(
            pyinterp.Grid2D(gx, gy, v), a, b, interpolator=m, num_threads=1),
            v2, qx, qy)
        add(f'trivariate {m}', lambda v, a, b, c, m=m: pyinterp.trivariate(
            pyinterp.Grid3D(gx, gy, gz, v), a, b, c, interpolator=m,
            num_threads=1), v3, qx, qy, qz)
        add(f'trivariate temporal {m}', lambda v, a, b, c, m=m:
            pyinterp.trivariate(pyinterp.Grid3D(gx, gy, gt, v), a, b, c,
                                interpolator=m, num_threads=1),
            v3, qx, qy, qt)
        add(f'quadrivariate {m}', lambda v, a, b, c, d, m=m:
            pyinterp.quadrivariate(pyinterp.Grid4D(gx, gy, gz, gu, v), a, b,
                                   c, d, interpolator=m, num_threads=1),
            v4, qx, qy, qz, qu)
        add(f'quadrivariate temporal {m}', lambda v, a, b, c, d, m=m:
            pyinterp.quadrivariate(pyinterp.Grid4D(gx, gy, gt, gu, v), a, b,
                                   c, d, interpolator=m, num_threads=1),
            v4, qx, qy, qt, qu)
    add('trivariate dates', lambda a, b, c: pyinterp.trivariate(
        pyinterp.Grid3D(gx, gy, gt, v3), a, b, c, num_threads=1), qx, qy,
        days[[0, 1, 2, 1]], types=False)
    for kind in ('f4', 'i1', 'u1'):
        add(f'bivariate {kind}', lambda v, a, b: pyinterp.bivariate(
            pyinterp.Grid2D(gx, gy, v), a, b, num_threads=1),
            v2.astype(kind), qx, qy)
    for m in ('bicubic', 'linear', 'akima'):
        kw = {'nx': 3, 'ny': 3, 'fitting_model': m, 'boundary': 'sym',
              'num_threads': 1}
        add(f'bicubic 2D {m}', lambda v, a, b, kw=kw: pyinterp.bicubic(
            pyinterp.Grid2D(gx, gy, v), a, b, **kw), v2, qx, qy)
        add(f'bicubic 3D {m}', lambda v, a, b, c, kw=kw: pyinterp.bicubic(
            pyinterp.Grid3D(gx, gy, gz, v), a, b, c, **kw), v3, qx, qy, qz)
        add(f'bicubic temporal {m}', lambda v, a, b, c, kw=kw:
            pyinterp.bicubic(pyinterp.Grid3D(gx, gy, gt, v), a, b, c, **kw),
            v3, qx, qy, qt)
        add(f'bicubic 4D {m}', lambda v, a, b, c, d, kw=kw: pyinterp.bicubic(
            pyinterp.Grid4D(gx, gy, gz, gu, v), a, b, c, d, **kw),
            v4, qx, qy, qz, qu)
    for m in ('linear', 'c_spline', 'akima', 'steffen', 'polynomial'):
        add(f'interpolate1d {m}', lambda y, q, m=m: core.interpolate1d(
            core.Axis(f8(0, 1, 2, 4, 5, 7)), y, q, half_window_size=3,
            bounds_error=False, kind=m), f8(1, 4, 2, -5, 7, 3), f8(2.5, 3.5))
    # filling
    holes = v2.copy()
    holes[1, 1] = holes[0, 2] = holes[3, 0] = nan
    cube = v3.copy()
    cube[1, 1, :] = cube[0, 2, 1] = nan
    for kind in ('f8', 'f4'):
        add(f'loess {kind}', lambda v: pyinterp.fill.loess(pyinterp.Grid2D(
            gx, gy, v), 2, 2, num_threads=1), holes.astype(kind), types=False)
        add(f'loess 3D {kind}', lambda v: pyinterp.fill.loess(pyinterp.Grid3D(
            gx, gy, gz, v), 2, 2, num_threads=1), cube.astype(kind),
            types=False)
        add(f'gauss_seidel {kind}', lambda v: pyinterp.fill.gauss_seidel(
            pyinterp.Grid2D(gx, gy, v), num_threads=1)[1],
            holes.astype(kind), types=False)
        add(f'gauss_seidel 3D {kind}', lambda v: pyinterp.fill.gauss_seidel(
            pyinterp.Grid3D(gx, gy, gz, v), num_threads=1)[1],
            cube.astype(kind), types=False)
        add(f'core.gauss_seidel {kind}', lambda v, kind=kind: getattr(
            core.fill, 'gauss_seidel_float' + {'f8': '64', 'f4': '32'}[kind])(
                v, num_threads=1), holes.astype(kind), filled=(0, ),
            types=False)
        for place in (True, False):
            add(f'fill.matrix {kind} {place}', lambda v, place=place:
                pyinterp.fill.matrix(v, in_place=place), holes.astype(kind),
                filled=(0, ) if place else (), types=None)
            add(f'fill.vector {kind} {place}', lambda v, place=place:
                pyinterp.fill.vector(v, in_place=place),
                holes[:, 2].astype(kind), filled=(0, ) if place else (),
                types=None)
    for place in (True, False):
        add(f'fill.vector int {place}', lambda v, place=place:
            pyinterp.fill.vector(v, -1, in_place=place),
            np.array([5, -1, 9, -1, -1, 3]), filled=(0, ) if place else (),
            types=None)
        add(f'fill.vector dates {place}', lambda v, place=place:
            pyinterp.fill.vector(v, in_place=place),
            np.array([5, -2**63, 900, -2**63, -2**63, 77777]).view('M8[s]'),
            filled=(0, ) if place else (), types=None)
    # spatial index
    pts = np.array([[0., 0, 0], [10, 0, 1], [0, 10, 2], [10, 10, 3],
                    [5, 3, 4], [-4, 7, 5], [12, -3, 6]])
    val = f8(1, 4, 9, 16, 25, 36, 49)
    pos = np.array([[1., 1, 0], [6, 7, 2], [9, -1, 0.5]])

    def tree(kind, p, v, how, dims):
        o = pyinterp.RTree(dtype=np.dtype(kind))
        getattr(o, how)(p[:, :dims] if isinstance(p, np.ndarray) else [
            list(q[:dims]) for q in p], v)
        return o
    for kind, how, dims in itertools.product(('f8', 'f4'), (
            'packing', 'insert'), (2, 3)):
        add(f'RTree.{how} {kind} {dims}', lambda p, v, kind=kind, how=how,
            dims=dims: [tree(kind, p, v, how, dims).query(
                pos[:, :dims].copy(), k=3, num_threads=1)],
            pts[:, :dims].copy(), val)
    for dims in (2, 3):
        o = tree('f8', pts[:, :dims].copy(), val, 'packing', dims)
        p = pos[:, :dims].copy()
        for w_ in (False, True):
            for name, kw in (('query', {'k': 3}), ('value', {'k': 3}),
                             ('inverse_distance_weighting', {'k': 3}),
                             ('radial_basis_function', {'k': 4}),
                             ('window_function', {'k': 4, 'radius': 2e6}),
                             ('universal_kriging', {'k': 5})):
                if name == 'value' and not hasattr(o, 'value'):
                    continue
                add(f'RTree.{name} {dims} {w_}', lambda q, o=o, name=name,
                    kw=kw, w_=w_: getattr(o, name)(q, within=w_,
                                                   num_threads=1, **kw), p)
    lon, lat = pts[:, 0].copy(), pts[:, 1].copy()
    for how in ('packing', 'insert'):
        def gtree(a, b, v, how=how):
            o = geo.RTree()
            getattr(o, how)(a, b, v)
            return o.query(pos[:, 0].copy(), pos[:, 1].copy(), k=3,
                           num_threads=1)
        add(f'geodetic.RTree.{how}', gtree, lon, lat, val)
    g = geo.RTree()
    g.packing(lon, lat, val)
    for name, kw in (('query', {'k': 3}),
                     ('inverse_distance_weighting', {'k': 3}),
                     ('radial_basis_function', {'k': 4}),
                     ('window_function', {'k': 4, 'radius': 2e6})):
        add(f'geodetic.RTree.{name}', lambda a, b, name=name, kw=kw: getattr(
            g, name)(a, b, within=False, num_threads=1, **kw),
            pos[:, 0].copy(), pos[:, 1].copy())
    # geodesy
    a, b = f8(0, 10, -170, 300), f8(0, 45, -60, 88)
    c_, d = f8(5, 190, 20, -40), f8(-3, 7, 8, 9)
    coords = geo.Coordinates(None)
    other = geo.Coordinates(geo.Spheroid((6378000., 0.003)))
    add('lla_to_ecef', lambda *q: coords.lla_to_ecef(*q, num_threads=1),
        a, b, c_)
    add('ecef_to_lla', lambda x, y, z: coords.ecef_to_lla(
        x, y, z, num_threads=1), f8(6e6, -5e6, 1e6), f8(1e6, 2e6, 5e6),
        f8(3e6, -4e6, 2e6))
    add('transform', lambda *q: coords.transform(other, *q, num_threads=1),
        a, b, c_)
    for s in ('andoyer', 'thomas', 'vincenty'):
        add(f'coordinate_distances {s}', lambda *q, s=s:
            geo.coordinate_distances(*q, strategy=s, num_threads=1), a, b,
            c_, d)
    copies = f8(-190, 0, 359, 720.5)

    def normalize(x, m):
        r = geo.normalize_longitudes(x, m)
        return x if r is None else r
    for m in (-180., 0.):
        add(f'normalize_longitudes {m}', lambda x, m=m: normalize(x, m),
            copies, filled=(0, ))
    add('LineString', lambda x, y: geo.LineString(x, y).wkt(), a, d)
    line = geo.LineString(f8(-9, 0, 5, 9), f8(-3, 4, 4, 9))
    add('closest_point', lambda x, y: line.closest_point(
        x, y, num_threads=1), f8(1, 2, 7), f8(0, 5, 3))
    ring = [geo.Point(*p) for p in ((-40, -40), (-40, 50), (60, 50),
                                    (60, -40), (-40, -40))]
    poly = geo.Polygon(ring)
    for name, shape in (('Polygon', poly), ('MultiPolygon', geo.MultiPolygon(
            [poly])), ('Box', geo.Box(geo.Point(-40, -40), geo.Point(
                60, 50)))):
        add(f'{name}.covered_by', lambda x, y, shape=shape: shape.covered_by(
            x, y, num_threads=1), f8(0, 70, -39, 59, 61), f8(0, 0, 49, 60, 3))
    tracks = (f8(0, 4, 8), f8(0, 5, 9), f8(0, 4, 8), f8(9, 4, -1))
    for flat in (True, False):
        add(f'calculate_crossover {flat}', lambda *q, flat=flat: plain_cross(
            geo.calculate_crossover(*q, cartesian_plane=flat)), *tracks)
        add(f'calculate_crossover_list {flat}', lambda *q, flat=flat: [
            plain_cross(i) for i in geo.calculate_crossover_list(
                *q, cartesian_plane=flat)], *tracks)
    add('calculate_swath', lambda x, y: core.geodetic.calculate_swath(
        x, y, 2000., 4000., 3), f8(10, 11, 12.5, 13.5), f8(3, 5, 7, 9))
    # geohashes
    add('geohash.encode', lambda x, y: gh.encode(x, y, precision=7), a, b)
    add('geohash.int64.encode', lambda x, y: gh.int64.encode(
        x, y, precision=40), a, b)
    codes = gh.int64.encode(a, b, precision=40)
    for chars, size in ((6, 4), (3, 1), (1, 1), (12, 2)):
        words = gh.encode(a, b, precision=chars)[:size].copy()
        for name in ('decode', 'area'):
            add(f'geohash.{name}', lambda h, name=name: plain(
                getattr(gh, name)(h)), words)
        add('geohash.decode round', lambda h: gh.decode(h, round=True), words)
        for p in sorted({max(1, chars - 1), chars, min(12, chars + 1)}):
            add(f'geohash.transform {p}', lambda h, p=p: gh.transform(
                h, precision=p), words)
        add('geohash.where', lambda h: plain({k.decode(): v for k, v in
            gh.where(h).items()}), words.reshape(1, -1))
    near = gh.bounding_boxes(geo.Box(geo.Point(0, 0), geo.Point(3, 3)),
                             precision=3)
    near = near[:len(near) // 2 * 2].reshape(2, -1)
    add('geohash.where', lambda h: plain({k.decode(): v for k, v in gh.where(
        h).items()}), near)
    add('geohash.int64.decode', lambda h: gh.int64.decode(h, precision=40),
        codes)
    add('geohash.int64.neighbors', lambda h: [gh.int64.neighbors(
        int(k), precision=40) for k in h], codes)
    # orbits
    import pyinterp.orbit as orbit
    n = np.arange(40)
    ot = (n * 150).astype('m8[s]')
    olon = (-3.75 * n) % 360
    olat = 66 * np.sin(n * 2 * np.pi / 40 - np.pi / 2)

    def orb(x, y, t):
        o = orbit.calculate_orbit(890000., x, y, t, np.timedelta64(
            6000, 's'), 50.)
        return [o.latitude, o.longitude, o.time, o.pass_time]
    add('calculate_orbit', orb, olon, olat, ot, types=False)
    add('orbit.interpolate', lambda x, y, t, q: orbit.interpolate(
        x, y, t, q), olon, olat,
        n.astype('f8') * 150, n[2:-2] * 150. + 40)
    return out


def plain_cross(c):
    if c is None:
        return None
    point, indexes = c
    return (point.lon, point.lat), plain(indexes)


def shards(tier):
    return [{'part': i, 'of': 32} for i in range(32)]


def explore(ctx, shard):
    for n, entry in enumerate(table()):
        if n % shard['of'] == shard['part']:
            function(ctx, n, *entry)


def function(ctx, n, name, f, arrays, filled, types):
    base = [a.copy() for a in arrays]
    want = plain(f(*base))
    after = [b.copy() for b in base]
    if not ctx.state((n, name)):
        return
    key = f'{name}#{n}'
    for i, (a, b) in enumerate(zip(arrays, after)):
        if i not in filled:
            ctx.check(same(a, b), f'{key}:changed:{i}', lambda:
                      f'{name} changed its argument {i}', {'function': name})

    def attempt(args, layout, refusal):
        """args: the arrays to give; compare the answer."""
        ctx.trace()
        case = {'function': name, 'layout': layout}
        fixed = [isinstance(a, type(base[0])) and not a.flags.writeable
                 for a in args]
        try:
            got = plain(f(*args))
        except Exception as err:
            if refusal or any(fixed[i] for i in filled):
                ctx.outcome('refused')
                for i, a in enumerate(args):
                    ctx.check(same(a, arrays[i]), f'{key}:{layout}:refused',
                              lambda: f'{name} refused {layout} but changed '
                              f'its argument {i}', case)
                return
            ctx.violation(f'{key}:{layout}', f'{name} with {layout} raised '
                          f'{err!r}'[:300], case)
            return
        ctx.check(got == want, f'{key}:{layout}', lambda:
                  f'{name} with {layout} gives {str(got)[:150]} instead of '
                  f'{str(want)[:150]}', case)
        ctx.outcome('same')
        for i, a in enumerate(args):
            ok = same(a, arrays[i])
            if i in filled and not fixed[i]:
                # Filled in place, or left unchanged if the answer is returned
                ok = ok or same(a, after[i])
            ctx.check(ok, f'{key}:{layout}:changed:{i}', lambda:
                      f'{name} with {layout} changed its argument {i}', case)

    def fresh():
        return [a.copy() for a in arrays]

    count = len(arrays)
    for i in range(count):
        for label, v, _ in layouts(arrays[i]):
            args = fresh()
            args[i] = v
            attempt(args, f'argument {i} {label}', i in filled)
        if types is False:
            continue
        for label, v in conversions(arrays[i]):
            if types is None and label not in ('byte order', ):
                continue
            args = fresh()
            args[i] = v
            attempt(args, f'argument {i} {label}', True)
    # Labels shared by all the arguments
    if count > 1:
        for label in ('read-only', 'unaligned', 'strided', 'reversed',
                      'inside', 'order', 'strided read-only'):
            args = []
            for a in arrays:
                found = [v for m, v, _ in layouts(a) if m.startswith(label)]
                args.append(found[-1] if found else a.copy())
            attempt(args, f'all the arguments {label}', False)
    if count < 2:
        return
    if ctx.thorough:
        mains = [[('contiguous', a)] + [(m, v) for m, v, main in layouts(a)
                                       if main] for a in arrays]
        for combo in itertools.product(*[range(len(m)) for m in mains]):
            # The arrays may be changed: they are made again
            args = [pick(a, k) for a, k in zip(arrays, combo)]
            attempt([v for _, v in args], str([m for m, _ in args]), False)
    for i, j in itertools.combinations(range(count), 2):
        for (m, v, p), (o, u, q) in itertools.product(
                list(layouts(arrays[i])), list(layouts(arrays[j]))):
            if ctx.thorough or (p and q):
                args = fresh()
                args[i], args[j] = v, u
                attempt(args, f'arguments {i} {m} and {j} {o}', False)


def pick(a, k):
    if k == 0:
        return 'contiguous', a.copy()
    return [(m, v) for m, v, main in layouts(a) if main][k - 1]


def same(a, b):
    """The array holds the expected values."""
    import numpy as np
    if isinstance(a, list):
        return plain(np.array(a, dtype=b.dtype)) == plain(b)
    if a.dtype.kind in 'Mm':
        return np.array_equal(a.astype(b.dtype).astype('i8'), b.astype('i8'))
    if a.dtype.kind == 'S':
        return a.tolist() == b.tolist()
    return np.array_equal(np.asarray(a, dtype=b.dtype), b, equal_nan=a.dtype.
                          kind == 'f')
