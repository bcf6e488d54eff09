"""C10: the calculations distributed to threads."""
import ctypes
import itertools
import os

from vk import build as vkbuild

UNITS = None
TSAN_UNITS = ['axis', 'dateutils', 'grid', 'bivariate_interpolator',
              'bivariate', 'trivariate', 'quadrivariate', 'bicubic', 'fill',
              'enum', 'rtree', 'geodetic', 'geohash', 'geohash/int64',
              'geohash/string']
RULE = ('stateless exploration of the real bindings: the threads they create '
        'run one at a time under a controlled scheduler, every order allowed '
        'by the preemption bound at the creations, starts, joins, ends and '
        'locks is executed; every memory access of the instrumented code is '
        'checked against the vector clocks of the accesses of the other '
        'threads (an execution without a race and without a lock stands for '
        'all the interleavings of its accesses); each execution must give, '
        'bit for bit, the values of num_threads=1, or its exception')
BOUNDS = {
    'quick': 'vectors of 0 to 9 points, 0 to 9 threads (all the sizes and '
    'counts with one order, 2 and 3 threads with all the orders, 1 '
    'preemption); every subset of 3 points outside the axes',
    'thorough': '0 to 17 points, 0 to 17 threads, 2 to 4 threads with all the '
    'orders and 2 preemptions; every subset of 5 points outside the axes'}
ASSUMPTIONS = [
    'the accesses made by the C++ and C libraries, not instrumented, are seen '
    'when they are those of memcpy, memmove, memset and free',
    'the atomic operations are not points of preemption']


def build(out, tier):
    saved = list(vkbuild.FLAGS)
    try:
        vkbuild.FLAGS.append('-fsanitize=thread')
        pkg = vkbuild.package(TSAN_UNITS, out)
    finally:
        vkbuild.FLAGS[:] = saved
    lib = vkbuild.shared('vksched', f'{vkbuild.VERIF}/cpp/vksched.cpp', out)
    return {'pkg': pkg, 'env': {'LD_PRELOAD': lib}, 'sched': lib}


# -- the controlled scheduler -------------------------------------------------
class Choice(ctypes.Structure):
    _fields_ = [('lo', ctypes.c_uint64), ('hi', ctypes.c_uint64),
                ('current', ctypes.c_int), ('chosen', ctypes.c_int)]


class Race(ctypes.Structure):
    _fields_ = [('addr', ctypes.c_uint64), ('pc1', ctypes.c_uint64),
                ('pc2', ctypes.c_uint64), ('t1', ctypes.c_int),
                ('t2', ctypes.c_int), ('w1', ctypes.c_int),
                ('w2', ctypes.c_int)]


class Result(ctypes.Structure):
    _fields_ = [('ntrace', ctypes.c_int), ('nraces', ctypes.c_int),
                ('nthreads', ctypes.c_int), ('freerun', ctypes.c_int),
                ('deadlock', ctypes.c_int), ('overflow', ctypes.c_int),
                ('naccess', ctypes.c_uint64), ('nsync', ctypes.c_uint64),
                ('trace', ctypes.POINTER(Choice)),
                ('races', ctypes.POINTER(Race)), ('base', ctypes.c_uint64)]


class Scheduler:

    def __init__(self, path):
        self.lib = ctypes.PyDLL(path)
        self.lib.vk_begin.argtypes = [ctypes.c_char_p,
                                      ctypes.POINTER(ctypes.c_int),
                                      ctypes.c_int, ctypes.c_int]

    def run(self, f, script):
        """One execution; (value, trace, races, result)."""
        arr = (ctypes.c_int * max(1, len(script)))(*script)
        r = Result()
        self.lib.vk_begin(b'core.cpython', arr, len(script), 20000)
        try:
            value = f()
        except Exception as e:
            value = type(e).__name__
        finally:
            self.lib.vk_end(ctypes.byref(r))
        trace = []
        for i in range(r.ntrace):
            c = r.trace[i]
            m = c.lo | c.hi << 64
            trace.append(([k for k in range(128) if m >> k & 1], c.current,
                          c.chosen))
        races = [(x.pc1 - r.base, x.pc2 - r.base, x.t1, x.t2, x.w1, x.w2)
                 for x in (r.races[i] for i in range(r.nraces))]
        return value, trace, races, r

    def explore(self, f, bound, visit, limit=100000):
        """Depth first search of the choices; bound: preemptions allowed."""
        todo = [[]]
        n = 0
        while todo:
            script = todo.pop()
            value, trace, races, r = self.run(f, script)
            n += 1
            if not visit(value, trace, races, r, script) or n >= limit:
                return n
            if r.freerun:
                return n
            used = 0
            for i, (enabled, current, chosen) in enumerate(trace):
                preempts = current in enabled
                if i >= len(script):
                    for t in enabled:
                        if t == chosen:
                            continue
                        if used + (preempts and t != current) <= bound:
                            todo.append([c for _, _, c in trace[:i]] + [t])
                used += preempts and chosen != current
        return n


# -- the calculations ------------------------------------------------------------
def scenarios():
    """name -> function(n, bad) -> function(num_threads) -> arrays"""
    import numpy as np
    import pyinterp
    import pyinterp.fill
    import pyinterp.geodetic as geo
    from pyinterp import core
    rng = np.random.RandomState(1)
    ax = core.Axis(np.arange(0, 360, 45.0), is_circle=True)
    ay = core.Axis(np.array([-2., -1, 0, 1.5, 2, 4]))
    az = core.Axis(np.arange(5.0))
    at = core.TemporalAxis(np.arange(5).astype('M8[s]'))
    g2 = pyinterp.Grid2D(ax, ay, rng.rand(8, 6))
    g3 = pyinterp.Grid3D(ax, ay, az, rng.rand(8, 6, 5))
    g3t = pyinterp.Grid3D(ax, ay, at, rng.rand(8, 6, 5))
    g4 = pyinterp.Grid4D(ax, ay, az, az, rng.rand(8, 6, 5, 5))
    g4t = pyinterp.Grid4D(ax, ay, at, az, rng.rand(8, 6, 5, 5))
    g2f = pyinterp.Grid2D(ax, ay, rng.rand(8, 6).astype('f4'))
    out = {}

    def points(n, bad):
        x = np.array([(37.3 * k) % 360 for k in range(n)])
        y = np.array([-1.9 + 0.61 * k % 5.7 for k in range(n)])
        z = np.array([(0.37 * k + 0.1) % 4 for k in range(n)])
        u = np.array([(0.53 * k + 0.2) % 4 for k in range(n)])
        t = np.array([(k * 3) % 5 for k in range(n)], 'i8').astype('M8[s]')
        # each point outside is so on an axis of its own
        for i, k in enumerate(sorted(bad)):
            if i % 2 == 0:
                y[k] = 99
            else:
                z[k] = 99
                t[k] = np.datetime64(99, 's')
                if i % 4 == 3:
                    u[k] = 99
                y[k] = -99
        return x, y, z, u, t

    def grids(name, fn):
        def make(n, bad=()):
            p = points(n, bad)
            return lambda nt: fn(p, nt)
        out[name] = (make, True)

    for it in ('bilinear', 'nearest', 'inverse_distance_weighting'):
        grids(f'bivariate:{it}', lambda p, nt, it=it: pyinterp.bivariate(
            g2, p[0], p[1], interpolator=it, bounds_error=True,
            num_threads=nt))
    grids('bivariate:float32', lambda p, nt: pyinterp.bivariate(
        g2f, p[0], p[1], bounds_error=True, num_threads=nt))
    grids('trivariate', lambda p, nt: pyinterp.trivariate(
        g3, p[0], p[1], p[2], bounds_error=True, num_threads=nt))
    grids('trivariate:temporal', lambda p, nt: pyinterp.trivariate(
        g3t, p[0], p[1], p[4], bounds_error=True, num_threads=nt))
    grids('quadrivariate', lambda p, nt: pyinterp.quadrivariate(
        g4, p[0], p[1], p[2], p[3], bounds_error=True, num_threads=nt))
    grids('quadrivariate:temporal', lambda p, nt: pyinterp.quadrivariate(
        g4t, p[0], p[1], p[4], p[3], bounds_error=True, num_threads=nt))
    for m in ('bicubic', 'c_spline', 'akima_periodic', 'polynomial'):
        kw = {'nx': 2, 'ny': 2, 'fitting_model': m, 'boundary': 'sym',
              'bounds_error': True}
        if m == 'akima_periodic':
            kw.update(nx=3, ny=3)
        grids(f'2d:{m}', lambda p, nt, kw=kw: pyinterp.bicubic(
            g2, p[0], p[1], num_threads=nt, **kw))
        grids(f'3d:{m}', lambda p, nt, kw=kw: pyinterp.bicubic(
            g3, p[0], p[1], p[2], num_threads=nt, **kw))
        grids(f'4d:{m}', lambda p, nt, kw=kw: pyinterp.bicubic(
            g4, p[0], p[1], p[2], p[3], num_threads=nt, **kw))

    def holes(shape):
        v = rng.rand(*shape)
        v[rng.rand(*shape) < 0.4] = np.nan
        return v

    def loess(dim, kind):
        def make(n, bad=()):
            n = n + 2
            x = core.Axis(np.arange(0, 360, 360 / n) if dim == 2 else
                          np.arange(0, 360, 90.0), is_circle=True)
            y = core.Axis(np.arange(3.0))
            z = core.Axis(np.arange(float(n)))
            if dim == 2:
                g = pyinterp.Grid2D(x, y, holes((n, 3)))
            elif dim == 3:
                g = pyinterp.Grid3D(x, y, z, holes((4, 3, n)))
            else:
                g = pyinterp.Grid4D(x, y, core.Axis(np.arange(2.0)), z,
                                    holes((4, 3, 2, n)))
            return lambda nt: pyinterp.fill.loess(g, 2, 1, kind,
                                                  num_threads=nt)
        out[f'loess:{dim}d:{kind}'] = (make, False)

    for dim in (2, 3, 4):
        for kind in ('undefined', 'defined', 'all'):
            if dim == 2 or kind == 'all':
                loess(dim, kind)

    def seidel(guess, circle, iterations):
        def make(n, bad=()):
            values = holes((5 if circle else 4, n + 2))

            def run(nt):
                v = values.copy()
                r = core.fill.gauss_seidel_float64(
                    v, getattr(core.fill.FirstGuess, guess), circle,
                    iterations, 1e-8, 1.2, nt)
                return v, np.array(r)
            return run
        out[f'gauss_seidel:{guess}:{circle}:{iterations}'] = (make, False)

    seidel('ZonalAverage', False, 3)
    seidel('Zero', True, 1)
    seidel('Zero', False, 1)
    seidel('ZonalAverage', True, 3)
    seidel('ZonalAverage', True, 1)

    pts = np.stack([rng.uniform(-10, 10, 60), rng.uniform(-10, 10, 60),
                    rng.uniform(0, 10, 60)], 1)
    tree = pyinterp.RTree()
    tree.packing(pts[:, :2].copy(), np.arange(60.0))
    gtree = geo.RTree()
    gtree.packing(pts[:, 0].copy(), pts[:, 1].copy(), np.arange(60.0))

    def rtree(name, fn):
        def make(n, bad=()):
            c = np.stack([np.array([-8 + 1.7 * k for k in range(n)]),
                          np.array([7 - 1.3 * k for k in range(n)])], 1)
            return lambda nt: fn(c, nt)
        out['rtree:' + name] = (make, False)

    for w in (False, True):
        rtree(f'query:{w}', lambda c, nt, w=w: tree.query(
            c, k=4, within=w, num_threads=nt))
        rtree(f'idw:{w}', lambda c, nt, w=w: tree.inverse_distance_weighting(
            c, k=5, within=w, num_threads=nt))
        rtree(f'rbf:{w}', lambda c, nt, w=w: tree.radial_basis_function(
            c, k=5, within=w, num_threads=nt))
        rtree(f'window:{w}', lambda c, nt, w=w: tree.window_function(
            c, k=5, within=w, radius=2e6, num_threads=nt))
        rtree(f'kriging:{w}', lambda c, nt, w=w: tree.universal_kriging(
            c, k=5, within=w, num_threads=nt))
        rtree(f'value:{w}', lambda c, nt, w=w: tree.value(
            c, k=4, within=w, num_threads=nt))
        rtree(f'geodetic:query:{w}', lambda c, nt, w=w: gtree.query(
            c[:, 0].copy(), c[:, 1].copy(), k=4, within=w, num_threads=nt))
        rtree(f'geodetic:idw:{w}',
              lambda c, nt, w=w: gtree.inverse_distance_weighting(
                  c[:, 0].copy(), c[:, 1].copy(), None, 5, 2, w, nt))
        rtree(f'geodetic:rbf:{w}',
              lambda c, nt, w=w: gtree.radial_basis_function(
                  c[:, 0].copy(), c[:, 1].copy(), k=5, within=w,
                  num_threads=nt))
        rtree(f'geodetic:window:{w}', lambda c, nt, w=w: gtree.window_function(
            c[:, 0].copy(), c[:, 1].copy(), k=5, within=w, radius=2e6,
            num_threads=nt))

    def geodetic(name, fn):
        def make(n, bad=()):
            lon = np.array([-170 + 43.7 * k for k in range(n)])
            lat = np.array([80 - 17.3 * k % 160 for k in range(n)])
            return lambda nt: fn(lon, lat, nt)
        out['geodetic:' + name] = (make, False)

    line = geo.LineString(np.array([-9., 0, 5, 9]), np.array([-3., 4, 4, 9]))
    ring = [geo.Point(*p) for p in ((-40, -40), (-40, 50), (60, 50),
                                    (60, -40), (-40, -40))]
    poly = geo.Polygon(ring)
    multi = geo.MultiPolygon([poly, geo.Polygon(
        [geo.Point(*p) for p in ((100, -40), (100, 50), (150, 50),
                                 (100, -40))])])
    box = geo.Box(geo.Point(-40, -40), geo.Point(60, 50))
    wgs = geo.Spheroid()
    coords = geo.Coordinates(None)
    for name, g in (('box', box), ('polygon', poly), ('multipolygon', multi)):
        geodetic(f'{name}:covered_by', lambda x, y, nt, g=g: g.covered_by(
            x, y, num_threads=nt))
    for name, w in (('sphere', None), ('wgs', wgs)):
        geodetic(f'closest_point:{name}',
                 lambda x, y, nt, w=w: line.closest_point(
                     x, y, wgs=w, num_threads=nt))
    for s in ('andoyer', 'thomas', 'vincenty'):
        geodetic(f'distances:{s}',
                 lambda x, y, nt, s=s: geo.coordinate_distances(
                     x, y, y, x / 2, strategy=s, wgs=None, num_threads=nt))
    geodetic('lla_to_ecef', lambda x, y, nt: coords.lla_to_ecef(
        x, y, x * 0, num_threads=nt))
    geodetic('ecef_to_lla', lambda x, y, nt: coords.ecef_to_lla(
        x * 1e4 + 6e6, y * 1e4, x + y, num_threads=nt))
    geodetic('transform', lambda x, y, nt: coords.transform(
        geo.Coordinates(geo.Spheroid(6378000., 0.003)), x, y, x * 0,
        num_threads=nt))

    def geohash(name, g, precision):
        def make(n, bad=()):
            return lambda nt: core.geohash.bounding_boxes(
                g(n), precision=precision, num_threads=nt)
        out['geohash:' + name] = (make, False)

    def triangle(n):
        h = 5.0 + 6 * n
        return geo.Polygon([geo.Point(*p) for p in (
            (-20, -20), (-20, -20 + h), (30, -20), (-20, -20))])

    geohash('polygon', triangle, 2)
    geohash('multipolygon', lambda n: geo.MultiPolygon([triangle(n)]), 2)
    return out


def names():
    its = ['bilinear', 'nearest', 'inverse_distance_weighting', 'float32']
    out = [f'bivariate:{k}' for k in its]
    out += [f'{k}{t}' for k in ('trivariate', 'quadrivariate')
            for t in ('', ':temporal')]
    out += [f'{d}d:{m}' for m in ('bicubic', 'c_spline', 'akima_periodic',
                                  'polynomial') for d in (2, 3, 4)]
    return out


GROUPS = ['bivariate', 'trivariate', 'quadrivariate', '2d', '3d', '4d',
          'loess', 'gauss_seidel', 'rtree', 'geodetic', 'geohash']


def shards(tier):
    # the larger groups are explored by several shards
    parts = {'rtree': 6, 'geodetic': 4, 'gauss_seidel': 3, 'loess': 2,
             'bivariate': 2}
    return [{'group': g, 'part': i, 'of': parts.get(g, 1)} for g in GROUPS
            for i in range(parts.get(g, 1))]


def same(a, b):
    import numpy as np
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if not isinstance(a, (tuple, list)):
        a, b = (a, ), (b, )
    return len(a) == len(b) and all(
        np.asarray(x).shape == np.asarray(y).shape and
        np.array_equal(np.asarray(x), np.asarray(y),
                       equal_nan=np.asarray(x).dtype.kind == 'f')
        for x, y in zip(a, b))


def where(pkg, pc):
    import subprocess
    so = f'{pkg}/pyinterp/core.cpython-312-x86_64-linux-gnu.so'
    env = {k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'}
    try:
        r = subprocess.run(['addr2line', '-Cfe', so, hex(pc - 1)], env=env,
                           capture_output=True, text=True, timeout=60).stdout
        return r.split('\n')[0][:90]
    except Exception:
        return hex(pc)


def explore(ctx, shard):
    import gc
    import numpy as np
    gc.disable()
    sched = Scheduler(ctx.info['sched'])
    every = scenarios()
    mine = [k for k in sorted(every) if k.split(':')[0] == shard['group']]
    mine = mine[shard['part']::shard['of']]
    thorough = ctx.thorough
    sizes = range(18) if thorough else range(10)
    deep = ((2, 2), (3, 2), (4, 1)) if thorough else ((2, 1), (3, 1))
    accesses = uncontrolled = 0

    def compare(name, n, bad, nt, bound, f, ref):
        nonlocal accesses, uncontrolled
        case = {'calculation': name, 'points': n, 'outside': list(bad),
                'num_threads': nt}

        def visit(value, trace, races, r, script):
            nonlocal accesses, uncontrolled
            accesses += r.naccess
            uncontrolled += bool(r.freerun)
            ctx.state(name, n, tuple(bad), nt,
                      tuple(c for _, _, c in trace))
            ctx.trace()
            ctx.step()
            here = dict(case, schedule=[c for _, _, c in trace],
                        threads=r.nthreads)
            if r.deadlock:
                ctx.violation(f'{name}:deadlock', f'{name}: the threads wait '
                              'for each other', here)
                return False
            if races:
                a, b, t1, t2, w1, w2 = races[0]
                kind = {(0, 1): 'read/write', (1, 0): 'write/read',
                        (1, 1): 'write/write'}.get((w1, w2), '')
                ctx.violation(
                    f'{name}:race', f'{name}: unordered accesses ({kind}) of '
                    f'the threads {t1} and {t2}: '
                    f'{where(ctx.info["pkg"], a)} / '
                    f'{where(ctx.info["pkg"], b)}',
                    dict(here, races=len(races)))
                return False
            if not same(value, ref):
                what = value if isinstance(value, str) else 'other values'
                want = ref if isinstance(ref, str) else 'the values'
                ctx.violation(
                    f'{name}:value', f'{name}: {what} with {nt} threads '
                    f'instead of {want} of one thread, for {n} points, of '
                    f'which {list(bad)} outside', dict(
                        here, got=value, expected=ref))
                return False
            if r.overflow:
                ctx.outcome('shadow memory full')
            return True

        if bound is None:
            value, trace, races, r = sched.run(lambda: f(nt), [])
            visit(value, trace, races, r, [])
            return
        k = sched.explore(lambda: f(nt), bound, visit)
        ctx.outcome('schedules', k)

    def reference(f):
        try:
            return f(1)
        except Exception as e:
            return type(e).__name__

    for name in mine:
        make, fails = every[name]
        # one order, all the sizes and counts
        for n in sizes:
            f = make(n)
            ref = reference(f)
            for nt in sizes:
                compare(name, n, (), nt, None, f, ref)
            # without the scheduler
            for nt in (0, 2, 5):
                v = reference(lambda _: f(nt))
                ctx.check(same(v, ref), f'{name}:free', f'{name}: other '
                          f'result with {nt} threads for {n} points',
                          {'calculation': name, 'points': n,
                           'num_threads': nt})
        # all the orders
        for nt, bound in deep:
            if shard['group'] == 'gauss_seidel':
                # each iteration creates threads twice
                if name.endswith('3'):
                    break
                bound = max(0, bound - (nt > 2))
            for n in (3, 4) if not thorough else (2, 3, 5):
                f = make(n)
                compare(name, n, (), nt, bound, f, reference(f))
        if not fails:
            continue
        n = 5 if thorough else 3
        for size in range(1, n + 1):
            for bad in itertools.combinations(range(n), size):
                f = make(n, bad)
                ref = reference(f)
                ctx.check(isinstance(ref, str), f'{name}:silent',
                          f'{name}: no error for the points {bad} outside '
                          'the axes', {'calculation': name, 'outside': bad})
                for nt in (0, 4):
                    compare(name, n, bad, nt, None, f, ref)
                for nt, bound in deep:
                    compare(name, n, bad, nt, bound, f, ref)
    ctx.outcome('accesses checked', accesses)
    ctx.outcome('executions left to the system scheduler', uncontrolled)
    ctx.sample({'group': shard['group'], 'calculations': mine[:4]})
