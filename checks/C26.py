"""C26: grids built from labelled arrays."""
import itertools
import math

UNITS = ['axis', 'dateutils', 'grid', 'bivariate_interpolator', 'bivariate',
         'trivariate', 'quadrivariate', 'bicubic']
RULE = ('labelled arrays: 2 to 4 dimensions, every order of the dimensions of '
        'the array, every order of its coordinates, every direction of its '
        'axes, with and without flipping them, every spelling of the units, '
        'Cartesian or not, a time or a duration at any place, one coordinate '
        'more than the dimensions, every numerical type; for each the '
        'interpolated values on a lattice of positions, for every method and '
        'option, are those of the array read by names; wrong names refused')
BOUNDS = {'quick': 'one order of the mappings of positions for each array; 4 '
          'dimensions: half of the orders of the coordinates',
          'thorough': 'every order of the mappings; every order of the '
          'coordinates'}
ASSUMPTIONS = ['labelled arrays come from a stand-in of xarray (not '
               'installed): dimensions, coordinates, attributes, transpose']

LON_UNITS = ('degrees_east', 'degree_east', 'degree_E', 'degrees_E',
             'degreeE', 'degreesE')
LAT_UNITS = ('degrees_north', 'degree_north', 'degree_N', 'degrees_N',
             'degreeN', 'degreesN')
LON = {'sector': [-10., 0., 25., 30.], 'circle': [0., 90., 180., 270.]}
LAT = [-20., 10., 40.]
REAL = {'z': [1., 2., 5.], 'u': [-3., 0.5]}
TIMES = {'M8[s]': [0, 4, 12], 'M8[ns]': [10**18, 10**18 + 400,
                                         10**18 + 1200],
         'M8[D]': [-8, 0, 16], 'm8[s]': [-4, 0, 8]}


def shards(tier):
    out = [{'kind': 'units', 'part': i, 'of': 4} for i in range(4)]
    out += [{'kind': '2d', 'part': i, 'of': 4} for i in range(4)]
    out += [{'kind': '3d', 'third': t, 'part': i, 'of': 3} for i in range(3)
            for t in ('z', *TIMES)]
    out += [{'kind': '4d', 'third': t, 'part': i, 'of': 6} for i in range(6)
            for t in ('z', 'M8[s]', 'M8[ns]', 'm8[s]')]
    out += [{'kind': 'api'}]
    return out


def bracket(values, q, mode, circle):
    """[(index, weight)] or None outside of the axis."""
    n = len(values)
    if circle:
        q = (q - min(values)) % 360 + min(values)
    order = sorted(range(n), key=lambda i: values[i])
    nodes = [(values[i], i) for i in order]
    if circle and max(values) - min(values) >= 270:
        nodes.append((nodes[0][0] + 360, nodes[0][1]))
    for (a, i), (b, j) in zip(nodes, nodes[1:]):
        if a <= q <= b:
            w = (q - a) / (b - a)
            if mode == 'nearest':
                assert w != 0.5
                w = round(w)
            return [(i, 1.0 - w), (j, w)]
    return None


def explore(ctx, shard):
    import copy
    import pickle

    import numpy as np
    import pyinterp
    import xarray as xr
    from pyinterp.backends import xarray as backend
    kind = shard['kind']
    GRIDS = {2: backend.Grid2D, 3: backend.Grid3D, 4: backend.Grid4D}
    POSITIONAL = {2: pyinterp.Grid2D, 3: pyinterp.Grid3D, 4: pyinterp.Grid4D}
    METHOD = {2: 'bivariate', 3: 'trivariate', 4: 'quadrivariate'}

    def array(dims, coords, axes, units, dtype='f8', extra=None):
        """Labelled array; axes: name -> numpy array."""
        shape = tuple(len(axes[d]) for d in dims)
        # the value is that of the place, whatever the order of the dimensions
        data = np.zeros(shape)
        names = sorted(dims)
        for idx in np.ndindex(*shape):
            where = dict(zip(dims, idx))
            code = 0
            for d in names:
                v = sorted(axes[d].tolist()).index(axes[d].tolist()[where[d]])
                code = code * 5 + v
            data[idx] = (code * 37) % 101 - 30
        if dtype[0] == 'f':
            data = data / 1.003
        items = {c: xr.DataArray(axes[c], dims=(c, ), attrs={
            'units': units[c]} if c in units else {}) for c in coords
            if c in axes}
        if extra is not None:
            # a coordinate without dimension
            at, name, value = extra
            both = list(items.items())
            both.insert(at, (name, xr.DataArray(np.array(value), dims=())))
            items = dict(both)
        return xr.DataArray(data.astype(dtype), dims=dims, coords=items,
                            name='v', attrs={'units': 'm'})

    def numbers(values):
        return values.astype('f8').tolist() if values.dtype.kind == 'f' else \
            values.view('i8').tolist()

    def points(da, dims, circle, unit=None):
        """Lattice of positions: by name, columns and expected values for the
        modes of each dimension."""
        per = {}
        for d in da.dims:
            v = sorted(numbers(da.coords[d].values))
            qs = []
            for a, b in zip(v, v[1:]):
                qs += [a, a + (b - a) / 4, a + 3 * (b - a) / 4]
            qs.append(v[-1])
            if len(da.dims) > 3:
                qs = qs[1:3] + qs[-1:]
            if d == dims[0] or d == dims[1]:
                qs = qs + [v[0] - 64, v[-1] + 64] if len(
                    da.dims) < 4 else qs + [v[0] - 64]
                if d in circle:
                    qs = qs + [qs[1] + 360, qs[2] - 360]
            elif len(da.dims) < 4:
                qs = qs + [v[0] - 4, v[-1] + 4]
            if da.coords[d].values.dtype.kind in 'mM':
                qs = [int(q) for q in qs]
            per[d] = qs
        combos = list(itertools.product(*(per[d] for d in dims)))
        return per, combos

    def expected(da, dims, combos, modes, circle):
        data = np.asarray(da.values, dtype='f8').transpose(
            [da.dims.index(d) for d in dims])
        axes = [numbers(da.coords[d].values) for d in dims]
        memo = [{} for _ in dims]
        out = np.empty(len(combos))
        for r, c in enumerate(combos):
            cells = []
            for m, d, ax, q, mode in zip(memo, dims, axes, c, modes):
                if q not in m:
                    m[q] = bracket(ax, q, mode, d in circle)
                cells.append(m[q])
            if any(x is None for x in cells):
                out[r] = math.nan
                continue
            out[r] = sum(math.prod(w for _, w in p) *
                         data[tuple(i for i, _ in p)]
                         for p in itertools.product(*cells))
        return out

    def mapping(da, dims, combos, order, unit=None):
        cols = {}
        for d, c in zip(dims, zip(*combos)):
            dt = da.coords[d].values.dtype
            if dt.kind in 'mM':
                col = np.array(c, dtype='i8').view(dt)
                if unit:
                    col = col.astype(dt.str[1:2] + '8[' + unit + ']')
            else:
                col = np.array(c, dtype='f8')
            cols[d] = col
        return {d: cols[d] for d in order}

    def compare(key, got, exp, combos, case, tol=1e-8):
        ctx.trace(exp.size)
        ctx.step(exp.size)
        got = np.asarray(got)
        if got.shape != exp.shape:
            ctx.violation(key, f'{key}: shape {got.shape}', case)
            return
        ok = np.where(np.isnan(exp), np.isnan(got),
                      np.abs(got - exp) <= tol * 101)
        ctx.outcome('outside', int(np.isnan(exp).sum()))
        ctx.outcome('inside', int((~np.isnan(exp)).sum()))
        for r in np.nonzero(~ok)[0][:1]:
            ctx.violation(key, f'{key}: {got[r]} instead of {exp[r]} at '
                          f'{combos[r]}', dict(case, point=str(combos[r])))

    def remaining(da, x, y):
        """The dimensions in the order of the tensors of the library."""
        rest = [d for d in da.dims if d not in (x, y)]
        return (x, y, *sorted(rest, key=lambda d: da.coords[
            d].values.dtype.kind not in 'mM'))

    def verify(da, x, y, increasing, geodetic, key, case, full=False):
        """The grid of a labelled array against the array."""
        n = da.ndim
        dims = remaining(da, x, y)
        circle = (x, ) if geodetic else ()
        before = da.values.tobytes(), [c.values.tobytes()
                                       for c in da.coords.values()]
        grid = GRIDS[n](da, increasing_axes=increasing, geodetic=geodetic)
        # the layout of the grid
        flip = [increasing and numbers(da.coords[d].values)[0] >
                numbers(da.coords[d].values)[-1] for d in dims]
        tensor = da.values.transpose([da.dims.index(d) for d in dims])
        for axis, f in enumerate(flip):
            if f:
                tensor = np.flip(tensor, axis)
        ctx.check(np.array_equal(grid.array, tensor), key + ':array',
                  f'{key}: the array of the grid', case)
        for d, f, name in zip(dims, flip, 'xyzu'):
            want = da.coords[d].values[::-1 if f else 1]
            ctx.check(np.array_equal(np.asarray(getattr(grid, name)[:]), want),
                      key + ':' + name, lambda: f'{key}: axis {name} '
                      f'{getattr(grid, name)[:]}, expected {want}', case)
        _, combos = points(da, dims, circle)
        orders = list(itertools.permutations(dims))
        if not ctx.thorough:
            orders = orders[len(key) % len(orders):][:1]
        extra = [{}] if n == 2 else [
            {'z_method': m} for m in ('linear', 'nearest')] if n == 3 else [
            {'z_method': m, 'u_method': k} for m in ('linear', 'nearest')
            for k in ('linear', 'nearest')]
        f4 = 1e-8 if da.dtype != np.dtype('f4') else 1e-6
        for order, kw in itertools.product(orders, extra):
            ctx.state(key, order, tuple(kw.items()))
            c = mapping(da, dims, combos, order)
            modes = ['linear'] * 2 + [kw.get(k, 'linear')
                                      for k in ('z_method', 'u_method')]
            exp = expected(da, dims, combos, modes, circle)
            compare(f'{key}:{order}:{kw}', getattr(grid, METHOD[n])(
                c, num_threads=1, **kw), exp, combos, case, f4)
        rgi = backend.RegularGridInterpolator(
            da, increasing_axes=increasing, geodetic=geodetic)
        ctx.check(rgi.ndim == n and np.array_equal(rgi.grid.array, tensor),
                  key + ':ndim', f'{key}: ndim {rgi.ndim}', case)
        c = mapping(da, dims, combos, orders[0])
        exp = expected(da, dims, combos, ['linear'] * 4, circle)
        compare(key + ':call', rgi(c, num_threads=1), exp, combos, case, f4)
        # times in another unit
        for d in dims:
            u = np.datetime_data(da.coords[d].values.dtype)[0] if \
                da.coords[d].values.dtype.kind in 'mM' else None
            finer = {'s': 'ms', 'D': 'h', 'ns': None}.get(u)
            if finer:
                compare(key + ':unit', rgi(mapping(
                    da, dims, combos, orders[0], finer), num_threads=1), exp,
                    combos, case, f4)
        # other methods: those of the grid built by hand
        by_hand = POSITIONAL[n](*[
            pyinterp.TemporalAxis(v) if v.dtype.kind in 'mM' else
            pyinterp.Axis(v, is_circle=d == x and geodetic) for d, v in
            ((d, da.coords[d].values[::-1 if f else 1].copy())
             for d, f in zip(dims, flip))], np.ascontiguousarray(tensor))
        cols = [c[d] for d in dims]
        ways = [('nearest', {}), ('inverse_distance_weighting', {'p': 1}),
                ('inverse_distance_weighting', {})]
        for method, kw in ways:
            for more in extra[-1:] if not full else extra:
                want = getattr(pyinterp, METHOD[n])(
                    by_hand, *cols, interpolator=method, num_threads=1, **kw,
                    **more)
                got = rgi(c, method=method, num_threads=1, **kw, **more)
                ctx.step(len(got))
                ctx.trace()
                ctx.check(np.array_equal(got, want, equal_nan=True),
                          f'{key}:{method}:{kw}:{more}', lambda:
                          f'{key}: {method} differs from that of the grid '
                          'built by hand', case)
        for kw in ({'nx': 3, 'ny': 3, 'boundary': 'expand'},
                   {'nx': 2, 'ny': 2, 'boundary': 'sym', 'fitting_model':
                    'linear'}, {}):
            def bicubic(f):
                try:
                    return f()
                except ValueError as e:
                    return str(e)
            want = bicubic(lambda: pyinterp.bicubic(
                by_hand, *cols, num_threads=1, **kw))
            got = bicubic(lambda: rgi(c, method='bicubic', num_threads=1,
                                      bicubic_kwargs=kw or None))
            direct = bicubic(lambda: grid.bicubic(c, num_threads=1, **kw))
            ctx.trace()
            for g in (got, direct):
                ctx.check(isinstance(g, str) == isinstance(want, str) and (
                    isinstance(g, str) or np.array_equal(
                        g, want, equal_nan=True)), f'{key}:bicubic:{kw}',
                    lambda: f'{key}: bicubic {g} instead of {want}', case)
        # copies
        other = pickle.loads(pickle.dumps(rgi))
        compare(key + ':pickle', other(c, num_threads=1), exp, combos, case,
                f4)
        other = pickle.loads(pickle.dumps(grid))
        compare(key + ':pickle grid', getattr(other, METHOD[n])(
            c, num_threads=1), exp, combos, case, f4)
        if full:
            compare(key + ':threads', rgi(c), exp, combos, case, f4)
        # bounds
        inside = [p for p, e in zip(combos, exp) if e == e]
        try:
            got = rgi(mapping(da, dims, inside, orders[0]), bounds_error=True,
                      num_threads=1)
            ctx.step(len(got))
        except ValueError as e:
            ctx.violation(key + ':bounds', f'{key}: {e} for positions inside',
                          case)
        out = next((p for p, e in zip(combos, exp) if e != e), None)
        if out is not None:
            for p, f in ((m, g) for m in ('bilinear', 'nearest')
                         for g in (1, 2)):
                try:
                    rgi(mapping(da, dims, inside[:f] + [out], orders[0]),
                        method=p, bounds_error=True, num_threads=1)
                    ctx.violation(key + ':bounds', f'{key}: no error at '
                                  f'{out}', case)
                except ValueError:
                    ctx.outcome('refused')
        after = da.values.tobytes(), [c.values.tobytes()
                                      for c in da.coords.values()]
        ctx.check(before == after, key + ':kept', f'{key}: the array provided '
                  'has been modified', case)

    def axes_of(lon, directions, third=None, names=('lon', 'lat', 'z', 'u')):
        out = {names[0]: np.array(LON[lon]), names[1]: np.array(LAT)}
        if third is not None:
            out[names[2]] = np.array(REAL['z']) if third == 'z' else np.array(
                TIMES[third], dtype='i8').view(third)
        if len(directions) == 4:
            out[names[3]] = np.array(REAL['u'])
        for d, name in zip(directions, names):
            if d:
                out[name] = out[name][::-1].copy()
        return out

    if kind == 'units':
        todo = list(itertools.product(LON_UNITS, LAT_UNITS, (0, 1), (0, 1)))
        for lu, la, perm, order in todo[shard['part']::shard['of']]:
            dims = ('a', 'b')[::-1 if perm else 1]
            coords = ('a', 'b')[::-1 if order else 1]
            axes = {'a': np.array(LON['circle']), 'b': np.array(LAT)}
            da = array(dims, coords, axes, {'a': lu, 'b': la})
            case = {'units': (lu, la), 'dims': dims, 'coords': coords}
            verify(da, 'a', 'b', True, True, f'units:{lu}:{la}:{dims}:'
                   f'{coords}', case)
        return

    if kind == '2d':
        todo = list(itertools.product(
            (0, 1), (0, 1), itertools.product((0, 1), repeat=2), LON,
            (True, False), (True, False), ('f8', 'f4', 'i2', 'i8'),
            (None, 0, 1, 2)))
        for perm, order, directions, lon, up, geo, dt, extra in todo[
                shard['part']::shard['of']]:
            if dt != 'f8' and extra is not None:
                continue
            dims = ('lon', 'lat')[::-1 if perm else 1]
            coords = ('lon', 'lat')[::-1 if order else 1]
            axes = axes_of(lon, directions)
            da = array(dims, coords, axes, {
                'lon': LON_UNITS[0], 'lat': LAT_UNITS[0]}, dt,
                None if extra is None else (extra, 'depth', 3.0))
            case = {'dims': dims, 'coords': coords, 'directions': directions,
                    'longitudes': lon, 'increasing_axes': up, 'geodetic': geo,
                    'dtype': dt, 'extra': extra}
            x, y = ('lon', 'lat') if geo else coords
            verify(da, x, y, up, geo, f'2d:{dims}:{coords}:{directions}:{lon}:'
                   f'{up}:{geo}:{dt}:{extra}', case, True)
        return

    if kind in ('3d', '4d'):
        n = int(kind[0])
        third = shard['third']
        todo = []
        for names in ((('lon', 'lat', 't', 'k'), ('x', 'y', 'level', 'date'),
                       ('b', 'a', 'd', 'c'), ('p', 'q', 's', 'r'))[
                           :4 if n == 4 else 2]):
            perms = list(itertools.permutations(names[:n]))
            for i, dims in enumerate(perms):
                for j, coords in enumerate(perms):
                    # each pair of orders with some of the other options
                    if n == 4 and (i * 7 + j) % 12 and not (
                            ctx.thorough and (i + j) % 3 == 0):
                        continue
                    todo.append((names, dims, coords, (i + j) % 2**n,
                                 i + 2 * j))
        for names, dims, coords, d, c in todo[shard['part']::shard['of']]:
            for up, geo in ((True, True), (False, True), (True, False)):
                directions = [(d + (0 if up else 5)) >> b & 1
                              for b in range(n)]
                lon = 'circle' if (c + up) % 2 else 'sector'
                axes = axes_of(lon, directions, third, names)
                x, y = names[:2] if geo else coords[:2]
                if not geo and any(axes[k].dtype.kind in 'mM' for k in (x, y)):
                    continue
                da = array(dims, coords, axes, {
                    names[0]: LON_UNITS[c % 6], names[1]: LAT_UNITS[c % 5]},
                    'f4' if c % 5 == 0 else 'f8', None if c % 3 else
                    (c % (n + 1), 'cycle', 7))
                case = {'dims': dims, 'coords': coords, 'directions':
                        directions, 'longitudes': lon, 'increasing_axes': up,
                        'geodetic': geo, 'names': names, 'third': third}
                verify(da, x, y, up, geo, f'{kind}:{third}:{names}:{dims}:'
                       f'{coords}:{directions}:{lon}:{up}:{geo}', case,
                       c % 7 == 0)
        return

    # refusals
    def refused(what, f, errors):
        ctx.state('api', what)
        ctx.trace()
        ctx.step()
        try:
            f()
        except errors:
            ctx.outcome('refused')
            return
        except Exception as e:
            ctx.violation('api:' + what, f'{what}: {type(e).__name__} {e}', {})
            return
        ctx.violation('api:' + what, f'{what}: accepted', {})

    for n in (2, 3, 4):
        names = ('lon', 'lat', 'z', 'u')[:n]
        axes = axes_of('sector', (0, ) * n, 'z' if n > 2 else None)
        units = {'lon': LON_UNITS[0], 'lat': LAT_UNITS[0]}
        da = array(names, names, axes, units)
        ok = {d: np.array([0.5 if d == 'u' else float(axes[d][0])])
              for d in names}
        # (time is not an axis of these grids)
        for lacking in (('lon', ), ('lat', ), ('lon', 'lat')):
            bad = array(names, names, axes, {
                k: v for k, v in units.items() if k not in lacking})
            for make in (GRIDS[n], backend.RegularGridInterpolator):
                refused(f'{n}:no units:{lacking}:{make.__name__}',
                        lambda: make(bad), ValueError)
            # Cartesian coordinates need no unit
            GRIDS[n](bad, geodetic=False)
        for m in (2, 3, 4):
            if m != n:
                refused(f'{n}:grid of {m}', lambda: GRIDS[m](da), ValueError)
        grid, rgi = GRIDS[n](da), backend.RegularGridInterpolator(da)
        for name, f in (('grid', getattr(grid, METHOD[n])),
                        ('bicubic', grid.bicubic), ('call', rgi)):
            for d in names:
                less = {k: v for k, v in ok.items() if k != d}
                refused(f'{n}:{name}:{d} missing', lambda: f(less), IndexError)
                refused(f'{n}:{name}:{d} replaced',
                        lambda: f(dict(less, other=ok[d])), IndexError)
            refused(f'{n}:{name}:one more', lambda: f(dict(ok, other=ok[d])),
                    IndexError)
            for wrong in (tuple(ok.values()), list(ok), None, 3):
                refused(f'{n}:{name}:{type(wrong)}', lambda: f(wrong),
                        TypeError)
        refused(f'{n}:method', lambda: rgi(ok, method='cubic'), ValueError)
        ctx.check(np.allclose(rgi(ok), expected(
            da, names, [tuple(float(ok[d][0]) for d in names)],
            ['linear'] * 4, ('lon', ))), f'api:{n}:ok', 'value', {})
    for shape in ((3, ), (2, 2, 2, 2, 2)):
        names = tuple('abcde'[:len(shape)])
        da = array(names, names, {k: np.arange(float(n)) for k, n in zip(
            names, shape)}, {})
        refused(f'{len(shape)} dimensions',
                lambda: backend.RegularGridInterpolator(da),
                NotImplementedError)
    # dates: units are converted, or refused
    axes = axes_of('sector', (0, 0, 0), 'M8[s]', ('lon', 'lat', 't'))
    da = array(('lon', 'lat', 't'), ('lon', 'lat', 't'), axes,
               {'lon': LON_UNITS[0], 'lat': LAT_UNITS[0]})
    rgi = backend.RegularGridInterpolator(da)
    at = {'lon': np.array([0.]), 'lat': np.array([0.])}
    for wrong in (np.array([4.0]), np.array([4], dtype='m8[s]')):
        refused(f'date {wrong.dtype}', lambda: rgi(dict(at, t=wrong)),
                (TypeError, ValueError, RuntimeError))
