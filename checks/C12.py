"""C12: geohash neighbours and covers."""
import itertools

from checks.C11 import interleave, patterns, text

UNITS = ['dateutils', 'axis', 'geodetic-min', 'geohash', 'geohash/int64',
         'geohash/string']
RULE = ('neighbours: every precision, every cell of the precision when they '
        'are few, otherwise pairs of rows and columns of bit patterns, '
        'compared with integer arithmetic on the rows and columns; covers: '
        'all boxes whose corners lie on a lattice of cell edges and middles, '
        'with and without extent, all polygons of 3 points, with a hole or '
        'doubled, on a lattice of points around three origins, compared with '
        'a test of every cell of the precision; transforms of every code and '
        'of lists of codes; where: every array of a few codes; the grid and '
        'its conversion')
BOUNDS = {'quick': 'covers of 1, 2 and 3 characters; arrays up to 3x3 and '
          '2x4', 'thorough': 'finer lattices, arrays up to 3x4'}
ASSUMPTIONS = ['cells within 0.25 degree of the edges of a polygon may or may '
               'not be selected: its edges are geodesics',
               'the cells of a box are those whose interior meets it; of a '
               'box without extent, those that contain it']


def shards(tier):
    out = [{'kind': 'polygons', 'origin': o, 'part': i, 'of': 6}
           for o in range(4) for i in range(6)]
    out += [{'kind': 'boxes', 'chars': c, 'part': i, 'of': n}
            for c, n in ((1, 4), (2, 8), (3, 4)) for i in range(n)]
    out += [{'kind': 'neighbors', 'p': [p, 65 - p]} for p in range(1, 33)]
    out += [{'kind': 'class', 'chars': c} for c in range(1, 13)]
    out += [{'kind': 'where', 'part': i, 'of': 4} for i in range(4)]
    out += [{'kind': 'transform', 'chars': c} for c in (1, 2, 3)]
    out += [{'kind': 'grid', 'chars': c} for c in (1, 2, 3)]
    return out


SHIFTS = ((0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0),
          (-1, 1))


def around(x, y, nlon, nlat):
    """Cells around a cell, N first and clockwise."""
    out = []
    for dx, dy in SHIFTS:
        i, j = x + dx, y + dy
        if j < 0 or j >= 1 << nlat:  # over the pole
            j = -1 - j if j < 0 else 2 * (1 << nlat) - 1 - j
            # half a turn; one column for half of the columns
            i += (1 << nlon) // 2
        out.append((i % (1 << nlon), j))
    return out


def bits_of(chars):
    p = 5 * chars
    return p - p // 2, p // 2


def word(x, y, chars):
    nlon, nlat = bits_of(chars)
    return text(interleave(x, y, nlon, nlat), chars)


# -- planar geometry: does a rectangle meet a ring? ---------------------------
def inside(x, y, ring):
    out = False
    for (x1, y1), (x2, y2) in zip(ring, ring[1:] + ring[:1]):
        if (y1 > y) != (y2 > y) and x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
            out = not out
    return out


def clip(x1, y1, x2, y2, rect):
    """Does a segment meet a rectangle (Liang and Barsky)?"""
    t0, t1 = 0.0, 1.0
    dx, dy = x2 - x1, y2 - y1
    for p, q in ((-dx, x1 - rect[0]), (dx, rect[2] - x1), (-dy, y1 - rect[1]),
                 (dy, rect[3] - y1)):
        if p == 0:
            if q < 0:
                return False
        elif p < 0:
            t0 = max(t0, q / p)
        else:
            t1 = min(t1, q / p)
        if t0 > t1:
            return False
    return True


def meets(rect, outer, hole):
    edges = list(zip(outer, outer[1:] + outer[:1]))
    if hole:
        edges += list(zip(hole, hole[1:] + hole[:1]))
    if any(clip(*a, *b, rect) for a, b in edges):
        return True
    x, y = rect[0], rect[1]
    return inside(x, y, outer) and not (hole and inside(x, y, hole))


def explore(ctx, shard):
    import numpy as np
    import pyinterp.core as core
    from pyinterp.core import geodetic
    from pyinterp.core import geohash as gh
    kind = shard['kind']

    if kind == 'neighbors':
        for p in shard['p']:
            nlat = p // 2
            nlon = p - nlat
            limit = 14 if ctx.thorough else 11
            if p <= limit:
                cells = itertools.product(range(1 << nlon), range(1 << nlat))
            else:
                cells = itertools.product(patterns(nlon, ctx.thorough),
                                          patterns(nlat, ctx.thorough))
            for x, y in cells:
                code = interleave(x, y, nlon, nlat)
                exp = [interleave(i, j, nlon, nlat)
                       for i, j in around(x, y, nlon, nlat)]
                got = gh.int64.neighbors(code, p).tolist()
                ctx.state(p, x, y)
                ctx.trace()
                ctx.check(got == exp, f'{p}:{code}',
                          lambda: f'neighbours of {code} ({p} bits): {got} '
                          f'expected {exp}', {'bits': p, 'code': code})
                ctx.outcome('pole' if y in (0, (1 << nlat) - 1) else
                            'date line' if x in (0, (1 << nlon) - 1) else
                            'middle')
            ctx.sample({'bits': p, 'code': code, 'neighbours': exp})
        return

    if kind == 'class':
        c = shard['chars']
        nlon, nlat = bits_of(c)
        if c <= 2:
            cells = itertools.product(range(1 << nlon), range(1 << nlat))
        else:
            cells = itertools.product(patterns(nlon, False),
                                      patterns(nlat, False))
        for x, y in cells:
            w = word(x, y, c).decode()
            got = [str(g) for g in core.GeoHash.from_string(w).neighbors()]
            exp = [word(i, j, c).decode() for i, j in around(x, y, nlon, nlat)]
            ctx.state(w)
            ctx.trace()
            ctx.check(got == exp, f'class:{w}', lambda: f'neighbours of {w}: '
                      f'{got} expected {exp}', {'code': w})
        return

    if kind == 'boxes':
        c = shard['chars']
        nlon, nlat = bits_of(c)
        dx, dy = 360.0 / (1 << nlon), 180.0 / (1 << nlat)
        if c == 1:
            xs = [i / 2 for i in range(17)]
            ys = [i / 2 for i in range(9)]
        elif c == 2:
            xs = [0, 0.5, 1, 1.5, 2, 15.75, 16, 16.25, 30.5, 31, 31.5, 32]
            ys = xs
        else:
            xs = [0, 0.5, 1, 127.5, 128, 128.25, 200, 254.5, 255, 255.5, 256]
            ys = [x / 2 for x in (0, 1, 2, 127, 128, 128.5, 129, 253, 254,
                                  255.5, 256)]
        if ctx.thorough:
            xs = sorted(set(xs) | {x + 0.25 for x in xs[:-1]})
        pairs = [(a, b) for a in xs for b in xs if a <= b]
        rows = [(a, b) for a in ys for b in ys if a <= b]
        for n, ((x1, x2), (y1, y2)) in enumerate(itertools.product(pairs,
                                                                   rows)):
            if n % shard['of'] != shard['part']:
                continue
            if c == 3 and (x2 - x1) * (y2 - y1) > 9000:
                continue

            def span(a, b, size):
                """Cells whose interior meets [a, b]."""
                first = min(int(a), size - 1)
                last = -int(-b // 1) - 1  # ceil(b) - 1
                return first, max(first, last)

            i0, i1 = span(x1, x2, 1 << nlon)
            j0, j1 = span(y1, y2, 1 << nlat)
            box = geodetic.Box(
                geodetic.Point(x1 * dx - 180, y1 * dy - 90),
                geodetic.Point(x2 * dx - 180, y2 * dy - 90))
            case = {'chars': c, 'lon': [x1 * dx - 180, x2 * dx - 180],
                    'lat': [y1 * dy - 90, y2 * dy - 90]}
            key = f'box:{c}:{x1}:{x2}:{y1}:{y2}'
            ctx.state(key)
            ctx.trace()
            if x1 == 1 << nlon:
                continue  # the meridian 180 alone: it may be named -180
            got = gh.bounding_boxes(box, c).tolist()
            exp = [word(i, j, c) for j in range(j0, j1 + 1)
                   for i in range(i0, i1 + 1)]
            ctx.check(sorted(got) == sorted(exp), key, lambda:
                      f'{len(got)} codes, expected {len(exp)}: '
                      f'{got[:12]} {exp[:12]}', case)
            sw, nx, ny = core.GeoHash.grid_properties(box, c)
            ctx.check((str(sw).encode(), nx, ny) ==
                      (word(i0, j0, c), i1 - i0 + 1, j1 - j0 + 1),
                      key + ':grid', lambda: f'grid {sw} {nx}x{ny} expected '
                      f'{exp[0]} {i1 - i0 + 1}x{j1 - j0 + 1}', case)
            ctx.outcome('point' if x1 == x2 and y1 == y2 else 'flat' if
                        x1 == x2 or y1 == y2 else 'box')
        ctx.sample(case)
        if shard['part'] == 0:
            whole = gh.bounding_boxes(precision=c).tolist()
            exp = [word(i, j, c) for j in range(1 << nlat)
                   for i in range(1 << nlon)]
            ctx.check(sorted(whole) == sorted(exp), f'whole:{c}',
                      'codes of the whole earth', {'chars': c})
            try:
                gh.bounding_boxes(precision=12)
                ctx.violation('memory', '2**60 codes are returned', {})
            except MemoryError:
                pass
        return

    if kind == 'polygons':
        c = 2
        nlon, nlat = bits_of(c)
        dx, dy = 360.0 / (1 << nlon), 180.0 / (1 << nlat)
        x0, y0 = ((2.0, 1.0), (172.0, -7.0), (-178.0, -21.0),
                  (-30.0, 8.0))[shard['origin']]
        lattice = [(x0 + 6.0 * i, y0 + 4.5 * j)
                   for i in range(3) for j in range(3)]

        def ring(pts):
            """Closed and clockwise."""
            s = sum(a[0] * b[1] - b[0] * a[1]
                    for a, b in zip(pts, pts[1:] + pts[:1]))
            return (pts if s < 0 else pts[::-1]), abs(s)

        def points(pts):
            return [geodetic.Point(*p) for p in pts + pts[:1]]

        figures = []
        for pts in itertools.combinations(lattice, 3):
            pts, area = ring(list(pts))
            if area > 1e-9:
                figures.append([(pts, None)])
        big = [(x0 - 5, y0 - 3), (x0 - 5, y0 + 13), (x0 + 15, y0 + 13),
               (x0 + 15, y0 - 3)]
        for f in list(figures):
            # the triangle as a hole of a rectangle
            figures.append([(big, f[0][0][::-1])])
        far = [[(x + 30, y) for x, y in f[0][0]] for f in figures[:8]]
        for i, f in enumerate(figures[:40]):
            figures.append([f[0], (far[i % len(far)], None)])
        cells = list(itertools.product(range(1 << nlon), range(1 << nlat)))
        margin = 0.25
        for n, fig in enumerate(figures):
            if n % shard['of'] != shard['part']:
                continue
            must, may = set(), set()
            ymin = min(p[1] for o, _ in fig for p in o) - 1
            ymax = max(p[1] for o, _ in fig for p in o) + 1
            for i, j in cells:
                if (j + 1) * dy - 90 < ymin or j * dy - 90 > ymax:
                    continue
                for turn in (-360, 0, 360):
                    for outer, hole in fig:
                        a, b = i * dx - 180 + turn, j * dy - 90
                        if meets((a - margin, b - margin, a + dx + margin,
                                  b + dy + margin), outer, hole):
                            may.add(word(i, j, c))
                        if meets((a + margin, b + margin, a + dx - margin,
                                  b + dy - margin), outer, hole):
                            must.add(word(i, j, c))
            polys = [geodetic.Polygon(points(o), [points(h)] if h else [])
                     for o, h in fig]
            case = {'figure': fig, 'chars': c}
            key = f'polygon:{shard["origin"]}:{n}'
            ctx.state(key)
            ctx.outcome('hole' if fig[0][1] else 'several' if len(fig) > 1
                        else 'triangle')
            for threads in (1, 2):
                runs = [geodetic.MultiPolygon(polys)]
                if len(polys) == 1:
                    runs.append(polys[0])
                for g in runs:
                    got = gh.bounding_boxes(g, c, threads).tolist()
                    ctx.trace()
                    s = set(got)
                    ctx.check(len(s) == len(got) and must <= s <= may, key,
                              lambda: f'codes {sorted(got)}: missing '
                              f'{sorted(must - s)}, in excess '
                              f'{sorted(s - may)}', case)
        ctx.sample(case)
        return

    if kind == 'where':
        shapes = [(1, 1, 3), (1, 4, 3), (4, 1, 3), (2, 2, 4), (3, 2, 3),
                  (2, 3, 3), (3, 3, 2), (2, 4, 2)]
        if ctx.thorough:
            shapes += [(3, 3, 3), (3, 4, 2), (4, 3, 2), (2, 4, 3)]
        names = [b's0', b's1', b'zz', b'00']
        n = 0
        for rows, cols, k in shapes:
            for content in itertools.product(range(k), repeat=rows * cols):
                n += 1
                if n % shard['of'] != shard['part']:
                    continue
                arr = np.array([names[i] for i in content],
                               dtype='S2').reshape(rows, cols)
                got = gh.where(arr)
                exp = {}
                for i, v in enumerate(content):
                    a, b = divmod(i, cols)
                    o = exp.get(names[v], ((a, a), (b, b)))
                    exp[names[v]] = ((min(o[0][0], a), max(o[0][1], a)),
                                     (min(o[1][0], b), max(o[1][1], b)))
                key = f'where:{rows}x{cols}:{content}'
                ctx.state(key)
                ctx.trace()
                ctx.check(got == exp, key, lambda: f'{got} expected {exp}',
                          {'array': arr.tolist()})
        ctx.sample({'array': arr.tolist(), 'where': str(got)})
        return

    if kind == 'transform':
        c = shard['chars']
        nlon, nlat = bits_of(c)
        if c == 3:
            cells = list(itertools.product(patterns(nlon, False),
                                           patterns(nlat, False)))
        else:
            cells = list(itertools.product(range(1 << nlon), range(1 << nlat)))
        words = [word(x, y, c) for x, y in cells]
        alphabet = [bytes([b]) for b in b'0123456789bcdefghjkmnpqrstuvwxyz']

        def children(w, chars):
            return [w + b''.join(t) for t in itertools.product(
                alphabet, repeat=chars - len(w))]

        lists = [[w] for w in words]
        lists += [list(t) for t in itertools.permutations(words[::max(
            1, len(words) // 8)], 3)]
        lists += [words, []]
        for n, lst in enumerate(lists):
            arr = np.array(lst, dtype=f'S{c}')
            ctx.state(tuple(lst) if len(lst) < 10 else 'all')
            for p in range(1, 6):
                if p > c + 1 and (n % 4 or p > c + 2 or len(lst) > 3):
                    continue
                if p > c and len(lst) > 1100:
                    continue
                key = f'transform:{c}:{p}:{n}'
                case = {'codes': lst[:5], 'to': p}
                got = gh.transform(arr, p)
                ctx.trace()
                if p == c:
                    exp = lst
                elif p < c:
                    exp = sorted({w[:p] for w in lst})
                else:
                    exp = [x for w in lst for x in children(w, p)]
                ctx.outcome('in' if p > c else 'out' if p < c else 'same')
                ctx.check(sorted(got.tolist()) == sorted(exp) and
                          got.dtype == np.dtype(f'S{p}'), key,
                          lambda: f'{len(got)} codes {got[:5]}, expected '
                          f'{len(exp)} {exp[:5]}', case)
        # a shorter code in a wider array
        for w in words[:6]:
            arr = np.array([w, w + b's'], dtype=f'S{c + 1}')
            got = gh.transform(arr, c + 2).tolist()
            exp = children(w, c + 2) + children(w + b's', c + 2)
            ctx.state('short', w)
            ctx.check(sorted(got) == sorted(exp), f'short:{w}',
                      lambda: f'{len(got)} codes, expected {len(exp)}',
                      {'codes': [w, w + b's'], 'to': c + 2})
        return

    # the grid of the codes
    import pyinterp
    from pyinterp import _geohash, geohash
    c = shard['chars']
    nlon, nlat = bits_of(c)
    dx, dy = 360.0 / (1 << nlon), 180.0 / (1 << nlat)
    P = geodetic.Point
    boxes = [None]
    for a, b, e, f in ((0, 0, 1, 1), (0.5, 0.25, 3.5, 2.75), (0, 1, 4, 4),
                       (2, 2, 8, 4), (2.5, 0, 8, 3.5), (1.5, 1.5, 1.75, 3)):
        k = (1 << nlon) / 8, (1 << nlat) / 4
        boxes.append((a * k[0], b * k[1], e * k[0], f * k[1]))
    for n, b in enumerate(boxes):
        if b is None:
            box = None
            i0, j0, i1, j1 = 0, 0, (1 << nlon) - 1, (1 << nlat) - 1
        else:
            box = geodetic.Box(P(b[0] * dx - 180, b[1] * dy - 90),
                               P(b[2] * dx - 180, b[3] * dy - 90))
            i0, j0 = int(b[0]), int(b[1])
            i1, j1 = -int(-b[2] // 1) - 1, -int(-b[3] // 1) - 1
        ds = _geohash.GeoHash.grid(box, c)
        da = ds.data_vars['geohash']
        exp = np.array([[word(i, j, c) for i in range(i0, i1 + 1)]
                        for j in range(j1, j0 - 1, -1)], dtype=f'S{c}')
        lon = np.asarray(da.coords['lon'].data)
        lat = np.asarray(da.coords['lat'].data)
        ctx.state('grid', n)
        ctx.trace()
        ok = (da.data.shape == exp.shape and bool(np.all(da.data == exp))
              and da.dims == ('lat', 'lon')
              and np.allclose(lon, (np.arange(i0, i1 + 1) + 0.5) * dx - 180,
                              atol=1e-9, rtol=0)
              and np.allclose(lat, (np.arange(j1, j0 - 1, -1) + 0.5) * dy -
                              90, atol=1e-9, rtol=0)
              and da.coords['lon'].attrs['units'] == 'degrees_east'
              and da.coords['lat'].attrs['units'] == 'degrees_north')
        ctx.check(ok, f'grid:{c}:{n}', f'grid of the codes of box {b}',
                  {'chars': c, 'box': b})
    # data on the grid
    cells = list(itertools.product(range(1 << nlon), range(1 << nlat)))
    every = max(1, len(cells) // 64)
    for start, step in itertools.product(range(4), (1, 3, 7, every)):
        pick = cells[start::step]
        if step % 2:
            pick = pick[::-1]
        codes = np.array([word(i, j, c) for i, j in pick], dtype=f'S{c}')
        for dtype in ('f8', 'i4', 'O'):
            values = np.arange(1, len(pick) + 1).astype(dtype)
            out = geohash.to_xarray(codes, values)
            exp = np.zeros((1 << nlat, 1 << nlon), dtype='f8')
            for (i, j), v in zip(pick, values):
                exp[j, i] = v
            grid = out.data
            if dtype == 'O':
                grid = np.array([[0 if v is None else v for v in r]
                                 for r in grid], dtype='f8')
            ctx.state('data', start, step, dtype)
            ctx.trace()
            lon = list(out.coords['lon'].data)
            lat = list(out.coords['lat'].data)
            ok = (np.array_equal(grid.astype('f8'), exp)
                  and out.dims == ('lat', 'lon')
                  and np.allclose(lon, (np.arange(1 << nlon) + 0.5) * dx -
                                  180, atol=1e-9, rtol=0)
                  and np.allclose(lat, (np.arange(1 << nlat) + 0.5) * dy -
                                  90, atol=1e-9, rtol=0)
                  and out.coords['lon'].attrs['units'] == 'degrees_east'
                  and out.coords['lat'].attrs['units'] == 'degrees_north')
            ctx.check(ok, f'data:{c}:{start}:{step}:{dtype}',
                      'data laid on the grid of the codes',
                      {'chars': c, 'start': start, 'step': step,
                       'dtype': dtype})
