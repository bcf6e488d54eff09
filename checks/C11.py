"""C11: geohash encoding and decoding."""
import itertools

UNITS = ['geodetic-min', 'geohash', 'geohash/int64', 'geohash/string']
RULE = ('every precision in bits and in characters; every cell of the '
        'precision when they are few, otherwise all pairs of row and column '
        'of a set of bit patterns (zero, one, last, one-hot, alternating, '
        'prefixes of ones); 5x5 positions of every cell, its corner and its '
        'edges included; every byte at every place of a code; both ways of '
        'coding (portable and BMI2)')
BOUNDS = {'quick': 'all cells up to 12 bits, 18x18 patterns beyond',
          'thorough': 'all cells up to 16 bits, 60x60 patterns beyond'}
ASSUMPTIONS = ['a position 1/64 of a cell below its upper edge belongs to the '
               'cell; nothing is claimed within a rounding error of an edge',
               'latitudes are within [-90, 90]']
ALPHABET = b'0123456789bcdefghjkmnpqrstuvwxyz'
OFFSETS = (0.0, 0.25, 0.5, 0.75, 63 / 64)


def build(out, tier):
    from vk import build as b
    try:
        return {'ext': b.module('vkgeohash', f'{b.VERIF}/cpp/vkgeohash.cpp',
                                out)}
    except RuntimeError as e:  # the helpers are not those we know
        b.log('the two ways of coding are not compared:', str(e)[-300:])
        return {}


def shards(tier):
    out = [{'kind': 'bits', 'p': p} for p in range(64, 0, -1)]
    out += [{'kind': 'chars', 'p': p} for p in range(1, 13)]
    out += [{'kind': 'class', 'p': p} for p in range(1, 13)]
    out += [{'kind': 'invalid'}, {'kind': 'codec'}]
    return out


def patterns(n, many):
    """Rows (or columns) among 2**n."""
    top = (1 << n) - 1
    if n <= (8 if many else 6):
        return list(range(top + 1))
    if many:
        out = {0, 1, 2, top, top - 1, top >> 1, (top >> 1) + 1,
               0x5555555555555555 & top, 0xAAAAAAAAAAAAAAAA & top,
               0x3333333333333333 & top}
        out |= {1 << i for i in range(n)} | {top ^ (1 << i) for i in range(n)}
    else:
        out = {0, 1, top, top - 1, top >> 1, (top >> 1) + 1,
               0x5555555555555555 & top, 0xAAAAAAAAAAAAAAAA & top}
        out |= {1 << i for i in range(0, n, 5)}
        out |= {top ^ (1 << i) for i in range(2, n, 7)}
    return sorted(out)


def interleave(lon, lat, nlon, nlat):
    """The code of a cell: bits alternate, longitude first."""
    code = 0
    for i in range(nlon + nlat):
        if i % 2 == 0:
            bit = lon >> (nlon - 1 - i // 2) & 1
        else:
            bit = lat >> (nlat - 1 - i // 2) & 1
        code = code << 1 | bit
    return code


def text(code, chars):
    return bytes(ALPHABET[code >> (5 * (chars - 1 - i)) & 31]
                 for i in range(chars))


def lattice(np, p, limit, many):
    """Cells of a precision and positions in these cells."""
    nlat = p // 2
    nlon = p - nlat
    if p <= limit:
        cells = list(itertools.product(range(1 << nlon), range(1 << nlat)))
    else:
        cells = list(itertools.product(patterns(nlon, many),
                                       patterns(nlat, many)))
    x = np.array([c[0] for c in cells], dtype='f8')
    y = np.array([c[1] for c in cells], dtype='f8')
    codes = np.array([interleave(a, b, nlon, nlat) for a, b in cells],
                     dtype='u8')
    dx = 360.0 / 2.0**nlon
    dy = 180.0 / 2.0**nlat
    return cells, codes, x * dx - 180, y * dy - 90, dx, dy


def explore(ctx, shard):
    import numpy as np
    import pyinterp.core as core
    from pyinterp.core import geohash as gh
    kind = shard['kind']
    limit = 16 if ctx.thorough else 12

    def compare(got, exp, what, key, case):
        got = np.asarray(got)
        ctx.step(got.size)
        bad = np.flatnonzero(got != exp)
        if bad.size:
            i = int(bad[0])
            ctx.violation(f'{key}:{case(i)}', f'{what}: {got[i]} expected '
                          f'{exp[i]} ({bad.size} of {got.size})', case(i))

    def close(got, exp, tol, what, key, case):
        got = np.asarray(got)
        ctx.step(got.size)
        bad = np.flatnonzero(~(np.abs(got - exp) <= tol))
        if bad.size:
            i = int(bad[0])
            ctx.violation(f'{key}:{case(i)}', f'{what}: {got[i]!r} expected '
                          f'{exp[i]!r} ({bad.size} of {got.size})', case(i))

    if kind == 'bits':
        p = shard['p']
        cells, codes, lon, lat, dx, dy = lattice(np, p, limit, ctx.thorough)
        for c in cells:
            ctx.state(p, c)
        for fx, fy in itertools.product(OFFSETS, OFFSETS):
            x, y = lon + fx * dx, lat + fy * dy
            where = lambda i: f'bits={p} lon={x[i]!r} lat={y[i]!r}'
            got = gh.int64.encode(x, y, p)
            compare(got, codes, 'code', 'encode', where)
            ctx.trace(len(cells))
            ctx.outcome('edge' if fx * fy == 0 else 'inside', len(cells))
            if p <= 40 and fx:
                for turn in (-360.0, 360.0):
                    compare(gh.int64.encode(x + turn, y, p), codes,
                            f'code {turn} degrees away', 'turn', where)
            for q in range(1, p, 7 if p > 16 else 1):
                compare(gh.int64.encode(x, y, q), codes >> np.uint64(p - q),
                        f'prefix of {q} bits', 'prefix', where)
        # the poles and the date line
        north = np.full(len(cells), 90.0)
        top = np.array([interleave(c[0], (1 << p // 2) - 1, p - p // 2,
                                   p // 2) for c in cells], dtype='u8')
        name = lambda i: f'bits={p} code={int(codes[i])}'
        compare(gh.int64.encode(lon, north, p), top, 'code of the pole',
                'pole', name)
        east = np.array([interleave(0, c[1], p - p // 2, p // 2)
                         for c in cells], dtype='u8')
        compare(gh.int64.encode(np.full(len(cells), 180.0), lat, p), east,
                'code of 180', 'dateline', name)
        # decoding; the corner of the last cell of 64 bits is its upper edge
        keep = np.array([not (p == 64 and c[1] == (1 << 32) - 1 or p >= 63 and
                              c[0] == (1 << 32) - 1) for c in cells])
        lo, la = gh.int64.decode(codes, p, False)
        close(lo[keep], (lon + dx / 2)[keep], 1e-12, 'centre lon', 'centre',
              name)
        close(la[keep], (lat + dy / 2)[keep], 1e-12, 'centre lat', 'centre',
              name)
        close(lo, lon + dx, dx * 1.01, 'centre lon', 'centre', name)
        close(la, lat + dy, dy * 1.01, 'centre lat', 'centre', name)
        compare(gh.int64.encode(lo[keep], la[keep], p), codes[keep],
                'code of the centre', 'roundtrip', lambda i: name(
                    int(np.flatnonzero(keep)[i])))
        if True:
            lo, la = gh.int64.decode(codes, p, True)
            close(lo, lon + dx / 2, dx / 2 + 1e-12, 'rounded lon', 'round',
                  name)
            close(la, lat + dy / 2, dy / 2 + 1e-12, 'rounded lat', 'round',
                  name)
            # fewest decimals: a multiple of the largest power of ten within
            # the size of the cell
            for v, d, axis in ((lo, dx, 'lon'), (la, dy, 'lat')):
                m = 10.0**np.floor(np.log10(d))
                close(v / m, np.round(v / m), 1e-3, f'decimals of {axis}',
                      'decimals', name)
        ctx.sample({'bits': p, 'cell': cells[len(cells) // 2],
                    'code': int(codes[len(cells) // 2])})
        return

    if kind in ('chars', 'class'):
        p = shard['p']
        cells, codes, lon, lat, dx, dy = lattice(np, 5 * p, limit + 3,
                                                 ctx.thorough)
        words = np.array([text(int(c), p) for c in codes], dtype=f'S{p}')
        name = lambda i: f'code={words[i].decode()}'
        if kind == 'chars':
            for w in words.tolist():
                ctx.state(w)
            for fx, fy in itertools.product(OFFSETS, OFFSETS):
                x, y = lon + fx * dx, lat + fy * dy
                where = lambda i: f'chars={p} lon={x[i]!r} lat={y[i]!r}'
                got = gh.encode(x, y, p)
                ctx.check(got.dtype == words.dtype, f'dtype:{p}',
                          f'type {got.dtype}', {'chars': p})
                compare(got, words, 'code', 'encode', where)
                ctx.trace(len(cells))
                for q in range(1, p):
                    compare(gh.encode(x, y, q), words.astype(f'S{q}'),
                            'prefix', 'prefix', where)
            lo, la = gh.decode(words)
            close(lo, lon + dx / 2, 1e-12, 'centre lon', 'centre', name)
            close(la, lat + dy / 2, 1e-12, 'centre lat', 'centre', name)
            compare(gh.encode(lo, la, p), words, 'code of the centre',
                    'roundtrip', name)
            lo, la = gh.decode(words, round=True)
            close(lo, lon + dx / 2, dx / 2 + 1e-12, 'rounded lon', 'round',
                  name)
            close(la, lat + dy / 2, dy / 2 + 1e-12, 'rounded lat', 'round',
                  name)
            # shorter codes in a wider array are padded with zeros
            for width in range(p, 13):
                lo, la = gh.decode(words.astype(f'S{width}'))
                close(lo, lon + dx / 2, 1e-12, f'padded to {width}', 'pad',
                      name)
                close(la, lat + dy / 2, 1e-12, f'padded to {width}', 'pad',
                      name)
            # areas: the same in a row, and north and south of the equator
            area = gh.area(words)
            row = {}
            for i, (a, b) in enumerate(cells):
                row.setdefault(min(b, (1 << (5 * p) // 2) - 1 - b),
                               []).append(area[i])
            ok = all(min(v) > 0 and max(v) - min(v) <= max(
                1e-9 * max(v), 0.2) for v in row.values())
            ctx.check(p > 8 or ok, f'area:{p}', 'areas of a row of cells '
                      'differ', {'chars': p})
            ctx.check(area.shape == words.shape, f'area:shape:{p}',
                      f'shape of the areas {area.shape}', {'chars': p})
            ctx.sample({'chars': p, 'code': words[len(words) // 2].decode()})
            return
        pick = range(0, len(cells), max(1, len(cells) // 1500))
        area = gh.area(words)
        for i in pick:
            w = words[i].decode()
            key = f'class:{w}'
            ctx.state(w)
            ctx.trace()
            box = None
            for fx, fy in itertools.product(OFFSETS, (0.0, 63 / 64)):
                g = core.GeoHash(lon[i] + fx * dx, lat[i] + fy * dy, p)
                ctx.check(str(g) == w, f'{key}:{fx}:{fy}',
                          lambda: f'{g} expected {w}', {
                              'lon': lon[i] + fx * dx,
                              'lat': lat[i] + fy * dy, 'chars': p})
            g2 = core.GeoHash.from_string(w)
            g3 = core.GeoHash.from_string(w, True)
            box = g2.bounding_box()
            center = g2.center()
            ok = (str(g2) == w and str(g3) == w and g2.precision() == p
                  and g2.number_of_bits() == 5 * p
                  and abs(box.min_corner.lon - lon[i]) <= 1e-12
                  and abs(box.min_corner.lat - lat[i]) <= 1e-12
                  and abs(box.max_corner.lon - lon[i] - dx) <= 1e-12
                  and abs(box.max_corner.lat - lat[i] - dy) <= 1e-12
                  and abs(center.lon - lon[i] - dx / 2) <= 1e-12
                  and abs(center.lat - lat[i] - dy / 2) <= 1e-12)
            ctx.check(ok, key, lambda: f'{w}: {g2} {g3} {box} {center}',
                      {'code': w})
            a = g2.area()
            ctx.check(abs(a - area[i]) <= 1e-9 * abs(a) + 0.2,
                      key + ':area', lambda: f'area {a} and {area[i]}',
                      {'code': w})
            x, y, n = g2.reduce()
            ctx.check(n == p and str(core.GeoHash(x, y, n)) == w,
                      key + ':reduce', lambda: f'reduce {x} {y} {n}',
                      {'code': w})
        e = core.GeoHash.error_with_precision(p)
        ctx.check(e == (dx, dy), f'error:{p}', f'size of a cell: {e}',
                  {'chars': p})
        return

    if kind == 'codec':
        try:
            import vkgeohash as vk
        except ImportError:
            ctx.notes.append('the two ways of coding are not compared')
            return
        ways = [('portable', vk.portable, False)]
        if vk.bmi2():
            ways.append(('bmi2', vk.fast, True))
        for n in (32, 31, 16, 8):
            cells, codes, lon, lat, dx, dy = lattice(np, 2 * n, limit, True)
            a = np.array([c[0] for c in cells], dtype='u8')
            b = np.array([c[1] for c in cells], dtype='u8')
            for name, enc, fast in ways:
                for c in cells:
                    ctx.state(name, n, c)
                for f in OFFSETS[:-1] if n < 32 else OFFSETS[:3]:
                    x, y = lon + f * dx, lat + f * dy
                    where = lambda i: f'{name} lon={x[i]!r} lat={y[i]!r}'
                    got = enc(x, y) >> np.uint64(64 - 2 * n)
                    compare(got, codes, 'code', 'codec', where)
                    ctx.trace(len(cells))
                full = np.full(len(cells), 2**64 - 1, dtype='u8')
                compare(enc(np.full(len(cells), 180.0),
                            np.full(len(cells), 90.0)), full, 'last code',
                        'codec-last', lambda i: name)
                u, v = vk.deinterleave(codes, fast)
                key = lambda i: f'{name} code={int(codes[i])}'
                compare(u, b, 'row', 'deinterleave', key)
                compare(v, a, 'column', 'deinterleave', key)
            ctx.outcome('codec', len(cells) * len(ways))
        return

    # kind == 'invalid'
    def refused(f, *args):
        try:
            f(*args)
        except (ValueError, RuntimeError):
            return True
        return False

    for size in range(1, 13):
        for place in range(size):
            for byte in range(1, 256):
                w = bytearray(b's' * size)
                w[place] = byte
                ok = byte in ALPHABET
                ctx.state(size, place, byte)
                arr = np.array([b's' * size, bytes(w)], dtype=f'S{size}')
                key = f'{size}:{place}:{byte}'
                for what, f in (('decode', gh.decode), ('area', gh.area)):
                    if what == 'area' and size not in (1, 5):
                        continue
                    got = not refused(f, arr)
                    ctx.check(got == ok, f'{what}:{key}', f'{what} of {w} '
                              f'{"accepted" if got else "refused"}',
                              {'code': list(w)})
                if byte < 128:
                    got = not refused(core.GeoHash.from_string,
                                      w.decode('ascii'))
                    ctx.check(got == ok, f'from_string:{key}',
                              f'from_string of {w} '
                              f'{"accepted" if got else "refused"}',
                              {'code': list(w)})
                ctx.outcome('valid' if ok else 'invalid')
    ctx.trace()
    one = np.zeros(1)
    cases = [
        ('class 13', lambda: core.GeoHash(0, 0, 13)),
        ('class 0', lambda: core.GeoHash(0, 0, 0)),
        ('string of 13', lambda: core.GeoHash.from_string('s' * 13)),
        ('empty string', lambda: core.GeoHash.from_string('')),
        ('encode 13', lambda: gh.encode(one, one, 13)),
        ('encode 0', lambda: gh.encode(one, one, 0)),
        ('int encode 0', lambda: gh.int64.encode(one, one, 0)),
        ('int encode 65', lambda: gh.int64.encode(one, one, 65)),
        ('int decode 0', lambda: gh.int64.decode(np.zeros(1, 'u8'), 0)),
        ('int decode 65', lambda: gh.int64.decode(np.zeros(1, 'u8'), 65)),
        ('sizes', lambda: gh.encode(one, np.zeros(2), 3)),
        ('int sizes', lambda: gh.int64.encode(one, np.zeros(2), 3)),
        ('decode 13', lambda: gh.decode(np.array([b's' * 13]))),
        ('decode numbers', lambda: gh.decode(np.zeros(3))),
        ('decode 2d', lambda: gh.decode(np.array([[b's']]))),
        ('area 13', lambda: gh.area(np.array([b's' * 13]))),
        ('error 13', lambda: core.GeoHash.error_with_precision(13)),
        ('int neighbours 65', lambda: gh.int64.neighbors(0, 65)),
    ]
    for name, f in cases:
        ctx.state(name)
        ctx.check(refused(f), f'refuse:{name}', f'{name} is accepted',
                  {'case': name})
    # strides: a slice is decoded as its copy, or refused
    words = np.array([text(i, 2) for i in range(64)], dtype='S2')
    for start, stop, step in itertools.product(range(4), (*range(0, 6), 40, 41),
                                               (1, 2, 3, -1)):
        view = words[start:stop:step] if step > 0 else words[stop:start:step]
        ctx.state('slice', start, stop, step)
        exp = gh.decode(view.copy())
        try:
            got = gh.decode(view)
        except (ValueError, RuntimeError):
            ctx.outcome('slice refused')
            continue
        ctx.check(np.array_equal(got, exp), f'slice:{start}:{stop}:{step}',
                  'a slice is not decoded as its copy',
                  {'slice': [start, stop, step]})
