"""C15: descriptive statistics."""
import itertools
import math

UNITS = ['descriptive_statistics', 'binning']
RULE = ('every array of a few elements over values with undefined ones, with '
        'and without weights (zero weights included); every shape, subset of '
        'axes and pattern of undefined values; every way of cutting an array '
        'in pieces, empty ones included, and every order of merging them; '
        'pickles and copies in between; compared with moments computed from '
        'their definition in rational numbers')
BOUNDS = {'quick': 'up to 4 elements over 5 values and 4 weights, 3 pieces, '
          'shapes of up to 8 elements', 'thorough': 'up to 5 elements, 4 '
          'pieces'}
ASSUMPTIONS = ['the minimum and maximum of weighted values are those of the '
               'products of values and weights, as the tests of the '
               'repository have it', 'weights are defined and not negative; '
               'the mean of values whose weights are all zero is not claimed',
               'relative tolerance 1e-9 (1e-3 for float32)']
NAN = float('nan')
# most of the digits of the values are used, and their sums remain exact
VALUES = (NAN, -1.0 - 2.0**-30, 0.0, 2.0, 3.5 + 2.0**-29)
WEIGHTS = (0.0, 0.5, 1.0, 3.0)


def shards(tier):
    out = [{'kind': 'plain', 'first': i} for i in range(5)]
    out += [{'kind': 'weighted', 'first': i, 'second': j} for i in range(5)
            for j in range(5)]
    out += [{'kind': 'axes', 'part': i, 'of': 8} for i in range(8)]
    out += [{'kind': 'merge', 'part': i, 'of': 8} for i in range(8)]
    out += [{'kind': 'delayed', 'first': i} for i in range(6)]
    return out


def reference(pairs):
    """pairs: defined (value, weight)."""
    from fractions import Fraction as F
    n = len(pairs)
    if not n:
        return {'count': 0, 'sum_of_weights': 0.0, 'sum': 0.0, 'min': NAN,
                'max': NAN, 'mean': NAN, 'var': NAN, 'skewness': NAN,
                'kurtosis': NAN}
    p = [(F(v), F(w)) for v, w in pairs]
    w = sum(x[1] for x in p)
    out = {'count': n, 'sum_of_weights': float(w),
           'sum': float(sum(a * b for a, b in p)),
           'min': float(min(a * b for a, b in p)),
           'max': float(max(a * b for a, b in p)), 'var': NAN,
           'skewness': NAN, 'kurtosis': NAN}
    if not w:
        return out  # the mean is not claimed
    mean = sum(a * b for a, b in p) / w
    m2, m3, m4 = (sum(b * (a - mean)**k for a, b in p) for k in (2, 3, 4))
    out['mean'] = float(mean)
    out['m2'] = float(m2)
    out['var'] = float(m2 / w)
    if m2:
        out['skewness'] = math.sqrt(w) * float(m3) / float(m2)**1.5
        out['kurtosis'] = float(w * m4 / (m2 * m2)) - 3
    return out


def close(a, b, tol):
    if math.isnan(b):
        return math.isnan(a)
    return abs(a - b) <= tol * max(1.0, abs(b))


def explore(ctx, shard):
    import copy
    import pickle

    import numpy as np
    from pyinterp import core
    from pyinterp.statistics import DescriptiveStatistics as DS
    kind = shard['kind']
    NAMES = ('count', 'sum_of_weights', 'sum', 'min', 'max', 'mean', 'var',
             'skewness', 'kurtosis')

    def compare(ds, exp, key, case, tol=1e-9, index=None, ddof=(0, 1)):
        """exp: dictionary; index: element of the result."""
        bad = []
        ctx.step(len(NAMES))
        for name in NAMES:
            if name not in exp:
                continue
            got = getattr(ds, name)()
            got = float(got.reshape(-1)[index or 0])
            if not close(got, exp[name], tol):
                bad.append(f'{name}={got} expected {exp[name]}')
        for d in ddof:
            got = float(ds.var(d).reshape(-1)[index or 0])
            sd = float(ds.std(d).reshape(-1)[index or 0])
            w = exp['sum_of_weights'] - d
            v = NAN if w <= 0 else exp.get('m2', NAN) / w
            if not close(got, v, tol) or not close(sd, math.sqrt(v) if v == v
                                                   else v, tol):
                bad.append(f'var({d})={got} expected {v}')
        if bad:
            ctx.violation(key, '; '.join(bad), case)

    def defined(values, weights=None):
        return [(v, 1.0 if weights is None else w) for v, w in zip(
            values, weights or values) if v == v]

    if kind == 'plain':
        top = 5 if ctx.thorough else 4
        for n in range(1, top + 1):
            for rest in itertools.product(VALUES, repeat=n - 1):
                values = (VALUES[shard['first']], *rest)
                key = f'plain:{values}'
                exp = reference(defined(values))
                ctx.state(key)
                for dtype, tol in (('f8', 1e-9), ('f4', 1e-3)):
                    ds = DS(np.array(values, dtype=dtype),
                            dtype=np.dtype(dtype))
                    compare(ds, exp, key + dtype, {'values': values,
                                                   'dtype': dtype}, tol)
                    ctx.trace()
                arr = DS(np.array(values)).array()
                ctx.check(arr.shape == (1, ) and all(close(
                    float(arr[k][0]), exp[k], 1e-9) for k in NAMES
                    if k in exp), key + ':array', f'array(): {arr}',
                          {'values': values})
                ctx.outcome('empty' if not exp['count'] else 'constant' if
                            math.isnan(exp['skewness']) else 'spread')
        # far from zero
        for values in itertools.product((NAN, -1.0, 0.0, 2.0), repeat=4):
            if shard['first'] != len(set(map(str, values))) % 5:
                continue
            shifted = [v + 1e6 for v in values]
            exp = reference(defined(shifted))
            compare(DS(np.array(shifted)), exp, f'shifted:{values}',
                    {'values': shifted}, 1e-6)
        ctx.sample({'values': values, 'expected': str(exp)})
        return

    if kind == 'weighted':
        top = 4 if ctx.thorough else 3
        for n in range(2, top + 1):
            for rest in itertools.product(VALUES, repeat=n - 2):
                values = (VALUES[shard['first']], VALUES[shard['second']],
                          *rest)
                for weights in itertools.product(WEIGHTS, repeat=n):
                    key = f'weighted:{values}:{weights}'
                    exp = reference(defined(values, weights))
                    ctx.state(key)
                    ds = DS(np.array(values), np.array(weights))
                    compare(ds, exp, key, {'values': values,
                                           'weights': weights})
                    ctx.trace()
                    ctx.outcome('no weight' if exp['sum_of_weights'] == 0
                                else 'weights')
        ctx.sample({'values': values, 'weights': weights})
        return

    if kind == 'axes':
        shapes = [(3, ), (1, ), (2, 2), (1, 3), (3, 1), (2, 3), (1, 1, 1),
                  (2, 1, 2), (1, 2, 2), (2, 2, 1), (2, 2, 2), (0, ), (2, 0),
                  (0, 2)]
        if ctx.thorough:
            shapes += [(3, 3), (2, 3, 1), (1, 3, 2), (2, 1, 1, 2), (9, )]
        n = 0
        for shape in shapes:
            size = int(np.prod(shape))
            base = np.array([(i * 7) % 5 - 1.5 + i / 8 for i in range(size)])
            wbase = np.array([WEIGHTS[(i * 3 + 1) % 4] for i in range(size)])
            for mask in itertools.product((0, 1), repeat=size):
                n += 1
                if n % shard['of'] != shard['part']:
                    continue
                values = np.where(np.array(mask, dtype=bool), np.nan, base
                                  ).reshape(shape)
                weights = wbase.reshape(shape)
                layouts = {'C': values, 'F': np.asfortranarray(values)}
                big = np.full(tuple(2 * s for s in shape), 99.0)
                big[tuple(slice(None, None, 2) for _ in shape)] = values
                layouts['strided'] = big[tuple(slice(None, None, 2)
                                               for _ in shape)]
                if len(shape) > 1 and shape[0] == 1:
                    layouts['newaxis'] = np.ascontiguousarray(
                        values[0])[None]
                if len(shape) > 1 and shape[-1] == 1:
                    layouts['newaxis'] = np.ascontiguousarray(
                        values[..., 0])[..., None]
                axes = [a for k in range(len(shape) + 1) for a in
                        itertools.combinations(range(len(shape)), k)]
                for ax in axes:
                    keep = [i for i in range(len(shape)) if i not in ax]
                    cells = {}
                    for idx in np.ndindex(*shape):
                        cell = tuple(idx[i] for i in keep)
                        lst = cells.setdefault(cell, [])
                        if values[idx] == values[idx]:
                            lst.append((values[idx], weights[idx]))
                    rshape = tuple(shape[i] for i in keep)
                    for name, arr in layouts.items():
                        if name != 'C' and sum(mask) > 2:
                            continue
                        for weighted in (False, True):
                            args = [list(ax)]
                            if len(ax) == 1:
                                args.append(ax[0])
                            for axis in args:
                                key = (f'axes:{shape}:{mask}:{ax}:{name}:'
                                       f'{weighted}')
                                case = {'values': values.tolist(),
                                        'axis': axis, 'layout': name,
                                        'weights': weighted}
                                ctx.state(key)
                                ds = DS(arr, weights if weighted else None,
                                        axis=axis)
                                ctx.trace()
                                if not ctx.check(
                                        ds.count().shape == rshape
                                        and ds.array().shape == rshape,
                                        key + ':shape',
                                        f'shape {ds.count().shape} expected '
                                        f'{rshape}', case):
                                    continue
                                for i, cell in enumerate(np.ndindex(*rshape)):
                                    lst = cells.get(cell, [])
                                    exp = reference(
                                        lst if weighted else
                                        [(v, 1.0) for v, _ in lst])
                                    compare(ds, exp, f'{key}:{cell}', case,
                                            index=i, ddof=(1, ))
                ctx.outcome('undefined' if any(mask) else 'defined')
                # without axis
                exp = reference(defined(values.ravel().tolist()))
                for name, arr in layouts.items():
                    compare(DS(arr), exp, f'flat:{shape}:{mask}:{name}',
                            {'values': values.tolist(), 'layout': name})
        ctx.sample({'shape': shape, 'axes': axes})
        x = np.zeros((2, 2))
        for what, f in (
            ('axis out of bounds', lambda: DS(x, axis=2)),
            ('axes out of bounds', lambda: DS(x, axis=[0, 5])),
            ('weights of another shape', lambda: DS(x, np.zeros(4))),
            ('sum of other shapes', lambda: DS(x, axis=0) + DS(x)),
            ('sum of other types', lambda: DS(x) + DS(
                x.astype('f4'), dtype=np.dtype('f4'))),
            ('integers', lambda: DS(x, dtype=np.dtype('i4')))):
            try:
                f()
                ctx.violation(f'refuse:{what}', f'{what}: accepted', {})
            except (ValueError, TypeError):
                ctx.outcome('refused')
        return

    if kind == 'delayed':
        # blocks along the first axis, summed in any order
        import dask.array.core as dac
        shape = ((4, ), (3, 2), (2, 2, 2), (1, 3), (3, 1, 2), (4, 2))[
            shard['first']]
        size = int(np.prod(shape))
        base = np.array([(i * 7) % 5 - 1.5 + i / 8 for i in range(size)])
        wbase = np.array([WEIGHTS[(i * 3 + 1) % 4] for i in range(size)])
        n = shape[0]
        for mask in [0] + [1 << i for i in range(size)] + (
                list(range(1, 2**size)) if ctx.thorough else
                [3, 5, 2**size - 1]):
            values = np.array([math.nan if mask >> i & 1 else v for i, v in
                               enumerate(base)]).reshape(shape)
            weights = wbase.reshape(shape)
            for cut in range(2**(n - 1)):
                cuts, block = [], 1
                for i in range(n - 1):
                    if cut >> i & 1:
                        cuts.append(block)
                        block = 0
                    block += 1
                cuts.append(block)
                cuts = tuple(cuts)
                axes = [None, *range(len(shape))] + [
                    a for k in range(len(shape) + 1) for a in
                    itertools.combinations(range(len(shape)), k)]
                for axis, tree, mode in itertools.product(
                        axes, ('left', 'right', 'tree'),
                        ('values', 'both', 'numpy weights', 'f4')):
                    dac.TREE = tree
                    dt = np.dtype('f4' if mode == 'f4' else 'f8')
                    ax = tuple(range(len(shape))) if axis is None else \
                        (axis, ) if isinstance(axis, int) else axis
                    weighted = mode in ('both', 'numpy weights')
                    w = None if not weighted else weights if mode == \
                        'numpy weights' else dac.Array(weights, cuts)
                    key = f'delayed:{shape}:{mask}:{cuts}:{axis}:{tree}:{mode}'
                    case = {'values': values.tolist(), 'axis': axis,
                            'blocks': cuts, 'weights': weighted}
                    ctx.state(key)
                    ctx.trace()
                    ds = DS(dac.Array(values.astype(dt), cuts), w, axis=axis,
                            dtype=dt)
                    keep = [i for i in range(len(shape)) if i not in ax]
                    rshape = tuple(shape[i] for i in keep)
                    want = (1, ) if axis is None else rshape
                    if not ctx.check(ds.count().shape == want, key + ':shape',
                                     f'shape {ds.count().shape} expected '
                                     f'{want}', case):
                        continue
                    for i, cell in enumerate(np.ndindex(*rshape)):
                        lst = [(values[idx], weights[idx] if weighted else 1.)
                               for idx in np.ndindex(*shape)
                               if tuple(idx[j] for j in keep) == cell
                               and values[idx] == values[idx]]
                        compare(ds, reference(lst), f'{key}:{cell}', case,
                                1e-9 if dt == 'f8' else 1e-3, index=i,
                                ddof=(1, ))
                    ctx.outcome('blocks')
        return

    # kind == 'merge'
    top = 3
    values_of = (NAN, -1.0, 2.0, 3.5)
    n = 0

    def build(piece):
        return DS(np.array([v for v, _ in piece], dtype='f8'),
                  np.array([w for _, w in piece], dtype='f8'))

    for size in range(1, 5):
        for values in itertools.product(values_of, repeat=size):
            n += 1
            if n % shard['of'] != shard['part']:
                continue
            weights = [(1.0, 0.5, 3.0, 0.0)[(i + n) % 4] for i in range(size)]
            pairs = list(zip(values, weights))
            exp = reference(defined(values, weights))
            pieces_max = 4 if ctx.thorough else 3
            for k in range(1, pieces_max + 1):
                for cuts in itertools.combinations_with_replacement(
                        range(size + 1), k - 1):
                    bounds = (0, *cuts, size)
                    pieces = [pairs[a:b] for a, b in zip(bounds, bounds[1:])]
                    for order in itertools.permutations(range(k)):
                        key = f'merge:{pairs}:{cuts}:{order}'
                        case = {'pairs': pairs, 'cuts': cuts, 'order': order}
                        ctx.state(key)
                        ctx.trace()
                        items = [build(pieces[i]) for i in order]
                        acc = items[0]
                        first = copy.copy(acc)
                        for it in items[1:]:
                            acc = acc + it
                        compare(acc, exp, key, case, ddof=(1, ))
                        # right to left, in place, with pickles
                        acc = items[-1].copy()
                        for it in reversed(items[:-1]):
                            acc += pickle.loads(pickle.dumps(it._instance)
                                                ) and it
                            acc._instance = pickle.loads(
                                pickle.dumps(acc._instance))
                        compare(acc, exp, key + ':inplace', case, ddof=(1, ))
                        # operands are left as they were
                        compare(items[0], reference(defined(
                            *zip(*pieces[order[0]])) if pieces[order[0]]
                            else []), key + ':operand', case, ddof=())
                        compare(first, reference(defined(
                            *zip(*pieces[order[0]])) if pieces[order[0]]
                            else []), key + ':copy', case, ddof=())
            double = build(pairs)
            double += double
            compare(double, reference(defined(values * 2, weights * 2)),
                    f'self:{pairs}', {'pairs': pairs})
            ctx.outcome('defined' if exp['count'] else 'empty')
    ctx.sample({'pairs': pairs, 'cuts': cuts})
    # arrays of statistics
    for mask in itertools.product((0, 1), repeat=6):
        if mask[0] * 4 + mask[1] * 2 + mask[2] != shard['part']:
            continue
        base = np.array([1.0, -2.0, 0.5, 3.0, 1.25, 8.0])
        x = np.where(np.array(mask, dtype=bool), np.nan, base).reshape(3, 2)
        for cut in range(4):
            a, b = DS(x[:cut], axis=0), DS(x[cut:], axis=0)
            whole = a + b
            b += a
            for other, name in ((whole, 'add'), (b, 'iadd')):
                for j in range(2):
                    exp = reference(defined(x[:, j].tolist()))
                    compare(other, exp, f'columns:{mask}:{cut}:{name}:{j}',
                            {'values': x.tolist(), 'cut': cut}, index=j)
            ctx.state('columns', mask, cut)
