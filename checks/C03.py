"""C03: temporal axes."""
import itertools

UNITS = ['axis', 'dateutils']
RULE = ('axes: 1..5 dates or durations, regular or not, both orders, in each '
        'of the 13 units, at several origins (before, across and after the '
        'epoch), some longer than 2^53 units; coordinates in each of the 13 units; compared with an '
        'integer axis searched after the conversion made by numpy')
BOUNDS = {'quick': '13 x 13 units, 2 kinds, 5 patterns, 4 origins',
          'thorough': '13 x 13 units, 2 kinds, 12 patterns, 6 origins'}
ASSUMPTIONS = ['numpy defines the conversion between units']
CODES = ['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ps', 'fs',
         'as']
PATTERNS = [(0, 1, 2, 3), (0, 3, 4, 9), (0, 7), (0, 5, 10, 15, 20),
            (0, 1, 11), (0, ), (0, 24, 48), (0, 60, 120, 180),
            (0, 12, 13, 14), (0, 1000, 2000), (0, 31, 59, 90),
            (0, 2, 4, 6, 8)]


def shards(tier):
    return [{'kind': k, 'unit': u} for k in 'Mm' for u in CODES]


def explore(ctx, shard):
    import copy
    import pickle
    import warnings

    import numpy as np
    from pyinterp import core

    from checks.axis_model import Model

    kind, unit = shard['kind'], shard['unit']
    dtype = np.dtype(f'{kind}8[{unit}]')
    delta = np.dtype(f'm8[{unit}]')
    patterns = PATTERNS if ctx.thorough else PATTERNS[:7]
    origins = [-3, 0, 20, -40, 37, -1000][:6 if ctx.thorough else 4]
    # around today, when the unit can hold it
    big = {'Y': 50, 'M': 12 * 50, 'W': 2600, 'D': 18262, 'h': 438288,
           'm': 26297280, 's': 1577836800, 'ms': 1577836800 * 10**3,
           'us': 1577836800 * 10**6, 'ns': 1577836800 * 10**9,
           'ps': 10**15 + 7, 'fs': 10**15 + 7, 'as': 10**15 + 7}[unit]
    origins.append(big)
    origins.append(-big)

    if unit in ('us', 'ns', 'ps', 'fs', 'as'):
        # axes longer than the integers that real numbers can hold
        step = 4 * 10**17
        patterns = patterns + [(0, step, 2 * step, 3 * step, 4 * step),
                               (0, 2 * step + 1, 3 * step, 6 * step)]

    def as_int(x):
        return int(np.asarray(x).astype('i8'))

    for pattern, origin, order in itertools.product(patterns, origins,
                                                    (1, -1)):
        if len(pattern) == 1 and order == -1:
            continue
        values = [origin + p for p in pattern][::order]
        arr = np.array(values, dtype='i8').view(dtype)
        axis = core.TemporalAxis(arr)
        m0 = Model(values)
        case = {'dtype': str(dtype), 'values': values}
        key = f'{dtype}:{values}'
        n = len(values)
        regular = n > 1 and len({b - a for a, b in zip(values,
                                                       values[1:])}) == 1

        variants = [('', axis, m0), ('pickle', pickle.loads(
            pickle.dumps(axis)), m0), ('copy', copy.copy(axis), m0),
                    ('flip', axis.flip(), m0.flip())]
        for how, ax, m in variants:
            ctx.state(key, how)
            ctx.trace()
            v = [int(x) for x in m.values]
            ok = (ax.dtype() == dtype and len(ax) == n
                  and ax.is_regular() == regular
                  and [as_int(ax[i]) for i in range(n)] == v
                  and ax[:].tolist() == np.array(
                      v, dtype='i8').view(dtype).tolist()
                  and ax[:].dtype == dtype
                  and as_int(ax.front()) == v[0]
                  and as_int(ax.back()) == v[-1]
                  and as_int(ax.min_value()) == min(v)
                  and as_int(ax.max_value()) == max(v)
                  and np.asarray(ax.front()).dtype == dtype
                  and np.asarray(ax.min_value()).dtype == dtype)
            if regular:
                ok = ok and (as_int(ax.increment()) == v[1] - v[0]
                             and np.asarray(ax.increment()).dtype == delta)
            ctx.check(ok, f'{key}:{how}:properties',
                      lambda: f'properties of {ax!r}', case)
            for start, stop, step in itertools.product(
                (None, 0, 1, -2), (None, 2, -1), (None, 2, -1)):
                sl = slice(start, stop, step)
                got = ax[sl].astype('i8').tolist()
                ctx.check(got == v[sl], f'{key}:{how}:{sl}',
                          lambda: f'axis[{sl}] = {got}', case)

        for cunit in CODES:
            ctype = np.dtype(f'{kind}8[{cunit}]')
            # dates of the axis, and around them, in the unit of the query
            base = np.array(sorted({x + d for x in values
                                    for d in (-2, -1, 0, 1, 2)}
                                   | {(a + b) // 2 + d
                                      for a, b in zip(values, values[1:])
                                      for d in (-1, 0, 1, 2)}
                                   | {min(values) - 10**4,
                                      max(values) + 10**4}),
                            dtype='i8').view(dtype)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('error')
                    conv = base.astype(ctype).astype('i8')
                    # overflows of the conversion are not of our concern
                    if (np.abs(conv) > 2**62).any() or _overflow(
                            base, ctype, np):
                        continue
                    fine = np.unique(np.concatenate(
                        [conv, conv - 1, conv + 1,
                         (conv[:-1] + conv[1:]) // 2]))
                    q = fine.view(ctype)
                    if _overflow(q, dtype, np):
                        continue
                    expected_int = q.astype(dtype).astype('i8').tolist()
            except OverflowError:
                continue
            except TypeError:
                expected_int = None
                q = np.arange(3).view(ctype)
            coarse = CODES.index(cunit) > CODES.index(unit)
            for how, ax, m in variants[:1] + variants[3:]:
                ctx.state(key, how, cunit)
                try:
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter('always')
                        cast = ax.safe_cast(q)
                        idx = ax.find_index(q, False).tolist()
                        idxb = ax.find_index(q, True).tolist()
                        pairs = ax.find_indexes(q).tolist()
                    nwarn = len([x for x in w
                                 if issubclass(x.category, UserWarning)])
                    failed = None
                except Exception as e:
                    failed = e
                c2 = {**case, 'query': str(ctype), 'how': how}
                if expected_int is None:
                    ctx.check(failed is not None, f'{key}:{cunit}:refused',
                              'conversion refused by numpy is accepted', c2)
                    ctx.outcome('refused')
                    continue
                if not ctx.check(failed is None, f'{key}:{cunit}:fails',
                                 lambda: f'{type(failed).__name__}: {failed}',
                                 c2):
                    continue
                ctx.check(
                    cast.astype('i8').tolist() == expected_int
                    and cast.dtype == dtype, f'{key}:{cunit}:cast',
                    lambda: f'safe_cast: {cast} expected {expected_int}', c2)
                ctx.check((nwarn > 0) == coarse, f'{key}:{cunit}:warning',
                          lambda: f'{nwarn} warnings for {ctype} to {dtype}',
                          c2)
                ctx.outcome('truncated' if coarse else 'exact')
                for c, a, b, p in zip(expected_int, idx, idxb, pairs):
                    ctx.check(
                        a in m.index_allowed(c, False, regular)
                        and b in m.index_allowed(c, True, regular)
                        and tuple(p) in m.frames(c), f'{key}:{cunit}:{c}',
                        lambda: f'searches of {c} in {m.values}: {a} {b} {p}',
                        {**c2, 'coordinate': c})
                ctx.sample({**c2, 'coordinates': len(q)})
        # the other kind of dates is refused
        other = np.dtype(f'{"m" if kind == "M" else "M"}8[{unit}]')
        for f in (axis.find_index, axis.find_indexes, axis.safe_cast):
            try:
                f(np.arange(3).view(other))
                ok = False
            except (RuntimeError, TypeError, ValueError):
                ok = True
            ctx.check(ok, f'{key}:other-kind',
                      f'{other} accepted by an axis of {dtype}', case)
    for values in ([0, 0], [0, 1, 1], [0, 2, 1], [3, 1, 2]):
        try:
            core.TemporalAxis(np.array(values, dtype='i8').view(dtype))
            ok = False
        except (ValueError, RuntimeError):
            ok = True
        ctx.check(ok, f'{dtype}:order:{values}', f'{values} accepted',
                  {'values': values})


def _overflow(arr, to, np):
    """True if the conversion of numpy overflows silently."""
    per_second = {'s': 1, 'ms': 10**3, 'us': 10**6, 'ns': 10**9,
                  'ps': 10**12, 'fs': 10**15, 'as': 10**18}
    seconds = {'W': 604800, 'D': 86400, 'h': 3600, 'm': 60, 'M': 2678400,
               'Y': 31622400}

    def scale(dt):
        u = np.datetime_data(dt)[0]
        from fractions import Fraction
        return Fraction(1, per_second[u]) if u in per_second else Fraction(
            seconds[u])

    ratio = scale(arr.dtype) / scale(to)
    top = max(abs(int(x)) for x in arr.astype('i8').tolist())
    return top * ratio > 2**62
