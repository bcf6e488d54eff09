"""C01: index search on an axis, for every axis, coordinate and history."""
import itertools
from fractions import Fraction

UNITS = ['axis', 'dateutils']
RULE = ('axes: every strictly monotonic sequence of 1..5 (thorough 1..6) '
        'values of a small lattice, ascending and descending, under several '
        'exact affine maps, for the real and the integer axis; coordinates: a '
        'finer lattice that covers the axis, the gaps and both outsides; '
        'histories: every sequence of flip in place / flip copy / copy / '
        'pickle up to the depth, all searches compared with a list model in '
        'every state reached; equality of every pair of axes of the lattice')
BOUNDS = {
    'quick': 'lattice 0..6, <= 5 values, history depth 2',
    'thorough': 'lattice 0..8, <= 6 values, history depth 3',
}
ASSUMPTIONS = [
    'the values and coordinates of the enumeration are exact in float64',
    'a coordinate half-way between two elements may be given to either',
    'elements of a regular axis also own the half-cell outside the axis',
]

# scale, offset
MAPS = [(1, 0), (Fraction(1, 4), Fraction(-77, 8)), (32, -1024)]
IMAPS = [(1, 0), (4, -10), (7, 1000), (1000003, -5000000),
         (4 * 10**17, -3)]


def shards(tier):
    return [{'kind': k, 'map': m, 'size': s}
            for s in ((5, 4, 3, 2, 1) if tier == 'quick' else
                      (6, 5, 4, 3, 2, 1))
            for k, n in (('f', len(MAPS)), ('i', len(IMAPS)))
            for m in range(n)]


def explore(ctx, shard):
    import copy
    import pickle

    import numpy as np
    from pyinterp import core

    from checks.axis_model import Model

    span = 7 if ctx.tier == 'quick' else 9
    depth = 2 if ctx.tier == 'quick' else 3
    kind, size = shard['kind'], shard['size']
    real = kind == 'f'
    scale, offset = (MAPS if real else IMAPS)[shard['map']]

    def build(values):
        if real:
            return core.Axis(np.array([float(v) for v in values]))
        return core.AxisInt64(np.array([int(v) for v in values]))

    def probes(values):
        lo, hi = min(values), max(values)
        if real:
            q = [Fraction(k, 4) * scale + offset
                 for k in range(-12, 4 * span + 12)]
            eps = Fraction(1, 2**20) * scale
            q += [v + s * eps for v in values for s in (-1, 1)]
            q += [lo - 10**6, hi + 10**6]
        else:
            q = set(range(int(lo) - 3, int(hi) + 4)) if scale < 10 else set()
            for a, b in zip(values, values[1:]):
                m = (a + b) // 2
                q |= {int(m) + d for d in (-1, 0, 1)}
                q |= {int(a + (b - a) * k / 8) for k in range(9)}
            q |= {int(v) + d for v in values for d in (-2, -1, 0, 1, 2)}
            q |= {int(lo) - 10**9, int(hi) + 10**9}
            if scale >= 10 or True:
                s = int(scale)
                q |= {int(lo) - s * k // 4 for k in range(8)}
                q |= {int(hi) + s * k // 4 for k in range(8)}
            q = [Fraction(x) for x in sorted(q)]
        return q

    def compare(axis, model, q, arr, tables, hist, name):
        n = len(model.values)
        case = {'axis': [str(v) for v in name], 'history': hist,
                'kind': kind}
        key = f'{kind}:{[str(v) for v in name]}:{"-".join(hist)}'
        got = [Fraction(axis[i].item() if hasattr(axis[i], 'item') else
                        axis[i]) for i in range(n)]
        ctx.check(got == model.values and len(axis) == n,
                  key + ':values', lambda: f'values {got}', case)
        ctx.check(
            Fraction(axis.front()) == model.values[0]
            and Fraction(axis.back()) == model.values[-1]
            and Fraction(axis.min_value()) == model.lo
            and Fraction(axis.max_value()) == model.hi
            and (n < 2 or axis.is_ascending() ==
                 (model.values[0] < model.values[1])),
            key + ':bounds',
            lambda: f'front/back/min/max/order of {axis!r}', case)
        reg = tables['regular']
        if reg is not None:
            ctx.check(axis.is_regular() == reg, key + ':regular',
                      lambda: f'is_regular() = {axis.is_regular()}', case)
            if axis.is_regular():
                ctx.check(
                    Fraction(axis.increment()) == model.values[1] -
                    model.values[0], key + ':increment',
                    lambda: f'increment() = {axis.increment()}', case)
        if arr.dtype.kind == 'f':
            nan = np.array([np.nan])
            got = (axis.find_index(nan, False).tolist(),
                   axis.find_index(nan, True).tolist(),
                   axis.find_indexes(nan).tolist())
            ctx.check(got == ([-1], [-1], [[-1, -1]]), key + ':nan',
                      lambda: f'index of an undefined coordinate: {got}',
                      case)
        for bounded in (False, True):
            res = axis.find_index(arr, bounded).tolist()
            allowed = tables['index'][bounded]
            ctx.step(len(res))
            for c, r, ok in zip(q, res, allowed):
                if r not in ok:
                    ctx.violation(
                        f'{key}:find_index:{bounded}:{c}',
                        f'find_index({float(c)}, bounded={bounded}) = {r}, '
                        f'expected one of {sorted(ok)} on '
                        f'{[float(v) for v in model.values]}', {
                            **case, 'coordinate': str(c),
                            'bounded': bounded})
                    break
        res = axis.find_indexes(arr).tolist()
        ctx.step(len(res))
        for c, r, ok in zip(q, res, tables['frames']):
            if tuple(r) not in ok:
                ctx.violation(
                    f'{key}:find_indexes:{c}',
                    f'find_indexes({float(c)}) = {r}, expected one of '
                    f'{sorted(ok)} on {[float(v) for v in model.values]}',
                    {**case, 'coordinate': str(c)})
                break
        ctx.outcome('regular' if axis.is_regular() else 'irregular')

    for combo in itertools.combinations(range(span), size):
        for order in (1, -1):
            if size == 1 and order == -1:
                continue
            values = [v * scale + offset for v in combo][::order]
            axis = build(values)
            steps = {b - a for a, b in zip(values, values[1:])}
            q = probes(values)
            arr = np.array([float(c) for c in q]) if real else np.array(
                [int(c) for c in q])
            models = [Model(values)]
            models.append(models[0].flip())
            tables = []
            for m in models:
                reg = (len(steps) == 1) if size > 1 else None
                tables.append({
                    'regular': reg,
                    'index': {
                        b: [m.index_allowed(c, b, bool(reg)) for c in q]
                        for b in (False, True)
                    },
                    'frames': [m.frames(c) for c in q]
                })
            # every history of derivations
            ops = ('flip!', 'flip', 'copy', 'pickle')
            todo = [((), axis, 0)]
            while todo:
                hist, obj, side = todo.pop()
                ctx.state(kind, tuple(map(str, values)), side, hist)
                compare(obj, models[side], q, arr, tables[side], hist, values)
                ctx.trace()
                if len(hist) == depth:
                    continue
                for op in ops:
                    before = pickle.dumps(obj.__getstate__())
                    new = None
                    if op == 'flip!':
                        # on a private copy, so that siblings are not moved
                        new = copy.copy(obj)
                        ret = new.flip(inplace=True)
                        ctx.check(ret is new, f'{kind}:flip!:identity',
                                  'flip(inplace=True) returns another object',
                                  {'axis': [str(v) for v in values]})
                        s = 1 - side
                    elif op == 'flip':
                        new = obj.flip()
                        s = 1 - side
                    elif op == 'copy':
                        new, s = copy.copy(obj), side
                    else:
                        new, s = pickle.loads(pickle.dumps(obj)), side
                    ctx.check(
                        pickle.dumps(obj.__getstate__()) == before,
                        f'{kind}:{op}:{values}:aliased',
                        f'{op} changed the axis it was derived from',
                        {'axis': [str(v) for v in values], 'op': op,
                         'history': hist})
                    if s == side:
                        ctx.check(
                            new == obj and not new != obj,
                            f'{kind}:{op}:{values}:eq',
                            f'{op} of an axis is not equal to the axis',
                            {'axis': [str(v) for v in values], 'op': op})
                    elif size > 1:
                        ctx.check(new != obj and not new == obj,
                                  f'{kind}:{op}:{values}:ne',
                                  'a flipped axis equals its source',
                                  {'axis': [str(v) for v in values]})
                    todo.append((hist + (op, ), new, s))
            # slices
            n = size
            for a in (None, *range(-n - 1, n + 2)):
                for b in (None, *range(-n - 1, n + 2)):
                    for st in (None, 1, 2, 3, -1, -2):
                        sl = slice(a, b, st)
                        got = [Fraction(x) for x in axis[sl].tolist()]
                        ctx.check(got == models[0].values[sl],
                                  f'{kind}:{values}:slice:{sl}',
                                  lambda: f'axis[{sl}] = {got}',
                                  lambda: {'axis': [str(v) for v in values],
                                           'slice': str(sl)})
            ctx.sample({'axis': [float(v) for v in values],
                        'coordinates': len(q)})
    # an axis equals the axes that hold the same values, and only them
    every = [c[::o] for n in range(1, span + 1)
             for c in itertools.combinations(range(span), n)
             for o in ((1, -1) if n > 1 else (1, ))]
    mine = [c for c in every if len(c) == size]
    built = {c: build([v * scale + offset for v in c]) for c in every}
    for a in mine:
        ctx.state(kind, 'equality', a)
        x = build([v * scale + offset for v in a])
        ctx.step(len(every))
        for b, y in built.items():
            if (x == y) != (a == b) or (x != y) == (a == b):
                ctx.violation(f'{kind}:equality:{a}:{b}',
                              f'axes of the values {a} and {b}: '
                              f'== gives {x == y}, != gives {x != y}',
                              {'axes': [a, b], 'scale': str(scale),
                               'offset': str(offset)})
                break
    # not monotonic or empty: rejected
    for combo in itertools.product(range(3), repeat=min(size, 4)):
        up = all(a < b for a, b in zip(combo, combo[1:]))
        down = all(a > b for a, b in zip(combo, combo[1:]))
        values = [v * scale + offset for v in combo]
        try:
            build(values)
            ok = True
        except (ValueError, RuntimeError):
            ok = False
        ctx.check(ok == (up or down), f'{kind}:order:{combo}',
                  f'{values}: accepted={ok}', {'values': [str(v) for v in
                                                          values]})
