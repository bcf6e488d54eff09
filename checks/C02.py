"""C02: an angular axis does not depend on the turn its values are given in."""
from fractions import Fraction

UNITS = ['axis', 'dateutils']
RULE = ('longitude axes: full circles with n = 1..12 (and 18, 24, 36, 90 in '
        'thorough) regular elements, regular and irregular sectors, irregular '
        'circles, vectors that cross the seam, ascending and descending, from '
        'several origins; coordinates: every multiple of a fraction of the '
        'step, shifted by -2..2 turns; histories: sequences of flip, copy and '
        'pickle; compared with arithmetic modulo 360 on exact rationals')
BOUNDS = {'quick': 'n <= 12, depth 1',
          'thorough': 'n <= 360, depth 2 (1 from n = 90)'}
ASSUMPTIONS = ['values and coordinates are exact in float64',
               'sectors whose end meets their start within a step are circles']

ORIGINS = [0, -180, 90, Fraction(1, 2), -720, 355]


def shards(tier):
    counts = [2, 3, 4, 5, 6, 8, 9, 10, 12]
    if tier == 'thorough':
        counts += [15, 18, 24, 36, 45, 90, 180, 360]
    return ([{'kind': 'circle', 'n': n, 'o': i} for n in counts[::-1]
             for i in range(len(ORIGINS))] +
            [{'kind': 'sector', 'o': i} for i in range(len(ORIGINS))] +
            [{'kind': 'irregular', 'o': i} for i in range(len(ORIGINS))] +
            [{'kind': 'seam', 'o': i} for i in range(2)])


def explore(ctx, shard):
    import copy
    import itertools
    import pickle

    import numpy as np
    from pyinterp import core

    from checks.axis_model import Model

    depth = 2 if ctx.thorough and shard.get('n', 0) < 90 else 1

    def compare(axis, model, q, hist, expected_circle, regular):
        name = [str(v) for v in model.values]
        if len(name) > 12:
            name = name[:3] + ['..'] + name[-2:]
        case = {'axis': name, 'history': hist}
        key = f'{name}:{"-".join(hist)}'
        n = len(model.values)
        got = [Fraction(axis[i]) for i in range(n)]
        ctx.check(got == model.values, key + ':values',
                  lambda: f'values {[float(v) for v in got]}', case)
        ctx.check(axis.is_circle == expected_circle, key + ':circle',
                  lambda: f'is_circle = {axis.is_circle} on '
                  f'{[float(v) for v in model.values]}', case)
        ctx.outcome(f'circle={axis.is_circle},regular={axis.is_regular()}')
        nan = np.array([np.nan, np.inf, -np.inf])
        got = (axis.find_index(nan, False).tolist(),
               axis.find_index(nan, True).tolist(),
               axis.find_indexes(nan).tolist())
        ctx.check(got == ([-1] * 3, [-1] * 3, [[-1, -1]] * 3), key + ':nan',
                  lambda: f'index of an undefined angle: {got}', case)
        base = None
        for turn in (0, 1, -1, 2, -2):
            arr = np.array([float(c + 360 * turn) for c in q])
            res = [axis.find_index(arr, False).tolist(),
                   axis.find_index(arr, True).tolist(),
                   axis.find_indexes(arr).tolist()]
            if base is None:
                base = res
                for bounded in (False, True):
                    for c, r in zip(q, res[bounded]):
                        ok = model.index_allowed(c, bounded, regular)
                        ctx.check(
                            r in ok, f'{key}:find_index:{bounded}:{c}',
                            lambda: f'find_index({float(c)}, bounded='
                            f'{bounded}) = {r}, expected {sorted(ok)} on '
                            f'{[float(v) for v in model.values]}',
                            {**case, 'coordinate': str(c)})
                for c, r in zip(q, res[2]):
                    ok = model.frames(c)
                    ctx.check(
                        tuple(r) in ok, f'{key}:find_indexes:{c}',
                        lambda: f'find_indexes({float(c)}) = {r}, expected '
                        f'{sorted(ok)} on {[float(v) for v in model.values]}',
                        {**case, 'coordinate': str(c)})
            else:
                ctx.step(3 * len(q))
                if res != base:
                    i = next(i for i in range(len(q)) if any(
                        res[k][i] != base[k][i] for k in range(3)))
                    ctx.violation(
                        f'{key}:turn:{turn}:{q[i]}',
                        f'{float(q[i])} and {float(q[i]) + 360 * turn} do not '
                        'give the same elements: '
                        f'{[(r[i], b[i]) for r, b in zip(res, base)]}',
                        {**case, 'coordinate': str(q[i]), 'turn': turn})

    def histories(values, model, q, expected_circle, regular, axis=None):
        if axis is None:
            axis = core.Axis(np.array([float(v) for v in values]),
                             is_circle=True)
        todo = [((), axis, model)]
        while todo:
            hist, obj, m = todo.pop()
            ctx.state(tuple(map(str, m.values)), hist)
            compare(obj, m, q, hist, expected_circle, regular)
            ctx.trace()
            if len(hist) == depth:
                continue
            for op in ('flip!', 'flip', 'copy', 'pickle'):
                if op == 'flip!':
                    new = copy.copy(obj)
                    new.flip(inplace=True)
                    todo.append((hist + (op, ), new, m.flip()))
                elif op == 'flip':
                    todo.append((hist + (op, ), obj.flip(), m.flip()))
                elif op == 'copy':
                    todo.append((hist + (op, ), copy.copy(obj), m))
                else:
                    todo.append((hist + (op, ),
                                 pickle.loads(pickle.dumps(obj)), m))

    def lattice(step, lo):
        return [lo + k * step for k in range(int(Fraction(400) / step))]

    if shard['kind'] == 'circle':
        n = shard['n']
        step = Fraction(360, n)
        if step.denominator & (step.denominator - 1):
            return
        for origin in (ORIGINS[shard['o']], ):
            for order in (1, -1):
                values = [origin + i * step for i in range(n)][::order]
                q = lattice(step / (8 if n < 90 else 4),
                            Fraction(origin) - 20)
                tiny = Fraction(1, 2**20)
                q += [v + s * tiny for v in values for s in (1, -1)]
                histories(values, Model(values, True, True), q, True, True)
                ctx.sample({'axis': [float(v) for v in values[:6]]})
    elif shard['kind'] == 'sector':
        origin = ORIGINS[shard['o']]
        for n in (2, 3, 5, 8):
            for step in (1, 10, Fraction(25, 2)):
                for order in (1, -1):
                    values = [origin + i * step for i in range(n)][::order]
                    q = lattice(Fraction(step) / 4, Fraction(origin) - 30)
                    histories(values, Model(values, True, False), q, False,
                              True)
    elif shard['kind'] == 'irregular':
        origin = ORIGINS[shard['o']]
        sets = [
            ([0, 10, 40, 90], False),
            ([0, 1, 3], False),
            ([0, 40, 90, 200, 270, 330], True),
            ([0, 100, 120, 240, 300], True),
            ([0, 45, 91, 130, 180, 226, 270, 315], True),
            ([0, 200, 300], True),
            ([0, 90, 180, 200], False),
        ]
        for s, circle in sets:
            for order in (1, -1):
                values = [origin + Fraction(v) for v in s][::order]
                q = lattice(Fraction(7, 4), Fraction(origin) - 30)
                q += [v for v in values]
                histories(values, Model(values, True, circle), q, circle,
                          False)
    else:
        # vectors that wrap: the axis unrolls them
        shift = (0, 180)[shard['o']]
        for n in (4, 6, 8, 12):
            step = Fraction(360, n)
            if step.denominator & (step.denominator - 1):
                continue
            for k in range(1, n):
                for order in (1, -1):
                    ring = [((k + i) * step) % 360 - shift for i in range(n)]
                    if order == -1:
                        ring = ring[::-1]
                    if (ring[1] - ring[0]) * order < 0:
                        # the seam may not be between the first two values,
                        # which give the order of the axis
                        continue
                    plain = [ring[0] + order * i * step for i in range(n)]
                    q = lattice(step / 4, Fraction(-200))
                    axis = core.Axis(np.array([float(v) for v in ring]),
                                     is_circle=True)
                    histories(plain, Model(plain, True, True), q, True, True,
                              axis)
