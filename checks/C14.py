"""C14: streaming histograms and two dimensional histograms."""
import functools
import itertools
import math
from fractions import Fraction as F

from checks.stats_model import NAN, close, reference

UNITS = ['axis', 'dateutils', 'streaming_histogram', 'histogram2d']
RULE = ('every sequence of a few values, with and without weights (zero '
        'included), in histograms of every small capacity; every sequence of '
        'merges, self merges, resizes, copies and pickles of two histograms; '
        'every subset of axes of small arrays; every sequence of operations '
        'on two dimensional histograms and every way of cutting a push in '
        'blocks; compared with the set of histograms that the algorithm of '
        'the documentation can give (the two closest bins merged, in any '
        'order when several are as close) and with the samples themselves')
BOUNDS = {'quick': 'sequences of up to 5 values out of 5, capacities 0..4, '
          'histories of 3 operations', 'thorough': 'up to 6 values, '
          'histories of 4 operations'}
ASSUMPTIONS = ['the minimum and maximum of weighted values are those of the '
               'products of values and weights, as the tests of the '
               'repository have it', 'bins of the same value may be merged or '
               'not', 'the bins of samples of zero weight are only checked '
               'for what they conserve']
# most of the digits of the values are used, and their sums remain exact
VALUES = (NAN, -3.0 - 2.0**-30, -1.0, 0.5, 4.0 + 2.0**-29)
WEIGHTS = (0.0, 0.5, 2.0)
QS = tuple(i / 16 for i in range(17))


def normalise(bins):
    """Merge the bins of the same value."""
    out = []
    for v, w in sorted(bins):
        if out and out[-1][0] == v:
            out[-1] = (v, out[-1][1] + w)
        else:
            out.append((v, w))
    return tuple(out)


@functools.lru_cache(maxsize=1 << 18)
def trim(bins, size):
    """All the histograms of at most `size` bins, the closest bins being
    merged first."""
    if size == 0:
        return frozenset([()])
    if len(bins) <= size:
        return frozenset([bins])
    gaps = [bins[i + 1][0] - bins[i][0] for i in range(len(bins) - 1)]
    best = min(gaps) + F(1, 10**9)
    out = set()
    for i, g in enumerate(gaps):
        if g <= best:
            (v0, w0), (v1, w1) = bins[i:i + 2]
            w = w0 + w1
            m = (v0 * w0 + v1 * w1) / w if w else (v0 + v1) / 2
            out |= trim(normalise(bins[:i] + ((m, w), ) + bins[i + 2:]), size)
    return frozenset(out)


class Hist:
    """What was pushed, and the set of possible bins."""

    def __init__(self, size):
        self.size = size
        self.samples = []
        self.bins = frozenset([()])
        self.zero = False

    def copy(self):
        out = Hist(self.size)
        out.samples, out.bins = list(self.samples), self.bins
        out.zero = self.zero
        return out

    def push(self, v, w=1):
        if v != v:
            return
        self.samples.append((F(v), F(w)))
        self.zero |= w == 0
        self.bins = frozenset().union(*(
            trim(normalise(b + ((F(v), F(w)), )), self.size)
            for b in self.bins))

    def merge(self, other, same=False):
        self.samples = self.samples + other.samples
        self.zero |= other.zero
        pairs = [(b, b) for b in self.bins] if same else itertools.product(
            self.bins, other.bins)
        self.bins = frozenset().union(*(
            trim(normalise(a + b), self.size) for a, b in pairs))

    def resize(self, size):
        self.size = size
        self.bins = frozenset().union(*(trim(b, size) for b in self.bins))


def shards(tier):
    out = [{'kind': 'plain', 'first': i, 'bins': b} for i in range(5)
           for b in range(5)]
    out += [{'kind': 'weighted', 'first': i, 'bins': b} for i in range(4)
            for b in range(5)]
    out += [{'kind': 'history', 'first': i, 'bins': b} for i in range(OPS)
            for b in (1, 2, 3)]
    out += [{'kind': 'axes', 'part': i, 'of': 8} for i in range(8)]
    out += [{'kind': 'grid', 'first': i} for i in range(GOPS)]
    out += [{'kind': 'delayed'}, {'kind': 'default'}]
    return out


OPS = 10
GOPS = 9


def explore(ctx, shard):
    import copy
    import pickle

    import dask.array.core as dac
    import numpy as np
    from pyinterp import core
    from pyinterp.histogram2d import Histogram2D
    from pyinterp.statistics import StreamingHistogram as SH
    kind = shard['kind']

    def check(stat, bins, model, key, case, tol=1e-9):
        """stat: function giving a statistic; bins: list of (value, weight);
        model: Hist."""
        ctx.step(10)
        bad = []
        ref = reference(tuple(sorted(model.samples)))

        def same(name, want, t=tol):
            g = float(stat(name))
            if not close(g, want, t):
                bad.append(f'{name}={g} expected {want}')

        same('count', ref['count'])
        same('min', ref['min'])
        same('max', ref['max'])
        size = len(bins)
        if size > model.size:
            bad.append(f'{size} bins, at most {model.size} asked for')
        if int(stat('size')) != size:
            bad.append(f"size={stat('size')} of {size} bins")
        if any(a[0] > b[0] for a, b in zip(bins, bins[1:])):
            bad.append(f'bins {bins} not sorted')
        if any(not math.isfinite(v) for v, _ in bins):
            bad.append(f'undefined bins {bins}')
        total = ref['sum_of_weights'] if model.size else 0.0
        same('sum_of_weights', total)
        if total and not bad:
            same('mean', ref['mean'])
            values = {v for v, _ in model.samples}
            lo, hi = float(min(values)), float(max(values))
            # quantiles
            last = None
            for q in QS:
                g = float(stat('quantile', q))
                e = tol * max(1, abs(lo), abs(hi))
                if not lo - e <= g <= hi + e:
                    bad.append(f'quantile({q})={g} outside [{lo}, {hi}]')
                if last is not None and g < last - e:
                    bad.append(f'quantile({q})={g} under the previous one, '
                               f'{last}')
                last = g
                if bad:
                    break
            if not model.zero:
                for q, v in ((0, lo), (1, hi)):
                    if not close(float(stat('quantile', q)), v, tol):
                        bad.append(f"quantile({q})={stat('quantile', q)} "
                                   f'expected {v}')
            # bins
            if not model.zero:
                # rounding may separate bins that are the same for the model
                near = []
                for v, w in bins:
                    if near and v - near[-1][0] <= tol:
                        near[-1] = (near[-1][0], near[-1][1] + w)
                    else:
                        near.append((v, w))
                if not any(len(near) == len(b) and all(
                        close(x[0], float(y[0]), tol) and
                        close(x[1], float(y[1]), tol)
                        for x, y in zip(near, b)) for b in model.bins):
                    some = [[(float(v), float(w)) for v, w in b]
                            for b in itertools.islice(model.bins, 3)]
                    bad.append(f'bins {bins} expected one of {some}')
            # nothing was merged: every statistic is exact
            if len(values) <= model.size and model.exact:
                same('variance', ref['variance'])
                if ref['variance']:
                    same('skewness', ref['skewness'])
                    same('kurtosis', ref['kurtosis'])
                if len(values) == len(model.samples) and not model.zero:
                    pairs = sorted(model.samples)
                    cum, knots = F(0), [(F(0), pairs[0][0])]
                    for v, w in pairs:
                        knots.append((cum + w / 2, v))
                        cum += w
                    knots.append((cum, pairs[-1][0]))
                    for q in QS:
                        x = F(q) * cum
                        for (x0, y0), (x1, y1) in zip(knots, knots[1:]):
                            if x0 <= x <= x1:
                                y = y0 if x1 == x0 else y0 + (y1 - y0) * (
                                    x - x0) / (x1 - x0)
                                break
                        g = float(stat('quantile', q))
                        if not close(g, float(y), tol):
                            bad.append(f'quantile({q})={g} expected '
                                       f'{float(y)}')
                            break
        if bad:
            ctx.violation(key, '; '.join(bad[:3]), case)

    def check_sh(h, model, key, case, tol=1e-9, index=0):
        inst = getattr(h, '_instance', h)

        def stat(name, *args):
            return getattr(inst, name)(*args).reshape(-1)[index]

        b = inst.bins()
        b = b.reshape(-1, b.shape[-1])[index] if b.shape[-1] else []
        check(stat, [(float(x['value']), float(x['weight'])) for x in b
                     if x['value'] == x['value'] or x['weight']], model, key,
              case, tol)

    Hist.exact = True

    if kind in ('plain', 'weighted'):
        top = (6 if ctx.thorough else 5) if kind == 'plain' else (
            5 if ctx.thorough else 4)
        vals = VALUES if kind == 'plain' else VALUES[1:]
        ws = (1.0, ) if kind == 'plain' else WEIGHTS
        for n in range(1, top + 1):
            for rest in itertools.product(vals, repeat=n - 1):
                values = (vals[shard['first']], *rest)
                for weights in itertools.product(ws, repeat=n):
                    if kind == 'weighted' and n == top and len(
                            set(weights)) == 1:
                        continue
                    m = Hist(shard['bins'])
                    for v, w in zip(values, weights):
                        m.push(v, w)
                    key = f'{kind}:{shard["bins"]}:{values}:{weights}'
                    if not ctx.state(key):
                        continue
                    ctx.trace()
                    case = {'values': values, 'weights': weights,
                            'bins': shard['bins']}
                    h = SH(np.array(values), np.array(weights)
                           if kind == 'weighted' else None,
                           bin_count=shard['bins'])
                    check_sh(h, m, key, case)
                    if n <= 3:
                        h = SH(np.array(values, dtype='f4'),
                               np.array(weights, dtype='f4'),
                               bin_count=shard['bins'],
                               dtype=np.dtype('f4'))
                        check_sh(h, m, key + ':f4', case, tol=1e-4)
                    ctx.outcome('merged bins' if len({
                        v for v, _ in m.samples}) > m.size else 'exact')
        ctx.sample({'values': values, 'weights': weights,
                    'bins': shard['bins']})
        return

    if kind == 'history':
        size = shard['bins']
        data = [(), (1.0, ), (-2.0, 0.0, 3.0), (0.25, 0.25, 5.0, 1.0)]

        def run(start, ops):
            h, m = [], []
            for d in start:
                h.append(core.StreamingHistogramFloat64(
                    np.array(data[d], dtype='f8'), bin_count=size))
                m.append(Hist(size))
                for v in data[d]:
                    m[-1].push(v)
            exact = [len({v for v, _ in x.samples}) <= x.size for x in m]
            for op in ops:
                if op in (0, 1):
                    h[op] += h[1 - op]
                    m[op].merge(m[1 - op])
                    exact[op] = exact[op] and exact[1 - op]
                elif op == 2:
                    h[0] += h[0]
                    m[0].merge(m[0], same=True)
                elif op == 3:
                    h[0] = h[0] + h[1]
                    n = m[0].copy()
                    n.merge(m[1])
                    m[0] = n
                    exact[0] = exact[0] and exact[1]
                elif op in (4, 5, 6):
                    k = (0, 1, 4)[op - 4]
                    if len(set(m[0].samples)) > k:
                        exact[0] = False
                    h[0].resize(k)
                    m[0].resize(k)
                elif op == 7:
                    h[0] = pickle.loads(pickle.dumps(h[0]))
                elif op == 8:
                    h[1] = copy.copy(h[0])
                    m[1] = m[0].copy()
                    exact[1] = exact[0]
                elif op == 9:
                    h[0], h[1] = h[1], h[0]
                    m[0], m[1] = m[1], m[0]
                    exact.reverse()
                for i in range(2):
                    if len({v for v, _ in m[i].samples}) > m[i].size:
                        exact[i] = False
            return h, m, exact

        depth = 4 if ctx.thorough else 3
        for start in itertools.product(range(4), repeat=2):
            for n in range(1, depth + 1):
                for rest in itertools.product(range(OPS), repeat=n - 1):
                    ops = (shard['first'], *rest)
                    key = f'history:{size}:{start}:{ops}'
                    ctx.state(key)
                    ctx.trace()
                    h, m, exact = run(start, ops)
                    for i in range(2):
                        m[i].exact = exact[i]
                        # samples cut by resize(0) leave no weight behind
                        if len(m[i].samples) and any(
                                o == 4 for o in ops):
                            c = int(h[i].count()[0])
                            sz = int(h[i].size()[0])
                            ctx.check(c == len(m[i].samples) and
                                      sz <= m[i].size, f'{key}:{i}',
                                      lambda: f'count {c} size {sz}',
                                      {'start': start, 'ops': ops})
                            continue
                        check_sh(h[i], m[i], f'{key}:{i}',
                                 {'bins': size, 'start': [data[d] for d in
                                                          start],
                                  'ops': ops})
        ctx.sample({'start': start, 'ops': ops})
        return

    if kind == 'axes':
        shapes = [(3, ), (1, ), (2, 2), (1, 3), (3, 1), (2, 3), (1, 1, 1),
                  (2, 1, 2), (2, 2, 2), (0, ), (2, 0), (0, 2)]
        n = 0
        for shape in shapes:
            size = int(np.prod(shape))
            base = np.array([(i * 7) % 5 - 1.5 + i / 8 for i in range(size)])
            wbase = np.array([WEIGHTS[1 + i % 2] for i in range(size)])
            for mask in itertools.product((0, 1), repeat=size):
                n += 1
                if n % shard['of'] != shard['part']:
                    continue
                values = np.where(np.array(mask, dtype=bool), np.nan, base
                                  ).reshape(shape)
                weights = wbase.reshape(shape)
                layouts = {'C': values, 'F': np.asfortranarray(values)}
                if len(shape) > 1 and shape[0] == 1:
                    layouts['newaxis'] = np.ascontiguousarray(
                        values[0])[None]
                for ax in [a for k in range(len(shape) + 1) for a in
                           itertools.combinations(range(len(shape)), k)]:
                    keep = [i for i in range(len(shape)) if i not in ax]
                    rshape = tuple(shape[i] for i in keep)
                    for name, arr in layouts.items():
                        for weighted in (False, True):
                            cells = {c: Hist(2) for c in np.ndindex(*rshape)}
                            for idx in np.ndindex(*shape):
                                cells[tuple(idx[i] for i in keep)].push(
                                    values[idx],
                                    weights[idx] if weighted else 1)
                            key = f'axes:{shape}:{mask}:{ax}:{name}:{weighted}'
                            case = {'values': values.tolist(), 'axis': ax,
                                    'layout': name, 'weights': weighted}
                            ctx.state(key)
                            ctx.trace()
                            h = SH(arr, weights if weighted else None,
                                   axis=list(ax), bin_count=2)
                            if not ctx.check(h.count().shape == rshape, key,
                                             lambda: f'shape {h.count().shape}',
                                             case):
                                continue
                            for i, c in enumerate(cells):
                                check_sh(h, cells[c], f'{key}:{c}', case,
                                         index=i)
                            ctx.outcome('axes')
        return

    X = core.Axis(np.array([0.0, 1.0, 2.0]))
    Y = core.Axis(np.array([0.0, 1.0]))
    POINTS = ((0.25, 0.25, 2.0), (0.1, 0.0, -1.0), (1.75, 0.75, -4.0),
              (2.0, 9.0, -2.0), (0.0, 0.0, 3.0), (0.0, 0.0, NAN),
              (NAN, 0.0, 1.0), (0.0, NAN, 1.0))

    def cell(x, y):
        if x != x or y != y:
            return None
        return (min(2, max(0, round(x))), min(1, max(0, round(y))))

    def check_grid(h, model, key, case, tol=1e-9):
        hist = h._instance.histograms()
        ctx.check(hist.shape[:2] == (3, 2), key, 'shape', case)
        cache = {}

        def stat(name, *args):
            if name == 'size':
                return sum(1 for b in hist[c] if b['value'] == b['value'])
            k = (name, *args)
            if k not in cache:
                cache[k] = h.variable(name, *args)
            return cache[k][c]

        for c in itertools.product(range(3), range(2)):
            check(stat, [(float(b['value']), float(b['weight']))
                         for b in hist[c] if b['value'] == b['value']],
                  model.get(c, Hist(9)), f'{key}:{c}', case, tol)

    if kind == 'grid':
        sizes = (2, 3)
        groups = [POINTS[:1], POINTS[1:4], POINTS]

        def run(ops):
            h = [Histogram2D(X, Y, bin_counts=s) for s in sizes]
            m = [{}, {}]

            def get(d, c, size):
                return d.setdefault(c, Hist(size))

            size = list(sizes)
            for op in ops:
                if op < 6:
                    w = op // 3
                    pts = groups[op % 3]
                    h[w].push(*(np.array(v) for v in zip(*pts)))
                    for x, y, z in pts:
                        if cell(x, y) is not None and z == z:
                            get(m[w], cell(x, y), size[w]).push(z)
                elif op == 6:
                    h[0] = h[0] + h[1]
                    m[0] = {c: v.copy() for c, v in m[0].items()}
                    for c in m[1]:
                        get(m[0], c, size[0]).merge(m[1][c])
                elif op == 7:
                    h[0].clear()
                    m[0] = {}
                elif op == 8:
                    h[1] = pickle.loads(pickle.dumps(h[0]))
                    m[1] = {c: v.copy() for c, v in m[0].items()}
                    size[1] = size[0]
                for d in m:
                    for v in d.values():
                        if len({s for s, _ in v.samples}) > v.size:
                            v.exact = False
            return h, m

        depth = 4 if ctx.thorough else 3
        for n in range(1, depth + 1):
            for rest in itertools.product(range(GOPS), repeat=n - 1):
                ops = (shard['first'], *rest)
                key = f'grid:{ops}'
                ctx.state(key)
                ctx.trace()
                h, m = run(ops)
                for i in range(2):
                    for v in m[i].values():
                        v.exact = v.exact and len(v.samples) <= v.size
                    check_grid(h[i], m[i], f'{key}:{i}', {'ops': ops})
                ctx.outcome('grid')
        return

    if kind == 'delayed':
        pts = POINTS[:6]
        cols = [np.array(v) for v in zip(*pts)]
        n = len(pts)
        for mask in range(2**(n - 1)):
            cuts, size = [], 1
            for i in range(n - 1):
                if mask >> i & 1:
                    cuts.append(size)
                    size = 0
                size += 1
            cuts.append(size)
            for tree in ('left', 'right', 'tree'):
                dac.TREE = tree
                for dt in ('f8', 'f4'):
                    for bins in (2, None):
                        h = Histogram2D(X, Y, bin_counts=bins,
                                        dtype=np.dtype(dt))
                        arrs = [dac.Array(c.astype(dt), tuple(cuts))
                                for c in cols]
                        got = h.push_delayed(*arrs).compute()
                        model = {}
                        for x, y, z in pts:
                            if z == z:
                                model.setdefault(cell(x, y), Hist(
                                    bins or 100)).push(z)
                        for v in model.values():
                            v.zero = True  # bins depend on the order
                            v.exact = bins is None
                        key = f'delayed:{cuts}:{tree}:{dt}:{bins}'
                        ctx.state(key)
                        ctx.trace()
                        check_grid(got, model, key, {
                            'cuts': cuts, 'tree': tree, 'dtype': dt,
                            'bins': bins}, 1e-9 if dt == 'f8' else 1e-4)
                        # one dimension
                        h = SH(dac.Array(cols[2].astype(dt), tuple(cuts)),
                               weights=dac.Array(np.full(n, 0.5, dtype=dt),
                                                 tuple(cuts)),
                               bin_count=bins, dtype=np.dtype(dt))
                        m = Hist(bins or 100)
                        for z in cols[2]:
                            m.push(z, 0.5)
                        m.zero, m.exact = True, bins is None
                        check_sh(h, m, key + ':1d', {
                            'cuts': cuts, 'tree': tree, 'dtype': dt,
                            'bins': bins}, 1e-9 if dt == 'f8' else 1e-4)
                        ctx.outcome('delayed')
        # along axes
        for shape, axis, weighted, tree in itertools.product(
                ((3, 2), (2, 2, 2)), (None, 0, 1, (0, ), (1, ), (0, 1), ()),
                ('', 'blocks', 'numpy'), ('left', 'right')):
            dac.TREE = tree
            values = np.array([(i * 7) % 5 - 1.5 + i / 8 for i in range(
                int(np.prod(shape)))]).reshape(shape)
            weights = np.where(values > 0, 2.0, 0.5)
            ax = tuple(range(len(shape))) if axis is None else (
                axis, ) if isinstance(axis, int) else axis
            keep = [i for i in range(len(shape)) if i not in ax]
            rshape = tuple(shape[i] for i in keep) if axis is not None else ()
            cells = {c: Hist(100) for c in np.ndindex(*rshape)}
            for idx in np.ndindex(*shape):
                cells[tuple(idx[i] for i in keep)].push(
                    values[idx], weights[idx] if weighted else 1)
            for cuts in ((1, 1, 1), (1, 2), (2, 1), (3, )) if \
                    shape[0] == 3 else ((1, 1), (2, )):
                key = f'delayed:axes:{shape}:{axis}:{weighted}:{tree}:{cuts}'
                case = {'values': values.tolist(), 'axis': axis,
                        'weights': weighted, 'blocks': cuts}
                ctx.state(key)
                ctx.trace()
                h = SH(dac.Array(values, cuts), None if not weighted else
                       weights if weighted == 'numpy' else
                       dac.Array(weights, cuts), axis=axis, bin_count=100)
                want = (1, ) if axis is None else rshape
                if not ctx.check(h.count().shape == want, key,
                                 lambda: f'shape {h.count().shape}', case):
                    continue
                for i, c in enumerate(cells):
                    cells[c].zero = True
                    check_sh(h, cells[c], f'{key}:{c}', case, index=i)
                ctx.outcome('delayed axes')
        return

    # default capacity, refusals
    for n in (99, 100, 101, 150, 350):
        values = np.array([(i * 37) % n + (i % 7) / 8 for i in range(n)])
        m = Hist(100)
        m.samples = [(F(v), F(1)) for v in values]
        m.zero = True
        m.exact = n <= 100
        ctx.state('default', n)
        ctx.trace()
        check_sh(SH(values), m, f'default:{n}', {'n': n})
        h = Histogram2D(X, Y)
        h.push(np.zeros(n), np.zeros(n), values)
        check_grid(h, {(0, 0): m}, f'default2:{n}', {'n': n})

    def refused(f, key):
        ctx.state(key)
        ctx.trace()
        try:
            f()
        except (ValueError, TypeError):
            ctx.outcome('refused')
            ctx.step()
            return
        ctx.violation('refuse:' + key, 'accepted', {})

    a = SH(np.arange(4.0))
    for q in (-0.1, 1.1, 2):
        refused(lambda: a.quantile(q), f'quantile {q}')
        h = Histogram2D(X, Y)
        h.push(np.zeros(3), np.zeros(3), np.arange(3.0))
        refused(lambda: h.variable('quantile', q), f'grid quantile {q}')

    def iadd(x, y):
        x += y

    refused(lambda: iadd(a, SH(np.zeros((2, 2)), axis=0)), 'other shape')
    refused(lambda: iadd(a, SH(np.zeros(2, 'f4'), dtype=np.dtype('f4'))),
            'other type')
    refused(lambda: SH(np.zeros((2, 2)), axis=2), 'axis')
    refused(lambda: SH(np.zeros((2, 2)), np.zeros(4)), 'weights')
    X2 = core.Axis(np.array([0.0, 1.0, 3.0]))
    refused(lambda: Histogram2D(X, Y) + Histogram2D(X2, Y), 'other grid')
    refused(lambda: Histogram2D(X, Y) + Histogram2D(
        X, Y, dtype=np.dtype('f4')), 'other grid type')
    for sizes in itertools.product((0, 1, 2), repeat=3):
        if len(set(sizes)) > 1:
            refused(lambda: Histogram2D(X, Y).push(
                *(np.zeros(s) for s in sizes)), f'sizes {sizes}')
