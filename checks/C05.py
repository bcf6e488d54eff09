"""C05: periods and lists of periods as sets of instants."""
import itertools

UNITS = ['period']
RULE = ('periods: all (begin, last) over a range of instants, closed and open, '
        'all pairs, in every unit and all pairs of units; lists: all lists of '
        'up to 3 periods; operations: all sequences of sort, join, within, '
        'intersection, filter, merge and pickle up to the depth; dates: all '
        'sorted subsets of the range; compared with lists and sets of integers')
BOUNDS = {'quick': 'instants 0..4, depth 2', 'thorough':
          'instants 0..5, depth 3'}
ASSUMPTIONS = ['lists of periods given to the set operations are sorted by '
               'begin; dates are sorted',
               'mixed units are converted as numpy converts dates']
CODES = ['D', 'h', 'm', 's', 'ms', 'us', 'ns']


def shards(tier):
    out = [{'kind': 'pairs', 'unit': u} for u in CODES]
    out += [{'kind': 'lists', 'first': i} for i in range(15)]
    out += [{'kind': 'ops', 'part': i, 'of': 16} for i in range(16)]
    out += [{'kind': 'mixed', 'unit': u} for u in CODES]
    return out


# -- model: a period is (begin, last), a set of integers ---------------------
def as_set(p):
    return set(range(p[0], p[1] + 1))


def join(lst, eps):
    out = []
    for b, e in lst:
        if out and b - out[-1][1] <= eps:
            out[-1] = (out[-1][0], max(out[-1][1], e))
        else:
            out.append((b, e))
    return out


def merge(a, b):
    out = []
    for p in sorted(a + b):
        if out and p[0] <= out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], p[1]))
        else:
            out.append(p)
    return out


def inter(p, q):
    return (max(p[0], q[0]), min(p[1], q[1]))


def explore(ctx, shard):
    import pickle

    import numpy as np
    from pyinterp.period import Period, PeriodList

    top = 6 if ctx.thorough else 5
    kind = shard['kind']

    def period(p, unit, origin=0):
        return Period(np.datetime64(p[0] + origin, unit),
                      np.datetime64(p[1] + origin, unit))

    def plist(lst, unit='s', origin=0):
        arr = np.array([[p[0] + origin for p in lst],
                        [p[1] + origin for p in lst]],
                       dtype='i8').reshape(2, len(lst)).view(f'M8[{unit}]')
        return PeriodList(arr)

    def content(pl, origin=0):
        a = pl.periods
        return [(int(b) - origin, int(e) - origin) for b, e in zip(
            a['begin'].astype('i8'), a['last'].astype('i8'))]

    if kind == 'pairs':
        unit = shard['unit']
        every = [(b, e) for b in range(top) for e in range(b - 1, top)]
        for origin in (0, -3, 10**6):
            for p in every:
                a = period(p, unit, origin)
                o = Period(np.datetime64(p[0] + origin, unit),
                           np.datetime64(p[1] + 1 + origin, unit), False)
                case = {'period': p, 'unit': unit, 'origin': origin}
                key = f'{unit}:{origin}:{p}'
                s = as_set(p)
                ctx.state(key)
                ctx.trace()
                ok = (a == o and not a != o and int(a.begin.astype('i8')) ==
                      p[0] + origin and int(a.last.astype('i8')) ==
                      p[1] + origin and a.end() == np.datetime64(
                          p[1] + 1 + origin, unit)
                      and a.duration() == np.timedelta64(
                          p[1] + 1 - p[0], unit)
                      and a.is_null() == (not s)
                      and len(a) == len(s)
                      and str(a) == f'[{a.begin}, {a.end()})')
                ctx.check(ok, key + ':properties', f'properties of {a!r}',
                          case)
                ctx.check(pickle.loads(pickle.dumps(a)) == a and eval(
                    repr(a), {'Period': Period, 'np': np, 'numpy': np}) == a,
                          key + ':pickle', 'pickle or repr', case)
                for t in range(-2, top + 2):
                    d = np.datetime64(t + origin, unit)
                    got = (a.contains(d), a.is_before(d), a.is_after(d))
                    exp = (t in s, bool(s) and p[1] < t, bool(s) and t < p[0])
                    ctx.check(got == exp, f'{key}:{t}',
                              lambda: f'contains/is_before/is_after({d}) of '
                              f'{a} = {got}', {**case, 'date': t})
                if not s:
                    ctx.outcome('null')
                    continue
                for q in every:
                    t = as_set(q)
                    if not t:
                        continue
                    b = period(q, unit, origin)
                    common = inter(p, q)
                    got = dict(
                        contains=a.contains(b), intersects=a.intersects(b),
                        adjacent=a.is_adjacent(b), eq=a == b, ne=a != b,
                        lt=a < b)
                    exp = dict(
                        contains=t <= s, intersects=bool(s & t),
                        adjacent=(p[1] + 1 == q[0] or q[1] + 1 == p[0]),
                        eq=p == q, ne=p != q, lt=p[0] < q[0])
                    i, m = a.intersection(b), a.merge(b)
                    bounds = lambda x: (int(x.begin.astype('i8')) - origin,
                                        int(x.last.astype('i8')) - origin)
                    c2 = {**case, 'other': q}
                    ctx.check(got == exp, f'{key}:{q}:predicates',
                              lambda: f'{a} {b}: {got} expected {exp}', c2)
                    ctx.check((bounds(i) == common) if s & t else i.is_null(),
                              f'{key}:{q}:intersection',
                              lambda: f'{a} and {b}: {i}', c2)
                    ctx.check((bounds(m) == (min(p[0], q[0]),
                                             max(p[1], q[1])))
                              if s & t else m.is_null(), f'{key}:{q}:merge',
                              lambda: f'{a} or {b}: {m}', c2)
                    ctx.outcome('overlap' if s & t else 'disjoint')
            ctx.sample({'unit': unit, 'period': every[3], 'origin': origin})
        return

    if kind == 'mixed':
        # other unit: converted with numpy, then the same unit
        unit = shard['unit']
        for other in CODES:
            for base in (0, 9999, -777):
                u0 = np.datetime64(base, 'h')
                ps = []
                for k in (unit, other):
                    g = []
                    o = int(u0.astype(f'M8[{k}]').astype('i8'))
                    w = {'D': 1, 'h': 12}.get(k, 40)
                    for b, e in ((0, 1), (0, 0), (1, 2), (-1, 0), (-1, 1),
                                 (2, 3)):
                        g.append(Period(np.datetime64(o + b * w, k),
                                        np.datetime64(o + e * w, k)))
                    ps.append(g)
                for a, b in itertools.product(*ps):
                    conv = Period(b.begin.astype(f'M8[{unit}]'),
                                  b.last.astype(f'M8[{unit}]'))
                    ctx.state(str(a), str(b), unit, other)
                    ctx.trace()
                    case = {'a': str(a), 'b': str(b), 'units': [unit, other]}
                    key = f'{unit}:{other}:{a}:{b}'
                    ctx.check(
                        (a.contains(b), a.intersects(b), a.is_adjacent(b),
                         a.contains(b.begin), a.is_before(b.last),
                         a.is_after(b.begin))
                        == (a.contains(conv), a.intersects(conv),
                            a.is_adjacent(conv), a.contains(conv.begin),
                            a.is_before(conv.last), a.is_after(conv.begin)),
                        key + ':predicates', 'predicates of mixed units', case)
                    ctx.check(
                        a.merge(b) == a.merge(conv)
                        and a.intersection(b) == a.intersection(conv)
                        and b.as_resolution(unit) == conv, key + ':sets',
                        'operations on mixed units', case)
                    # lists
                    pl = PeriodList(np.array([[a.begin], [a.last]]))
                    for op in ('within', 'intersection'):
                        r = getattr(pl, op)(b).periods
                        e = getattr(pl, op)(conv).periods
                        ctx.check(r.tolist() == e.tolist(),
                                  f'{key}:list:{op}',
                                  lambda: f'{op}({b}) of {pl!r}: {r} expected '
                                  f'{e}', case)
                    r = PeriodList(np.array([[a.begin], [a.last]])).merge(
                        PeriodList(np.array([[b.begin], [b.last]])))
                    e = PeriodList(np.array([[a.begin], [a.last]])).merge(
                        PeriodList(np.array([[conv.begin], [conv.last]])))
                    ctx.check(r.periods.tolist() == e.periods.tolist(),
                              f'{key}:list:merge',
                              lambda: f'merge: {r!r} expected {e!r}', case)
                    dates = np.array([b.begin, b.last])
                    cd = dates.astype(f'M8[{unit}]')
                    for op in ('cross_a_period', 'belong_to_a_period'):
                        ctx.check(
                            getattr(pl, op)(dates).tolist() ==
                            getattr(pl, op)(cd).tolist(), f'{key}:list:{op}',
                            op, case)
        return

    every = [(b, e) for b in range(top) for e in range(b, top)]
    if kind == 'lists':
        # predicates of all lists, sorted or not; first chooses the shard
        lists = [()] if shard['first'] == 0 else []
        for n in (1, 2, 3):
            for rest in itertools.product(every, repeat=n):
                if every.index(rest[0]) % 15 == shard['first']:
                    lists.append(rest)
        universe = list(range(-1, top + 1))
        subsets = [list(c) for r in range(len(universe) + 1)
                   for c in itertools.combinations(universe, r)]
        few = [[], universe, universe[::2], universe[1:-1], universe[3:],
               universe[-1:], universe[:1], universe[:4], [2, 2, 3]]
        arrays = {}
        for d in subsets + few:
            arrays[tuple(d)] = np.array(d, dtype='i8').view('M8[s]')
        for lst in lists:
            lst = list(lst)
            pl = plist(lst)
            case = {'periods': lst}
            key = f'{lst}'
            ctx.state(key)
            ctx.trace()
            is_sorted = all(a[1] < b[0] for a, b in zip(lst, lst[1:]))
            dur = pl.duration().astype('i8').tolist()
            ctx.check(
                pl.are_periods_sorted_and_disjointed() == is_sorted
                and len(pl) == len(lst) and content(pl) == lst,
                key + ':sorted', lambda: 'are_periods_sorted_and_disjointed '
                f'= {pl.are_periods_sorted_and_disjointed()}', case)
            ctx.check(dur == [e - b for b, e in lst], key + ':duration',
                      lambda: f'duration {dur}', case)
            for eps in (0, 1, 3):
                for t in universe:
                    got = pl.is_it_close(np.datetime64(t, 's'),
                                         np.timedelta64(eps, 's'))
                    exp = any(b - eps <= t <= e + eps for b, e in lst)
                    ctx.check(got == exp, f'{key}:close:{t}:{eps}',
                              f'is_it_close({t}, {eps}) = {got}',
                              {**case, 'date': t, 'epsilon': eps})
            keep = sorted(lst)
            got = content(plist(lst).sort())
            ctx.check(sorted(got) == keep and [p[0] for p in got] ==
                      [p[0] for p in keep], key + ':sort',
                      lambda: f'sort: {got}', case)
            begins = [p[0] for p in lst]
            if begins != sorted(begins):
                ctx.outcome('unsorted')
                continue
            ctx.outcome('sorted' if is_sorted else 'overlapping')
            for d in (subsets if len(lst) < 3 and (
                    ctx.thorough or is_sorted) else few):
                arr = arrays[tuple(d)]
                got = pl.belong_to_a_period(arr).tolist()
                exp = [any(b <= t <= e for b, e in lst) for t in d]
                ctx.check(got == exp, f'{key}:belong:{d}',
                          lambda: f'belong_to_a_period({d}) = {got}',
                          lambda: {**case, 'dates': d})
                got = pl.cross_a_period(arr).tolist()
                exp = [any(b <= d[-1] and e >= t for b, e in lst) for t in d]
                ctx.check(got == exp, f'{key}:cross:{d}',
                          lambda: f'cross_a_period({d}) = {got}, expected '
                          f'{exp}', lambda: {**case, 'dates': d})
        return

    # sequences of operations on sorted lists
    starts = [[]] + [[p] for p in every] + [
        [p, q] for p in every for q in every if p[0] <= q[0]]
    small = [(0, 1), (1, 3), (2, 2), (0, 4), (3, 4)]
    ops = [('sort', None), ('pickle', None)]
    ops += [('join', e) for e in (0, 1, 2)] + [('join!', 1), ('join-', None)]
    ops += [('within', p) for p in small]
    ops += [('intersection', p) for p in small]
    ops += [('filter', d) for d in (1, 2, 3)]
    ops += [('merge', []), ('merge', [(1, 2)]), ('merge', [(0, 0), (3, 4)]),
            ('merge', [(0, 4)]), ('merge', [(1, 1), (2, 3), (6, 7)])]
    depth = 3 if ctx.thorough else 2

    def apply(op, arg, pl, lst):
        """Returns the new list object and the new model."""
        if op == 'sort':
            return pl.sort(), sorted(lst, key=lambda p: p[0])
        if op == 'pickle':
            return pickle.loads(pickle.dumps(pl)), lst
        if op == 'join':
            return pl.join_adjacent_periods(np.timedelta64(arg, 's')), join(
                lst, arg)
        if op == 'join-':
            return pl.join_adjacent_periods(), join(lst, 0)
        if op == 'join!':
            r = pl.join_adjacent_periods(np.timedelta64(arg, 's'), True)
            return (r if r is pl else None), join(lst, arg)
        if op == 'within':
            return pl.within(period(arg, 's')), [
                p for p in lst if as_set(p) & as_set(arg)]
        if op == 'intersection':
            return pl.intersection(period(arg, 's')), [
                inter(p, arg) for p in lst if as_set(p) & as_set(arg)]
        if op == 'filter':
            return pl.filter(np.timedelta64(arg, 's')), [
                p for p in lst if p[1] + 1 - p[0] >= arg]
        return pl.merge(plist(arg)), merge(lst, arg)

    for n, start in enumerate(starts):
        if n % shard['of'] != shard['part']:
            continue
        todo = [()]
        while todo:
            hist = todo.pop()
            if hist:
                pl, lst = plist(start), list(start)
                for op, arg in hist[:-1]:
                    pl, lst = apply(op, arg, pl, lst)
                before = content(pl)
                op, arg = hist[-1]
                new, model = apply(op, arg, pl, lst)
                case = {'start': start, 'operations': hist}
                key = f'{start}:{hist}'
                got = content(new) if new is not None else None
                if not ctx.check(
                        got is not None and
                    (got == model or op == 'sort' and sorted(got) == sorted(
                        model)), key,
                        lambda: f'{hist} on {start}: {got} expected {model}',
                        case):
                    continue
                if op in ('join', 'within', 'intersection', 'filter',
                          'pickle', 'join-'):
                    ctx.check(content(pl) == before, key + ':aliased',
                              f'{op} modified the list it was called on', case)
                ctx.state(tuple(got), len(hist))
                ctx.outcome(op)
            ctx.trace()
            if len(hist) < depth:
                todo += [hist + (o, ) for o in ops]
        ctx.sample({'start': start, 'operations': len(ops), 'depth': depth})
