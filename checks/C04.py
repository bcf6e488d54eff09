"""C04: calendar fields."""
import datetime as dt

UNITS = ['dateutils']
RULE = ('every day of the proleptic Gregorian calendar that the unit can '
        'represent (years 1..9999 for s, ms and us, 1678..2262 for ns), at a '
        'time of day that depends on the day (quick) or at 12 of them '
        '(thorough); every second of a set of days; every boundary of the '
        'fraction of a second; compared with numpy and the datetime module')
BOUNDS = {'quick': 'all days, 1 time of day each; 6 full days per second',
          'thorough': 'all days, 12 times of day each; 40 full days'}
ASSUMPTIONS = ['the datetime module and numpy are right']
SCALE = {'s': 1, 'ms': 10**3, 'us': 10**6, 'ns': 10**9, 'ps': 10**12,
         'fs': 10**15, 'as': 10**18}
TIMES = [0, 1, 59, 60, 3599, 3600, 43199, 43200, 82801, 86340, 86399, 36061]
EPOCH = dt.date(1970, 1, 1).toordinal()


def shards(tier):
    out = []
    last = dt.date(9999, 12, 31).toordinal()
    step = last // 16 + 1
    for unit in ('s', 'us', 'ms', 'ns'):
        if unit == 'ns':
            lo = dt.date(1677, 9, 23).toordinal()
            hi = dt.date(2262, 4, 10).toordinal()
            out.append({'unit': unit, 'lo': lo, 'hi': hi + 1})
            continue
        for lo in range(1, last + 1, step):
            if tier == 'quick' and unit == 'ms':
                # one century around the epoch for this one
                continue
            out.append({'unit': unit, 'lo': lo,
                        'hi': min(lo + step, last + 1)})
    if tier == 'quick':
        out.append({'unit': 'ms', 'lo': dt.date(1895, 1, 1).toordinal(),
                    'hi': dt.date(2105, 1, 1).toordinal()})
    out.append({'seconds': True})
    out.append({'strings': True})
    return out


def verify(ctx, np, du, days, secs, fracs, unit, extra=True):
    """days: days since epoch; secs: seconds in the day; fracs: in unit"""
    from itertools import starmap
    scale = SCALE[unit]
    values = (days * 86400 + secs) * scale + fracs
    arr = values.view(f'M8[{unit}]')
    n = len(values)
    ctx.step(6 * n)
    d = days.astype('M8[D]')
    year = d.astype('M8[Y]').astype('i8') + 1970
    jan1 = d.astype('M8[Y]').astype('M8[D]').astype('i8')
    month = d.astype('M8[M]').astype('i8') % 12 + 1
    day = days - d.astype('M8[M]').astype('M8[D]').astype('i8') + 1
    got = du.date(arr)
    bad = (got['year'] != year) | (got['month'] != month) | (got['day'] != day)

    def report(name, mask, shown):
        if mask.any():
            i = int(np.argmax(mask))
            ctx.violation(f'{name}:{unit}:{values[i]}',
                          f'{name}({arr[i]}) = {shown(i)}',
                          {'unit': unit, 'value': int(values[i])})

    report('date', bad, lambda i: got[i])
    t = du.time(arr)
    bad = ((t['hour'] != secs // 3600) | (t['minute'] != secs // 60 % 60)
           | (t['second'] != secs % 60))
    report('time', bad, lambda i: t[i])
    w = du.weekday(arr)
    report('weekday', w != (days + 4) % 7, lambda i: w[i])
    s = du.timedelta_since_january(arr)
    expected = (values - jan1 * 86400 * scale)
    bad = s.astype('i8') != expected
    if s.dtype != np.dtype(f'm8[{unit}]'):
        bad[:] = True
    report('timedelta_since_january', bad, lambda i: s[i])
    # ISO calendar: the year of the Thursday of the week, and its rank
    dow = (days + 3) % 7  # Monday is 0
    thursday = days - dow + 3
    ty = thursday.astype('M8[D]').astype('M8[Y]')
    tj = ty.astype('M8[D]').astype('i8')
    iso = du.isocalendar(arr)
    bad = ((iso['year'] != ty.astype('i8') + 1970)
           | (iso['week'] != (thursday - tj) // 7 + 1)
           | (iso['weekday'] != dow + 1))
    report('isocalendar', bad, lambda i: iso[i])
    if extra:
        o = du.datetime(arr)
        us = (fracs * 10**6) // scale if scale <= 10**6 else fracs // (
            scale // 10**6)
        for i in range(n):
            sec = int(secs[i])
            e = dt.datetime.combine(
                dt.date.fromordinal(int(days[i]) + EPOCH),
                dt.time(sec // 3600, sec // 60 % 60, sec % 60, int(us[i])))
            if o[i] != e:
                ctx.violation(f'datetime:{unit}:{values[i]}',
                              f'datetime({arr[i]}) = {o[i]}',
                              {'unit': unit, 'value': int(values[i])})
                break
            ic = e.isocalendar()
            if tuple(iso[i]) != tuple(ic):
                ctx.violation(f'isocalendar:{unit}:{values[i]}',
                              f'isocalendar({arr[i]}) = {iso[i]}',
                              {'unit': unit, 'value': int(values[i])})
                break
    ctx.trace(n)


def explore(ctx, shard):
    import numpy as np
    from pyinterp.core import dateutils as du

    if 'unit' in shard:
        unit = shard['unit']
        scale = SCALE[unit]
        ords = np.arange(shard['lo'], shard['hi'], dtype='i8')
        days = ords - EPOCH
        for days in np.array_split(days, max(1, len(days) // 20000)):
            for k in range(len(TIMES) if ctx.thorough else 1):
                idx = (days + k) % len(TIMES)
                secs = np.array(TIMES, dtype='i8')[idx]
                fr = np.array([0, 1, scale // 2, scale - 1, scale // 1000],
                              dtype='i8')[(days + k) % 5] % scale
                verify(ctx, np, du, days, secs, fr, unit)
            for x in days.tolist():
                ctx._states.add((unit, x))
        ctx.sample({'unit': unit, 'first day': shard['lo'],
                    'last day': shard['hi'] - 1})
        return
    if 'seconds' in shard:
        base = [0, -1, 18321, -25508, -719162, 2932896, 58, -141428, 11016]
        more = [-365 * k - k for k in range(1, 32)] if ctx.thorough else []
        for day in base[:6 if not ctx.thorough else 9] + more:
            for unit in ('s', 'us'):
                secs = np.arange(86400, dtype='i8')
                fr = (secs % 3) * (SCALE[unit] // 2) % SCALE[unit]
                verify(ctx, np, du, np.full(86400, day, dtype='i8'), secs, fr,
                       unit, extra=(unit == 's'))
                ctx.state(unit, day)
        # fractions, for every unit, around the epoch
        for unit, scale in SCALE.items():
            fr = sorted({f % scale for p in range(0, 19) for d in (-1, 0, 1)
                         for f in (10**p + d, -10**p + d, 0)})
            for day, sec in ((0, 0), (0, 1), (-1, 86399), (-1, 86398),
                             (0, 8), (-1, 86393)):
                verify(ctx, np, du, np.full(len(fr), day, dtype='i8'),
                       np.full(len(fr), sec, dtype='i8'),
                       np.array(fr, dtype='i8'), unit)
                ctx.state('fraction', unit, day, sec)
        # arrays give the same answer element by element, in any layout
        arr = np.arange(-5 * 86400, 5 * 86400, 40001, dtype='i8').view('M8[s]')
        for f in (du.date, du.time, du.weekday, du.isocalendar, du.datetime,
                  du.timedelta_since_january):
            full = f(arr).tolist()
            for sl in (slice(None, None, 2), slice(None, None, -1),
                       slice(3, None, 3), slice(4, 5), slice(0, 0)):
                ctx.check(f(arr[sl]).tolist() == full[sl],
                          f'{f.__name__}:{sl}', 'differs on a slice',
                          {'function': f.__name__, 'slice': str(sl)})
            for bad in (np.arange(3), arr.astype('M8[D]'),
                        arr.reshape(1, -1), arr - arr[0],
                        np.arange(3.0)):
                try:
                    f(bad)
                    ok = False
                except (ValueError, RuntimeError, TypeError, IndexError):
                    ok = True
                ctx.check(ok, f'{f.__name__}:{bad.dtype}:{bad.shape}',
                          f'{f.__name__} accepts {bad.dtype} {bad.shape}', {})
        return
    # text form of any unit
    for unit in ('Y', 'M', 'W', 'D', 'h', 'm', *SCALE):
        mult = {'Y': 1, 'M': 7, 'W': 31, 'D': 211, 'h': 5003, 'm': 300007,
                's': 18000041, 'ms': 18000041007, 'us': 18000041007003,
                'ns': 2**52 + 12345, 'ps': 2**52 + 12345,
                'fs': 2**52 + 12345, 'as': 2**52 + 12345}[unit]
        ks = range(-900, 2000)
        values = np.array([k * mult for k in ks] +
                          [k for k in range(-100, 100)], dtype='i8')
        if unit == 'Y':
            values = values[values < 7000]
            values = values[values > -960]
        arr = values.view(f'M8[{unit}]')
        exp = np.datetime_as_string(arr)
        ctx.step(len(values))
        ctx.trace(len(values))
        for v, e in zip(values.tolist(), exp.tolist()):
            ctx._states.add((unit, v))
            got = du.datetime64_to_str(v, f'datetime64[{unit}]')
            if e[0] == '-' or e[0] == '0':
                continue
            if got != e:
                ctx.violation(f'str:{unit}:{v}', f'{got!r} expected {e!r}',
                              {'unit': unit, 'value': v})
                break
