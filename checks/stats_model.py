"""Statistics of weighted samples, from their definition, in rationals."""
import functools
import math
from fractions import Fraction as F

NAN = float('nan')


@functools.lru_cache(maxsize=1 << 16)
def reference(pairs):
    """pairs: tuple of defined (value, weight); mean and moments are absent
    when the weights are all null (not claimed)."""
    n = len(pairs)
    if not n:
        return {'count': 0, 'sum_of_weights': 0.0, 'sum': 0.0, 'min': NAN,
                'max': NAN, 'mean': NAN, 'variance': NAN, 'skewness': NAN,
                'kurtosis': NAN, 'variance1': NAN}
    p = [(F(v), F(w)) for v, w in pairs]
    w = sum(x[1] for x in p)
    out = {'count': n, 'sum_of_weights': float(w),
           'sum': float(sum(a * b for a, b in p)),
           'min': float(min(a * b for a, b in p)),
           'max': float(max(a * b for a, b in p))}
    if not w:
        return out
    mean = sum(a * b for a, b in p) / w
    m2, m3, m4 = (sum(b * (a - mean)**k for a, b in p) for k in (2, 3, 4))
    out['mean'] = float(mean)
    out['variance'] = float(m2 / w)
    out['variance1'] = float(m2 / (w - 1)) if w > 1 else NAN
    if m2:
        out['skewness'] = math.sqrt(w) * float(m3) / float(m2)**1.5
        out['kurtosis'] = float(w * m4 / (m2 * m2)) - 3
    # of constant values: undefined in theory, rounding decides in practice
    return out


def close(a, b, tol):
    if math.isnan(b):
        return math.isnan(a)
    return abs(a - b) <= tol * max(1.0, abs(b))
