"""Reference model of grids: for every coordinate of an axis, the cells that
contain it and the position inside of the cell, on exact rationals."""
from fractions import Fraction

from checks.axis_model import Model

F = Fraction

# name -> (values, is_circle asked for, circle expected)
X_AXES = {
    'regular': ([0, 1, 2, 3], False),
    'descending': ([3, 2, 1, 0], False),
    'irregular': ([-2, -1, 1, F(3, 2)], False),
    'irregular-descending': ([4, 3, 1, 0], False),
    'pair': ([1, 3], False),
    'pair-descending': ([3, 1], False),
    'circle': ([0, 90, 180, 270], True),
    'circle-origin': ([-180, -90, 0, 90], True),
    'circle-origin2': ([355, 445, 535, 625], True),
    'circle-descending': ([270, 180, 90, 0], True),
    'circle-descending2': ([90, 0, -90, -180], True),
    'circle3': ([10, 130, 250], True),
    'circle3-descending': ([250, 130, 10], True),
    'circle5': ([0, 72, 144, 216, 288], True),
    'circle5-descending': ([288, 216, 144, 72, 0], True),
    'circle2': ([0, 180], True),
    'sector': ([10, 20, 30, 40], True),
    'sector-descending': ([40, 30, 20, 10], True),
    'sector-seam': ([350, 360, 370, 380], True),
}
Y_AXES = {
    'regular': ([-1, 0, 1], False),
    'descending': ([1, 0, -1], False),
    'irregular': ([-2, 0, 1], False),
    'irregular-descending': ([5, 1, 0], False),
    'pair': ([0, 2], False),
}


def model(desc):
    values, angle = desc
    step = [b - a for a, b in zip(values, values[1:])]
    n = len(values)
    circle = angle and len(set(step)) == 1 and abs(step[0]) * n == 360
    return Model(values, angle, circle)


def cells(m, c):
    """All (i, j, t): the coordinate is at v[i] + t * (v[j] - v[i]), 0<=t<=1;
    empty when the coordinate is outside."""
    v = m.values
    n = len(v)
    c = m.norm(F(c))
    out = []
    for i in range(n - 1):
        if min(v[i], v[i + 1]) <= c <= max(v[i], v[i + 1]):
            out.append((i, i + 1, (c - v[i]) / (v[i + 1] - v[i])))
    if m.circle and n > 1:
        last, first = (n - 1, 0) if v[0] < v[-1] else (0, n - 1)
        width = v[first] + 360 - v[last]
        for d in (c, c + 360):
            if v[last] <= d <= v[first] + 360:
                out.append((last, first, (d - v[last]) / width))
    return out


def faint(m):
    """Points next to the ends and to a node of an axis."""
    v = sorted(m.values)
    return [F(float(c)) for c in
            (v[0] + F(1, 2**12), v[1] - F(1, 2**12), v[-1] - F(1, 2**20),
             v[0] - F(1, 2**20), v[-1] + F(1, 2**20))
            ] if len(v) > 1 else []


def queries(m, sub, outside=True):
    """Sub-cell lattice of an axis: every node, `sub` - 1 points between two
    nodes, the seam, and points outside."""
    v = sorted(m.values)
    out = []
    ends = v + ([v[0] + 360] if m.circle else [])
    for a, b in zip(ends, ends[1:]):
        out += [a + (b - a) * F(k, sub) for k in range(sub)]
    if not m.circle:
        out.append(v[-1])
        if outside:
            w = F(1, 64)
            out += [v[0] - w, v[-1] + w]
            if outside == 'far':
                out += [v[0] - 7, v[-1] + 7]
    out = list(dict.fromkeys(out))
    # representable in float64, so that the code sees the same number
    return [F(float(c)) for c in out]
