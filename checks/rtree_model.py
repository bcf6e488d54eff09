"""Independent model of the points an RTree holds."""
import math

A, FLAT = 6378137.0, 1 / 298.257223563


def ecef(lon, lat, alt, a=A, f=FLAT):
    e2 = f * (2 - f)
    # exact values at the multiples of 90 degrees
    lon %= 360
    sl, cl = math.sin(math.radians(lat)), math.cos(math.radians(lat))
    so, co = math.sin(math.radians(lon)), math.cos(math.radians(lon))
    if abs(lat) == 90:
        cl = 0.0
    if lon % 180 == 0:
        so = 0.0
    if lon % 180 == 90:
        co = 0.0
    n = a / math.sqrt(1 - e2 * sl * sl)
    return ((n + alt) * cl * co, (n + alt) * cl * so,
            (n * (1 - e2) + alt) * sl)


def dist(p, q):
    return math.dist(p, q)


def cover(points, q, eps):
    """The box of the points covers q: True, False, or None when q is too
    close to its border to tell."""
    if not points:
        return False
    sure = True
    for axis in range(3):
        lo = min(p[axis] for p in points)
        hi = max(p[axis] for p in points)
        if q[axis] < lo - eps or q[axis] > hi + eps:
            return False
        if q[axis] < lo + eps or q[axis] > hi - eps:
            sure = None if eps else sure
    return sure


def nearest_sets(points, q, k, eps):
    """points: [(position, value)].  Returns (certain, possible, distances):
    the points that are for sure among the k nearest, those that may complete
    them, and the sorted distances of the k nearest."""
    d = sorted((dist(p, q), i) for i, (p, _) in enumerate(points))
    best = d[:k]
    if not best:
        return [], [], []
    last = best[-1][0]
    certain = [i for x, i in d if x < last - eps]
    possible = [i for x, i in d if abs(x - last) <= eps]
    if len(certain) + len(possible) <= k:
        certain, possible = certain + possible, []
    return certain, possible, [x for x, _ in best]
