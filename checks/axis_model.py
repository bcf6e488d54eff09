"""Reference model of a coordinate axis: a plain list of exact numbers.

Everything the enumeration uses is a dyadic rational, so that float64 holds it
exactly and the model (Fractions and integers) and the code can be compared
without a tolerance.
"""
from fractions import Fraction


class Model:
    """values: list of Fraction, strictly monotonic; angle: coordinates are
    taken modulo 360; circle: the axis closes on itself."""

    def __init__(self, values, angle=False, circle=False):
        self.values = [Fraction(v) for v in values]
        self.angle = angle
        self.circle = circle
        self.lo = min(self.values)
        self.hi = max(self.values)

    def flip(self):
        return Model(self.values[::-1], self.angle, self.circle)

    def norm(self, c):
        c = Fraction(c)
        if self.angle:
            c = self.lo + (c - self.lo) % 360
        return c

    def distance(self, c, i):
        d = abs(self.norm(c) - self.values[i])
        return min(d, 360 - d) if self.circle else d

    def nearest(self, c):
        """Set of the closest elements."""
        d = [self.distance(c, i) for i in range(len(self.values))]
        best = min(d)
        return {i for i, x in enumerate(d) if x == best}

    def inside(self, c):
        return self.circle or self.lo <= self.norm(c) <= self.hi

    def index_allowed(self, c, bounded, regular=True):
        """Answers find_index may give."""
        near = self.nearest(c)
        if self.inside(c):
            return near
        if bounded:
            # beyond a sector of the circle, both ends are a closest element
            return {0, len(self.values) - 1} if self.angle else near
        n = self.norm(c)
        # out of the range of the axis: -1, but an element of a regular axis
        # owns the half-cell around it
        out = {-1}
        step = abs(self.values[1] - self.values[0]) if len(
            self.values) > 1 else Fraction(0)
        if regular and (self.lo - step / 2 <= n <= self.hi + step / 2):
            out |= near
        return out

    def frames(self, c):
        """Pairs (i, j) find_indexes may give; {(-1, -1)} when out of range."""
        v = self.values
        n = len(v)
        c = self.norm(c)
        out = set()
        if n > 1:
            for i in range(n - 1):
                if min(v[i], v[i + 1]) <= c <= max(v[i], v[i + 1]):
                    out |= {(i, i + 1), (i + 1, i)}
        if self.circle and not out:
            out = {(n - 1, 0), (0, n - 1)}
        if not out:
            out = {(-1, -1)}
        return out
