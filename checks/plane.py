"""Exact plane geometry on small integer or rational coordinates."""
import math


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def edges(ring):
    return list(zip(ring, ring[1:] + ring[:1]))


def inside_ring(p, ring):
    """p is not on the border."""
    odd = False
    for a, b in edges(ring):
        if (a[1] > p[1]) != (b[1] > p[1]):
            t = (p[1] - a[1]) / (b[1] - a[1])
            if p[0] < a[0] + t * (b[0] - a[0]):
                odd = not odd
    return odd


def point_segment(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    n = dx * dx + dy * dy
    t = 0 if n == 0 else ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / n
    t = min(1, max(0, t))
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def segments_cross(a, b, c, d):
    """Proper crossing, in the interior of both."""
    return (cross(a, b, c) * cross(a, b, d) < 0 and
            cross(c, d, a) * cross(c, d, b) < 0)


class Shape:
    """Polygon with holes: rings without the closing point."""

    def __init__(self, outer, holes=()):
        self.outer = list(outer)
        self.holes = [list(h) for h in holes]
        self.rings = [self.outer, *self.holes]
        self.edges = [e for r in self.rings for e in edges(r)]
        self.vertices = [v for r in self.rings for v in r]

    def moved(self, dx, dy):
        return Shape([(x + dx, y + dy) for x, y in self.outer],
                     [[(x + dx, y + dy) for x, y in h] for h in self.holes])

    def border(self, p):
        return min(point_segment(p, *e) for e in self.edges)

    def inside(self, p):
        return inside_ring(p, self.outer) and not any(
            inside_ring(p, h) for h in self.holes)

    def area(self):
        def ring(r):
            return abs(sum(a[0] * b[1] - a[1] * b[0]
                           for a, b in edges(r))) / 2
        return ring(self.outer) - sum(map(ring, self.holes))


def relation(a, b, margin):
    """How two shapes meet: 'cross' (the interiors overlap), 'apart', 'meet'
    (they share vertices and whole edges only), or None if it cannot be told
    within the margin."""
    shared = set(a.vertices) & set(b.vertices)
    same = {frozenset(e) for e in a.edges} & {frozenset(e) for e in b.edges}
    crossing = any(segments_cross(*e, *f) for e in a.edges for f in b.edges)
    if crossing:
        return 'cross'
    for p, q in ((a, b), (b, a)):
        for v in p.vertices:
            d = q.border(v)
            if d > margin and q.inside(v):
                return 'cross'
    near = False
    for p, q in ((a, b), (b, a)):
        for v in p.vertices:
            for e in q.edges:
                if v not in e and point_segment(v, *e) <= margin:
                    near = True
    if near:
        return None
    if not shared:
        # no vertex is near the other shape
        return 'apart'
    del same
    # vertices are shared: compare the interiors next to the shared parts
    overlap = False
    for p, q in ((a, b), (b, a)):
        for s, t in p.edges:
            m = ((s[0] + t[0]) / 2, (s[1] + t[1]) / 2)
            n = (-(t[1] - s[1]), t[0] - s[0])
            k = margin * 1.5 / math.hypot(*n)
            for sign in (1, -1):
                w = (m[0] + sign * k * n[0], m[1] + sign * k * n[1])
                if p.inside(w) and q.inside(w):
                    overlap = True
    return 'cross' if overlap else 'meet'
