"""Independent geodesy: ellipsoid, geodesics (Vincenty) and the sphere."""
import math

WGS84 = (6378137.0, 1 / 298.257223563)


def ecef(lon, lat, alt, a, f):
    e2 = f * (2 - f)
    lon = math.remainder(lon, 360)
    sl, cl = math.sin(math.radians(lat)), math.cos(math.radians(lat))
    so, co = math.sin(math.radians(lon)), math.cos(math.radians(lon))
    if abs(lat) == 90:
        cl = 0.0
    if abs(lon) in (0, 180):
        so = 0.0
    if abs(lon) == 90:
        co = 0.0
    n = a / math.sqrt(1 - e2 * sl * sl)
    return ((n + alt) * cl * co, (n + alt) * cl * so,
            (n * (1 - e2) + alt) * sl)


def central_angle(p, q):
    """Angle at the centre of a sphere, in radians."""
    u = ecef(p[0], p[1], 0, 1., 0.)
    v = ecef(q[0], q[1], 0, 1., 0.)
    c = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
         u[0] * v[1] - u[1] * v[0]]
    return math.atan2(math.sqrt(sum(x * x for x in c)),
                      sum(x * y for x, y in zip(u, v)))


def inverse(p, q, a, f):
    """Distance and azimuth in degrees, (None, None) if it does not converge
    (nearly antipodal points)."""
    b = a * (1 - f)
    lam0 = math.radians(math.remainder(q[0] - p[0], 360))
    u1 = math.atan((1 - f) * math.tan(math.radians(p[1])))
    u2 = math.atan((1 - f) * math.tan(math.radians(q[1])))
    s1, c1, s2, c2 = math.sin(u1), math.cos(u1), math.sin(u2), math.cos(u2)
    lam = lam0
    for _ in range(200):
        sl, cl = math.sin(lam), math.cos(lam)
        ss = math.hypot(c2 * sl, c1 * s2 - s1 * c2 * cl)
        if ss == 0:
            return 0.0, None
        cs = s1 * s2 + c1 * c2 * cl
        sig = math.atan2(ss, cs)
        sa = c1 * c2 * sl / ss
        ca2 = 1 - sa * sa
        c2m = cs - 2 * s1 * s2 / ca2 if ca2 > 1e-15 else 0.0
        c = f / 16 * ca2 * (4 + f * (4 - 3 * ca2))
        new = lam0 + (1 - c) * f * sa * (
            sig + c * ss * (c2m + c * cs * (2 * c2m**2 - 1)))
        if abs(new) > math.pi:
            return None, None
        if abs(new - lam) < 1e-15:
            break
        lam = new
    else:
        return None, None
    uu = ca2 * (a * a - b * b) / (b * b)
    aa = 1 + uu / 16384 * (4096 + uu * (-768 + uu * (320 - 175 * uu)))
    bb = uu / 1024 * (256 + uu * (-128 + uu * (74 - 47 * uu)))
    ds = bb * ss * (c2m + bb / 4 * (cs * (2 * c2m**2 - 1) - bb / 6 * c2m * (
        4 * ss**2 - 3) * (4 * c2m**2 - 3)))
    azimuth = math.degrees(math.atan2(c2 * math.sin(lam),
                                      c1 * s2 - s1 * c2 * math.cos(lam)))
    return b * aa * (sig - ds), azimuth
