"""Independent numerical oracles: rotations, geodesy, transverse Mercator.

Pure-Python lists; nothing here is shared with the code under test."""
import math
from math import atan2, cos, hypot, pi, sin, sqrt

from .sut import Violation

# WGS 84 defining parameters
WA = 6378137.0
WF = 1 / 298.257223563
WB = WA * (1 - WF)
WE2 = WF * (2 - WF)


# ------------------------------------------------------------- rotations
def quat(axis, angle):
    h = angle / 2
    s = sin(h)
    return (cos(h), axis[0] * s, axis[1] * s, axis[2] * s)


def qmul(p, q):
    a, b, c, d = p
    e, f, g, h = q
    return (a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g,
            a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e)


def qmat(q):
    w, x, y, z = q
    return [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z),
             2 * (x * z + w * y)],
            [2 * (x * y + w * z), w * w - x * x + y * y - z * z,
             2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x),
             w * w - x * x - y * y + z * z]]


def euler(psi, theta, phi):
    """Body to world: yaw about z, then pitch about y, then roll about x."""
    return qmat(qmul(qmul(quat((0, 0, 1), psi), quat((0, 1, 0), theta)),
                     quat((1, 0, 0), phi)))


def mv(m, v):
    return [sum(m[i][j] * v[j] for j in range(3)) for i in range(3)]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)]
            for i in range(3)]


def tr(m):
    return [[m[j][i] for j in range(3)] for i in range(3)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0]]


def norm(v):
    return math.hypot(*v)


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


# --------------------------------------------------------------- geodesy
def ned_axes(lat, lon):
    """Rows north, east, down as Earth-centred unit vectors (radians)."""
    up = [cos(lat) * cos(lon), cos(lat) * sin(lon), sin(lat)]
    east = [-sin(lon), cos(lon), 0.0]
    return [cross(up, east), east, [-c for c in up]]


def geo2ecef(lat, lon, alt):
    """Parametric-latitude form; radians."""
    u = atan2(WB * sin(lat), WA * cos(lat))
    p = WA * cos(u) + alt * cos(lat)
    return [p * cos(lon), p * sin(lon), WB * sin(u) + alt * sin(lat)]


def ecef2geo(x, y, z):
    """Newton's method on the parametric latitude; radians."""
    p = hypot(x, y)
    u = atan2(WA * z, WB * p)
    e = WA * WA - WB * WB
    for _ in range(30):
        # stationary distance: a p sin u - b z cos u = e sin u cos u
        f = WA * p * sin(u) - WB * z * cos(u) - e * sin(u) * cos(u)
        d = WA * p * cos(u) + WB * z * sin(u) - e * cos(2 * u)
        step = f / d
        u -= step
        if abs(step) < 1e-16:
            break
    lat = atan2(WA * sin(u), WB * cos(u))
    alt = (p - WA * cos(u)) * cos(lat) + (z - WB * sin(u)) * sin(lat)
    return lat, atan2(y, x), alt


# ------------------------------------------------- transverse Mercator
_n = WF / (2 - WF)
_A = WA / (1 + _n) * (1 + _n ** 2 / 4 + _n ** 4 / 64 + _n ** 6 / 256)
_AL = [
    _n / 2 - 2 * _n ** 2 / 3 + 5 * _n ** 3 / 16 + 41 * _n ** 4 / 180
    - 127 * _n ** 5 / 288 + 7891 * _n ** 6 / 37800,
    13 * _n ** 2 / 48 - 3 * _n ** 3 / 5 + 557 * _n ** 4 / 1440
    + 281 * _n ** 5 / 630 - 1983433 * _n ** 6 / 1935360,
    61 * _n ** 3 / 240 - 103 * _n ** 4 / 140 + 15061 * _n ** 5 / 26880
    + 167603 * _n ** 6 / 181440,
    49561 * _n ** 4 / 161280 - 179 * _n ** 5 / 168
    + 6601661 * _n ** 6 / 7257600,
    34729 * _n ** 5 / 80640 - 3418889 * _n ** 6 / 1995840,
    212378941 * _n ** 6 / 319334400]


def tmerc(lat, dlon):
    """Krueger series: (easting, northing, scale) with k0 = 0.9996."""
    e = sqrt(WE2)
    t = math.sinh(math.atanh(sin(lat)) - e * math.atanh(e * sin(lat)))
    xi = atan2(t, cos(dlon))
    eta = math.asinh(sin(dlon) / hypot(t, cos(dlon)))
    E, N = eta, xi
    p, q = 1.0, 0.0
    for j, a in enumerate(_AL, 1):
        E += a * cos(2 * j * xi) * math.sinh(2 * j * eta)
        N += a * sin(2 * j * xi) * math.cosh(2 * j * eta)
        p += 2 * j * a * cos(2 * j * xi) * math.cosh(2 * j * eta)
        q += 2 * j * a * sin(2 * j * xi) * math.sinh(2 * j * eta)
    c = (1 - _n) / (1 + _n) * math.tan(lat)
    k = 0.9996 * _A / WA * sqrt(
        (1 + c * c) * (p * p + q * q) / (t * t + cos(dlon) ** 2))
    return 500000 + 0.9996 * _A * E, 0.9996 * _A * N, k


def tmerc_series(lat, dlon):
    """The truncated series of Snyder (1987), formulas 8-9 to 8-11: what an
    implementation of the documented algorithm is expected to attain."""
    e2 = WE2
    ep = e2 / (1 - e2)
    s, c, t = sin(lat), cos(lat), math.tan(lat) ** 2
    n = WA / sqrt(1 - e2 * s * s)
    C, A = ep * c * c, dlon * c
    m = WA * ((1 - e2 / 4 - 3 * e2 ** 2 / 64 - 5 * e2 ** 3 / 256) * lat
              - (3 * e2 / 8 + 3 * e2 ** 2 / 32 + 45 * e2 ** 3 / 1024)
              * sin(2 * lat)
              + (15 * e2 ** 2 / 256 + 45 * e2 ** 3 / 1024) * sin(4 * lat)
              - 35 * e2 ** 3 / 3072 * sin(6 * lat))
    x = n * (A + (1 - t + C) * A ** 3 / 6
             + (5 - 18 * t + t * t + 72 * C - 58 * ep) * A ** 5 / 120)
    y = m + n * math.tan(lat) * (
        A ** 2 / 2 + (5 - t + 9 * C + 4 * C * C) * A ** 4 / 24
        + (61 - 58 * t + t * t + 600 * C - 330 * ep) * A ** 6 / 720)
    k = (1 + (1 + C) * A ** 2 / 2
         + (5 - 4 * t + 42 * C + 13 * C * C - 28 * ep) * A ** 4 / 24
         + (61 - 148 * t + 16 * t * t) * A ** 6 / 720)
    return 500000 + .9996 * x, .9996 * y, .9996 * k


# ------------------------------------------------------------ comparing
def close(what, got, want, tol):
    """Component-wise comparison of numbers or (nested) sequences."""
    try:
        n = len(want)
    except TypeError:
        try:
            g = float(got)
        except (TypeError, ValueError):
            raise Violation('type', '%s is %r' % (what, got))
        if not abs(g - want) <= tol:
            raise Violation('value', '%s is %r, expected %r within %.3g' % (
                what, g, want, tol))
        return
    try:
        m = len(got)
    except TypeError:
        m = None
    if m != n:
        raise Violation('type', '%s is %r, expected %d components' % (
            what, got, n))
    for i in range(n):
        close('%s[%d]' % (what, i), got[i], want[i], tol)


def turn(a, b):
    """Signed difference of two angles in degrees."""
    return (a - b + 180) % 360 - 180
