"""C32  local tangent-plane coordinates."""
import math

import numpy

from vlib import history, num, places, sut
from vlib.sut import Violation

from opendis.RangeCoordinates import GPS

ID = 'C32'
RULE = ('one case = one origin and one or two targets around it, or a '
        'history of neighbouring ones; '
        'non-trivial: a target off the origin')
ASSUMPTIONS = ['compared within 1e-6 m plus 1e-9 of the distance',
               'about an origin exactly on the polar axis, where north has no '
               'direction, the turn about the axis is left open']


def cases(tier, rng_for, shard, nshards):
    r = rng_for('c32', shard)
    i = 0
    for la in (0.0, 36.6, -45.0, 89.99, -89.99):
        for lo in (0.0, 180.0, -121.9, 90.0):
            for ned in ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0],
                        [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0],
                        [0.0, 0.0, 0.0], [3.0, 4.0, -12.0],
                        [-3.0, 4.0, 12.0], [-3.0, -4.0, -12.0],
                        [3.0, -4.0, 12.0], [1e6, -2e6, 3e5]):
                i += 1
                if i % nshards == shard:
                    yield 'grid', dict(origin=[la, lo, 100.0], a=ned,
                                       b=[5.0, 6.0, 7.0], kind='tuple')
    for z in (6356752.3142, 6356852.3142, 6.4e6, 6.35e6, 2e7):
        for sign in (1, -1):
            for x, y in ((0.0, 0.0), (-0.0, 0.0), (0.0, -0.0), (0, 0)):
                for a, b in (([1.0, 2.0, 3.0], [-3.0, 1.0, 0.5]),
                             ([1e6, 0.0, 0.0], [0.0, 1e6, 0.0]),
                             ([0.0, 0.0, 7.0], [-9.0, 40.0, -1e5])):
                    i += 1
                    if i % nshards == shard:
                        yield 'axis', dict(axis=[x, y, sign * z], a=a, b=b,
                                           kind='tuple')
    for _ in range(12000 if tier == 'quick' else 400000):
        o = [places.lat(r), places.lon(r), places.alt(r)]
        m = 10 ** r.uniform(-2, 7.6)

        def v():
            k = r.random()
            if k < .15:
                return [float(r.randint(-9, 9)) for _ in range(3)]
            if k < .25:
                t = [0.0, 0.0, 0.0]
                t[r.randrange(3)] = r.choice([1, -1]) * m
                return t
            return history.relate(r, [r.uniform(-m, m) for _ in range(3)])
        c = dict(origin=o, a=v(), b=v(), kind=r.choice(
            ['tuple', 'list', 'array']))
        yield 'random', c
        if r.random() < .2:
            yield 'earth-centred', dict(c, origin=[0.0, 0.0, 0.0],
                                        ecef=places.ecef(r))
        if r.random() < .03:
            yield 'axis', dict(axis=[0.0, 0.0, r.choice([1, -1])
                                     * (6356752.3142 + places.alt(r))],
                               a=v(), b=v(), kind=c['kind'])
        if r.random() < .2:
            yield 'history', history.sequence(r, c, ['origin', 'a', 'b'], fix)


def fix(c):
    places.fix(c['origin'], 90.0)


def conv(v, kind):
    return {'tuple': tuple, 'list': list, 'array': numpy.array}[kind](v)


def check(case):
    g = GPS()
    for c in case.get('seq', [case]):
        one(g, c)


def axis(g, case):
    """An origin on the polar axis: a rigid map with the right down axis."""
    kind, o = case['kind'], case['axis']
    if o[0] or o[1] or not 6.3e6 <= abs(o[2]) <= 5e7:
        raise AssertionError
    up = [0.0, 0.0, math.copysign(1.0, o[2])]
    offs, neds = [], []
    for off in (case['a'], case['b']):
        d = num.norm(off)
        e = [x + y for x, y in zip(o, off)]
        off = num.sub(e, o)
        got = vec('ecef2ned', g.ecef2ned, conv(e, kind), conv(o, kind))
        num.close('distance', num.norm(got), num.norm(off), 1e-6 + 1e-12 * d)
        num.close('down', got[2], -num.dot(off, up), 1e-6 + 1e-12 * d)
        num.close('ned2ecef(ecef2ned)', vec('ned2ecef', g.ned2ecef,
                                            conv(got, kind), conv(o, kind)),
                  e, 1e-6 + 1e-12 * d)
        pae('ecef2pae', got, vec('ecef2pae', g.ecef2pae, conv(e, kind),
                                 conv(o, kind)), 1e-9)
        offs.append(off)
        neds.append(got)
    m = num.norm(case['a']) + num.norm(case['b'])
    num.close('distance between targets', num.norm(num.sub(*neds)),
              num.norm(num.sub(*offs)), 1e-6 + 1e-12 * m)
    num.close('handedness', num.cross(*neds)[2],
              -num.dot(num.cross(*offs), up), (1e-6 + 1e-12 * m) * (1 + m))


def one(g, case):
    if 'axis' in case:
        return axis(g, case)
    kind = case['kind']
    la, lo, al = case['origin']
    if abs(la) > 90.0000001 or abs(lo) > 180 or not -1e4 <= al <= 4.3e7:
        raise AssertionError
    la, lo = math.radians(la), math.radians(lo)
    o = num.geo2ecef(la, lo, al)
    if case.get('ecef'):
        o = case['ecef']
        if not 6.34e6 < num.norm(o) < 6e7 or not math.hypot(*o[:2]) > 1:
            raise AssertionError
        la = num.ecef2geo(*o)[0]
    # close to the axis the rounding of the origin decides its longitude
    lo = math.atan2(o[1], o[0])
    axes = num.ned_axes(la, lo)
    num.close('ecefvec2nedvec', sut.sut('ecefvec2nedvec', g.ecefvec2nedvec,
                                        la, lo), axes, 1e-12)
    pts, neds = [], []
    for ned in (case['a'], case['b']):
        d = num.norm(ned)
        tol = 1e-6 + 1e-9 * d
        off = num.mv(num.tr(axes), ned)
        e = [x + y for x, y in zip(o, off)]
        got = vec('ecef2ned', g.ecef2ned, conv(e, kind), conv(o, kind))
        num.close('ecef2ned', got, ned, tol)
        num.close('distance', num.norm(got), num.norm(num.sub(e, o)),
                  1e-6 + 1e-13 * d)
        back = vec('ned2ecef', g.ned2ecef, conv(ned, kind), conv(o, kind))
        num.close('ned2ecef', back, e, tol)
        num.close('ned2ecef(ecef2ned)', vec('ned2ecef', g.ned2ecef, got, o),
                  e, 1e-6 + 1e-12 * d)
        num.close('ecef2ned(ned2ecef)', vec('ecef2ned', g.ecef2ned, back, o),
                  ned, 1e-6 + 1e-12 * d)
        pts.append(e)
        neds.append(got)
        pae('ned2pae', ned, vec('ned2pae', g.ned2pae, conv(ned, kind)),
            1e-12)
        pae('ecef2pae', got, vec('ecef2pae', g.ecef2pae, conv(e, kind),
                                 conv(o, kind)), 1e-9)
    num.close('distance between targets', num.norm(num.sub(*neds)),
              num.norm(num.sub(*pts)), 1e-6 + 1e-12 * num.norm(case['a'])
              + 1e-12 * num.norm(case['b']))
    z = vec('ecef2ned', g.ecef2ned, conv(o, kind), conv(o, kind))
    if any(z):
        raise Violation('value', 'the origin is at %r' % z)


def pae(what, ned, got, rel):
    n, e, d = ned
    r, flat = num.norm(ned), math.hypot(n, e)
    num.close(what + ' range', got[0], r, rel * r)
    # angles as direction cosines, so that undefined angles do not matter
    az, el = math.radians(got[1]), math.radians(got[2])
    tol = (rel * 100 + 1e-12) * r
    num.close(what + ' elevation', r * math.sin(el), -d, tol)
    num.close(what + ' elevation', r * math.cos(el), flat, tol)
    num.close(what + ' azimuth', flat * math.sin(az), e, tol)
    num.close(what + ' azimuth', flat * math.cos(az), n, tol)
    if not (abs(got[2]) <= 90 + 1e-9 and -180 - 1e-9 <= got[1] <= 360):
        raise Violation('range', '%s gave %r' % (what, got))


def vec(what, f, *a):
    out = sut.sut(what, f, *a)
    if len(out) != 3:
        raise Violation('type', '%s gave %r' % (what, out))
    return [float(v) for v in out]


def nontrivial(case):
    return 'seq' in case or any(case['a'])
