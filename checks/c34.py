"""C34  geocentric offsets and helpers."""
import math

import numpy

from vlib import history, num, places, sut
from vlib.sut import Violation

from opendis import RangeCoordinates as RC

ID = 'C34'
RULE = ('one case = one helper (geocentric offset, angle conversion, '
        'distance, gravity, composition) at one input; non-trivial: '
        'non-zero input')
ASSUMPTIONS = ['the X3D origin string is "longitude latitude altitude"']


def cases(tier, rng_for, shard, nshards):
    r = rng_for('c34', shard)
    if shard == 0:
        yield 'constants', dict(what='constants')
        for L in range(-90, 91, 5):
            yield 'gravity', dict(what='g0', L=math.radians(L))
        for o in ([0.0, 0.0, 0.0], [0.0, 0.0, 100.0], [0.0, 90.0, 0.0],
                  [90.0, 0.0, 0.0], [-90.0, 0.0, -1.0], [0.0, -180.0, 5.0],
                  [1.0, 1.0, 0.0]):
            for p in ([0.0, 0.0, 0.0], [1.0, 2.0, 3.0], o):
                for fmt in ('%r %r %r', '%g %g %g', '%.3f %.3f %.3f'):
                    yield 'gcc', dict(what='gcc', lla=list(p), origin=o,
                                      fmt=fmt)
    for _ in range(10000 if tier == 'quick' else 150000):
        yield 'gcc', dict(what='gcc', lla=places.lla(r), origin=r.choice(
            [None, places.lla(r), places.lla(r)]), fmt=r.choice(
            ['%r %r %r', ' %r  %r\t%r ', '%.6f %.6f %.3f', '%e %e %e']))
        yield 'history', history.sequence(r, dict(
            what='gcc', lla=places.lla(r), origin=places.lla(r),
            fmt='%r %r %r'), ['lla', 'origin'], fix)
        yield 'gravity', dict(what='g0', L=r.uniform(-math.pi, math.pi))
        n = r.choice([1, 2, 2, 3, 3, 3, 4, 7, 16, 17, r.randint(1, 300)])
        m = 10 ** r.uniform(-3, 8)
        v = [[r.choice([0.0, r.uniform(-m, m), r.uniform(-m, m),
                        float(r.randint(-5, 5)), r.randint(-9 ** 9, 9 ** 9)])
              for _ in range(n)]
             for _ in range(2)]
        v = [history.relate(r, x) for x in v]
        kind = r.choice(['list', 'tuple', 'array', 'array'])
        if r.random() < .2:
            # fixed-width integers
            kind, top = r.choice([('int16', 2 ** 15), ('int32', 2 ** 31),
                                  ('uint16', 2 ** 16), ('uint8', 2 ** 8),
                                  ('int64', 2 ** 53), ('uint32', 2 ** 32)])
            low = 0 if kind[0] == 'u' else -top
            v = [[r.choice([low, top - 1, r.randrange(low, top),
                            r.randrange(low, top), r.randrange(0, 100)])
                  for _ in range(n)] for _ in range(2)]
        if r.random() < .1:
            # sums that agree, or components equal to those of the other
            v[1] = [c if r.random() < .7 else d for c, d in zip(*v)]
        yield 'distance', dict(what='distance', a=v[0],
                               b=r.choice([None, v[1], v[1], [0] * n]),
                               kind=kind)
        yield 'angle', dict(what='angle', x=r.choice(
            [r.uniform(-720, 720), float(r.randint(-360, 360)),
             r.uniform(-1e-6, 1e-6), r.randint(-720, 720)]))
        b = [places.lat(r, 89.9), places.lon(r), places.alt(r)]
        m = 10 ** r.uniform(-10, 0)
        yield 'compose', dict(what='compose', b=b, a=[
            history.clamp(b[0] + r.uniform(-m, m), -90, 90),
            history.clamp(b[1] + r.uniform(-m, m), -180, 180),
            b[2] + r.uniform(-m, m) * 1e5 if b[2] > 0 else b[2]])
        yield 'compose', dict(what='compose', a=places.lla(r),
                              b=[places.lat(r, 89.9), places.lon(r),
                                 places.alt(r)])


def fix(c):
    places.fix(c['lla'])
    places.fix(c['origin'])


def check(case):
    g = RC.GPS()
    for c in case.get('seq', [case]):
        one(g, c)


def one(g, case):
    what = case['what']
    if what == 'constants':
        w = RC.WGS84
        for k, v, tol in (('a', 6378137.0, 0), ('b', 6356752.314245, 1e-3),
                          ('f', 1 / 298.257223563, 1e-10),
                          ('e', 0.0818191908426, 1e-9),
                          ('c', 299792458.0, 0),
                          ('mu', 3.986004418e14, 2e8),
                          ('omega_ie', 7.2921151467e-5, 1e-14),
                          ('F', -4.442807633e-10, 1e-18)):
            num.close(k, getattr(w, k), v, tol)
        num.close('f', w.f, (w.a - w.b) / w.a, 1e-15)
        num.close('e squared', w.e ** 2, 1 - (w.b / w.a) ** 2, 1e-15)
        num.close('b', w.b, w.a * math.sqrt(1 - w.e ** 2), 1e-8)
        num.close('F', w.F, -2 * math.sqrt(w.mu) / w.c ** 2, 1e-18)
        num.close('a', g.wgs84.a, w.a, 0)
    elif what == 'g0':
        L = case['L']
        s = math.sin(L) ** 2
        num.close('gravity at %r' % L, sut.sut('g0', g.wgs84.g0, L),
                  9.7803253359 * (1 + 0.00193185265241 * s)
                  / math.sqrt(1 - num.WE2 * s), 3e-6)
    elif what == 'gcc':
        lla, o = case['lla'], case['origin']
        p = num.geo2ecef(math.radians(lla[0]), math.radians(lla[1]), lla[2])
        if o is None:
            got = sut.sut('lla2gcc', g.lla2gcc, lla)
            num.close('lla2gcc', sut.sut('lla2gcc', g.lla2gcc, lla, ''), got,
                      0)
            want = p
        else:
            text = case['fmt'] % (o[1], o[0], o[2])
            lo, la, al = map(float, text.split())
            q = num.geo2ecef(math.radians(la), math.radians(lo), al)
            want = num.sub(p, q)
            got = sut.sut('lla2gcc', g.lla2gcc, tuple(lla), text)
            x, y = g.lla2ecef(lla), g.lla2ecef((la, lo, al))
            num.close('lla2gcc and lla2ecef', got, num.sub(x, y), 1e-7)
        num.close('lla2gcc', got, want, 1e-3)
    elif what == 'distance':
        a, b = case['a'], case['b']
        if b is not None and len(b) != len(a):
            raise AssertionError
        conv = {'list': list, 'tuple': tuple, 'array': numpy.array}.get(
            case['kind']) or (lambda v: numpy.array(v, case['kind']))
        if b is None:
            got, want = sut.sut('euclideanDistance', RC.euclideanDistance,
                                conv(a)), math.hypot(*a)
        else:
            got = sut.sut('euclideanDistance', RC.euclideanDistance, conv(a),
                          conv(b))
            want = math.dist(a, b)
            num.close('distance both ways', RC.euclideanDistance(
                conv(b), conv(a)), want, 1e-12 * want)
        num.close('distance of %r and %r' % (a, b), got, want, 1e-12 * want)
    elif what == 'angle':
        x = case['x']
        num.close('deg2rad(%r)' % x, sut.sut('deg2rad', RC.deg2rad, x),
                  math.radians(x), 4e-15 * abs(x))
        num.close('rad2deg(%r)' % x, sut.sut('rad2deg', RC.rad2deg, x),
                  math.degrees(x), 1e-13 * abs(x))
        num.close('rad2deg(deg2rad(%r))' % x, RC.rad2deg(RC.deg2rad(x)), x,
                  4e-15 * abs(x))
    else:
        a, b = case['a'], case['b']
        e, o = g.lla2ecef(a), g.lla2ecef(b)
        num.close('ecef2pae', sut.sut('ecef2pae', g.ecef2pae, e, o),
                  g.ned2pae(g.ecef2ned(e, o)), 1e-6)
        utm, info = sut.sut('ecef2utm', g.ecef2utm, o)
        u2, i2 = g.lla2utm(g.ecef2lla(o))
        num.close('ecef2utm', utm, u2, 1e-6)
        if info[0] != i2[0] or abs(info[1] - i2[1]) > 1e-12:
            raise Violation('value', 'ecef2utm gives %r, lla2utm %r' % (
                info, i2))


def nontrivial(case):
    return 'seq' in case or case['what'] != 'constants'
