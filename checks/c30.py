"""C30  geodetic <-> Earth-centred coordinates."""
import math

import numpy

from vlib import history, num, places, sut
from vlib.sut import Violation

from opendis.RangeCoordinates import GPS

ID = 'C30'
RULE = ('one case = one point, given geodetically or Earth-centred, '
        'converted both ways by the code and by an independent method, or '
        'a history of neighbouring points; '
        'non-trivial: not on an axis')
ASSUMPTIONS = ['compared within a millimetre (a centimetre of altitude for '
               'points exactly on the polar axis)',
               'Earth-centred input lies between 10 km below the surface and '
               '42 000 km above it']
MM = 1e-3
CONTAINERS = ['tuple', 'list', 'array']


def cases(tier, rng_for, shard, nshards):
    r = rng_for('c30', shard)
    i = 0
    for la in places.LATS:
        for lo in places.LONS:
            for al in places.ALTS:
                i += 1
                if i % nshards == shard:
                    yield 'grid', dict(lla=[la, lo, al], kind=CONTAINERS[
                        i // nshards % 3])
    for z in (6356752.3142, -6356752.3142, 6356752.3142 + 1234.5678,
              -6356752.3142 - 35.126, 6346800.0, -6346800.0, 4.5e7, -4.5e7):
        for sx in (0.0, -0.0):
            i += 1
            if i % nshards == shard:
                yield 'axis', dict(ecef=[sx, 0.0, z], kind='tuple')
        for x, y in ((1e-9, 0.0), (0.0, -1e-6), (-1e-3, 1e-3), (-1.0, 0.0),
                     (1.0, -1.0), (0.0, 100.0)):
            i += 1
            if i % nshards == shard:
                yield 'near-axis', dict(ecef=[x, y, z], kind='list')
    for x, y in ((6378137.0, 0.0), (-6378137.0, 0.0), (0.0, 6378137.0),
                 (0.0, -6378137.0), (6378137.0, -0.0), (-6378137.0, -0.0)):
        for z in (0.0, -0.0, 1e-9, -1e-6, 6378137, -1):
            i += 1
            if i % nshards == shard:
                yield 'axis', dict(ecef=[x, y, z], kind='tuple')
    for _ in range(40000 if tier == 'quick' else 600000):
        k = r.choice(CONTAINERS)
        if r.random() < .5:
            yield 'geodetic', dict(lla=places.lla(r), kind=k)
        else:
            la, lo = math.asin(r.uniform(-1, 1)), r.uniform(-math.pi, math.pi)
            e = num.geo2ecef(la, lo, places.alt(r))
            x = r.random()
            if x < .1:
                e = [round(c) for c in e]
            elif x < .2:
                # close to a coordinate plane or axis
                R = 6378137.0 + abs(places.alt(r))
                e = [r.choice([1, -1]) * 10 ** r.uniform(-9, 3)
                     if r.random() < .6 else R * r.uniform(-.7, .7)
                     for _ in range(3)]
                j = r.randrange(3)
                e[j] = 0.0
                e[j] = math.sqrt(R * R - num.norm(e) ** 2) * r.choice([1, -1])
            elif x < .4:
                e = places.ecef(r)
            yield 'earth-centred', dict(ecef=e, kind=k)
        if r.random() < .05:
            la, lo, al = places.lla(r)
            yield 'turned', dict(lla=[la, r.uniform(180, 540) * r.choice(
                [1, -1]), al], kind=k)


    for _ in range(5000 if tier == 'quick' else 100000):
        c = dict(lla=places.lla(r), kind='tuple')
        if r.random() < .5:
            la, lo = math.asin(r.uniform(-1, 1)), r.uniform(-math.pi, math.pi)
            c = dict(ecef=num.geo2ecef(la, lo, places.alt(r)), kind='list')
        yield 'history', history.sequence(r, c, ['lla', 'ecef'], fix)


def fix(c):
    if 'lla' in c:
        places.fix(c['lla'])
    elif not 6.34e6 < num.norm(c['ecef']) < 6e7:
        c['ecef'] = [6378137.0, 1.0, -1.0]


def give(v, kind):
    return {'tuple': tuple, 'list': list, 'array': numpy.array}[kind](v)


def check(case):
    g = GPS()
    for c in case.get('seq', [case]):
        one(g, c)


def one(g, case):
    if 'lla' in case:
        la, lo, al = case['lla']
        if abs(la) > 90 or abs(lo) > 540 or not -1e4 <= al <= 4.3e7:
            raise AssertionError
        want = num.geo2ecef(math.radians(la), math.radians(lo), al)
        e = sut.sut('lla2ecef', g.lla2ecef, give(case['lla'], case['kind']))
        num.close('lla2ecef', e, want, 1e-4 + 1e-12 * abs(al))
        back(g, [float(c) for c in e], case['kind'])
        b = g.ecef2lla(e)
        far = num.norm(num.sub(num.geo2ecef(
            math.radians(b[0]), math.radians(b[1]), b[2]), want))
        if far > MM:
            raise Violation('value', 'lla %r comes back as %r, %.3g m away' % (
                case['lla'], b, far))
        num.close('latitude', b[0], la, 2e-8)
        num.close('altitude', b[2], al, MM)
        if abs(la) < 89.999:
            d = num.turn(float(b[1]), lo)
            num.close('longitude', d, 0.0, 1e-9)
    else:
        back(g, case['ecef'], case['kind'])


def back(g, e, kind):
    r = num.norm(e)
    if not 6.34e6 < r < 6e7:
        raise AssertionError
    lla = sut.sut('ecef2lla', g.ecef2lla, give(e, kind))
    if len(lla) != 3:
        raise Violation('type', 'ecef2lla gave %r' % (lla,))
    la, lo, al = map(float, lla)
    if not (abs(la) <= 90 + 1e-12 and abs(lo) <= 180 + 1e-12):
        raise Violation('range', 'ecef2lla(%r) is %r' % (e, lla))
    tol = MM if e[0] or e[1] else 1.1e-2
    got = num.geo2ecef(math.radians(la), math.radians(lo), al)
    far = num.norm(num.sub(got, e))
    if not far <= tol:
        raise Violation('value', 'ecef2lla(%r) is %r, %.3g m away' % (
            e, lla, far))
    want = num.ecef2geo(*e)
    num.close('latitude', la, math.degrees(want[0]), 2e-8)
    num.close('altitude', al, want[2], tol)
    # the inverse the code itself provides
    there = sut.sut('lla2ecef', g.lla2ecef, lla)
    far = num.norm(num.sub([float(c) for c in there], e))
    if not far <= tol:
        raise Violation('value', 'ecef %r comes back as %r' % (e, there))


def nontrivial(case):
    return 'seq' in case or all(case.get('lla') or case['ecef'])
