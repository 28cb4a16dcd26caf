"""C33  UTM."""
import math

from vlib import history, num, places, sut
from vlib.sut import Violation

from opendis.RangeCoordinates import GPS

ID = 'C33'
RULE = ('one case = one latitude, longitude and altitude, or a history of '
        'neighbouring ones; non-trivial: '
        'inside the UTM latitudes')
ASSUMPTIONS = ['compared with the Krueger series within three times '
               'the error of the documented series (Snyder) plus 0.1 mm, at '
               'most 5 mm, and likewise the scale', 'longitudes are in [-180, 180]; 180 may be counted '
               'to zone 60 or zone 1',
               'at exactly 84 degrees north the Svalbard zones may or may not '
               'apply']
BANDS = 'CDEFGHJKLMNPQRSTUVWX'
EPS = [0.0, 1e-9, -1e-9, 1e-4, -1e-4, .5, -.5]


def cases(tier, rng_for, shard, nshards):
    r = rng_for('c33', shard)
    i = 0
    for b in list(range(-80, 85, 8)) + [84, 85, 90, -85, -90]:
        for d in EPS:
            for lo in (-177.0, 4.0, 10.0, 33.5, 179.9):
                i += 1
                if i % nshards == shard and abs(b + d) <= 90:
                    yield 'band', dict(lla=[b + d, lo, 10.0])
    for z in range(-180, 181, 3):
        for d in EPS:
            for la in (-79.9, -20.0, 0.0, 40.0, 55.99, 56.0, 60.0, 63.99,
                       64.0, 71.99, 72.0, 78.0, 83.99, 84.0):
                i += 1
                if i % nshards == shard and abs(z + d) <= 180:
                    yield 'zone', dict(lla=[la, z + d, -5.0])
    for _ in range(20000 if tier == 'quick' else 600000):
        la = r.choice([places.lat(r), r.uniform(-80, 84), r.uniform(55, 84)])
        lo = r.choice([places.lon(r), r.uniform(-1, 43), float(
            r.randint(-60, 60)) * 3])
        c = dict(lla=[la, lo, places.alt(r)])
        yield 'random', c
        if r.random() < .2:
            yield 'history', history.sequence(r, c, ['lla'], fix)


def fix(c):
    places.fix(c['lla'])


def zones(la, lo):
    """The acceptable zone numbers."""
    if lo == 180:
        return {60, 1}
    # within rounding of an edge, either side
    z = {sum(lo + d >= e for e in range(-180, 180, 6)) or 1
         for d in ((0,) if lo == round(lo) else (-1e-12, 0, 1e-12))}
    if 56 <= la < 64 and 3 <= lo < 12:
        return {32}
    if 72 <= la <= 84 and 0 <= lo < 42:
        s = 31 if lo < 9 else 33 if lo < 21 else 35 if lo < 33 else 37
        return {s} | z if la == 84 else {s}
    return z


def bands(la):
    """The acceptable band letters: within rounding of an edge, either."""
    return ''.join(sorted({
        'Z' if x < -80 or x > 84 else BANDS[sum(
            x >= e for e in range(-72, 80, 8))]
        for x in ([la] if la == round(la) else [la - 1e-12, la, la + 1e-12])
    }))


def check(case):
    g = GPS()
    for c in case.get('seq', [case]):
        one(g, c)


def one(g, case):
    la, lo, al = case['lla']
    if abs(la) > 90 or abs(lo) > 180:
        raise AssertionError
    letter = sut.sut('utmLetterDesignator', g.utmLetterDesignator, la)
    if letter not in tuple(bands(la)):
        raise Violation('band', 'latitude %r is in band %r' % (la, letter))
    if abs(la) > 89.9:
        return
    utm, info = sut.sut('lla2utm', g.lla2utm, tuple(case['lla']))
    zone, k = info
    if zone[-1] not in bands(la) or not zone[:-1].isdigit():
        raise Violation('band', '(%r, %r) is in zone %r' % (la, lo, zone))
    if float(utm[2]) != al:
        raise Violation('value', 'altitude %r became %r' % (al, utm[2]))
    if 'Z' in bands(la):
        return
    z = int(zone[:-1])
    if z not in zones(la, lo):
        raise Violation('zone', '(%r, %r) is in zone %r, expected %r' % (
            la, lo, zone, sorted(zones(la, lo))))
    projected(g, case, utm, k, z)
    e = g.lla2ecef(case['lla'])
    utm2, info2 = sut.sut('ecef2utm', g.ecef2utm, e)
    if info2[0] == zone:
        num.close('ecef2utm', utm2, utm, 2e-3 + 1e-3 * (abs(la) > 80))
        num.close('ecef2utm scale', info2[1], k, 1e-9)
    elif min((lo + 180) % 3, -(lo + 180) % 3) > 1e-6 and \
            min(la % 8, -la % 8, abs(la - 84)) > 1e-6:
        raise Violation('zone', '%r: ecef2utm gives %r' % (case['lla'],
                                                           info2))


def projected(g, case, utm, k, z):
    la, lo, al = case['lla']
    d = (lo - (6 * z - 183) + 180) % 360 - 180
    E, N, K = num.tmerc(math.radians(la), math.radians(d))
    # three times the error of the documented series at this very place
    e, n, s = num.tmerc_series(math.radians(la), math.radians(d))
    te = min(5e-3, 3 * abs(e - E) + 1e-4)
    tn = min(5e-3, 3 * abs(n - N) + 1e-4)
    ts = min(1e-8, 3 * abs(s - K) + 1e-10)
    if la < 0:
        N += 1e7
    num.close('easting of %r' % (case['lla'],), utm[0], E, te)
    num.close('northing of %r' % (case['lla'],), utm[1], N, tn)
    num.close('scale of %r' % (case['lla'],), k, K, ts)


def nontrivial(case):
    return 'seq' in case or -80 <= case['lla'][0] <= 84
