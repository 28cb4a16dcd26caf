"""C31  heading, pitch and roll <-> DIS Euler angles."""
import math

from vlib import history, num, places, sut
from vlib.sut import Violation

from opendis.RangeCoordinates import GPS

ID = 'C31'
RULE = ('one case = one position with one attitude, given locally or as DIS '
        'Euler angles, converted there and back and compared as rotations, '
        'or a history of neighbouring ones; '
        'non-trivial: all three angles non-zero')
ASSUMPTIONS = ['attitudes are compared as rotation matrices within 1e-7',
               'exactly on the polar axis the returned heading is relative '
               'to the returned longitude, whatever that is']


def cases(tier, rng_for, shard, nshards):
    r = rng_for('c31', shard)
    i = 0
    some = [0.0, .5, -.5, 2.0, -2.0, math.pi, math.pi / 2, -math.pi / 2]
    for a in some:
        for b in some:
            for c in some:
                for la, lo in ((0.0, 0.0), (.6, -2.1), (-1.2, 3.0),
                               (0.0, math.pi), (1.5, .1)):
                    i += 1
                    if i % nshards == shard:
                        yield 'grid', dict(
                            what=('local', 'dis')[i // nshards % 2],
                            pos=[la, lo, 250.0], ang=[a, b, c])
    for _ in range(20000 if tier == 'quick' else 250000):
        p = [math.radians(places.lat(r)),
             math.radians(places.lon(r)), places.alt(r)]
        yield 'random', dict(what=r.choice(['local', 'dis']), pos=p,
                             ang=[places.angle(r) for _ in range(3)])
        if r.random() < .2:
            yield 'earth-centred', dict(what='dis', ecef=places.ecef(r),
                                        pos=[0.0, 0.0, 0.0], ang=[
                                            places.angle(r) for _ in range(3)])
        if r.random() < .03:
            yield 'axis', dict(what='dis', axis=r.choice([1, -1]),
                               pos=[0.0, 0.0, p[2]],
                               ang=[places.angle(r) for _ in range(3)])
    for _ in range(2000 if tier == 'quick' else 60000):
        p = [math.radians(places.lat(r)),
             math.radians(places.lon(r)), places.alt(r)]
        yield 'history', history.sequence(r, dict(
            what=r.choice(['local', 'dis']), pos=p,
            ang=[places.angle(r) for _ in range(3)]), ['pos', 'ang'], fix)


def fix(c):
    p = c['pos']
    p[0] = history.clamp(p[0], -math.pi / 2, math.pi / 2)
    p[1] = history.clamp(p[1], -math.pi, math.pi)
    p[2] = history.clamp(p[2], -1e4, 4.2e7)
    c['ang'] = [num.turn(math.degrees(a), 0.0) * math.pi / 180
                if abs(a) > math.pi else a for a in c['ang']]


def ranges(what, yaw, pitch, roll):
    if not (abs(yaw) <= math.pi + 1e-12 and abs(roll) <= math.pi + 1e-12
            and abs(pitch) <= math.pi / 2 + 1e-12):
        raise Violation('range', '%s: %r' % (what, (yaw, pitch, roll)))


def local_matrix(la, lo, yaw, pitch, roll):
    """Body to Earth-centred axes."""
    return num.mm(num.tr(num.ned_axes(la, lo)), num.euler(yaw, pitch, roll))


def check(case):
    g = GPS()
    for c in case.get('seq', [case]):
        one(g, c)


def one(g, case):
    la, lo, al = case['pos']
    a, b, c = case['ang']
    if abs(la) > math.pi / 2 or abs(lo) > 3.1416 \
            or not -1e4 <= al <= 4.3e7:
        raise AssertionError
    if case['what'] == 'local':
        roll, pitch, yaw = a, b, c
        out = six('llarpy2ecef', g.llarpy2ecef, la, lo, al, roll, pitch, yaw)
        num.close('position', out[:3], num.geo2ecef(la, lo, al), 1e-3)
        ranges('llarpy2ecef', *out[3:])
        att = local_matrix(la, lo, yaw, pitch, roll)
        num.close('attitude of llarpy2ecef', num.euler(*out[3:]), att, 1e-9)
        e = out
    else:
        e = num.geo2ecef(la, lo, al) + [a, b, c]
        if case.get('ecef'):
            if not 6.34e6 < num.norm(case['ecef']) < 6e7 or not math.hypot(
                    *case['ecef'][:2]) > 1:
                raise AssertionError
            e[:3] = case['ecef']
        if case.get('axis'):
            e[:3] = [0.0, 0.0, case['axis'] * (6356752.3142 + al)]
        att = num.euler(a, b, c)
    out = six('ecef2llarpy', g.ecef2llarpy, *e)
    axis = 1.1e-2 if case.get('axis') else 0
    num.close('position', num.geo2ecef(*out[:3]), e[:3], 1e-3 + axis)
    ranges('ecef2llarpy', out[5], out[4], out[3])
    num.close('attitude of ecef2llarpy', local_matrix(
        out[0], out[1], out[5], out[4], out[3]), att, 1e-7)
    again = six('llarpy2ecef', g.llarpy2ecef, *out)
    num.close('position', again[:3], e[:3], 2e-3 + axis)
    num.close('attitude there and back', num.euler(*again[3:]), att, 1e-7)
    if case['what'] == 'local' and abs(abs(pitch) - math.pi / 2) > .01 \
            and abs(pitch) < math.pi / 2 and abs(la) < 1.57:
        for n, x, y in (('roll', out[3], roll), ('pitch', out[4], pitch),
                        ('yaw', out[5], yaw)):
            num.close(n, num.turn(math.degrees(x), math.degrees(y)), 0.0,
                      1e-4)


def six(what, f, *a):
    out = sut.sut(what, f, *a)
    if not isinstance(out, (tuple, list)) or len(out) != 6:
        raise Violation('type', '%s gave %r' % (what, out))
    return [float(v) for v in out]


def nontrivial(case):
    return 'seq' in case or all(case['ang'])
