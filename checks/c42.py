"""C42  the whole chain: geodetic state -> message -> extrapolated state."""
import math
import struct

from vlib import history, motion, num, places, sut
from vlib.sut import Violation

from opendis import dis7
import opendis.DeadReckoning as DR
from opendis.RangeCoordinates import GPS

ID = 'C42'
RULE = ('one case = one entity (position, attitude, velocity, acceleration, '
        'body rates) put into an Entity State, Entity State Update, fast '
        'Entity State message, sent as octets, decoded, '
        'converted back and extrapolated by every algorithm at one time step; '
        'non-trivial: non-zero velocity and attitude')
ASSUMPTIONS = ['points on the polar axis and pitches within 0.01 rad of the '
               'vertical are left out of the extrapolation comparison']
KINDS = ['structured', 'fast', 'cross', 'update']


def f32(x):
    return struct.unpack('>f', struct.pack('>f', x))[0]


def cases(tier, rng_for, shard, nshards):
    r = rng_for('c42', shard)
    for i in range(8000 if tier == 'quick' else 60000):
        yield 'chain', dict(
            kind=KINDS[i % len(KINDS)],
            pos=[math.radians(places.lat(r)),
                 math.radians(places.lon(r)), places.alt(r)],
            rpy=[places.angle(r), history.clamp(
                places.angle(r) / 2, -math.pi / 2, math.pi / 2), places.angle(r)],
            vel=[f32(v) for v in motion.vec(r)],
            acc=[f32(v) for v in motion.vec(r, (0.0, 1e-3, 1.0, 9.81))],
            ang=[f32(v) for v in motion.vec(r, (0.0, 1e-3, .1, 1.0))],
            dt=r.choice([0.0, .5, 1.0, -2.0, r.uniform(-10, 10)]))


def send(case, loc, ori):
    """The decoded (location, orientation, velocity, acceleration, rates)."""
    k = case['kind']
    flat = k == 'fast'
    if k == 'update':
        p = dis7.EntityStateUpdatePdu()
    elif flat:
        p = dis7.FastEntityStatePdu()
    else:
        p = dis7.EntityStatePdu()
    axes = 'xyz'
    if flat:
        for i, a in enumerate(axes):
            setattr(p, a + 'Location', loc[i])
            setattr(p, a + 'Velocity', case['vel'][i])
            setattr(p, a + 'Acceleration', case['acc'][i])
            setattr(p, a + 'AngularVelocity', case['ang'][i])
        p.psi, p.theta, p.phi = ori
    else:
        o = p.entityOrientation
        o.psi, o.theta, o.phi = ori
        for i, a in enumerate(axes):
            setattr(p.entityLocation, a, loc[i])
            setattr(p.entityLinearVelocity, a, case['vel'][i])
            if k != 'update':
                d = p.deadReckoningParameters
                setattr(d.entityLinearAcceleration, a, case['acc'][i])
                setattr(d.entityAngularVelocity, a, case['ang'][i])
    data = sut.serialize(p)
    q = sut.decode(data)
    if k == 'cross':
        q, _ = sut.parse_into('FastEntityStatePdu', data)
        return ([q.xLocation, q.yLocation, q.zLocation],
                [q.psi, q.theta, q.phi],
                [q.xVelocity, q.yVelocity, q.zVelocity],
                [q.xAcceleration, q.yAcceleration, q.zAcceleration],
                [q.xAngularVelocity, q.yAngularVelocity, q.zAngularVelocity])
    three = lambda v: [v.x, v.y, v.z]                           # noqa: E731
    o = q.entityOrientation
    acc, ang = case['acc'], case['ang']
    if k != 'update':
        d = q.deadReckoningParameters
        acc, ang = (three(d.entityLinearAcceleration),
                    three(d.entityAngularVelocity))
    return (three(q.entityLocation), [o.psi, o.theta, o.phi],
            three(q.entityLinearVelocity), acc, ang)


def check(case):
    g = GPS()
    la, lo, al = case['pos']
    roll, pitch, yaw = case['rpy']
    if abs(la) > math.pi / 2 or abs(pitch) > 1.5708 \
            or not -1e4 <= al <= 4.3e7:
        raise AssertionError
    e = sut.sut('llarpy2ecef', g.llarpy2ecef, la, lo, al, roll, pitch, yaw)
    loc, ori, vel, acc, ang = send(case, list(e[:3]), list(e[3:]))
    # a location is float64 on the wire, an orientation float32
    num.close('location sent', loc, [float(v) for v in e[:3]], 0.0)
    num.close('orientation sent', ori, [f32(v) for v in e[3:]], 0.0)
    for n in ('vel', 'acc', 'ang'):
        num.close(n, dict(vel=vel, acc=acc, ang=ang)[n], case[n], 0.0)
    back = sut.sut('ecef2llarpy', g.ecef2llarpy, *(loc + ori))
    num.close('position', num.geo2ecef(*back[:3]), num.geo2ecef(la, lo, al),
              2e-3)
    num.close('attitude', attitude(back), attitude(
        [la, lo, al, roll, pitch, yaw]), 2e-6)
    # both ends extrapolate alike
    s = dict(pos=loc, ori=ori, vel=vel, acc=acc, ang=ang, dt=case['dt'])
    steep = abs(abs(ori[1]) - math.pi / 2) < .01
    for name in motion.NAMES:
        pos, rot = motion.call(name, s)
        m = num.geo2ecef(la, lo, al)
        want = model(name, case, m, list(e[3:]))
        speed = motion.norm1(vel) + motion.norm1(acc) * abs(case['dt'])
        tol = 2e-3 + 1e-6 * speed * (abs(case['dt']) + 1e-3)
        num.close('%s position' % name, list(pos), want, tol)
        if not steep and motion.MODELS.get(name, (0, 0, 0))[1]:
            rates, _ = motion.model_rates(ori, ang)
            num.close('%s orientation' % name, list(rot),
                      [a + b * case['dt'] for a, b in zip(ori, rates)], 1e-9 * (
                          1 + motion.norm1(rates) * abs(case['dt'])))
    out = g.ecef2lla(DR.drm_fpw(loc, vel, case['dt'], ori)[0])
    num.close('extrapolated geodetic position', num.geo2ecef(
        math.radians(out[0]), math.radians(out[1]), out[2]),
        [c + v * case['dt'] for c, v in zip(num.geo2ecef(la, lo, al), vel)],
        5e-3 + 1e-9 * motion.norm1(vel) * abs(case['dt']))


def model(name, case, pos, ori):
    s = dict(pos=list(pos), ori=ori, vel=case['vel'], acc=case['acc'],
             ang=case['ang'], dt=case['dt'])
    return motion.model_position(name, s)[0]


def attitude(v):
    la, lo, al, roll, pitch, yaw = v
    return num.mm(num.tr(num.ned_axes(la, lo)), num.euler(yaw, pitch, roll))


def nontrivial(case):
    return any(case['vel']) and any(case['rpy'])
