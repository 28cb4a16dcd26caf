"""Shared parts of the dead-reckoning checks."""
import math

import numpy

from . import consts, history, num, sut
from .sut import Violation

import opendis.DeadReckoning as DR

# name -> (accelerated, rotating, body frame)
MODELS = {'drm_fpw': (0, 0, 0), 'drm_rpw': (0, 1, 0), 'drm_rvw': (1, 1, 0),
          'drm_fvw': (1, 0, 0), 'drm_fpb': (0, 0, 1), 'drm_rpb': (0, 1, 1),
          'drm_rvb': (1, 1, 1), 'drm_fvb': (1, 0, 1)}
NAMES = ['drm_static'] + sorted(MODELS)


def names(r):
    """All algorithms; one of them in the coverage-guided search."""
    return [r.choice(NAMES)] if hasattr(r, 'load') else NAMES


EARTH = [[6378137.0, 0.0, 0.0], [0.0, -6378137.0, 0.0],
         [-2707135.5, -4353706.3, 3781806.2], [0.0, 0.0, 6356752.3]]
ANGLES = [0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, math.pi / 4,
          3 * math.pi / 4, 0.1, -0.1, 1.0, 2.0, -2.5, 3.1, 6.0, 1e-9]
STEPS = [0.0, 1.0, -1.0, 0.5, 2.0, 1e-3, 0.1, 5.0, -7.25, 60.0, 1e-6, 3600.0,
         3, 1e-9, 90000.0, 7200.5, -5000.0, 1e6, -1e-4]


def vec(r, mags=(0.0, 1e-6, 1e-3, 1.0, 10.0, 300.0, 8000.0,
              2e5, 1e-9)):
    k = r.random()
    if k < .12:
        v = [0.0, 0.0, 0.0]
        v[r.randrange(3)] = r.choice([1.0, -1.0]) * r.choice(mags)
        return v
    if k < .2:
        return [float(r.randint(-20, 20)) for _ in range(3)]
    if k < .3:
        return [r.randint(-20, 20) for _ in range(3)]
    if k < .36:
        return [0.0, 0.0, 0.0]
    if k < .42:
        return [r.choice([r.randint(-20, 20), r.uniform(-20, 20)])
                for _ in range(3)]
    top = max(mags)
    return history.relate(r, [
        special(r, top) if r.random() < .08 else
        r.uniform(-1, 1) * r.choice(mags) for _ in range(3)], .1)


def special(r, top):
    """A number made from one that the code itself uses."""
    return r.choice(consts.reals(DR, top) or [0.0])


def position(r):
    k = r.random()
    if k < .3:
        return list(r.choice(EARTH))
    if k < .6:
        return history.relate(r, [r.uniform(-7e6, 7e6) for _ in range(3)])
    return vec(r)


def angle(r):
    k = r.random()
    if k > .93:
        return special(r, 20.0)
    if k < .35:
        return r.choice(ANGLES)
    if k < .95:
        return r.uniform(-math.pi, math.pi)
    return r.uniform(-20, 20)


def orientation(r):
    k = r.random()
    if k < .1:
        return [0.0, 0.0, 0.0]
    if k < .15:
        return [r.randint(-3, 3) for _ in range(3)]
    return history.relate(r, [angle(r), angle(r), angle(r)])


def step(r):
    if r.random() < .08:
        return special(r, 1e4)
    return r.choice(STEPS) if r.random() < .5 else r.uniform(-30, 30)


def state(r):
    s = dict(pos=position(r), ori=orientation(r), vel=vec(r),
             acc=vec(r, (0.0, 1e-3, 1.0, 9.81, 50.0)),
             ang=vec(r, (0.0, 1e-3, .1, 1.0, 5.0)), dt=step(r))
    if r.random() < .06:
        # one quantity is equal or opposite to another
        a = r.choice(['acc', 'ang', 'ori'])
        b = r.choice(['acc', 'ang', 'ori'])
        f = r.choice([1, 1, -1])
        s[a] = [f * c for c in s[b]]
        if r.random() < .3:
            s['vel'] = [f * c for c in s[b]]
    return s


KINDS = ['list', 'tuple', 'array', 'readonly', 'strided', 'float32']


def container(v, kind):
    if kind == 'list':
        return list(v)
    if kind == 'tuple':
        return tuple(v)
    if kind == 'strided':
        a = numpy.zeros(6, dtype=numpy.array(v).dtype)
        a[::2] = v
        return a[::2]
    if kind == 'float32':
        return numpy.array(v, dtype='f4')
    a = numpy.array(v)
    if kind == 'readonly':
        a.setflags(write=False)
    return a


def args(name, s, conv=list):
    """The positional arguments of one algorithm."""
    if name == 'drm_static':
        return [conv(s['pos']), conv(s['ori'])]
    acc, rot, _ = MODELS[name]
    a = [conv(s['pos']), conv(s['vel'])]
    if acc:
        a.append(conv(s['acc']))
    a += [s['dt'], conv(s['ori'])]
    if rot:
        a.append(conv(s['ang']))
    return a


def call(name, s, conv=list):
    res = sut.sut(name, getattr(DR, name), *args(name, s, conv))
    if not isinstance(res, tuple) or len(res) != 2:
        raise Violation('type', '%s returned %r' % (name, res))
    for v in res:
        if not isinstance(v, numpy.ndarray) or v.shape != (3,) \
                or v.dtype.kind != 'f':
            raise Violation('type', '%s returned %r' % (name, res))
    return res


def model_position(name, s):
    """(position, tolerance scale)"""
    pos = [float(c) for c in s['pos']]
    if name == 'drm_static':
        return pos, norm1(pos)
    acc, rot, body = MODELS[name]
    t = s['dt']
    vel = [float(c) for c in s['vel']]
    a = [float(c) for c in s['acc']] if acc else [0.0] * 3
    if body:
        m = num.euler(*s['ori'])
        vel, a = num.mv(m, vel), num.mv(m, a)
    disp = [v * t + b * t * t / 2 for v, b in zip(vel, a)]
    scale = norm1(s['vel']) * abs(t) + norm1(a) * t * t
    return [p + d for p, d in zip(pos, disp)], scale + norm1(pos) * .05


def norm1(v):
    return sum(abs(c) for c in v)


def model_rates(ori, ang):
    """Yaw, pitch and roll rates from the body rates: solve
        p = roll' - yaw' sin(pitch)
        q = pitch' cos(roll) + yaw' cos(pitch) sin(roll)
        r = -pitch' sin(roll) + yaw' cos(pitch) cos(roll)
    Returns (rates, zone): zone is 'lock' where yaw is undefined, 'edge'
    where neither rule is required."""
    psi, theta, phi = ori
    p, q, r = ang
    pitch = q * math.cos(phi) - r * math.sin(phi)
    c = math.cos(theta)
    if abs(c) < 3e-7:
        return [0.0, pitch, p], 'lock'
    yaw = (q * math.sin(phi) + r * math.cos(phi)) / c
    return [yaw, pitch, p + yaw * math.sin(theta)], \
        'edge' if abs(c) < 3e-6 else 'free'
