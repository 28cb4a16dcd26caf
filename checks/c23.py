"""C23  rotation and angular-velocity matrices."""
import math

import numpy

from vlib import history, motion, num, sut
from vlib.sut import Violation

import opendis.DeadReckoning as DR
from opendis.RangeCoordinates import GPS

ID = 'C23'
RULE = ('one case = one orientation matrix, one angular-velocity matrix or '
        'one axis-angle rotation, applied to one vector; non-trivial: not '
        'the identity')
ASSUMPTIONS = ['axes are unit vectors to rounding']
AXES = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1],
        [1.0, 0.0, 0.0], [0.0, 0.0, 1.0], [.6, .8, 0.0], [0.0, .6, -.8],
        [-.8, 0.0, .6]]


def cases(tier, rng_for, shard, nshards):
    r = rng_for('c23', shard)
    i = 0
    for a in motion.ANGLES:
        for ax in AXES:
            i += 1
            if i % nshards == shard:
                yield 'axis', dict(what='axis', angle=a, axis=ax,
                                   v=[3.0, -4.0, 5.0],
                                   kind=('array', 'list', 'tuple',
                                         'column')[i % 4])
        for b in motion.ANGLES:
            for c in motion.ANGLES:
                i += 1
                if i % nshards == shard:
                    yield 'matrix', dict(what='euler', ori=[a, b, c],
                                         v=[3.0, -4.0, 5.0])
    for _ in range(30000 if tier == 'quick' else 200000):
        v = motion.vec(r)
        yield 'matrix', dict(what='euler', ori=[
            turns(r, a) for a in motion.orientation(r)], v=v)
        yield 'omega', dict(what='omega', w=motion.vec(r), v=v,
                            kind=r.choice(['list', 'tuple', 'array']))
        yield 'axis', dict(what='axis', angle=turns(r, motion.angle(r)), v=v,
                           axis=axis(r),
                           kind=r.choice(['array', 'list', 'tuple',
                                          'column']))


def turns(r, a):
    """Now and then an angle of many turns."""
    return a if r.random() < .93 else r.choice([-1, 1]) * 10 ** r.uniform(1, 6)


def axis(r):
    z = r.uniform(-1, 1)
    t = r.uniform(-math.pi, math.pi)
    q = math.sqrt(1 - z * z)
    a = history.relate(r, [q * math.cos(t), q * math.sin(t), z], .15)
    n = num.norm(a)
    return [c / n for c in a] if n > 1e-3 else [.6, .8, 0.0]


def shape(what, m):
    m = numpy.asarray(m)
    if m.shape != (3, 3):
        raise Violation('type', '%s has shape %r' % (what, m.shape))
    return [[float(c) for c in row] for row in m]


def check(case):
    what, v = case['what'], case['v']
    big = sum(abs(c) for c in v)
    if what == 'euler':
        m = shape('the matrix', sut.sut('get_rotation_matrix',
                                        DR.get_rotation_matrix, *case['ori']))
        far = 1e-15 * sum(abs(a) for a in case['ori'])
        num.close('rotation matrix', m, num.euler(*case['ori']), 1e-13 + far)
        num.close('matrix times transpose', num.mm(m, num.tr(m)),
                  [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 1e-13)
        num.close('determinant', num.mv([num.cross(m[1], m[2])] * 3, m[0])[0],
                  1.0, 1e-13)
        return
    if what == 'omega':
        w = case['w']
        m = shape('the matrix', sut.sut(
            'get_angular_velocity_matrix', DR.get_angular_velocity_matrix,
            motion.container(w, case['kind'])))
        if m != [[-c + 0.0 for c in row] for row in num.tr(m)] and \
                num.tr(m) != [[-c for c in row] for row in m]:
            raise Violation('value', 'not skew-symmetric: %r' % m)
        num.close('matrix times vector', num.mv(m, v),
                  num.cross([float(c) for c in w], v),
                  1e-13 * big * sum(abs(c) for c in w))
        return
    ax = case['axis']
    n = num.norm(ax)
    if abs(n - 1) > 1e-12:
        raise AssertionError
    arg = numpy.array([[c] for c in ax]) if case['kind'] == 'column' \
        else motion.container(ax, case['kind'])
    m = shape('the rotation', sut.sut('rotate_3x3', GPS().rotate_3x3,
                                      case['angle'], arg))
    num.close('rotated vector', num.mv(m, v), num.mv(num.qmat(
        num.quat(ax, case['angle'])), v), (
            1e-12 + 1e-15 * abs(case['angle'])) * big)
    if [float(c) for c in numpy.ravel(arg)] != [float(c) for c in ax]:
        raise Violation('input', 'the axis became %r' % (arg,))


def nontrivial(case):
    return any(case['v']) and bool(
        any(case.get('ori', ())) or any(case.get('w', ()))
        or case.get('angle'))
