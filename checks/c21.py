"""C21  dead-reckoned orientations."""
import math

from vlib import motion, num
from vlib.sut import Violation

ID = 'C21'
RULE = ('one case = one algorithm at one state; non-trivial: non-zero body '
        'rates and time step')
ASSUMPTIONS = ['no rule is required where |cos(pitch)| is between 3e-7 and '
               '3e-6, next to the gimbal lock']


def cases(tier, rng_for, shard, nshards):
    r = rng_for('c21', shard)
    i = 0
    rot = [n for n in motion.NAMES if n.startswith('drm_r')]
    oris = [[0.0, 0.0, 0.0], [.3, 0.0, 0.0], [0.0, .4, 0.0], [0.0, 0.0, .5],
            [.3, .4, .5], [-2.0, -1.2, 2.7], [3.0, 1.5, -3.0],
            [.2, 2.0, .3]]
    for q in (1, -1, 3):
        for d in (0.0, 1e-8, -1e-8, 1e-5, -1e-5, 1e-3, -1e-3):
            oris.append([.3, q * math.pi / 2 + d, .7])
    for name in rot:
        for ax in range(3):
            for ori in oris:
                for dt in (1.0, -.5, 0.0, 2):
                    i += 1
                    if i % nshards == shard:
                        ang = [0.0, 0.0, 0.0]
                        ang[ax] = .25
                        yield 'axis', dict(fn=name, s=dict(
                            pos=[1.0, 2.0, 3.0], ori=ori, vel=[4.0, 5.0, 6.0],
                            acc=[.1, .2, .3], ang=ang, dt=dt))
    for _ in range(8000 if tier == 'quick' else 60000):
        s = motion.state(r)
        if r.random() < .25:
            s['ori'] = [motion.angle(r), r.choice([1, -1, 3, -3]) * math.pi / 2
                        + r.choice([0.0, 0.0, 1e-8, 1e-5, -1e-5, 1e-4, -.01]),
                        motion.angle(r)]
        for name in motion.names(r):
            yield 'random', dict(fn=name, s=s)


def check(case):
    name, s = case['fn'], case['s']
    pos, new = motion.call(name, s)
    ori = [float(c) for c in s['ori']]
    if not name.startswith('drm_r'):
        if list(new) != ori:
            raise Violation('value', '%s turned %r to %r' % (name, ori, new))
        return
    rates, zone = motion.model_rates(ori, s['ang'])
    if zone == 'edge':
        return
    want = [o + w * s['dt'] for o, w in zip(ori, rates)]
    scale = [abs(o) + abs(w * s['dt']) for o, w in zip(ori, rates)]
    for k, axis in enumerate(('yaw', 'pitch', 'roll')):
        num.close('%s %s' % (name, axis), new[k], want[k],
                  1e-9 * (scale[k] + max(scale) * 1e-3) + 1e-300)
    if zone == 'lock' and new[0] != ori[0]:
        raise Violation('value', '%s changed yaw at gimbal lock' % name)
    # first order: rotating the old attitude by the body rates
    h = 1e-6
    if zone == 'free' and abs(math.cos(ori[1])) > .2 and s['dt']:
        w = [float(c) for c in s['ang']]
        n = num.norm(w)
        if n:
            p2, near = motion.call(name, dict(s, dt=h))
            want = num.mm(num.euler(*ori), num.qmat(num.quat(
                [c / n for c in w], n * h)))
            tol = (n * h) ** 2 * 200 + 1e-13
            num.close('%s attitude after a short step' % name,
                      num.euler(*near), want, tol)


def nontrivial(case):
    return case['s']['dt'] != 0 and any(case['s']['ang']) \
        and case['fn'].startswith('drm_r')
