"""C20  dead-reckoned positions."""
from vlib import motion, num
from vlib.sut import Violation

ID = 'C20'
RULE = ('one case = one algorithm at one state (position, velocity, '
        'acceleration, orientation, body rates, time step); non-trivial: '
        'moving, with a non-zero time step')
ASSUMPTIONS = ['positions are compared to 1e-12 of the displacement plus '
               '5e-14 of the position']


def cases(tier, rng_for, shard, nshards):
    r = rng_for('c20', shard)
    i = 0
    base = dict(pos=[10.0, 20.0, 30.0], ori=[0.0, 0.0, 0.0],
                vel=[0.0, 0.0, 0.0], acc=[0.0, 0.0, 0.0],
                ang=[0.0, 0.0, 0.0], dt=2.0)
    for name in motion.NAMES:
        for key in ('vel', 'acc', 'ang'):
            for ax in range(3):
                for ori in ([0.0, 0.0, 0.0], [.3, 0.0, 0.0], [0.0, .4, 0.0],
                            [0.0, 0.0, .5], [.3, .4, .5]):
                    for dt in (2.0, -2.0, 0.0, 3):
                        i += 1
                        if i % nshards == shard:
                            s = dict(base, ori=ori, dt=dt)
                            s[key] = [0.0, 0.0, 0.0]
                            s[key][ax] = 7.0
                            yield 'axis', dict(fn=name, s=s)
    for _ in range(8000 if tier == 'quick' else 60000):
        s = motion.state(r)
        for name in motion.names(r):
            yield 'random', dict(fn=name, s=s)


def check(case):
    name, s = case['fn'], case['s']
    want, scale = motion.model_position(name, s)
    pos, ori = motion.call(name, s)
    num.close('%s position' % name, pos, want, 1e-12 * scale + 1e-300)
    if name == 'drm_static' and list(pos) != [float(c) for c in s['pos']]:
        raise Violation('value', '%s moved to %r' % (name, pos))


def nontrivial(case):
    s = case['s']
    return s['dt'] != 0 and (any(s['vel']) or any(s['acc']))
