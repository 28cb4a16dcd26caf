"""C22  dead reckoning is pure and consistent."""
import numpy

from vlib import history as history_, motion, num
from vlib.sut import Violation

ID = 'C22'
RULE = ('one case = one relation (container type, purity, zero step, '
        'degenerate models, step composition, history of calls) at one '
        'state; non-trivial: moving or turning')
ASSUMPTIONS = ['float32 arrays hold the rounded value of the state']
PAIRS = [('acc', 'drm_fvw', 'drm_fpw'), ('acc', 'drm_rvw', 'drm_rpw'),
         ('acc', 'drm_fvb', 'drm_fpb'), ('acc', 'drm_rvb', 'drm_rpb'),
         ('ang', 'drm_rpw', 'drm_fpw'), ('ang', 'drm_rvw', 'drm_fvw'),
         ('ang', 'drm_rpb', 'drm_fpb'), ('ang', 'drm_rvb', 'drm_fvb'),
         ('ori', 'drm_fpb', 'drm_fpw'), ('ori', 'drm_rpb', 'drm_rpw'),
         ('ori', 'drm_fvb', 'drm_fvw'), ('ori', 'drm_rvb', 'drm_rvw')]


def cases(tier, rng_for, shard, nshards):
    r = rng_for('c22', shard)
    for _ in range(2500 if tier == 'quick' else 15000):
        s = motion.state(r)
        for name in motion.names(r):
            yield 'container', dict(
                what='container', fn=name, s=s,
                kinds=[r.choice(motion.KINDS) for _ in range(5)])
            keys = ['pos', 'vel', 'acc', 'ori', 'ang']
            k = r.sample(keys, r.choice([2, 2, 3]))
            yield 'shared', dict(
                what='shared', fn=name, kind=r.choice(motion.KINDS),
                s=dict(s, **{x: list(s[k[0]]) for x in k}))
            yield 'zero', dict(what='zero', fn=name, s=dict(
                s, dt=r.choice([0, 0.0, -0.0])))
            yield 'pure', dict(what='pure', fn=name, s=s,
                               kind=r.choice(['list', 'array', 'strided']))
        zero, a, b = r.choice(PAIRS)
        yield 'pair', dict(what='pair', zero=zero, a=a, b=b, s=dict(
            s, **{zero: r.choice([[0.0] * 3, [0] * 3])}))
        yield 'compose', dict(what='compose', s=s, fn=r.choice(
            ['drm_fpw', 'drm_fpb']), split=r.uniform(-1, 2))
        for _ in range(3):
            yield 'single', dict(what='history', s=s, ops=single(r, s))
        yield 'history', dict(what='history', s=s, ops=[
            dict(fn=r.choice(motion.NAMES), dt=motion.step(r) / 10,
                 kind=r.choice(['list', 'tuple', 'array']),
                 feed=r.random() < .5, poke=r.random() < .5,
                 move={k: [r.choice([0.0, 0.0, 1, -1]) * 10 ** r.uniform(
                     -8, 0) for _ in range(3)] for k in r.sample(
                     ['pos', 'vel', 'acc', 'ori', 'ang'], r.randint(0, 3))})
            for _ in range(r.choice([2, 3, 5, 8]))])


def single(r, s):
    """One algorithm again and again, one number changed each time."""
    fn, s, ops = r.choice(motion.NAMES), {k: v if k == 'dt' else list(v)
                                          for k, v in s.items()}, []
    dt, kind = s['dt'], r.choice(['list', 'tuple', 'array'])
    for _ in range(r.choice([2, 3, 5, 8])):
        move = {}
        k = r.choice(['pos', 'vel', 'acc', 'ori', 'ang', 'dt', ''])
        if ops and k == 'dt':
            dt = history_.other(r, dt)
        elif ops and k:
            i = r.randrange(3)
            d = history_.other(r, s[k][i]) - s[k][i]
            move[k] = [d if i == j else 0.0 for j in range(3)]
            s[k][i] += d
        ops.append(dict(fn=fn, dt=dt, kind=kind, feed=False,
                        poke=r.random() < .3, move=move))
    return ops


def same(what, x, y, tol=0.0):
    for k in (0, 1):
        num.close('%s %s' % (what, ('position', 'orientation')[k]),
                  x[k], list(y[k]), tol)


def alike(what, s, x, y):
    """Equal but for rounding: another storage order of an argument may make
    numpy sum in another order."""
    dt = abs(float(s['dt']))
    big = sum(abs(c) for c in s['pos']) + dt * sum(
        abs(c) for c in s['vel']) + dt * dt * sum(abs(c) for c in s['acc'])
    num.close('%s position' % what, x[0], list(y[0]), 4e-15 * big)
    num.close('%s orientation' % what, x[1], list(y[1]), 1e-11 * max(
        abs(float(c)) for c in y[1]))


def check(case):
    what, s = case['what'], case['s']
    if what == 'container':
        name, kinds = case['fn'], iter(case['kinds'])
        if 'float32' in case['kinds']:
            s = {k: v if k == 'dt' else [
                float(numpy.float32(c)) for c in v] for k, v in s.items()}
        ref = motion.call(name, s)
        got = motion.call(name, s, lambda v: motion.container(v, next(kinds)))
        alike('%s with %s' % (name, ', '.join(case['kinds'])), s, got, ref)
        acc = sum(abs(c) for c in s['pos'] + s['vel'])
        got = motion.call(name, dict(s, dt=numpy.float64(s['dt'])))
        same('%s with a numpy time step' % name, got, ref, 1e-12 * acc)
    elif what == 'shared':
        # equal vectors are one and the same object
        one = {}
        if case['kind'] == 'float32':
            s = {k: v if k == 'dt' else [
                float(numpy.float32(c)) for c in v] for k, v in s.items()}
        got = motion.call(case['fn'], s, lambda v: one.setdefault(
            repr(v), motion.container(v, case['kind'])))
        alike('%s with one object for several vectors' % case['fn'], s, got,
              motion.call(case['fn'], s))
        for k, c in one.items():
            if repr([float(x) for x in c]) != repr(
                    [float(x) for x in eval(k)]):
                raise Violation('input', '%s: an input became %r, was %s'
                                % (case['fn'], list(c), k))
    elif what == 'zero':
        pos, ori = motion.call(case['fn'], s)
        if list(pos) != [float(c) for c in s['pos']] \
                or list(ori) != [float(c) for c in s['ori']]:
            raise Violation('value', '%s moved in a zero time step: %r %r' % (
                case['fn'], pos, ori))
    elif what == 'pure':
        pure(case)
    elif what == 'pair':
        x, y = motion.call(case['a'], s), motion.call(case['b'], s)
        scale = sum(abs(c) * max(1, abs(s['dt'])) for c in
                    s['pos'] + s['vel'] + s['ori']) + sum(
            abs(c) * s['dt'] ** 2 for c in s['acc'])
        same('%s vs %s with zero %s' % (case['a'], case['b'], case['zero']),
             x, y, 1e-12 * scale + 1e-300)
    elif what == 'compose':
        name = case['fn']
        one = motion.call(name, s)
        t1 = s['dt'] * case['split']
        mid = motion.call(name, dict(s, dt=t1))
        two = motion.call(name, dict(s, pos=mid[0], dt=s['dt'] - t1))
        scale = sum(abs(c) for c in s['pos']) + 4 * abs(s['dt']) * sum(
            abs(c) for c in s['vel'])
        same('%s in two steps' % name, two, one, 1e-12 * scale + 1e-300)
    else:
        history(case)


def pure(case):
    name, s = case['fn'], case['s']
    made, mem = [], []

    def conv(v):
        c = motion.container(v, case['kind'])
        made.append((c, list(c)))
        mem.append(c if isinstance(c, numpy.ndarray) else None)
        return c
    res = motion.call(name, s, conv)
    first = [list(v) for v in res]

    def unchanged(when):
        for c, v in made:
            if repr(list(c)) != repr(v):
                raise Violation('input', '%s: an input became %r, was %r %s'
                                % (name, list(c), v, when))
    unchanged('after the call')
    if numpy.shares_memory(*res) or any(
            m is not None and numpy.shares_memory(m, v)
            for m in mem for v in res):
        raise Violation('alias', '%s: results share storage' % name)
    for v in res:
        v += 1e3
        v[1] = -77.0
    unchanged('after changing the result')
    again = motion.call(name, s)
    alike('%s called again' % name, s, again, first)
    for v, c in zip(again, first):
        if any(numpy.shares_memory(v, w) for w in res):
            raise Violation('alias', '%s: results share storage' % name)


def history(case):
    """A run of calls, each compared with the model of a fresh call."""
    s = dict(case['s'])
    for op in case['ops']:
        for k, d in op['move'].items():
            s[k] = [a + b for a, b in zip(s[k], d)]
        cur = dict(s, dt=op['dt'])
        want, scale = motion.model_position(op['fn'], cur)
        res = motion.call(op['fn'], cur,
                          lambda v: motion.container(v, op['kind']))
        num.close('%s position after earlier calls' % op['fn'], res[0], want,
                  1e-12 * scale + 1e-300)
        if not op['fn'].startswith('drm_r'):
            num.close('%s orientation after earlier calls' % op['fn'], res[1],
                      [float(c) for c in s['ori']], 0.0)
        else:
            rates, zone = motion.model_rates(
                [float(c) for c in s['ori']], s['ang'])
            want = [o + w * op['dt'] for o, w in zip(s['ori'], rates)]
            big = max(abs(o) + abs(w * op['dt'])
                      for o, w in zip(s['ori'], rates))
            if zone != 'edge':
                num.close('%s orientation after earlier calls' % op['fn'],
                          res[1], want, 1e-9 * big + 1e-300)
        if op['feed']:
            s['pos'] = [float(c) for c in res[0]]
            if all(abs(c) < 1e3 for c in res[1]):
                s['ori'] = [float(c) for c in res[1]]
        if op['poke']:
            for v in res:
                v[:] = 123.0


def nontrivial(case):
    s = case['s']
    return any(s['vel']) or any(s['acc']) or any(s['ang'])
