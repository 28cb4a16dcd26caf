"""C35  coordinate conversions are pure and indifferent to vector type."""
import copy
import math

import numpy

from vlib import history, motion, num, places, pristine, sut
from vlib.sut import Violation

from opendis import RangeCoordinates as RC

ID = 'C35'
RULE = ('one case = a history of 1 to 6 conversions on one GPS object, each '
        'called twice on the same arguments in generated containers, the '
        'first result being overwritten in between, and compared with plain '
        'lists on a new GPS object; non-trivial: every case')
ASSUMPTIONS = ['single-precision arrays are left out: numpy computes in the '
               'precision it is given']

# function -> kinds of its arguments
FNS = {'lla2ecef': 'g', 'ecef2lla': 'e', 'lla2utm': 'u', 'ecef2utm': 'v',
       'lla2gcc': 'gs', 'ecef2lla ': 'et', 'ecef2ned': 'ee', 'ecef2pae': 'ee', 'ned2ecef': 'ne',
       'ned2pae': 'n', 'llarpy2ecef': 'abhaaa', 'ecef2llarpy': 'xxxaaa',
       'ecefvec2nedvec': 'ba', 'rotate_3x3': 'ar', 'transpose': 'n',
       'utmLetterDesignator': 'l', 'euclideanDistance': 'n',
       'euclideanDistance ': 'nn', 'deg2rad': 'l', 'rad2deg': 'a', 'g0': 'b'}
KINDS = ['list', 'tuple', 'array', 'readonly', 'strided']


def arg(r, k):
    if k == 'g':
        return places.lla(r)
    if k == 'u':
        return [places.lat(r, 80.0), places.lon(r), places.alt(r)]
    if k == 'e':
        return ecef(r)
    if k == 'v':
        return list(num.geo2ecef(math.radians(places.lat(r, 79.9)),
                                 math.radians(places.lon(r)), places.alt(r)))
    if k == 't':
        return r.choice([1e-12, 1e-9, 1e-6, 1e-3, .1, 10.0])
    if k == 's':
        return r.choice(['', '10 20 30', '-70.5 -33.25 1000'])
    if k == 'n':
        m = 10 ** r.uniform(0, 7)
        return history.relate(r, [
            r.choice([r.uniform(-m, m), float(r.randint(-9, 9))])
            for _ in range(3)])
    if k == 'r':
        v = [r.uniform(-1, 1) for _ in range(3)]
        if r.random() < .3:
            v = [0.0, 0.0, 0.0]
            v[r.randrange(3)] = r.choice([1.0, -1.0])
        v = history.relate(r, v)
        n = num.norm(v) or 1.0
        return [c / n for c in v]
    if k == 'a':
        return places.angle(r)
    if k == 'b':
        return math.radians(places.lat(r, 89.9))
    if k == 'l':
        return places.lat(r, 84.0)
    if k == 'h':
        return places.alt(r)
    return r.uniform(2e6, 7e6) * r.choice([1, -1])      # x


def ecef(r):
    return history.relate(r, [
        r.uniform(1e6, 2e7) * r.choice([1, -1]) for _ in range(3)])


def cases(tier, rng_for, shard, nshards):
    r = rng_for('c35', shard)
    names = sorted(FNS)
    for i in range(12000 if tier == 'quick' else 120000):
        seq = []
        n = r.choice([1, 2, 3, 6])
        few = r.sample(names, r.choice([1, 2, 4]))
        for j in range(n):
            f = names[i % len(names)] if j == 0 else r.choice(few)
            if j and r.random() < .5:
                seq.append(copy.deepcopy(r.choice(seq)))
                seq[-1]['kind'] = r.choice(KINDS)
                x = r.random()
                if x < .35:
                    # but for a single number
                    one = seq[-1]['args']
                    at = [(k, i) for k, a in enumerate(one)
                          if not isinstance(a, str)
                          for i in range(len(a) if isinstance(a, list)
                                         else 1)]
                    k, i = r.choice(at)
                    if isinstance(one[k], list):
                        one[k][i] = history.other(r, one[k][i])
                    elif FNS[seq[-1]['fn']][k] != 't':
                        one[k] = history.other(r, one[k])
                elif x < .75:
                    # almost the same arguments
                    for k, a in enumerate(seq[-1]['args']):
                        if isinstance(a, list) and r.random() < .7:
                            m = 10 ** r.uniform(-6, -1)
                            a[:] = [c + r.choice([0, m, -m]) for c in a]
                continue
            seq.append(dict(fn=f, kind=r.choice(KINDS),
                            args=[arg(r, k) for k in FNS[f]],
                            ints=r.random() < .2))
            x = r.random()
            if FNS[f] in ('ee', 'nn', 'ne') and x < .1:
                # the same object twice
                seq[-1]['args'][0] = list(seq[-1]['args'][1])
                seq[-1]['once'] = 1
            elif x < .3:
                seq[-1]['second'] = r.choice(KINDS)
            if r.random() < .1:
                seq[-1]['spoil'] = [r.choice(names), r.randrange(6),
                                    r.randrange(len(SPOILT))]
        yield 'history', dict(seq=seq)


SPOILT = [None, 'x', [], [1.0], [1.0, None, 3.0], ['a', 'b', 'c']]


def spoil(g, fn, which, what):
    """A call that fails, or not: what matters is what comes after it."""
    args = [[4e6, 3e6, 2e6] if k in 'ge' or k == 'n' else .5
            for k in FNS[fn]]
    args[which % len(args)] = SPOILT[what]
    try:
        call(g, fn, args)
    except (Exception, Violation):
        pass


def call(g, fn, args, RC=RC):
    name = fn.strip()
    if name == 'g0':
        f = g.wgs84.g0
    else:
        f = getattr(g, name, None) or getattr(RC, name)
    return sut.sut(name, f, *args)


def flat(v, out=None):
    """Numbers and texts of a result."""
    out = [] if out is None else out
    if isinstance(v, (list, tuple, numpy.ndarray)):
        for x in v:
            flat(x, out)
    elif isinstance(v, str):
        out.append(v)
    else:
        try:
            out.append(float(v))
        except (TypeError, ValueError):
            raise Violation('type', 'result contains %r' % (v,))
    return out


def overwrite(v):
    if isinstance(v, numpy.ndarray):
        if v.flags.writeable:
            v[...] = 77
    elif isinstance(v, list):
        for i, x in enumerate(v):
            if isinstance(x, (list, numpy.ndarray)):
                overwrite(x)
            else:
                v[i] = 77
    elif isinstance(v, tuple):
        for x in v:
            overwrite(x)


def agree(what, a, b, args):
    # another storage order of an argument may make numpy sum in another order
    big = max([0.0] + [abs(x) for x in flat(args) if not isinstance(x, str)])
    if len(a) != len(b):
        raise Violation('value', '%s: %r and %r' % (what, a, b))
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            ok = x == y
        else:
            ok = abs(x - y) <= 1e-9 + 1e-13 * max(abs(x), abs(y)) \
                + 4e-16 * big
        if not ok:
            raise Violation('value', '%s: %r and %r' % (what, a, b))


def frozen(args):
    return [a.tolist() if isinstance(a, numpy.ndarray) else copy.copy(a)
            for a in args]


def differ(args, before):
    """Also in the type or sign of a number."""
    return repr(frozen(args)) != repr(before)


def check(case):
    g = RC.GPS()
    for c in case['seq']:
        fn = c['fn']
        raw = c['args']
        if c['ints'] and fn != 'rotate_3x3':
            raw = [[int(x) for x in a] if isinstance(a, list) else a
                   for a in raw]
            raw = [int(a) if k in 'abhlx' else a
                   for k, a in zip(FNS[fn], raw)]
        fresh = [[float(x) for x in a] if isinstance(a, list) else
                 float(a) if isinstance(a, int) else a for a in raw]
        one, made = {}, []
        for a in raw:
            kind = c['kind'] if not made else c.get('second', c['kind'])
            if isinstance(a, list):
                box = motion.container(a, kind)
                a = one.setdefault(repr(a), box) if 'once' in c else box
            made.append(a)
        args = made
        if c['kind'] != 'list':
            args = [numpy.float64(a) if isinstance(a, float)
                    and c['kind'] != 'tuple' else a for a in args]
        before = frozen(args)
        if 'spoil' in c:
            spoil(g, *c['spoil'])
        first = call(g, fn, args)
        one = flat(first)
        if differ(args, before):
            raise Violation('purity', '%s changed its arguments: %r, were %r'
                            % (fn, args, before))
        for a in args:
            if isinstance(a, numpy.ndarray):
                for part in (first if isinstance(first, tuple)
                             else [first]):
                    if isinstance(part, numpy.ndarray) \
                            and numpy.shares_memory(part, a):
                        raise Violation('aliasing', '%s returns a view of '
                                        'its argument' % fn)
        overwrite(first)
        if differ(args, before):
            raise Violation('aliasing', '%s: writing to the result changed '
                            'the arguments' % fn)
        agree('%s called again on %r' % (fn, before),
              flat(call(g, fn, args)), one, fresh)
        new = pristine.fresh(RC.__name__)
        agree('%s of %r as %s and as list' % (fn, before, c['kind']), one,
              flat(call(new.GPS(), fn, fresh, new)), fresh)


def nontrivial(case):
    return True
