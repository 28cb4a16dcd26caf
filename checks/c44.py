"""C44  the results depend on nothing but the inputs."""
import math

from vlib import codec, common, elsewhere, gen, motion, num, places
from vlib.sut import Violation

ID = 'C44'
RULE = ('one case = a list of encodings, decodings (good and bad), refused '
        'values, coordinate conversions and extrapolations carried out, in '
        'another order, in a new process with its own hash seed, '
        'interpreter flags, locale, time zone, clock, random state, working '
        'directory and order of imports; non-trivial: every case')
ASSUMPTIONS = ['numbers computed in different processes may differ by 1e-12 '
               'of their size, or 1e-9', 'the locales C, C.utf8 and POSIX '
               'are the only ones installed']

FUZZ = False
DECODABLE = [n for n in codec.PDU_NAMES if common.in_factory(n)]
GEO = {'lla2ecef': 'l', 'ecef2lla': 'e', 'lla2utm': 'u', 'ecef2utm': 'v',
       'ecef2ned': 'ee', 'ecef2pae': 'ee', 'ned2ecef': 'ne', 'ned2pae': 'n',
       'llarpy2ecef': 'bahaaa', 'lla2gcc': 'ls', 'utmLetterDesignator': 'd',
       'ecefvec2nedvec': 'ba'}


def arg(r, k):
    if k == 'l':
        return places.lla(r)
    if k == 'u':
        return [places.lat(r, 80.0), places.lon(r), places.alt(r)]
    if k == 'v':
        return list(num.geo2ecef(r.uniform(-1.39, 1.39), r.uniform(-3.1, 3.1),
                                 r.uniform(-1e3, 1e5)))
    if k == 'e':
        return places.ecef(r)
    if k == 'n':
        m = 10 ** r.uniform(0, 7)
        return [r.uniform(-m, m) for _ in range(3)]
    if k == 's':
        return '%r %r %r' % (r.uniform(-180, 180), r.uniform(-90, 90),
                             r.uniform(0, 1e4))
    if k == 'b':
        return math.radians(places.lat(r, 89.9))
    if k == 'h':
        return places.alt(r)
    if k == 'd':
        return places.lat(r, 84.0)
    return places.angle(r)


def operation(r, name):
    x = r.random()
    if x < .35:
        return dict(op='enc', name=name, tree=gen.gen(name, r, rich=.6),
                    mode=r.choice(gen.MODES))
    if x < .45:
        tree = gen.gen(name, r, rich=.6)
        at = [(path, f) for path, f, _, _ in codec.walk(name, tree)
              if f.kind == 'scalar' and f.fmt[0] != 'f'
              and not any(str(p).startswith('$') for p in path)]
        if not at:
            return operation(r, r.choice(codec.PDU_NAMES))
        path, f = r.choice(at)
        lo, hi = codec.RANGE[f.fmt]
        return dict(op='misfit', name=name, tree=tree,
                    path=[*path, f.name],
                    value=r.choice([lo - 1, hi + 1, hi * 2 + 2, -hi - 3,
                                    None, 'x', 1.5]))
    if x < .75:
        if name not in DECODABLE:
            name = r.choice(DECODABLE)
        data = codec.enc(name, gen.gen(name, r, rich=.6))
        if r.random() < .3:
            _, data = common.mutate_bytes(r, data)
            data = bytes(data)
        return dict(op='dec', hex=data.hex(), file=r.random() < .2)
    if x < .9:
        f = r.choice(sorted(GEO))
        return dict(op='geo', name=f, args=[arg(r, k) for k in GEO[f]])
    return dict(op='dr', name=r.choice(motion.NAMES), state=motion.state(r))


EXTRA = [('HOME', '/nonexistent'), ('USER', 'nobody'), ('DEBUG', '1'),
         ('PYTHONDEVMODE', '1'), ('PYTHONIOENCODING', 'ascii'),
         ('COLUMNS', '7'), ('TERM', 'dumb'), ('CI', 'true')]


def surroundings(r):
    loc = r.choice(['C', 'C.utf8', 'POSIX'])
    mods = list(elsewhere.MODULES)
    r.shuffle(mods)
    env = dict(PYTHONHASHSEED=str(r.randrange(1, 2 ** 32)), LC_ALL=loc,
               TZ=r.choice(['UTC', 'Asia/Kathmandu', 'XXX+11', 'YYY-14']))
    if r.random() < .3:
        env['PYTHONUTF8'] = r.choice('01')
    for k, v in EXTRA:
        if r.random() < .3:
            env[k] = v
    return dict(env=env, flags=r.choice([[], [], ['-O'], ['-OO'],
                                         ['-X', 'dev'], ['-W', 'error'],
                                         ['-bb']]),
                cwd=r.choice(['/', '/usr', '/tmp']),
                clock=r.choice([None, 0.0, 2 ** 31 + 5.5, r.uniform(0, 4e9)]),
                pace=r.choice([0, 0, 1e-6, .37, 4000.1]),
                streams=r.choice(['', '', 'none', 'broken']),
                collector=r.choice(['', '', 'off', 'often']),
                gone=r.random() < .25, thread=r.random() < .3,
                strict=r.random() < .3, trace=r.random() < .15,
                seed=r.getrandbits(31), order=r.getrandbits(31),
                print=r.choice([0, 0, 2, 17]),
                imports=mods[:r.randrange(len(mods) + 1)])


def cases(tier, rng_for, shard, nshards):
    r = rng_for('c44', shard)
    names = gen.rotate(r, codec.PDU_NAMES + codec.RECORD_NAMES, 10 ** 6)
    for _ in range(12 if tier == 'quick' else 300):
        yield 'process', dict(ops=[
            operation(r, next(names)) for _ in range(200)],
            where=surroundings(r), long=1)


def check(case):
    w = case['where']
    if sorted(w) != ['clock', 'collector', 'cwd', 'env', 'flags', 'gone',
                     'imports', 'order', 'pace', 'print', 'seed', 'streams',
                     'strict', 'thread', 'trace'] or not w['cwd'] or \
            set(w['env']) - {'PYTHONHASHSEED', 'LC_ALL', 'TZ',
                             'PYTHONUTF8', *dict(EXTRA)} \
            or any(w['env'].get(k, v) != v for k, v in EXTRA) \
            or not w['env'].get('PYTHONHASHSEED', '1').isdigit() or \
            w['env'].get('PYTHONUTF8', '1') not in ('0', '1'):
        raise AssertionError
    here = elsewhere.everything(case['ops'], range(len(case['ops'])))
    there = elsewhere.run(case['ops'], w)
    if isinstance(there, str):
        raise Violation('process', 'the other process ended: ' + there)
    for op, a, b in zip(case['ops'], here, there):
        if not close(a, b):
            raise Violation('differs', '%s %s gave %s here and %s there' % (
                op['op'], op.get('name', op.get('hex', '')[:60]),
                cut(a), cut(b)))


def cut(v):
    v = repr(v)
    return v if len(v) < 300 else v[:300] + '...'


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(close, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or a != a and b != b or \
            abs(a - b) <= max(1e-9, 1e-12 * abs(a))
    return a == b


def nontrivial(case):
    return True
