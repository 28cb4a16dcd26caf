"""C41  use from several threads."""
import os
import pickle
import random
import signal
import time

from vlib import codec, common, gen, interleave, motion, places, sut
from vlib.sut import Violation

from opendis.RangeCoordinates import GPS

ID = 'C41'
RULE = ('one case = two or three threads, each with a list of encodings, '
        'decodings (good and bad), coordinate conversions and extrapolations '
        'on objects of its own (a GPS object and a message to encode may be '
        'shared), run under a generated line-by-line schedule, or a pair of '
        'operations in two threads, the second one inserted after every '
        'single line (or instruction) of the first, also as the very first use '
        'of the library in a process; non-trivial: such a pair '
        'or a schedule of at least 10 turns')
ASSUMPTIONS = ['one thread runs at a time, switches fall between lines or '
               'bytecode instructions of the library']

FUZZ = False      # the schedules need threads
BUDGET = 6.0      # seconds for the preemption points of one pair
FINE = 1.0        # ... between instructions
WALL = {'quick': 125, 'thorough': 700}
FIRST = 2.0       # ... of the very first use of the library
DECODABLE = [n for n in codec.PDU_NAMES if common.in_factory(n)]
GEO = {'lla2ecef': 'lla', 'ecef2lla': 'ecef', 'lla2utm': 'lla',
       'ecef2utm': 'ecef', 'ecef2ned': 'two', 'ecef2pae': 'two',
       'ned2ecef': 'two', 'llarpy2ecef': 'six', 'ecef2llarpy': 'sixe',
       'lla2gcc': 'lla'}


def gen_op(r, fav):
    x = r.random()
    if x < .3:
        n = fav if r.random() < .6 else r.choice(codec.PDU_NAMES)
        return dict(op='enc', name=n, tree=gen.gen(n, r, rich=.6),
                    mode=r.choice(gen.MODES))
    if x < .55:
        n = fav if r.random() < .6 and fav in DECODABLE \
            else r.choice(DECODABLE)
        return dict(op='dec', name=n, tree=gen.gen(n, r, rich=.6))
    if x < .62:
        n = r.choice(DECODABLE)
        data = codec.enc(n, gen.gen(n, r, rich=.6))
        return dict(op='bad', hex=data[:r.randrange(3, len(data))].hex())
    if x < .7:
        return dict(op='shared')
    if x < .85:
        return gen_geo(r, r.choice(sorted(GEO)))
    return dict(op='dr', name=r.choice(motion.NAMES), state=motion.state(r))


def gen_geo(r, f):
    p = places.lla(r)
    kind = GEO[f]
    if kind == 'lla':
        a = [p]
    elif kind == 'ecef':
        a = [ecef(r)]
    elif kind == 'two':
        a = [ecef(r), ecef(r)]
    elif kind == 'six':
        a = [places.angle(r) / 2, places.angle(r), p[2],
             places.angle(r), places.angle(r), places.angle(r)]
    else:
        a = ecef(r) + [places.angle(r) for _ in range(3)]
    return dict(op='geo', name=f, args=a)


def ecef(r):
    return [r.uniform(3e6, 7e6) * r.choice([1, -1]) for _ in range(3)]


def pairs(r):
    """Two operations of the same kind, for every kind."""
    for n in codec.PDU_NAMES:
        k = 3 if n in ('TransmitterPdu', 'DirectedEnergyFirePdu',
                       'EntityDamageStatusPdu') else 1
        a, b = gen.signature(n, k), gen.signature(n, k, 101)
        enc = [dict(op='enc', name=n, tree=t, mode='assign') for t in (a, b)]
        dec = [dict(op='dec', name=n, tree=t) for t in (a, b)]
        yield n, enc
        yield n, [dict(op='shared')] * 2
        if n in DECODABLE:
            yield n, dec
            yield n, [enc[0], dec[1]]
            yield n, [dec[0], enc[1]]
            data = codec.enc(n, b)
            yield n, [dec[0], dict(op='bad', hex=data[:len(data) - 1].hex())]
    for f in sorted(GEO):
        for _ in range(3):
            yield 'CreateEntityPdu', [gen_geo(r, f), gen_geo(r, f)]
    for f in sorted(GEO):
        yield 'CreateEntityPdu', [gen_geo(r, f),
                                  gen_geo(r, r.choice(sorted(GEO)))]
    for f in motion.NAMES:
        for _ in range(3):
            yield 'CreateEntityPdu', [
                dict(op='dr', name=f, state=motion.state(r))
                for _ in range(2)]


def firsts(r, n):
    """Pairs of operations with which the use of the library begins."""
    out = [[gen_geo(r, f), gen_geo(r, f)] for f in sorted(GEO)]
    out += [[dict(op='dr', name=f, state=motion.state(r)) for _ in range(2)]
            for f in motion.NAMES]
    for i, name in enumerate(gen.rotate(r, list(codec.PDU_NAMES), n)):
        k = 3 if name in ('TransmitterPdu', 'DirectedEnergyFirePdu',
                          'EntityDamageStatusPdu') else 1
        a, b = gen.signature(name, k), gen.signature(name, k, 101)
        ops = [[dict(op=o, name=name, tree=t, mode='assign')
                for t in (a, b)] for o in ('enc', 'dec')]
        if name in DECODABLE and (k == 3 or i % 3):
            other = r.choice(DECODABLE)
            out.append(r.choice([ops[1], [ops[0][0], ops[1][1]], [
                ops[1][0], dict(op='dec', name=other,
                                tree=gen.signature(other, 1))]]))
        else:
            out.append(ops[0])
    r.shuffle(out)
    return out


def cases(tier, rng_for, shard, nshards):
    # before this process has used the library: every case and every
    # switching point in a process of its own
    t_end = time.monotonic() + (25 if tier == 'quick' else 150)
    for i, ops in enumerate(firsts(rng_for('first'), 400)):
        if i % nshards == shard:
            yield 'first-use', dict(
                threads=[[ops[0]], [ops[1]]], one_gps=True, first=True,
                schedule=None, shared=['CreateEntityPdu', {}])
            if time.monotonic() > t_end:
                break
    r = rng_for('pairs')
    k = r.randrange(64)

    def turn(i):
        return i * 7 // 4 + k
    for i, (n, ops) in enumerate(pairs(r)):
        if i % nshards == shard:
            yield 'preemption', dict(
                threads=[[ops[0]], [ops[1]]], one_gps=True, schedule=None,
                shared=[n, gen.signature(n, 1)])
            if tier != 'quick' or turn(i) % 4 == 0 \
                    or ops[0]['op'] in ('geo', 'dr'):
                yield 'preemption-fine', dict(
                    threads=[[ops[0]], [ops[1]]], one_gps=True, fine=True,
                    schedule=None, shared=[n, gen.signature(n, 1)])
    r = rng_for('c41', shard)
    order = gen.rotate(r, list(codec.PDU_NAMES), 10 ** 6)
    for i in range(400 if tier == 'quick' else 12000):
        fav = next(order)
        if i % 4 == 0:
            # the same kind of work in every thread
            f = gen_op(r, fav)
            threads = []
            for _ in range(2):
                while True:
                    g = gen_op(r, fav)
                    if g['op'] == f['op'] and (
                            f['op'] != 'geo' or g['name'] == f['name']):
                        break
                threads.append([g])
        else:
            threads = [[gen_op(r, fav) for _ in range(r.randint(1, 3))]
                       for _ in range(r.choice([2, 2, 3]))]
        fine = r.random() < .3
        top = r.choice([4, 20, 80, 300] if fine else [2, 4, 10, 40])
        yield 'interleaving', dict(
            threads=threads, shared=[fav, gen.gen(fav, r, rich=.6)],
            one_gps=r.random() < .7, fine=fine,
            schedule=[r.randint(1, top)
                      for _ in range(r.choice([10, 60, 200]))])


def perform(op, gps, message):
    k = op['op']
    if k == 'enc':
        return sut.serialize(sut.build(op['name'], op['tree'], op['mode']))
    if k == 'dec':
        obj = sut.decode(codec.enc(op['name'], op['tree']))
        return sut.extract(op['name'], obj)
    if k == 'bad':
        try:
            sut.factory.createPdu(bytes.fromhex(op['hex']))
        except Exception:
            pass
        return None
    if k == 'shared':
        return sut.serialize(message)
    if k == 'geo':
        return repr(getattr(gps, op['name'])(*[
            list(a) if isinstance(a, list) else a for a in op['args']]))
    return repr([list(v) for v in motion.call(op['name'], op['state'])])


def apart(f, *a):
    """f(*a) in a child process."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            signal.alarm(30)
            try:
                out = (True, f(*a))
            except Violation as v:
                out = (False, (v.kind, v.detail))
            with os.fdopen(w, 'wb') as out_file:
                pickle.dump(out, out_file)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('the child process ended without a result')
    ok, res = pickle.loads(data)
    if not ok:
        raise Violation(*res)
    return res


def jobs_of(case, message=None):
    gps = GPS()

    def job(ops):
        g = gps if case['one_gps'] else GPS()
        return lambda: [perform(op, g, message) for op in ops]
    return [job(t) for t in case['threads']]


def first_use(case, k):
    out, _ = interleave.run(jobs_of(case), [k, 1 << 40])
    compare(case, out)


def check_first(case):
    n = apart(lambda: interleave.points(jobs_of(case)[0]))
    points = list(range(1, n + 1))
    random.Random(1).shuffle(points)
    t_end = time.monotonic() + FIRST
    for k in points:
        try:
            apart(first_use, case, k)
        except Violation as v:
            raise Violation(v.kind, 'first use of the library, switching '
                            'after step %d: %s' % (k, v.detail))
        if time.monotonic() > t_end:
            break


def check(case):
    if case.get('first'):
        return check_first(case)
    name, tree = case['shared']
    message = sut.build(name, tree, 'assign')
    jobs = jobs_of(case, message)
    fine = bool(case.get('fine'))
    if case['schedule']:
        out, _ = interleave.run(jobs, case['schedule'], fine)
        return compare(case, out)
    # the second thread runs as a whole after every number of lines of the
    # first
    t_end = time.monotonic() + (FINE if fine else BUDGET)
    out, n = interleave.run(jobs, [1], fine)
    compare(case, out)
    points = list(range(1, interleave.points(jobs[0], fine) + 1))
    random.Random(1).shuffle(points)
    for k in points:
        out, n = interleave.run(jobs, [k, 1 << 40], fine)
        try:
            compare(case, out)
        except Violation as v:
            raise Violation(v.kind, 'switching after step %d: %s' % (
                k, v.detail))
        if time.monotonic() > t_end:
            break


def compare(case, out):
    name, tree = case['shared']
    for i, (ops, (ok, res)) in enumerate(zip(case['threads'], out)):
        if not ok:
            if isinstance(res, Violation):
                raise Violation('thread', 'in thread %d: %s' % (i, res.detail))
            raise res
        for op, got in zip(ops, res):
            where = '%s %s in thread %d: ' % (op['op'], op.get('name', ''), i)
            k = op['op']
            if k in ('enc', 'shared'):
                n, t = (op['name'], op['tree']) if k == 'enc' else (name, tree)
                want = codec.enc(n, t)
                if got != want:
                    raise Violation('thread', where + sut.diff_bytes(want,
                                                                     got))
            elif k == 'dec':
                d = sut.same(sut.expected(op['name'], op['tree']), got,
                             op['name'])
                if d:
                    raise Violation('thread', where + d)
            elif k in ('geo', 'dr'):
                want = perform(op, GPS(), None)
                if got != want:
                    raise Violation('thread', where + 'got %s, alone %s' % (
                        got, want))


def nontrivial(case):
    return not case['schedule'] or len(case['schedule']) >= 10
