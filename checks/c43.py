"""C43  a long session leaves nothing behind."""
import gc
import locale
import math
import os
import random
import sys
import threading
import time
import tracemalloc
import warnings

import numpy

from vlib import codec, common, engine, gen, lines, motion, num, places, sut
from vlib.sut import Violation

from opendis.RangeCoordinates import GPS

ID = 'C43'
RULE = ('one case = a session of at least two thousand encodings, decodings '
        '(good and bad), coordinate conversions and extrapolations, every one with '
        'other values, or one message with one of its lists at four '
        'sizes; non-trivial: every case')
ASSUMPTIONS = ['memory is judged by the number of blocks CPython has '
               'allocated after a collection; a cache that stops growing '
               'within 16,000 calls is no leak',
               'cost is judged by executed lines and turns of loops']

FUZZ = False
PHASE = dict(quick=400, thorough=3000)
DECODABLE = [n for n in codec.PDU_NAMES if common.in_factory(n)]
GEO = {'lla2ecef': 'l', 'ecef2lla': 'e', 'lla2utm': 'u', 'ecef2utm': 'v',
       'ecef2ned': 'ee', 'ecef2pae': 'ee', 'ned2ecef': 'ne', 'ned2pae': 'n',
       'llarpy2ecef': 'bahaaa', 'ecef2llarpy': 'eaaa', 'lla2gcc': 'ls',
       'ecefvec2nedvec': 'ba'}
COUNTER = lines.Counter()


def kinds():
    for n in codec.PDU_NAMES:
        yield ['enc', n]
        yield ['tick', n]
        if n in DECODABLE:
            yield ['dec', n]
            yield ['bad', n]
            yield ['file', n]
    for n in sorted(GEO):
        yield ['geo', n]
    for n in motion.NAMES:
        yield ['dr', n]
    yield ['unknown', '']


KINDS = list(kinds())


def sized():
    for n in codec.PDU_NAMES:
        if n == 'UaPdu':
            continue
        for f in codec.SPECS[n].lists.values():
            c = codec.SPECS[n].count_of(f.name)
            if c is not None and c.fmt != 'bits':
                top = min(1024, gen.max_len(codec.SPECS[n], f))
                if top >= 64:
                    yield n, f.name, top


def cases(tier, rng_for, shard, nshards):
    for i, (n, f, top) in enumerate(sized()):
        for j, way in enumerate(('enc', 'dec')):
            if (2 * i + j) % nshards == shard:
                yield 'size', dict(what='size', pdu=n, list=f, top=top,
                                   way=way)
    bulk = [(n, f, way) for n, f, top in sized() if codec.SPECS[n].count_of(
        f).fmt in ('u16', 'u32') for way in ('enc', 'dec')]
    bulk += [('VariableDatum', None, w) for w in ('enc', 'dec')]
    for i, (n, f, way) in enumerate(bulk):
        if i % nshards == shard:
            yield 'bulk', dict(what='bulk', pdu=n, list=f, way=way, long=1)
    r = rng_for('c43', shard)
    t = dict(quick=1, thorough=3)[tier]
    ks = KINDS
    mine = ks[shard::nshards]
    for _ in range(t):
        r.shuffle(mine)
        for i in range(0, len(mine), 4):
            yield 'session', dict(what='session', ops=mine[i:i + 4],
                                  seed=r.getrandbits(32), n=PHASE[tier],
                                  long=1)
    for _ in range(2 * t):
        yield 'session', dict(what='session', seed=r.getrandbits(32), long=1,
                              n=PHASE[tier],
                              ops=[r.choice(ks) for _ in range(5)])


def arg(r, k):
    if k == 'l':
        return places.lla(r)
    if k == 'u':
        return [r.uniform(-80, 80), places.lon(r), places.alt(r)]
    if k == 'v':
        return list(num.geo2ecef(r.uniform(-1.39, 1.39), r.uniform(-3.1, 3.1),
                                 r.uniform(-1e3, 1e5)))
    if k == 'e':
        return places.ecef(r)
    if k == 'n':
        m = 10 ** r.uniform(0, 7)
        return [r.uniform(-m, m) for _ in range(3)]
    if k == 's':
        return '%r %r %r' % (r.uniform(-180, 180), r.uniform(-90, 90),
                             r.uniform(0, 1e4))
    if k == 'b':
        return math.radians(places.lat(r, 89.9))
    if k == 'h':
        return places.alt(r)
    return places.angle(r)


def fresh_tree(r, name):
    """A tree hardly ever seen before, with no special values."""
    t = gen.signature(name, r.choice([1, 1, 2]), r.randrange(251))
    freshen(r, codec.SPECS[name], t)
    if 'length' in t:
        t['length'] = len(codec.enc(name, t)) & 0xffff
    return t


FREE = {'siteID', 'applicationID', 'entityID', 'site', 'application',
        'entity', 'timestamp', 'exerciseID', 'requestID', 'entityNumber',
        'siteNumber', 'applicationNumber', 'eventNumber', 'radioID',
        'radioNumber', 'referenceNumber', 'country'}


def freshen(r, spec, t):
    for f in spec.fields:
        if f.kind == 'scalar':
            if f.fmt[0] == 'f':
                t[f.name] = float(r.randrange(1 << 22))
            elif f.name in FREE:
                t[f.name] = r.randint(*codec.RANGE[f.fmt])
        elif f.kind == 'rec':
            freshen(r, codec.SPECS[f.cls], t[f.name])
        elif f.kind == 'list' and f.elem.startswith('SV('):
            # records of types never seen before
            if r.random() < .5:
                t[f.name] = [{'$sv': 'unknown',
                              'recordType': r.randrange(5000, 1 << 32),
                              'data': '17' * 10} for _ in t[f.name]]
        elif f.kind == 'list' and f.elem in codec.SPECS:
            for e in t[f.name]:
                freshen(r, codec.SPECS[f.elem], e)


class Session:
    def __init__(self, case):
        self.case = case
        self.gps = GPS()
        self.kept = {}
        self.first = {}

    def do(self, op, j):
        k, name = op
        again = hash((j, self.case['seed'])) % 3 == 0 and k in ('geo', 'dr')
        if again:
            j %= 32
        r = random.Random('%d/%d/%s' % (self.case['seed'], j, op))
        if k == 'enc':
            tree = fresh_tree(r, name)
            obj = sut.build(name, tree, gen.MODES[j % 3])
            return self.encoded(name, tree, obj)
        if k == 'tick':
            # one object, updated and sent again and again
            if name not in self.kept:
                tree = fresh_tree(r, name)
                self.kept[name] = tree, sut.build(name, tree, 'assign')
            tree, obj = self.kept[name]
            obj.timestamp = tree['timestamp'] = r.randrange(1 << 32)
            return self.encoded(name, tree, obj)
        if k in ('dec', 'bad', 'file'):
            tree = fresh_tree(r, name)
            data = codec.enc(name, tree)
            if k == 'bad' or k == 'file' and j % 3 == 2:
                data = data[:r.randrange(3, len(data))]
                tree = None
            how, what = sut.factory.createPdu, data
            if k == 'file':
                how = sut.factory.createPduFromFilePath
                what = os.path.join(engine.scratch(), 'message.raw')
                with open(what, 'wb') as f:
                    f.write(data)
            return self.decoded(name, tree, how, what)
        if k == 'unknown':
            data = bytearray(r.randbytes(r.randrange(3, 60)))
            data[2] = r.choice([t for t in range(256)
                                if t not in codec.FACTORY])
            return self.decoded(None, None, sut.factory.createPdu,
                                bytes(data))
        if k == 'geo':
            a = [arg(r, x) for x in GEO[name]]
            if name == 'ecef2llarpy':
                a = a[0] + a[1:]
            f = getattr(self.gps, name)
            got = self.run(lambda: sut.sut(name, f, *a))
        else:
            s = motion.state(r)
            got = self.run(lambda: motion.call(name, s))
        if again:
            got = repr(got)
            if self.first.setdefault((k, name, j), got) != got:
                raise Violation('value', '%s gave %s at first and later %s'
                                % (name, self.first[k, name, j], got))

    def encoded(self, name, tree, obj):
        got = self.run(lambda: sut.serialize(obj))
        want = codec.enc(name, tree)
        if got != want:
            raise Violation('value', '%s: %s' % (
                name, sut.diff_bytes(want, got)))

    def decoded(self, name, tree, how, what):
        try:
            pdu = self.run(lambda: how(what))
        except Exception as e:
            if tree is not None:
                raise Violation('value', '%s was rejected: %r' % (name, e))
            return
        if name is None and pdu is not None:
            raise Violation('value', 'type %d gave %r' % (what[2], pdu))
        if tree is not None:
            d = sut.same(sut.expected(name, tree), sut.extract(name, pdu),
                         name)
            if d:
                raise Violation('value', d)

    def run(self, f):
        if self.counting:
            with COUNTER:
                try:
                    return f()
                finally:
                    self.lines = COUNTER.n
        return f()

    counting = False

    def cost(self, op, j):
        self.counting = True
        try:
            self.do(op, j)
            return self.lines
        finally:
            self.counting = False

    def phase(self, start, n):
        for j in range(start, start + n):
            for op in self.case['ops']:
                self.do(op, j)
        gc.collect()
        return sys.getallocatedblocks()


def world():
    """Settings of the process which are not the library's to change."""
    return dict(
        numpy_errors=numpy.geterr(), print_options=repr(
            numpy.get_printoptions()),
        random=hash(random.getstate()),
        numpy_random=hash(numpy.random.get_state()[1].tobytes()),
        recursion=sys.getrecursionlimit(), collector=gc.isenabled(),
        thresholds=gc.get_threshold(), locale=locale.setlocale(
            locale.LC_ALL), environment=hash(tuple(sorted(
                os.environ.items()))), directory=os.getcwd(),
        path=tuple(sys.path), filters=len(warnings.filters),
        streams=(id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        hooks=(sys.excepthook, sys.gettrace(), sys.getprofile()),
        files=len(os.listdir('/proc/self/fd')),
        threads=threading.active_count(), switch=sys.getswitchinterval())


def check(case):
    if case['what'] == 'size':
        return size(case)
    if case['what'] == 'bulk':
        return bulk(case)
    s = Session(case)
    ops = case['ops']
    if not ops or any(op not in KINDS for op in ops):
        raise AssertionError
    before = world()
    first = [max(s.cost(op, 0), s.cost(op, 0)) for op in ops]
    n = case['n']
    if not 100 <= n <= 10000:
        raise AssertionError
    blocks = [s.phase(1 + i * n, n) for i in range(5)]
    last = [min(s.cost(op, 0), s.cost(op, 0)) for op in ops]
    after = world()
    for k in before:
        if before[k] != after[k]:
            raise Violation('world', '%s was %r and became %r' % (
                k, before[k], after[k]))
    for op, a, b in zip(ops, first, last):
        if b > 1.5 * a + 300:
            raise Violation('cost', '%s %s took %d lines at first and %d '
                            'after %d calls' % (*op, a, b, 5 * n))

    def grows(b, k):
        return all(y - x > .02 * k for x, y in zip(b, b[1:]))
    if grows(blocks[2:], n):
        # a cache that fills up, or a leak?
        if os.environ.get('C43_SHOW'):
            print('suspicious', ops, blocks)
        more = [s.phase(10 ** 6 + i * 1600, 1600) for i in range(10)]
        if grows(more[-4:], 1600):
            raise Violation('memory', 'after %d rounds of %r the number of '
                            'allocated blocks still grows by %.1f each '
                            'round' % (5 * n + 16000, ops, (more[-1] - more[-4])
                                       / 4800))


def size(case):
    name, lst, top, way = (case[k] for k in ('pdu', 'list', 'top', 'way'))
    cost, peak, octets = [], [], []
    # once without measuring: caches and imports
    for n in (2, top // 16, top // 4, top):
        work, n = worker(name, lst, n, way)
        work()
        with COUNTER:
            work()
        cost.append(COUNTER.n)
        tracemalloc.start()
        try:
            kept = work()
            peak.append(tracemalloc.get_traced_memory()[1])
        finally:
            tracemalloc.stop()
        octets.append(n)
    for what, v, slack in (('lines', cost, 1000), ('octets of memory', peak,
                                                   100000)):
        a, b = v[2] - v[1], v[3] - v[2]
        if b > 1.5 * 4 * max(a, 0) + slack:
            raise Violation('cost', '%s of %s with %s elements in %s: %r %s'
                            % (way, name, (2, top // 16, top // 4, top), lst,
                               v, what))
    for v, o in zip(peak, octets):
        if v > 150000 + 80 * o:
            raise Violation('cost', '%s of %s, %d octets, takes %d octets of '
                            'memory' % (way, name, o, v))
    if os.environ.get('C43_SHOW'):
        print(name, lst, way, cost, peak, octets)


def worker(name, lst, n, way):
    """A function that encodes or decodes a message with n elements."""
    if lst is None:
        tree = dict(variableDatumID=1, variableDatumLength=8 * n,
                    variableData=[i % 251 for i in range(n)])
    else:
        tree = gen.signature(name, 1)
        els = [gen.signature(name, 1, k)[lst][0] for k in range(0, 217, 31)]
        tree[lst] = [els[i % len(els)] for i in range(n)]
        if 'length' in tree:
            tree['length'] = len(codec.enc(name, tree)) & 0xffff
    if way == 'dec':
        data = codec.enc(name, tree)
        return lambda: sut.parse_into(name, data), len(data)
    obj = sut.build(name, tree)
    return lambda: sut.serialize(obj), len(codec.enc(name, tree))


def bulk(case):
    name, lst, way = (case[k] for k in ('pdu', 'list', 'way'))
    top = 50000
    if lst is not None:
        top = min(30000, gen.max_len(codec.SPECS[name], codec.SPECS[
            name].lists[lst]))
        if codec.SPECS[name].lists[lst].elem.startswith('SV('):
            top //= 3

    def cpu(f):
        gc.collect()
        gc.disable()
        try:
            t = time.process_time()
            f()
            return time.process_time() - t
        finally:
            gc.enable()
    few = worker(name, lst, top // 4, way)[0]
    many = worker(name, lst, top, way)[0]
    for _ in range(4):
        a, b = max(cpu(few), cpu(few)), cpu(many)
        if os.environ.get('C43_SHOW'):
            print(name, lst, way, top, a, b, b / a)
        if b < 7 * a + .05:
            return
    raise Violation('cost', '%s of %s with %d elements in %s took %.3f s, '
                    'with %d only %.3f s' % (way, name, top, lst, b,
                                             top // 4, a))


def nontrivial(case):
    return True
