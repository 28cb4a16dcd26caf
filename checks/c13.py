"""C13  every record on its own."""
from vlib import codec, common, gen, sut
from vlib.sut import Violation

ID = 'C13'
RULE = ('one case = one record (class, value tree, way of building it), '
        'encoded, measured, decoded and encoded again; directed boundary and '
        'list-size sweeps of every field plus random trees; non-trivial: at '
        'least 1 non-zero value')
ASSUMPTIONS = ['the reference layout table (vlib/layout.py) states the '
               'documented layout of each record',
               'the record length of a datum-like record that is a plain '
               'attribute is the caller\'s business, except in its default']

RECORDS = codec.RECORD_NAMES
# records that declare their own constant length by default
SELF_LENGTH = ['AngleDeception', 'BlankingSector', 'IOEffect',
               'IOCommunicationsNode', 'FalseTargetsAttribute']
KNOWN = ['FalseTargetsAttribute']
SIZED = {'UnknownRadio', 'UnknownAntennaPattern'}


def cases(tier, rng_for, shard, nshards):
    for name in SELF_LENGTH:
        if gen.hash_name(name) % nshards == shard and name not in KNOWN:
            yield 'length', dict(what='length', cls=name)
    for name in RECORDS:
        for label, c in common.in_modes(
                gen.sweep(name, 2, shard, nshards), 'cls', name):
            yield label, dict(c, what='record')
        for label, t in gen.sweep_pads(name, shard, nshards):
            yield label, dict(what='octets', cls=name,
                              data=codec.enc(name, t).hex())
    for label, c in common.long_cases(RECORDS, shard, nshards,
                                      common.LONGEST, 'cls'):
        yield label, dict(c, what='record')
    for name in sorted(SIZED):
        for n in (0, 1, 5, 8, 40, 255, 300):
            if n % nshards == shard:
                yield 'opaque', dict(what='opaque', cls=name,
                                     data=gen.gen_bytes(
                                         rng_for('op', n), n).hex())
    r = rng_for('c13', shard)
    for name in gen.rotate(r, RECORDS, 400 if tier == 'quick' else 2500):
        if r.random() < .7:
            yield 'random', dict(what='record', cls=name,
                                 tree=gen.gen(name, r),
                                 mode=r.choice(gen.MODES + ('shared', 'copied', 'typed')))
        else:
            t = gen.gen(name, r, pads=True)
            yield 'octets', dict(what='octets', cls=name,
                                 data=codec.enc(name, t).hex())


def measure(o, data, name):
    if hasattr(o, 'marshalledSize'):
        n = sut.sut('marshalledSize', o.marshalledSize)
        if n != len(data):
            raise Violation('size', '%s says %r octets but writes %d' % (
                name, n, len(data)))


def check(case):
    name, what = case['cls'], case['what']
    if what == 'length':
        o = sut.sut(name, sut.resolve(name))
        n = len(sut.serialize(o))
        if o.recordLength != n:
            raise Violation('length', '%s declares %r octets but has %d' % (
                name, o.recordLength, n))
        return
    if what == 'opaque':
        data = bytes.fromhex(case['data'])
        o = sut.resolve(name)(data)
        if sut.serialize(o) != data:
            raise Violation('bytes', name)
        measure(o, data, name)
        import io
        s = io.BytesIO(data + b'\x11\x22')
        b = sut.resolve(name)()
        sut.sut('parse', b.parse, sut.DataInputStream(s),
                bytelength=len(data))
        if s.tell() != len(data) or bytes(b.data) != data:
            raise Violation('value', '%s read %d of %d octets' % (
                name, s.tell(), len(data)))
        return
    if what == 'octets':
        data = bytes.fromhex(case['data'])
        tree, n = codec.dec(name, data)
        assert n == len(data)
        o = None
    else:
        tree = common.tree_of(case, 'cls')
        data = codec.enc(name, tree)
        o = sut.build(name, tree, case['mode'])
        got = sut.serialize(o)
        if got != data:
            raise Violation('layout', '%s: %s' % (
                name, sut.diff_bytes(data, got)))
        measure(o, data, name)
    back, used = sut.parse_into(name, data + b'\x5a\xa5\x5a')
    if used != len(data):
        raise Violation('consumed', '%s read %d of %d octets' % (
            name, used, len(data)))
    d = sut.same(sut.expected(name, tree), sut.extract(name, back), name)
    if d:
        raise Violation('value', d)
    measure(back, data, name)
    again = sut.serialize(back)
    want = codec.enc(name, tree)
    if again != want:
        raise Violation('bytes', '%s: %s' % (name,
                                             sut.diff_bytes(want, again)))


def nontrivial(case):
    return case['what'] != 'record' or 'long' in case or \
        common.leaf_stats(case['tree'])[0] > 0


def _false_targets():
    try:
        check(dict(what='length', cls='FalseTargetsAttribute'))
    except Violation:
        return True
    return False


PROBES = {'false-targets-length': _false_targets}
