"""C04  octets -> PDU -> octets."""
from vlib import codec, common, gen, sut
from vlib.sut import Violation

ID = 'C04'
RULE = ('one case = one well-formed message (any header and padding '
        'contents, unknown sections, or a damaged message that stays '
        'well-formed); non-trivial: at least 8 distinct octets after the '
        'header')
ASSUMPTIONS = ['a NaN may come back as another NaN only where the host '
               'float conversion does so',
               'the two reserved octets of an emission system record, the '
               'fill of a variable datum and the unused bits of the beam '
               'status are defined as zero']


def cases(tier, rng_for, shard, nshards):
    for label, c in common.pdu_cases(tier, rng_for, shard, nshards, 150, 3000,
                                     pads=True):
        yield label, dict(pdu=c['pdu'], data=codec.enc(
            c['pdu'], c['tree']).hex())
    r = rng_for('mut', shard)
    names = [n for n in codec.PDU_NAMES if common.in_factory(n)]
    for name in gen.rotate(r, names, 600 if tier == 'quick' else 4000):
        data = codec.enc(name, gen.gen(name, r, pads=True, rich=.6))
        what, data = common.mutate_bytes(r, data)
        if len(data) < 12 or data[2] not in codec.FACTORY:
            continue
        name = codec.FACTORY[data[2]]
        try:
            tree, n = codec.dec(name, data)
        except codec.Malformed:
            continue
        if codec.num_elements(name, tree) > 5000:
            continue
        yield 'damaged-' + what, dict(pdu=name, data=data.hex())
    yield from common.long_cases(codec.PDU_NAMES, shard, nshards)


def check(case):
    name, data = case['pdu'], common.data_of(case)
    try:
        tree, n = codec.dec(name, data)
    except codec.Malformed:
        raise AssertionError('not a well-formed message')
    # differs from data[:n] only in octets that are defined as zero
    want = codec.enc(name, tree)
    if common.in_factory(name):
        if data[2] != codec.SPECS[name].ptype:
            raise AssertionError('another type')
        pdu = sut.decode(data)
        if pdu is None:
            raise Violation('class', '%s decoded to None' % name)
    else:
        pdu, _ = sut.parse_into(name, data)
    got = sut.serialize(pdu)
    if got != want:
        raise Violation('bytes', '%s: %s' % (name, sut.diff_bytes(want, got)))


def nontrivial(case):
    return 'long' in case or len(set(case['data'][i:i + 2]
                   for i in range(24, len(case['data']), 2))) >= 8


def _bit_length_probe(name):
    """A Signal whose data length is 12 bits comes back announcing 16."""
    def probe():
        t = gen.signature(name, 2)
        data = bytearray(codec.enc(name, t))
        i = len(data) - 2 - 2 - 2       # data, samples, dataLength
        data[i:i + 2] = (12).to_bytes(2, 'big')
        try:
            return sut.serialize(sut.decode(bytes(data))) != bytes(data)
        except Violation:
            return True
    return probe


PROBES = {'signal-bit-length': _bit_length_probe('SignalPdu'),
          'intercom-signal-bit-length': _bit_length_probe('IntercomSignalPdu')}
