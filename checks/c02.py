"""C02  octets -> PDU, against the reference layout."""
from vlib import codec, common, gen, sut
from vlib.sut import Violation

ID = 'C02'
RULE = ('one case = the reference octets of one message (valid tree with '
        'random padding, or a damaged message that is still well-formed '
        'under the reference decoder); non-trivial: at least 8 distinct '
        'non-zero values')
ASSUMPTIONS = ['the reference layout table (vlib/layout.py) states the '
               'documented DIS layout']


def cases(tier, rng_for, shard, nshards):
    for label, c in common.pdu_cases(tier, rng_for, shard, nshards, 150, 3000,
                                     pads=True, modes=('assign',)):
        yield label, dict(pdu=c['pdu'], data=codec.enc(
            c['pdu'], c['tree']).hex())
    r = rng_for('mut', shard)
    names = [n for n in codec.PDU_NAMES if common.in_factory(n)]
    for name in gen.rotate(r, names, 600 if tier == 'quick' else 4000):
        data = codec.enc(name, gen.gen(name, r, pads=True, rich=.6))
        what, data = common.mutate_bytes(r, data)
        if len(data) < 12 or data[2] not in codec.FACTORY:
            continue
        name = codec.FACTORY[data[2]]
        try:
            tree, n = codec.dec(name, data)
        except codec.Malformed:
            continue
        if codec.num_elements(name, tree) > 5000:
            continue
        yield 'damaged-' + what, dict(pdu=name, data=data.hex())
    yield from common.long_cases(codec.PDU_NAMES, shard, nshards)


def check(case):
    name, data = case['pdu'], common.data_of(case)
    try:
        tree, n = codec.dec(name, data)
    except codec.Malformed:
        raise AssertionError('not a well-formed message')
    if common.in_factory(name):
        if data[2] != codec.SPECS[name].ptype:
            raise AssertionError('another type')
        pdu = sut.decode(data)
        if type(pdu).__name__ != name:
            raise Violation('class', 'expected %s, got %s'
                            % (name, type(pdu).__name__))
    else:
        pdu, used = sut.parse_into(name, data)
        if used != n:
            raise Violation('size', '%s: read %d of %d octets'
                            % (name, used, n))
    d = sut.same(sut.expected(name, tree), sut.extract(name, pdu), name)
    if d:
        raise Violation('value', d)


def nontrivial(case):
    return 'long' in case or len(set(case['data'][i:i + 2]
                   for i in range(24, len(case['data']), 2))) >= 8
