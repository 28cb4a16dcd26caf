"""C01  PDU -> octets, against the reference layout."""
from vlib import codec, common, gen, sut
from vlib.sut import Violation

ID = 'C01'
RULE = ('one case = one PDU (type, value tree, way of building it); directed '
        'boundary/list-size sweeps of every field of every PDU type plus '
        'random trees; non-trivial: at least 8 distinct non-zero values')
ASSUMPTIONS = ['the reference layout table (vlib/layout.py) states the '
               'documented DIS layout']


# identifiers that may stand for an entity identifier
OTHERS = {'ObjectIdentifier': 'objectNumber',
          'UnattachedIdentifier': 'referenceNumber'}
ANY_ID = {'SignalPdu': ['entityID'], 'IntercomSignalPdu': ['entityID'],
          'TransmitterPdu': ['radioReferenceID'],
          'ReceiverPdu': ['transmitterEntityID'],
          'IntercomControlPdu': ['sourceEntityID', 'masterEntityID']}


def cases(tier, rng_for, shard, nshards):
    yield from common.pdu_cases(tier, rng_for, shard, nshards, 150, 3000)
    yield from common.long_cases(codec.PDU_NAMES, shard, nshards)
    r = rng_for('typed', shard)
    for name in gen.rotate(r, codec.PDU_NAMES, 80 if tier == 'quick' else 500):
        yield 'typed', dict(pdu=name, tree=gen.gen(name, r), mode='typed')
    r = rng_for('other', shard)
    for name in ANY_ID:
        for _ in range(12 if tier == 'quick' else 200):
            yield 'other-identifier', dict(
                pdu=name, tree=gen.gen(name, r), mode=r.choice(gen.MODES),
                ids={a: r.choice(sorted(OTHERS)) for a in ANY_ID[name]})


def check(case):
    name, tree = case['pdu'], common.tree_of(case)
    want = codec.enc(name, tree)
    obj = sut.build(name, tree, case['mode'])
    for a, cls in case.get('ids', {}).items():
        t = tree[a]
        if name == 'TransmitterPdu':
            cls = 'ObjectIdentifier'
        setattr(obj, a, sut.build(cls, {
            'simulationAddress': t['simulationAddress'],
            OTHERS[cls]: t['entityNumber']}))
    got = sut.serialize(obj)
    if got != want:
        raise Violation('layout', '%s: %s' % (name, sut.diff_bytes(want, got)))


def nontrivial(case):
    return 'long' in case or common.rich(case['tree'])
