"""C03  PDU -> octets -> PDU."""
from vlib import codec, common, sut
from vlib.sut import Violation

ID = 'C03'
RULE = ('one case = one PDU built from an in-range value tree, encoded, '
        'decoded and encoded again; non-trivial: at least 8 distinct '
        'non-zero values')
ASSUMPTIONS = ['floating-point values are generated exact in their wire '
               'format; one NaN is as good as another']


def cases(tier, rng_for, shard, nshards):
    yield from common.pdu_cases(tier, rng_for, shard, nshards, 150, 3000)
    yield from common.long_cases(codec.PDU_NAMES, shard, nshards,
                                 common.LONGEST)


def check(case):
    name, tree = case['pdu'], common.tree_of(case)
    codec.enc(name, tree)       # the tree is well-formed
    obj = sut.build(name, tree, case['mode'])
    data = sut.serialize(obj)
    if common.in_factory(name):
        back = sut.decode(data)
        if type(back).__name__ != name:
            raise Violation('class', '%s came back as %s'
                            % (name, type(back).__name__))
    else:
        back, used = sut.parse_into(name, data)
        if used != len(data):
            raise Violation('size', '%s: read %d of %d octets'
                            % (name, used, len(data)))
    d = sut.same(sut.expected(name, tree), sut.extract(name, back), name)
    if d:
        raise Violation('value', d)
    again = sut.serialize(back)
    if again != data:
        raise Violation('bytes', '%s: %s' % (name,
                                             sut.diff_bytes(data, again)))


def nontrivial(case):
    return 'long' in case or common.rich(case['tree'])
