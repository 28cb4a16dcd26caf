"""C17  flat and structured Entity State."""
from vlib import codec, common, gen, sut
from vlib.sut import Violation

ID = 'C17'
RULE = ('one case = one Entity State value tree expressed through both '
        'variants; directed boundary sweeps of every field plus random '
        'trees; non-trivial: at least 8 distinct non-zero values')
ASSUMPTIONS = []

S, FL = 'EntityStatePdu', 'FastEntityStatePdu'
HEADER = ['protocolVersion', 'exerciseID', 'pduType', 'protocolFamily',
          'timestamp', 'length', 'pduStatus', '~0']
TYPE = ['EntityKind', 'Domain', 'Country', 'Category', 'Subcategory',
        'Specific', 'Extra']


def low(s):
    return s[0].lower() + s[1:]


def flatten(t):
    """Structured tree -> flat tree."""
    o = {k: t[k] for k in HEADER if k in t}
    a = t['entityID']
    o['site'] = a['simulationAddress']['site']
    o['application'] = a['simulationAddress']['application']
    o['entity'] = a['entityNumber']
    o['forceId'] = t['forceId']
    for k in TYPE:
        o[low(k)] = t['entityType'][low(k)]
        o['alt' + k] = t['alternativeEntityType'][low(k)]
    for c in 'xyz':
        o[c + 'Velocity'] = t['entityLinearVelocity'][c]
        o[c + 'Location'] = t['entityLocation'][c]
        d = t['deadReckoningParameters']
        o[c + 'Acceleration'] = d['entityLinearAcceleration'][c]
        o[c + 'AngularVelocity'] = d['entityAngularVelocity'][c]
    for c in ('psi', 'theta', 'phi'):
        o[c] = t['entityOrientation'][c]
    o['entityAppearance'] = t['entityAppearance']
    o['deadReckoningAlgorithm'] = d['deadReckoningAlgorithm']
    o['otherParameters'] = list(d['parameters'])
    o['marking'] = [t['marking']['characterSet']] + list(
        t['marking']['characters'])
    o['capabilities'] = t['capabilities']
    o['variableParameters'] = gen.copy(t['variableParameters'])
    return o


def cases(tier, rng_for, shard, nshards):
    for label, c in common.in_modes(gen.sweep(S, 2, shard, nshards), 'cls', S):
        yield label, c
    r = rng_for('c17', shard)
    for _ in range(6000 if tier == 'quick' else 20000):
        yield 'random', dict(tree=gen.gen(S, r, pads=r.random() < .3),
                             mode=r.choice(gen.MODES))


def check(case):
    t = case['tree']
    f = flatten(t)
    data = codec.enc(S, t)
    if codec.enc(FL, f) != data:
        raise AssertionError('the two layouts of the reference disagree')
    plain = {k: v for k, v in t.items() if k != '~0'}
    pf = {k: v for k, v in f.items() if k != '~0'}
    a = sut.serialize(sut.build(S, plain, case['mode']))
    b = sut.serialize(sut.build(FL, pf, case['mode']))
    if a != b:
        raise Violation('bytes', 'structured vs flat: ' +
                        sut.diff_bytes(a, b))
    # each decodes the other's octets (and arbitrary status padding)
    for src in (a, data):
        x, n = sut.parse_into(S, src)
        y, m = sut.parse_into(FL, src)
        if (n, m) != (len(src), len(src)):
            raise Violation('consumed', '%d and %d of %d octets' % (
                n, m, len(src)))
        d = sut.same(sut.expected(S, t), sut.extract(S, x), S) or \
            sut.same(sut.expected(FL, f), sut.extract(FL, y), FL)
        if d:
            raise Violation('value', d)
        if y.numberOfVariableParameters != len(f['variableParameters']):
            raise Violation('value', 'numberOfVariableParameters is %r' %
                            y.numberOfVariableParameters)
        for o in (x, y):
            again = sut.serialize(o)
            if again != src:
                raise Violation('bytes', '%s re-encodes differently: %s' % (
                    type(o).__name__, sut.diff_bytes(src, again)))


def nontrivial(case):
    return common.rich(case['tree'])
