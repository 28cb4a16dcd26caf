"""C14  typed variable-size records and the Transmitter's sections."""
import io
import struct

from vlib import codec, common, gen, sut
from vlib.sut import Violation

ID = 'C14'
RULE = ('one case = a list of self-describing variable records in one of the '
        'messages that carry them, a Transmitter with one combination of '
        'radio system / antenna type / declared lengths, a record of a '
        'foreign family, or a registry lookup; non-trivial: at least one '
        'record or section')
ASSUMPTIONS = ['the declared length of a record of known type equals the '
               'size of that record']

CARRIERS = [('StandardVariableSpecification', 'standardVariables', 'any'),
            ('TransmitterPdu', 'variableTransmitterParameters', 'vtp'),
            ('DirectedEnergyFirePdu', 'dERecords', 'damage'),
            ('EntityDamageStatusPdu', 'damageDescriptions', 'damage')]


def base(name, r):
    return gen.gen(name, r, rich=0.0)


def cases(tier, rng_for, shard, nshards):
    i = 0

    def mine():
        nonlocal i
        i += 1
        return i % nshards == shard
    r = rng_for('directed')
    for nm in sorted(codec.SV_BODY):
        for label, c in common.in_modes(
                gen.sweep(nm, 2, shard, nshards), 'cls', nm):
            t, mode = c['tree'], c['mode']
            t['$sv'] = nm
            for c, lst, kind in CARRIERS:
                if kind in ('any', codec.SV_KIND[nm]):
                    tree = gen.signature(c, 0)
                    tree[lst] = [t]
                    yield 'record-' + label, dict(what='list', cls=c,
                                                  tree=tree, mode=mode)
                    break
    for n in range(2, 130, 8):
        for c, lst, kind in CARRIERS:
            if mine():
                tree = gen.signature(c, 0)
                tree[lst] = [dict([('$sv', 'unknown'),
                                   ('recordType', rt), ('data',
                                   gen.gen_bytes(r, n).hex())])
                             for rt in (0, 1, 0x80000000, 2999)]
                yield 'unknown-size', dict(what='list', cls=c, tree=tree,
                                           mode='mutate')
    # long opaque records, alone and before another
    for n in (250, 258, 506, 65530 - 8 + 0):
        for c, lst, kind in CARRIERS:
            if mine():
                tree = gen.signature(c, 0)
                tree[lst] = [dict([('$sv', 'unknown'), ('recordType', 77),
                                   ('data', '33' * n)])] * 2
                if n % 8 == 2:
                    yield 'unknown-size', dict(what='list', cls=c, tree=tree,
                                               mode='assign')
    for a in range(0, 8):
        for b in range(0, 5):
            if mine():
                t = gen.signature('DirectedEnergyAreaAimpoint', 3)
                sig = gen.signature('DirectedEnergyAreaAimpoint', 8)
                t['beamAntennaPatterns'] = sig['beamAntennaPatterns'][:a]
                t['directedEnergyTargetEnergyDepositions'] = \
                    sig['directedEnergyTargetEnergyDepositions'][:b]
                t['$sv'] = 'DirectedEnergyAreaAimpoint'
                tree = gen.signature('DirectedEnergyFirePdu', 0)
                dmg = gen.signature('DirectedEnergyDamage', 1)
                dmg['$sv'] = 'DirectedEnergyDamage'
                tree['dERecords'] = [t, dmg, t]
                yield 'area', dict(what='list', cls='DirectedEnergyFirePdu',
                                   tree=tree, mode='assign')
    systems = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 255, 65535]
    lens = [0, 1, 4, 8, 15, 16, 17, 24, 32, 40, 64, 128, 255]
    for rs in systems:
        for major in range(0, 11):
            for n in lens if major < 3 else (15, 16, 17):
                if mine():
                    yield 'modulation', sections(rs, major, n, i % 3,
                                                 (0, 40, 8)[i % 3], i)
    for at in (0, 1, 2, 3, 256, 65535):
        for n in (0, 1, 8, 32, 39, 40, 41, 48, 80, 255, 256, 1000):
            if mine():
                yield 'antenna', sections((0, 2, 6)[i % 3], 1,
                                          (0, 16, 8)[i % 3], at, n, i)
    for c, lst, kind in CARRIERS:
        if kind == 'any':
            continue
        for nm in sorted(codec.SV_BODY):
            if codec.SV_KIND[nm] != kind and mine():
                yield 'foreign', dict(what='foreign', cls=c, rec=nm)
        if mine():
            for bl in (1, 5, 7, 9, 12, 41):
                yield 'length', dict(what='length', cls=c, n=bl)
            for nm in sorted(codec.SV_BODY):
                if codec.SV_KIND[nm] == kind:
                    for d in (-4, -1, 1, 2, 4, 7):
                        yield 'length', dict(what='length', cls=c, rec=nm,
                                             n=codec.SV_SIZE.get(nm, 48) + d)
                    for bl in (-8, -1, 12, 1.5, 8.0, '8', None, [8]):
                        yield 'length', dict(what='direct', rec=nm, n=bl)
    for t in (-1, -3000, 0, 1, 2999, 3000, 3001, 4000, 4001, 4002, 4500, 5000,
              65536 + 3000, 0xffffffff):
        for kind in ('any', 'vtp', 'damage'):
            if mine():
                yield 'registry', dict(what='registry', type=t, kind=kind)
    r = rng_for('c14', shard)
    for _ in range(15000 if tier == 'quick' else 120000):
        x = r.random()
        if x < .6:
            c, lst, kind = r.choice(CARRIERS)
            tree = base(c, r)
            tree[lst] = [gen.gen_sv(r, kind, False, .7)
                         for _ in range(r.choice([1, 1, 2, 2, 3, 5, 8]))]
            yield 'list', dict(what='list', cls=c, tree=tree,
                               mode=r.choice(gen.MODES))
        elif x < .95:
            yield 'sections', sections(
                r.choice(systems), r.choice([0, 1, 2, 9, 255, 65535]),
                r.choice(lens + [r.randint(0, 255)]),
                r.choice([0, 1, 1, 2, r.getrandbits(16)]),
                r.choice([0, 8, 39, 40, 40, 41, 64, r.randint(0, 500)]),
                r.getrandbits(30))
        else:
            t = gen.gen_scalar(r, 'u32')
            yield 'registry', dict(what='registry', type=t, kind=r.choice(
                ['any', 'vtp', 'damage']))


def nopads(t):
    """The same tree with zero padding."""
    if isinstance(t, dict):
        return {k: nopads(v) for k, v in t.items()
                if not k.startswith('~')}
    if isinstance(t, list):
        return [nopads(v) for v in t]
    return t


def sections(rs, major, mlen, at, alen, salt):
    import random
    r = random.Random(salt)
    t = gen.signature('TransmitterPdu', 0)
    t['modulationType'].update(radioSystem=rs, majorModulation=major)
    t['antennaPatternType'] = at
    t['modulationParameters'] = nopads(codec.dec_sub(
        codec.modulation_class(major, rs, mlen), gen.gen_bytes(r, mlen)))
    t['antennaPattern'] = nopads(codec.dec_sub(
        codec.antenna_class(at, alen), gen.gen_bytes(r, alen)))
    sv = gen.signature('HighFidelityHAVEQUICKRadio', 1, 9)
    sv['$sv'] = 'HighFidelityHAVEQUICKRadio'
    t['variableTransmitterParameters'] = [
        sv, {'$sv': 'unknown', 'recordType': 12, 'data': '0102' * 5},
        sv][:r.randint(1, 3)]
    return dict(what='list', cls='TransmitterPdu', tree=t, mode='assign')


def check(case):
    what = case['what']
    if what == 'registry':
        return registry(case['type'], case['kind'])
    if what == 'direct':
        obj = sut.build(case['rec'], gen.zero(case['rec'], 0))
        if case['n'] == 8:
            case = dict(case, n=8.0)
        try:
            obj.parse(sut.DataInputStream(io.BytesIO(bytes(300))), case['n'])
        except Exception:
            return
        raise Violation('accepted', '%s was read with a length of %r' % (
            case['rec'], case['n']))
    name = case['cls']
    if what in ('foreign', 'length'):
        lst = next(l for c, l, k in CARRIERS if c == name)
        tree = gen.signature(name, 0)
        if 'rec' in case:
            t = gen.signature(case['rec'], 1)
            t['$sv'] = case['rec']
        else:
            t = {'$sv': 'unknown', 'recordType': 55,
                 'data': '07' * max(0, case['n'] - 6)}
        tree[lst] = [t]
        data = bytearray(codec.enc(name, tree))
        if what == 'length':
            raw = bytearray()
            codec.enc_sv(t, raw)
            data[-len(raw) + 4:][:2] = b''
            i = len(data) - len(raw) + 4
            data[i:i + 2] = struct.pack('>H', case['n'])
            data += bytes(64)
        try:
            pdu = sut.factory.createPdu(bytes(data))
        except Exception:
            return
        raise Violation('accepted', '%s accepted %s: %r' % (
            name, case.get('rec', 'a record of %s octets' % case.get('n')),
            pdu))
    tree = case['tree']
    data = codec.enc(name, tree)
    if codec.dec(name, data)[1] != len(data):
        raise AssertionError
    obj = sut.build(name, tree, case['mode'])
    records(name, tree, obj)
    got = sut.serialize(obj)
    if got != data:
        raise Violation('layout', '%s: %s' % (name,
                                              sut.diff_bytes(data, got)))
    back, used = sut.parse_into(name, data + b'\x77' * 5)
    if used != len(data):
        raise Violation('consumed', '%s read %d of %d octets' % (
            name, used, len(data)))
    d = sut.same(sut.expected(name, tree), sut.extract(name, back), name)
    if d:
        raise Violation('value', d)
    records(name, tree, back)
    again = sut.serialize(back)
    if again != data:
        raise Violation('bytes', '%s: %s' % (name,
                                             sut.diff_bytes(data, again)))


def records(name, tree, obj):
    """Each record of the list on its own."""
    for c, lst, kind in CARRIERS:
        if c == name:
            for t, o in zip(tree[lst], getattr(obj, lst)):
                raw = bytearray()
                codec.enc_sv(t, raw)
                if sut.serialize(o) != bytes(raw):
                    raise Violation('layout', '%s: %s' % (
                        t['$sv'], sut.diff_bytes(bytes(raw),
                                                 sut.serialize(o))))
                for what, n in (('recordLength', o.recordLength),
                                ('marshalledSize', o.marshalledSize())):
                    if n != len(raw):
                        raise Violation('size', '%s %s is %r, not %d' % (
                            t['$sv'], what, n, len(raw)))
                if not isinstance(o, sut.expected_base(kind)):
                    raise Violation('family', '%s is not of family %s' % (
                        t['$sv'], kind))


def registry(t, kind):
    want = codec.SV_TYPES.get(t)
    try:
        cls = sut.record.getStandardVariableClass(t, sut.expected_base(kind))
    except Exception as e:
        if t < 0 or (want and kind not in ('any', codec.SV_KIND[want])):
            return
        raise Violation('registry', 'type %d (%s): %s' % (t, kind, e))
    if t < 0 or (want and kind not in ('any', codec.SV_KIND[want])):
        raise Violation('registry', 'type %d was accepted as %s' % (t, kind))
    if cls.recordType != t:
        raise Violation('registry', 'type %d gave a class of type %r' % (
            t, cls.recordType))
    if want and cls is not sut.resolve(want):
        raise Violation('registry', 'type %d gave %s' % (t, cls.__name__))
    if not want and (cls.__name__ in codec.SV_NUMBER or not issubclass(
            cls, sut.expected_base(kind))):
        raise Violation('registry', 'type %d gave %s' % (t, cls.__name__))


def nontrivial(case):
    return True
