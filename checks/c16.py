"""C16  entity marking."""
from vlib import codec, gen, sut
from vlib.sut import Violation

ID = 'C16'
RULE = ('one case = a history of setting marking texts (ASCII, any length), '
        'encoding and decoding, on a marking alone or in an Entity State '
        'message; non-trivial: some text is not empty')
ASSUMPTIONS = ['marking texts are ASCII without NUL characters']


def text(r):
    n = r.choice([0, 1, 2, 5, 9, 10, 11, 11, 12, 13, 20, 40, 300])
    if r.random() < .5:
        return ''.join(chr(r.randint(1, 127)) for _ in range(n))
    return ''.join(r.choice('abcXYZ019 -_~!') for _ in range(n))


def cases(tier, rng_for, shard, nshards):
    for n in range(0, 30):
        for where in ('record', 'pdu'):
            if n % nshards == shard:
                s = ''.join(chr(65 + i) for i in range(n))
                yield 'length', dict(where=where, charset=1, texts=[s],
                                     via=[0])
                yield 'overwrite', dict(where=where, charset=3, texts=[
                    'ZZZZZZZZZZZZZZ', s, 'QQQQQQQQQQQ', s[:3]],
                    via=[0, 0, 1, 0])
    for c in range(1, 128):
        if c % nshards == shard:
            yield 'character', dict(where='record', charset=c * 2, texts=[
                chr(c), 'a' + chr(c) + 'b', chr(c) * 11], via=[0, 1, 1])
    r = rng_for('c16', shard)
    for _ in range(15000 if tier == 'quick' else 60000):
        n = r.randint(1, 6)
        before = r.choice([None, None, None, gen.gen_bytes(r, 11).hex(),
                           r.choice(['ff', '80', '20', '7f', '41', '0a'])
                           * 11])
        yield 'random', dict(where=r.choice(['record', 'pdu']),
                             before=before, received=r.random() < .5,
                             charset=gen.gen_scalar(r, 'u8'),
                             texts=[text(r) for _ in range(n)],
                             via=[r.randint(0, 1) for _ in range(n)])


def check(case):
    pdu = case['where'] == 'pdu'
    if len(case['texts']) != len(case['via']) or not all(
            0 < ord(c) < 128 for s in case['texts'] for c in s):
        raise AssertionError
    name = 'EntityStatePdu' if pdu else 'EntityMarking'
    obj = sut.sut(name, sut.resolve(name))
    m = obj.marking if pdu else obj
    m.characterSet = case['charset']
    if case.get('before'):
        # any octets at all in the marking so far
        octets = bytes.fromhex(case['before'])
        if len(octets) != 11:
            raise AssertionError
        m.characters = list(octets)
        if case['received']:
            data = sut.serialize(obj)
            obj = sut.decode(data) if pdu else sut.parse_into(name, data)[0]
            m = obj.marking if pdu else obj
    for s, via in zip(case['texts'], case['via']):
        sut.sut('setString', m.setString, s)
        cut = s[:11]
        if via:
            data = sut.serialize(obj)
            obj = sut.decode(data) if pdu else sut.parse_into(name, data)[0]
            m = obj.marking if pdu else obj
        got = sut.sut('charactersString', m.charactersString)
        if got != cut:
            raise Violation('text', 'set %r, got %r' % (s, got))
        raw = sut.serialize(m)
        want = bytes([case['charset']]) + cut.encode().ljust(11, b'\0')
        if raw != want:
            raise Violation('octets', 'set %r, written as %r' % (s, raw))
        if list(m.characters) != list(want[1:]) or \
                m.characterSet != case['charset']:
            raise Violation('octets', 'set %r, holds %r' % (s, m.characters))
        if pdu:
            full = sut.serialize(obj)
            if full[128:140] != want:
                raise Violation('octets', 'in the message: %r' %
                                full[128:140])


def nontrivial(case):
    return any(case['texts'])
