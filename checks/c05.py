"""C05  dispatch on the type octet."""
import io
import os
import pathlib

from vlib import codec, common, engine, gen, sut
from vlib.sut import Violation

ID = 'C05'
RULE = ('one case = one message (type octet, arbitrary other header octets, '
        'body, trailing octets) handed over as bytes, as a stream and as a '
        'file; non-trivial: the header has at least 4 distinct octets or the '
        'type is unsupported')
ASSUMPTIONS = ['the list of supported types is the one the library documents '
               '(vlib/layout.py)']


def cases(tier, rng_for, shard, nshards):
    r = rng_for('types', shard)
    for t in range(256):
        for rep in range(6 if tier == 'quick' else 20):
            if (t + rep) % nshards == shard:
                yield from one(r, t)
    for name in codec.PDU_NAMES:
        if gen.hash_name(name) % nshards == shard:
            yield 'fresh', dict(what='fresh', pdu=name)
    big = [(n, f) for n in sorted(codec.FACTORY.values())
           for f in codec.SPECS[n].fields if f.kind == 'list']
    for i, (name, f) in enumerate(big):
        for k in (50, 150, 700, 2500):
            if (i + k) % nshards == shard and k <= gen.max_len(
                    codec.SPECS[name], f):
                tree = gen.signature(name, 1)
                el = gen.signature(name, 3, 31)[f.name]
                tree[f.name] = [el[j % 3] for j in range(k)]
                yield 'large', dict(what='message',
                                    data=codec.enc(name, tree).hex())
    for t in gen.rotate(r, range(256), 150 if tier == 'quick' else 600):
        yield from one(r, t)


def one(r, t):
    name = codec.FACTORY.get(t)
    tail = gen.gen_bytes(r, r.choice([0, 0, 1, 3, 8, 40]))
    if r.random() < .02:
        tail = b'\x5a' * r.choice([1500, 8192, 70000])
    if name is None:
        data = bytearray(gen.gen_bytes(r, r.choice([3, 4, 11, 12, 13, 50,
                                                    144, 300])))
        data[2] = t
        if len(data) > 3 and r.random() < .5:
            data[3] = r.randint(0, 13)
        yield 'unsupported', dict(what='message', data=bytes(data).hex())
    else:
        tree = gen.gen(name, r, pads=True, rich=.5)
        tree['protocolFamily'] = gen.gen_scalar(r, 'u8')
        if r.random() < .5:
            tree['protocolVersion'] = r.choice([0, 1, 4, 5, 6, 7, 8, 255])
        yield 'supported', dict(what='message',
                                data=(codec.enc(name, tree) + tail).hex())


def check(case):
    if case['what'] == 'fresh':
        name = case['pdu']
        spec = codec.SPECS[name]
        obj = sut.sut('%s()' % name, sut.resolve(name))
        for a, want in (('pduType', spec.ptype),
                        ('protocolFamily', spec.family)):
            if getattr(obj, a) != want:
                raise Violation('declared', '%s.%s is %r, expected %r'
                                % (name, a, getattr(obj, a), want))
        data = sut.serialize(obj)
        if data[2] != spec.ptype or data[3] != spec.family:
            raise Violation('declared', '%s writes type %d family %d'
                            % (name, data[2], data[3]))
        if common.in_factory(name):
            back = sut.decode(data)
            if type(back) is not type(obj):
                raise Violation('class', 'a fresh %s decodes as %s'
                                % (name, type(back).__name__))
        return
    data = bytes.fromhex(case['data'])
    if len(data) < 3:
        raise AssertionError
    name = codec.FACTORY.get(data[2])
    want = None
    if name is not None:
        want = sut.expected(name, codec.dec(name, data)[0])
    path = os.path.join(engine.scratch(), 'pdu.raw')
    with open(path, 'wb') as f:
        f.write(data)
    buf = bytearray(data)

    def reused():
        """a receive buffer that is used again afterwards"""
        pdu = sut.factory.createPdu(buf)
        buf[:] = b'\xee' * len(buf)
        return pdu

    def view():
        """the middle of a larger buffer"""
        big = bytearray(b'\x55' * 7 + data + b'\x55' * 7)
        pdu = sut.factory.createPdu(memoryview(big)[7:7 + len(data)])
        big[:] = bytes(len(big))
        return pdu

    def opened():
        with open(path, 'rb') as f:
            return sut.factory.getPdu(sut.DataInputStream(f))
    for how, get in (
            ('buffer', reused), ('view', view), ('open file', opened),
            ('path object', lambda: sut.factory.createPduFromFilePath(
                pathlib.Path(path))), ('bytes', lambda: sut.factory.createPdu(data)),
            ('stream', lambda: sut.factory.getPdu(
                sut.DataInputStream(io.BytesIO(data)))),
            ('file', lambda: sut.factory.createPduFromFilePath(path))):
        pdu = sut.sut('decoding from ' + how, get)
        if name is None:
            if pdu is not None:
                raise Violation('class', 'type %d decoded as %s (from %s)'
                                % (data[2], type(pdu).__name__, how))
            continue
        cls = type(pdu).__name__
        if cls != name:
            raise Violation('class', 'type %d decoded as %s, expected %s '
                            '(from %s)' % (data[2], cls, name, how))
        if type(pdu).pduType != data[2]:
            raise Violation('declared', '%s declares type %r'
                            % (name, type(pdu).pduType))
        if type(pdu).protocolFamily != codec.SPECS[name].family:
            raise Violation('declared', '%s declares family %r'
                            % (name, type(pdu).protocolFamily))
        d = sut.same(want, sut.extract(name, pdu), name)
        if d:
            raise Violation('value', '%s (from %s)' % (d, how))


def nontrivial(case):
    return case['what'] == 'fresh' or len(set(
        case['data'][i:i + 2] for i in range(0, 24, 2))) >= 4 \
        or codec.FACTORY.get(int(case['data'][4:6], 16)) is None
