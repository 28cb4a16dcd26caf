"""C10  stream primitives."""
import io
import math
import struct

from vlib import consts, gen, sut
from vlib.sut import Violation

import opendis.stream

ID = 'C10'
RULE = ('one case = a sequence of primitive writes and reads on one stream '
        '(all values of 8-bit types and all boundary values of the others '
        'directed), with refused values in between, or an out-of-range value, or a short read, or '
        'the same on another medium (pipe, middle of a stream); non-trivial: '
        'not a single zero')
ASSUMPTIONS = ['a NaN may change its payload']

# kind -> (reference width, signed) for integers
INTS = {'byte': (1, True), 'unsigned_byte': (1, False), 'short': (2, True),
        'unsigned_short': (2, False), 'int': (4, True),
        'unsigned_int': (4, False), 'long': (8, True), 'int8': (1, True),
        'int16': (2, True), 'int32': (4, True), 'int64': (8, True),
        'uint8': (1, False), 'uint16': (2, False), 'uint32': (4, False),
        'uint64': (8, False)}
FLOATS = {'float': 'f32', 'float32': 'f32', 'double': 'f64', 'float64': 'f64'}
CHARS = {'char': 2, 'char8': 1}
KINDS = list(INTS) + list(FLOATS) + list(CHARS) + ['boolean', 'utf', 'bytes']


def fmt_of(k):
    n, s = INTS[k]
    return ('i' if s else 'u') + str(8 * n)


def ref(kind, v):
    if kind in INTS:
        n, s = INTS[kind]
        return v.to_bytes(n, 'big', signed=s)
    if kind in FLOATS:
        return struct.pack('>f' if FLOATS[kind] == 'f32' else '>d', v)
    if kind in CHARS:
        return v.to_bytes(CHARS[kind], 'big')
    if kind == 'boolean':
        return bytes([1 if v else 0])
    b = bytes.fromhex(v)
    return (len(b).to_bytes(2, 'big') if kind == 'utf' else b'') + b


def py(kind, v):
    if kind in CHARS:
        return chr(v)
    if kind in ('utf', 'bytes'):
        return bytes.fromhex(v)
    return v


def own(kind):
    """Numbers the streams' own code uses, where the kind can hold them."""
    fmt = (fmt_of(kind) if kind in INTS else FLOATS[kind] if kind in FLOATS
           else 'u%d' % (8 * CHARS[kind]))
    vals = (gen.fit(c, fmt) for c in consts.around(
        consts.of_module(opendis.stream)))
    return [v for v in vals if v is not None]


def value(r, kind):
    if r.random() < .1 and (kind in INTS or kind in FLOATS or kind in CHARS):
        return r.choice(own(kind) or [0])
    if kind in INTS:
        return gen.gen_scalar(r, fmt_of(kind))
    if kind in FLOATS:
        return gen.gen_scalar(r, FLOATS[kind])
    if kind in CHARS:
        return gen.gen_scalar(r, 'u%d' % (8 * CHARS[kind]))
    if kind == 'boolean':
        return bool(r.getrandbits(1))
    return gen.gen_bytes(r, r.choice([0, 1, 2, 3, 10, 60, 255, 256])).hex()


def refused(r):
    """A write which must fail, in the middle of a sequence."""
    k = r.choice(list(INTS) + ['char', 'char8', 'float', 'float32', 'utf'])
    if k in INTS:
        n, s = INTS[k]
        lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if s else \
            (0, (1 << 8 * n) - 1)
        d = r.choice([1, 2, 255, 1 << 40])
        return ['!' + k, r.choice([lo - d, hi + d])]
    return ['!' + k, {'char': 0x10000, 'char8': 256, 'utf': '41' * 65536}.get(
        k, 1e39)]


def cases(tier, rng_for, shard, nshards):
    i = 0

    def mine():
        nonlocal i
        i += 1
        return i % nshards == shard
    for k in INTS:
        vals = (range(-128, 128) if fmt_of(k) == 'i8' else range(256)
                if fmt_of(k) == 'u8' else gen.boundary_ints(fmt_of(k)))
        for v in vals:
            if mine():
                yield 'directed', dict(what='seq', ops=[[k, v]])
        n, s = INTS[k]
        lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if s else \
            (0, (1 << 8 * n) - 1)
        for v in (lo - 1, hi + 1, lo - 256, hi + 257, 2 * hi + 2, -hi - 2,
                  1 << 64, -(1 << 64), (1 << 8 * n) + 5):
            if not lo <= v <= hi and mine():
                yield 'range', dict(what='range', kind=k, value=v)
    for k in FLOATS:
        for v in gen.F32 if FLOATS[k] == 'f32' else gen.F64:
            if mine():
                yield 'directed', dict(what='seq', ops=[[k, v]])
        if FLOATS[k] == 'f32':
            for v in (1e39, -1e39, 1e308):
                yield 'range', dict(what='range', kind=k, value=v)
    for k in CHARS:
        for v in (list(range(256)) + [] if k == 'char8' else
                  [0, 1, 65, 127, 128, 255, 256, 0x20ac, 0xd7ff, 0xe000,
                   0xffff]):
            if mine():
                yield 'directed', dict(what='seq', ops=[[k, v]])
        for v in (256, 0x20ac) if k == 'char8' else (0x10000, 0x1f600):
            if mine():
                yield 'range', dict(what='range', kind=k, value=v)
    for k in [*INTS, *FLOATS, *CHARS]:
        for v in own(k):
            if mine():
                yield 'constants', dict(what='seq', ops=[[k, v]])
    for n in (0, 1, 2, 255, 256, 65534, 65535):
        for k in ('utf', 'bytes'):
            if mine():
                yield 'directed', dict(what='seq', ops=[[k, '41' * n]])
    for n in (1023, 4095, 4097, 8191, 8193, 20001, 70001, 131073, 1000003):
        if mine():
            yield 'directed', dict(what='seq', ops=[
                ['bytes', bytes(i * 7 & 255 for i in range(n)).hex()],
                ['unsigned_short', 513]])
    for n in (65536, 65537, 100000):
        if mine():
            yield 'range', dict(what='range', kind='utf', value='41' * n)
    for k in KINDS:
        for v in ([5 if k in INTS else 1.5 if k in FLOATS else 65
                   if k in CHARS else True if k == 'boolean' else '414243']):
            for cut in range(len(ref(k, v))):
                if mine():
                    yield 'short', dict(what='short', kind=k, value=v,
                                        cut=cut)
    for n in (-1, -2, -100):
        if mine():
            yield 'range', dict(what='negative', n=n)
    r = rng_for('c10', shard)
    for _ in range(40000 if tier == 'quick' else 300000):
        ops = []
        for _ in range(r.choice([1, 1, 2, 3, 5, 8, 15])):
            k = r.choice(KINDS)
            ops.append([k, value(r, k)])
            if r.random() < .1:
                ops.append(refused(r))
        if r.random() < .15:
            k = r.choice(KINDS)
            v = value(r, k)
            n = len(ref(k, v))
            if n:
                yield 'short', dict(what='short', kind=k, value=v,
                                    cut=r.randrange(n))
                continue
        yield 'random', dict(what='seq', ops=ops)
        if r.random() < .25:
            yield 'medium', dict(what='seq', ops=ops, medium=r.choice(
                ['pipe', 'middle']))


def read(s, kind, v):
    fn = getattr(s, 'read_' + kind)
    return fn(len(v) // 2) if kind == 'bytes' else fn()


def fits(kind, v):
    try:
        ref(kind, v)
    except (OverflowError, struct.error):
        return False
    return True


def check(case):
    if case['what'] == 'range':
        assert not fits(case['kind'], case['value'])
        k, v = case['kind'], py(case['kind'], case['value'])
        buf = io.BytesIO()
        try:
            getattr(sut.DataOutputStream(buf), 'write_' + k)(v)
        except Exception:
            return
        raise Violation('range', 'write_%s accepted %.60r and wrote %s' % (
            k, v, buf.getvalue()[:16].hex()))
    if case['what'] == 'negative':
        src = sut.DataInputStream(io.BytesIO(b'abcdef'))
        try:
            got = src.read_bytes(case['n'])
        except Exception:
            return
        raise Violation('range', 'read_bytes(%d) gave %r' % (case['n'], got))
    if case['what'] == 'short':
        k, v = case['kind'], case['value']
        data = ref(k, v)[:case['cut']]
        assert len(data) < len(ref(k, v))
        try:
            got = read(sut.DataInputStream(io.BytesIO(data)), k, v)
        except Exception:
            return
        raise Violation('short', 'read_%s from %d octets gave %r' % (
            k, len(data), got))
    if case.get('medium'):
        return check_medium(case)
    buf = io.BytesIO()
    out = sut.DataOutputStream(buf)
    want = b''
    for k, v in case['ops']:
        if k[0] == '!':
            assert not fits(k[1:], v)
            try:
                getattr(out, 'write_' + k[1:])(py(k[1:], v))
            except Exception:
                if buf.getvalue() != want:
                    raise Violation('refused', 'write_%s refused %.60r but '
                                    'left octets in the stream' % (k[1:], v))
                continue
            raise Violation('range', 'write_%s accepted %.60r' % (k[1:], v))
        sut.sut('write_%s(%r)' % (k, v), getattr(out, 'write_' + k), py(k, v))
        want += ref(k, v)
        if buf.getvalue() != want:
            raise Violation('bytes', 'write_%s(%.60r): %s' % (
                k, v, sut.diff_bytes(want, buf.getvalue())))
    src = io.BytesIO(want + b'\xee\xdd')
    s = sut.DataInputStream(src)
    pos = 0
    for k, v in case['ops']:
        if k[0] == '!':
            continue
        got = sut.sut('read_' + k, read, s, k, v)
        pos += len(ref(k, v))
        w = py(k, v)
        ok = (type(got) in (int, float) and (
            got != got and w != w or got == w
            and math.copysign(1, got) == math.copysign(1, w))
            if k in FLOATS else got == w and (k == 'boolean' or not
                                              isinstance(got, bool)))
        if not ok:
            raise Violation('value', 'read_%s gave %.60r for %.60r' % (
                k, got, w))
        if src.tell() != pos:
            raise Violation('position', 'read_%s left the stream at %d, '
                            'expected %d' % (k, src.tell(), pos))


class Pipe(io.RawIOBase):
    """A connection: forwards only, in portions of a few octets."""

    def __init__(self, data=b''):
        super().__init__()
        self.data = bytearray(data)
        self.turn = 0

    def readable(self):
        return True

    def writable(self):
        return True

    def readinto(self, b):
        self.turn += 1
        n = min(len(b), 1 + self.turn % 3, len(self.data))
        b[:n] = self.data[:n]
        del self.data[:n]
        return n

    def write(self, b):
        self.data += b
        return len(b)


def check_medium(case):
    ops = [o for o in case['ops'] if o[0][0] != '!']
    want = b''.join(ref(k, v) for k, v in ops)
    what = case['medium']
    if what == 'pipe':
        raw = Pipe()
        f = io.BufferedWriter(raw, 16)
        out = sut.DataOutputStream(f)
    else:
        # in the middle of what is there already
        old = b'\x55' * (len(want) + 20)
        f = io.BytesIO(old)
        f.seek(7)
        out = sut.DataOutputStream(f)
    for k, v in ops:
        sut.sut('write_%s(%r) to a %s' % (k, v, what), getattr(
            out, 'write_' + k), py(k, v))
    if what == 'pipe':
        f.flush()
        got = bytes(raw.data)
        src = io.BufferedReader(Pipe(want + b'\xee\xdd'), 16)
    else:
        got = f.getvalue()
        want = old[:7] + want + old[7 + len(want):]
        src = io.BytesIO(want)
        src.seek(7)
    if got != want:
        raise Violation('bytes', '%s: %s' % (what, sut.diff_bytes(want, got)))
    s = sut.DataInputStream(src)
    for k, v in ops:
        got = sut.sut('read_%s from a %s' % (k, what), read, s, k, v)
        w = py(k, v)
        if got != w and not (got != got and w != w):
            raise Violation('value', 'read_%s from a %s gave %.60r for '
                            '%.60r' % (k, what, got, w))
    rest = src.read()
    end = b'\xee\xdd' if what == 'pipe' else b'\x55' * 13
    if rest != end:
        raise Violation('position', '%s: %d octets are left of %d' % (
            what, len(rest), len(end)))


def nontrivial(case):
    return case['what'] != 'seq' or len(case['ops']) > 1 or \
        case['ops'][0][1] not in (0, 0.0, False, '')
