"""C06  malformed input."""
import io
import time

from vlib import codec, common, consts, gen, lines, sut
from vlib.sut import Violation

ID = 'C06'
RULE = ('one case = a history of messages handed to the decoder: truncated at '
        'every octet, corrupted, or random, each followed by an intact '
        'message; non-trivial: at least one of the messages is not '
        'well-formed under the reference decoder')
ASSUMPTIONS = ['data errors are any exceptions except NameError, '
               'AttributeError, RecursionError, MemoryError, SystemError, '
               'ImportError and ZeroDivisionError']

BAD = (NameError, AttributeError, RecursionError, MemoryError, SystemError,
       ImportError, ZeroDivisionError)
TIME = 5.0
# lines (and turns of loops) of the library a message may take; on the tree
# this was written for, no message took more than 160, or 5 for each octet
LINES, PER_OCTET = 2000, 40


COUNTER = lines.Counter()


def cases(tier, rng_for, shard, nshards):
    k = 0
    names = [n for n in codec.PDU_NAMES if common.in_factory(n)]
    for name in names:
        for nl in ((1, 2) if tier == 'quick' else (1, 2, 3)):
            data = codec.enc(name, gen.signature(name, nl, nl))
            for cut in range(3, len(data)):
                k += 1
                if k % nshards == shard:
                    yield 'prefix', dict(msgs=[data[:cut].hex()])
    # every octet, pair and quadruple of octets at extreme values
    for name in names:
        data = codec.enc(name, gen.signature(name, 1, 3))
        for w in (1, 2, 4):
            for at in range(3, len(data) - w + 1):
                for v in (b'\xff' * w, b'\x7f' + b'\xff' * (w - 1),
                          b'\x80' + bytes(w - 1), bytes(w),
                          bytes(w - 1) + b'\1'):
                    k += 1
                    if k % nshards == shard:
                        yield 'extreme', dict(msgs=[
                            (data[:at] + v + data[at + w:]).hex()])
    # numbers the code itself uses, at every place
    dispatch = set()
    for fn in vars(sut.factory).values():
        if hasattr(fn, '__code__'):
            dispatch |= consts.of_code(fn.__code__)[0]
    for name in names:
        data = codec.enc(name, gen.signature(name, 1, 3))
        own = consts.around(consts.of_class(name) | dispatch, 10)
        for w, lo in ((1, -1), (2, 255), (4, 65535)):
            for v in own:
                if v != int(v) or not lo < v < 1 << 8 * w:
                    continue
                b = int(v).to_bytes(w, 'big')
                for at in range(3, len(data) - w + 1):
                    k += 1
                    if k % nshards == shard:
                        yield 'constants', dict(msgs=[
                            (data[:at] + b + data[at + w:]).hex()])
    # a stream that fails at some octet
    for name in names:
        data = codec.enc(name, gen.signature(name, 2, 5))
        for at in range(3, len(data), 1 if len(data) < 120 else 3):
            k += 1
            if k % nshards == shard:
                yield 'fault', dict(msgs=[data.hex()], fault=at)
    for label, c in common.long_cases(names, shard, nshards):
        yield label, c
    r = rng_for('c06', shard)
    for name in gen.rotate(r, names, 400 if tier == 'quick' else 4000):
        msgs, lab = [], []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            data = codec.enc(name, gen.gen(name, r, pads=True, rich=.6))
            x = r.random()
            if x < .3:
                cut = r.randrange(3, len(data))
                data, what = data[:cut], 'prefix'
            elif x < .85:
                what, data = common.mutate_bytes(r, data)
            else:
                what = 'random'
                data = bytearray(gen.gen_bytes(r, r.choice(
                    [0, 1, 2, 3, 5, 12, 13, 30, 100, 400])))
                if len(data) > 2 and r.random() < .9:
                    data[2] = r.choice(sorted(codec.FACTORY))
            msgs.append(bytes(data).hex())
            lab.append(what)
            if r.random() < .4:
                name = r.choice(names)
        yield lab[0] if len(lab) == 1 else 'history', dict(msgs=msgs)


def messages(case):
    if 'long' not in case:
        return [bytes.fromhex(h) for h in case['msgs']]
    data = common.data_of(case)
    return [data, data[:len(data) * 2 // 3], data[:-1]]


class Broken(io.BytesIO):
    """A stream that fails when octet n is read."""

    def __init__(self, data, n):
        super().__init__(data)
        self.n = n

    def failing(self, got):
        if self.tell() > self.n:
            raise OSError('the stream failed')
        return got

    def read(self, k=-1):
        return self.failing(super().read(k))

    def read1(self, k=-1):
        return self.failing(super().read1(k))

    def readinto(self, b):
        return self.failing(super().readinto(b))

    def readinto1(self, b):
        return self.failing(super().readinto1(b))


def classify(data):
    """'none', 'pdu', 'short', 'known' or 'unspecified'."""
    if len(data) < 3:
        return 'unspecified'
    name = codec.FACTORY.get(data[2])
    if name is None:
        return 'none'
    try:
        codec.dec(name, data)
        return 'pdu'
    except codec.Short:
        return 'short'
    except codec.Malformed as e:
        return 'known' if name == 'UaPdu' else 'unspecified'


_good = {}


def good(name):
    if name not in _good:
        t = gen.signature(name, 2, 7)
        _good[name] = (codec.enc(name, t), sut.expected(name, t))
    return _good[name]


def check(case):
    for data in messages(case):
        if 'fault' in case:
            try:
                pdu = sut.factory.getPdu(sut.DataInputStream(
                    Broken(data, case['fault'])))
            except BAD as e:
                raise Violation('error', '%s: %s' % (type(e).__name__, e))
            except Exception:
                pass
            else:
                if pdu is not None or codec.FACTORY.get(data[2]):
                    raise Violation('accepted', 'a stream that failed at octet'
                                    ' %d of %d was decoded' % (
                                        case['fault'], len(data)))
        h = data[:100].hex()
        what = classify(data)
        t0 = time.process_time()
        exc = pdu = None
        try:
            with COUNTER:
                pdu = sut.factory.createPdu(data)
        except Exception as e:
            exc = e
        dt = time.process_time() - t0
        if dt > TIME:
            raise Violation('time', '%.1f s for %d octets' % (dt, len(data)))
        if COUNTER.n > LINES + PER_OCTET * len(data):
            raise Violation('time', '%d lines executed for %d octets' % (
                COUNTER.n, len(data)))
        if isinstance(exc, BAD) and what != 'known':
            raise Violation('error', '%s: %s on %s...' % (
                type(exc).__name__, exc, h[:80]))
        if what == 'short' and exc is None:
            raise Violation('accepted', 'a message that ends early (%d octets,'
                            ' type %d) was decoded' % (len(data), data[2]))
        if what == 'pdu' and exc is not None:
            raise Violation('rejected', '%s: %s on a well-formed message of '
                            'type %d' % (type(exc).__name__, exc, data[2]))
        if what == 'none' and (exc is not None or pdu is not None):
            raise Violation('unknown', 'type %d gave %r' % (
                data[2], exc or type(pdu).__name__))
        # the decoder still works, for this type and for others
        for t in (0, 200, 255, data[2] ^ 0x80 if len(data) > 2 else 73):
            if t not in codec.FACTORY:
                other = sut.decode(b'\x07\1' + bytes([t]) + bytes(200))
                if other is not None:
                    raise Violation('aftermath', 'after %s... type %d is '
                                    'decoded' % (h[:40], t))
        names = [n for n in {codec.FACTORY.get(data[2]) if len(data) > 2
                             else None, 'EntityStatePdu', 'SetDataPdu'} if n]
        for n in sorted(names):
            raw, want = good(n)
            d = sut.same(want, sut.extract(n, sut.decode(raw)), n)
            if d:
                raise Violation('aftermath', 'after %s...: %s' % (h[:40], d))



def nontrivial(case):
    return 'long' in case or 'fault' in case or any(classify(bytes.fromhex(h)) != 'pdu'
                                 for h in case['msgs'])


def _ua_probe():
    t = gen.signature('UaPdu', 1)
    data = bytearray(codec.enc('UaPdu', t))
    data[-3] = 1
    try:
        sut.factory.createPdu(bytes(data) + bytes(40))
    except NameError:
        return True
    except Exception:
        return False
    return False


PROBES = {'ua-sections': _ua_probe}
