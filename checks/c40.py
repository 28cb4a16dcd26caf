"""C40  the example receiver and sender."""
import contextlib
import importlib.util
import io
import math
import os
import re
import socket
import struct

from vlib import codec, gen, history, num, places, sut
from vlib.sut import REPO, Violation

ID = 'C40'
RULE = ('one case = a sequence of datagrams handed to one running receiver, '
        'or one run of the sender; non-trivial: at least one Entity State '
        'message')
ASSUMPTIONS = ['datagrams fit the receiver\'s 1024-octet buffer',
               'positions are not the exact centre of the Earth',
               'sockets are stand-ins; no traffic leaves the process']


class Stop(BaseException):
    pass


class FakeSocket:
    def __init__(self, *a, **k):
        self.queue, self.sent = [], []

    def setsockopt(self, *a):
        pass

    bind = settimeout = setblocking = connect = close = setsockopt

    def recv(self, n, *flags):
        if not self.queue:
            raise Stop
        return self.queue.pop(0)[:n]

    def recvfrom(self, n, *flags):
        return self.recv(n), ('127.0.0.1', 3000)

    def sendto(self, data, *a):
        self.sent.append(bytes(data))
        return len(data)

    def send(self, data):
        return self.sendto(data)


class FakeTime:
    """Stands in for the time module of an example."""
    naps = 0

    def sleep(self, s):
        self.naps += 1
        if self.naps > 2:
            raise Stop

    def time(self):
        return 0.0


_loaded = {}


def load(name):
    if name not in _loaded:
        path = os.path.join(REPO, 'examples', name + '.py')
        spec = importlib.util.spec_from_file_location('verif_' + name, path)
        mod = importlib.util.module_from_spec(spec)
        real = socket.socket
        socket.socket = FakeSocket
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                spec.loader.exec_module(mod)
        finally:
            socket.socket = real
        mod.time = FakeTime()
        if not isinstance(mod.udpSocket, FakeSocket):
            raise AssertionError('the example did not open a stand-in socket')
        _loaded[name] = mod
    return _loaded[name]


def espdu(r):
    t = gen.gen('EntityStatePdu', r, rich=.4)
    t['variableParameters'] = t['variableParameters'][:r.choice([0, 1, 5, 55])]
    k = r.random()
    if k < .85:
        la, lo = places.lat(r, 89.99), places.lon(r)
        loc = num.geo2ecef(math.radians(la), math.radians(lo), places.alt(r))
    else:
        loc = [r.uniform(-1e4, 1e4) for _ in range(3)]
    t['entityLocation'] = dict(zip('xyz', loc))
    t['entityOrientation'] = dict(zip(('psi', 'theta', 'phi'), [
        f32(places.angle(r)) for _ in range(3)]))
    return t


def f32(x):
    return struct.unpack('>f', struct.pack('>f', x))[0]


def cases(tier, rng_for, shard, nshards):
    r = rng_for('c40', shard)
    if shard < 2:
        yield 'sender', dict(what='sender')
    for i, name in enumerate(codec.PDU_NAMES):
        if i % nshards == shard:
            yield 'type', dict(what='receive', grams=[
                codec.enc(name, gen.signature(name, 0)).hex()])
    for t in range(256):
        if t % nshards == shard and t not in codec.FACTORY:
            b = bytearray(gen.gen_bytes(r, r.choice([12, 40, 144])))
            b[2] = t
            yield 'unsupported', dict(what='receive', grams=[bytes(b).hex()])
    for _ in range(2000 if tier == 'quick' else 25000):
        grams = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            k = r.random()
            if k < .6:
                e = espdu(r)
                b = codec.enc('EntityStatePdu', e)
                if r.random() < .5 and len(b) < 1024:
                    # the same or another entity a little further on
                    grams.append(b.hex())
                    for q, w in (('entityLocation', 1000), (
                            'entityOrientation', 1)):
                        if r.random() < .8:
                            e[q] = {a: f32(history.nudge(r, v / w)) * w
                                    for a, v in e[q].items()}
                    b = codec.enc('EntityStatePdu', e)
            elif k < .85:
                name = r.choice(sorted(codec.FACTORY.values()))
                if name == 'EntityStatePdu':
                    continue
                b = codec.enc(name, gen.gen(name, r, rich=.1))
            else:
                b = bytearray(gen.gen_bytes(r, r.choice([12, 40, 144])))
                while b[2] in codec.FACTORY:
                    b[2] = r.getrandbits(8)
            if len(b) <= 1024:
                grams.append(bytes(b).hex())
        yield 'stream', dict(what='receive', grams=grams)


def run(fn, *a):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            fn(*a)
        except Stop:
            pass
        except Exception as e:
            raise Violation('exception', '%s: %s after printing %r' % (
                type(e).__name__, e, out.getvalue()))
    return out.getvalue()


def check(case):
    if case['what'] == 'sender':
        return sender()
    rx = load('dis_receiver')
    for gram in case['grams']:
        data = bytes.fromhex(gram)
        if not 3 <= len(data) <= 1024:
            raise AssertionError
        rx.udpSocket.queue[:] = [data]
        name = codec.FACTORY.get(data[2])
        try:
            text = run(rx.recv)
        except Violation:
            # known finding: the receiver does not survive a None
            if name is None and sut.factory.createPdu(data) is None:
                continue
            raise
        if rx.udpSocket.queue:
            raise Violation('unread', 'the receiver read nothing')
        if name == 'EntityStatePdu':
            report(text, codec.dec(name, data)[0])
        else:
            if not re.search(r'\b%s\b' % (name or 'NoneType'), text) or \
                    not re.search(r'\b%d bytes' % len(data), text):
                raise Violation('report', '%s of %d octets: %r' % (
                    name, len(data), text))


def field(text, label):
    m = re.findall(r'^\s*%s\s*:\s*(-?[\d.]+)( \w+)?\s*$' % label, text, re.M)
    if len(m) != 1:
        raise Violation('report', 'no single %s in %r' % (label, text))
    return float(m[0][0])


def report(text, t):
    if 'EntityStatePdu' not in text:
        raise Violation('report', repr(text))
    if field(text, 'Id') != t['entityID']['entityNumber']:
        raise Violation('report', 'Id is %r, not %r' % (
            field(text, 'Id'), t['entityID']['entityNumber']))
    loc = [t['entityLocation'][k] for k in 'xyz']
    got = {k: field(text, k) for k in ('Latitude', 'Longitude', 'Altitude',
                                       'Yaw', 'Pitch', 'Roll')}
    if not 6.34e6 < num.norm(loc) < 6e7 or math.hypot(*loc[:2]) < 1e-3:
        return
    la, lo, al = num.ecef2geo(*loc)
    num.close('Latitude', got['Latitude'], math.degrees(la), .00501)
    num.close('Longitude', num.turn(got['Longitude'], math.degrees(lo)), 0.0,
              .00501)
    num.close('Altitude', got['Altitude'], al, .501)
    o = t['entityOrientation']
    m = num.mm(num.ned_axes(la, lo),
               num.euler(o['psi'], o['theta'], o['phi']))
    pitch = math.degrees(math.asin(max(-1, min(1, -m[2][0]))))
    num.close('Pitch', got['Pitch'], pitch, .0051)
    if abs(pitch) < 89:
        yaw = math.degrees(math.atan2(m[1][0], m[0][0]))
        roll = math.degrees(math.atan2(m[2][1], m[2][2]))
        if swapped():
            # known finding: these two labels are exchanged
            got['Yaw'], got['Roll'] = got['Roll'], got['Yaw']
        num.close('Yaw', num.turn(got['Yaw'], yaw), 0.0, .0051)
        num.close('Roll', num.turn(got['Roll'], roll), 0.0, .0051)


def fixed_report():
    """What the receiver prints for one level entity heading east."""
    t = gen.signature('EntityStatePdu', 0)
    la, lo = .5, .25
    t['entityLocation'] = dict(zip('xyz', num.geo2ecef(la, lo, 10.0)))
    m = num.mm(num.tr(num.ned_axes(la, lo)), num.euler(math.pi / 2, 0, 0))
    t['entityOrientation'] = dict(
        psi=math.atan2(m[1][0], m[0][0]), theta=-math.asin(m[2][0]),
        phi=math.atan2(m[2][1], m[2][2]))
    rx = load('dis_receiver')
    rx.udpSocket.queue[:] = [codec.enc('EntityStatePdu', t)]
    return run(rx.recv)


_swap = []


def swapped():
    if not _swap:
        text = fixed_report()
        _swap.append(abs(field(text, 'Yaw')) < .1
                     and abs(field(text, 'Roll') - 90) < .1)
    return _swap[0]


def _unknown_type():
    data = bytearray(codec.enc('EntityStatePdu',
                               gen.signature('EntityStatePdu', 0)))
    data[2] = 200
    rx = load('dis_receiver')
    rx.udpSocket.queue[:] = [bytes(data)]
    try:
        run(rx.recv)
    except Violation:
        return True
    return False


PROBES = {'receiver-labels': swapped, 'receiver-unknown-type': _unknown_type}


def sender():
    tx = load('dis_sender')
    tx.udpSocket.sent.clear()
    tx.time = FakeTime()
    run(tx.send)
    if len(tx.udpSocket.sent) < 2:
        raise Violation('send', 'sent %r' % tx.udpSocket.sent)
    for data in tx.udpSocket.sent:
        t, n = codec.dec('EntityStatePdu', data)
        if n != len(data) or data[2:4] != b'\x01\x01' or data[0] != 7:
            raise Violation('send', data.hex())
        e = t['entityID']
        got = (e['simulationAddress']['site'],
               e['simulationAddress']['application'], e['entityNumber'])
        if got != (17, 23, 42):
            raise Violation('send', 'entity %r' % (got,))
        pdu = sut.factory.createPdu(data)
        if pdu.marking.charactersString() != 'Igor3d':
            raise Violation('send', 'marking %r' % (
                pdu.marking.charactersString(),))
        loc = [t['entityLocation'][k] for k in 'xyz']
        want = num.geo2ecef(math.radians(36.6), math.radians(-121.9), 1)
        num.close('location', loc, want, 1e-3)
        o = t['entityOrientation']
        num.close('attitude', num.euler(o['psi'], o['theta'], o['phi']),
                  num.tr(num.ned_axes(math.radians(36.6),
                                      math.radians(-121.9))), 1e-6)
        rx = load('dis_receiver')
        rx.udpSocket.queue[:] = [data]
        report(run(rx.recv), t)


def nontrivial(case):
    return case['what'] == 'sender' or any(
        bytes.fromhex(g)[2] == 1 for g in case['grams'])
