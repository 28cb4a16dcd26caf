"""Generators of value trees, driven by a random.Random (pure function of the
seed).  Boundary-heavy; every float is exact in its wire format."""
import struct
from random import Random
from zlib import crc32

from . import codec, consts
from .codec import RANGE, SPECS, FMT

_INTS = {}


def boundary_ints(fmt):
    if fmt not in _INTS:
        lo, hi = RANGE[fmt]
        s = {lo, lo + 1, hi, hi - 1, 0, 1, 2, hi // 2, hi // 2 + 1, lo // 2}
        n = codec.SIZE[fmt] * 8
        for k in range(0, n):
            for v in (1 << k, (1 << k) - 1, (1 << k) + 1):
                if lo <= v <= hi:
                    s.add(v)
        s.add(0x0102030405060708 >> (64 - n) & hi)
        _INTS[fmt] = sorted(s)
    return _INTS[fmt]


def key_ints(fmt):
    """The few boundary values a sweep always visits."""
    lo, hi = RANGE[fmt]
    return sorted({lo, lo + 1, 0, 1, hi // 2, hi // 2 + 1, hi - 1, hi})


F32 = [0.0, -0.0, 1.0, -1.0, 0.5, float('inf'), float('-inf'), float('nan'),
       struct.unpack('>f', bytes.fromhex('7f7fffff'))[0],
       struct.unpack('>f', bytes.fromhex('00000001'))[0],
       struct.unpack('>f', bytes.fromhex('00800000'))[0],
       struct.unpack('>f', bytes.fromhex('3f800001'))[0],
       struct.unpack('>f', bytes.fromhex('c2f6e979'))[0]]
F64 = [0.0, -0.0, 1.0, -1.0, 1e300, -1e-300, 5e-324, 6378137.123456789,
       float('inf'), float('-inf'), float('nan'), 1.7976931348623157e308,
       1 / 3]


def profiled(r, fmt, prof):
    """A number under the profile of the tree being generated: few small
    values, or nearly one value everywhere, so that fields coincide."""
    if prof[0] == 'consts':
        return from_pool(r, fmt, pool(*r.classes))
    lo, hi = RANGE[fmt] if fmt[0] != 'f' else (-1 << 24, 1 << 24)
    if prof[0] == 'small':
        v = r.randint(0, prof[1])
        if lo < 0 and r.random() < .2:
            v = -v
    else:
        v = prof[1] if r.random() < .8 else r.choice([0, 1, prof[1] + 1])
    v = min(max(v, lo), hi)
    return float(v) if fmt[0] == 'f' else v


_POOL = {}


def pool(*names):
    """Numbers the code of these classes uses, and their neighbours."""
    if names not in _POOL:
        own = frozenset().union(*(consts.of_class(n) for n in names))
        _POOL[names] = consts.around(own)
    return _POOL[names]


def by_consts(r):
    p = getattr(r, 'profile', None)
    return bool(p) and p[0] == 'consts'


def fit(v, fmt):
    """v as a value of the format, or None."""
    if fmt[0] == 'f':
        if fmt == 'f64':
            return float(v)
        if abs(v) > 3e38:
            return None
        return struct.unpack('>f', struct.pack('>f', v))[0]
    lo, hi = RANGE[fmt]
    return int(v) if v == int(v) and lo <= v <= hi else None


def from_pool(r, fmt, nums):
    v = fit(r.choice(nums), fmt) if nums and r.random() < .75 else None
    return plain_scalar(r, fmt) if v is None else v


def choose_profile(r):
    x = r.random()
    if x < .15:
        return 'small', r.choice([1, 2, 3, 9, 15])
    if x < .22:
        return 'equal', r.choice([0, 1, 2, 5, 255, 65535, -1, 1000])
    if x < .34:
        return 'consts', 0
    return None


def gen_scalar(r, fmt):
    prof = getattr(r, 'profile', None)
    if prof and r.random() < .95:
        return profiled(r, fmt, prof)
    return plain_scalar(r, fmt)


def plain_scalar(r, fmt):
    if fmt[0] == 'f':
        x = r.random()
        if x < .25:
            return r.choice(F32 if fmt == 'f32' else F64)
        if x < .6:
            v = r.uniform(-1, 1) * 10 ** r.randint(-6, 7)
        else:
            n = codec.SIZE[fmt]
            v = struct.unpack(FMT[fmt], r.getrandbits(8 * n)
                              .to_bytes(n, 'big'))[0]
            if v != v:
                v = float('nan')
        if fmt == 'f32':
            v = struct.unpack('>f', struct.pack('>f', v))[0]
        return v
    x = r.random()
    if x < .3:
        return r.choice(boundary_ints(fmt))
    lo, hi = RANGE[fmt]
    if x < .45:
        return r.randint(0, min(hi, 9))
    return r.randint(lo, hi)


def gen_len(r, limit):
    x = r.random()
    if x < .2:
        n = 0
    elif x < .45:
        n = 1
    elif x < .7:
        n = 2
    elif x < .9:
        n = r.randint(3, 5)
    else:
        n = r.randint(6, 20)
    return min(n, limit)


def max_len(spec, f):
    c = spec.count_of(f.name)
    if c is None:
        return 1 << 30
    return ((RANGE[c.fmt][1] - c.c) // c.k)


def gen_bytes(r, n):
    x = r.random()
    if x < .15:
        return bytes(n)
    if x < .3:
        return b'\xff' * n
    return bytes(r.getrandbits(8) for _ in range(n))


def gen_sv(r, kind, pads, rich):
    names = [n for n in codec.SV_TYPES.values()
             if kind == 'any' or codec.SV_KIND[n] == kind]
    if r.random() < .35:
        while True:
            rt = gen_scalar(r, 'u32')
            if rt not in codec.SV_TYPES:
                break
        if r.random() < .3:
            rt = r.choice([0, 1, 2999, 3001, 3999, 4002, 4499, 4501, 0xffffffff])
        n = r.choice([0, 1, 2, 3, 4, 5, 10, 30]) * 8 + 2
        return {'$sv': 'unknown', 'recordType': rt,
                'data': gen_bytes(r, n).hex()}
    nm = r.choice(names)
    t = gen(nm, r, pads, rich)
    t['$sv'] = nm
    return t


def gen_modulation(r, tree, pads, decodable):
    """Modulation and antenna sections, consistent with the type fields."""
    mt = tree['modulationType']
    x = r.random()
    if x < .55:
        mt['radioSystem'] = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 65535])
    rs = mt['radioSystem']
    if r.random() < .3:
        mt['majorModulation'] = r.choice([0, 1])
    rec = codec.modulation_class(mt['majorModulation'], rs, 16)
    y = r.random()
    if rec != 'UnknownRadio' and y < .6:
        sub = gen(rec, r, pads)
        sub['$rec'] = rec
    elif y < .8:
        n = r.choice([1, 7, 8, 15, 16, 17, 24, 32, 40, 128, 248, 255])
        if rec != 'UnknownRadio' and n == 16:
            n = 24
        sub = {'$raw': gen_bytes(r, n).hex()}
    else:
        sub = None
    tree['modulationParameters'] = sub
    if r.random() < .5:
        tree['antennaPatternType'] = r.choice([0, 1, 1, 1, 2, 65535])
    y = r.random()
    if tree['antennaPatternType'] == 1 and y < .6:
        sub = gen('BeamAntennaPattern', r, pads)
        sub['$rec'] = 'BeamAntennaPattern'
    elif y < .8:
        n = r.choice([1, 6, 8, 39, 40, 41, 48, 64, 127, 256, 300])
        if tree['antennaPatternType'] == 1 and n == 40:
            n = 48
        sub = {'$raw': gen_bytes(r, n).hex()}
    else:
        sub = None
    tree['antennaPattern'] = sub


def gen_datum(r, tree):
    x = r.random()
    if x < .15:
        bits = 0
    elif x < .5:
        bits = r.randint(0, 24) * 8
    elif x < .75:
        bits = r.randint(0, 200)
    elif x < .9:
        bits = 64 * r.randint(0, 4) + r.randint(-1, 1)
        bits = max(bits, 0)
    else:
        bits = r.randint(0, 3000)
    if by_consts(r):
        near = [c for c in pool(*r.classes) if c == int(c)
                and 0 <= c <= 20000]
        if near and r.random() < .5:
            bits = int(r.choice(near)) * r.choice([1, 1, 8])
    tree['variableDatumID'] = gen_scalar(r, 'u32')
    tree['variableDatumLength'] = bits
    tree['variableData'] = list(gen_bytes(r, (bits + 7) // 8))


def gen(name, r, pads=False, rich=1.0):
    """A random tree for a class.  pads: random padding contents."""
    if getattr(r, 'inside', False):
        outer, r.classes = r.classes, (r.classes[0], name)
        try:
            return _gen(name, r, pads, rich)
        finally:
            r.classes = outer
    r.inside, r.profile, r.classes = True, choose_profile(r), (name,)
    try:
        return _gen(name, r, pads, rich)
    finally:
        r.inside, r.profile = False, None


def _gen(name, r, pads, rich):
    spec = SPECS[name]
    t = {}
    for f in spec.fields:
        k = f.kind
        if k == 'scalar':
            t[f.name] = gen_scalar(r, f.fmt)
        elif k == 'rec':
            t[f.name] = gen(f.cls, r, pads, rich)
        elif k == 'pad':
            if pads and not f.zero and r.random() < .7:
                t[f.name] = gen_bytes(r, f.n).hex()
        elif k == 'list':
            n = gen_len(r, max_len(spec, f))
            if by_consts(r) and r.random() < .2:
                near = [v for v in pool(*r.classes) if v == int(v)
                        and 0 <= v <= min(120, max_len(spec, f))]
                n = int(r.choice(near)) if near else n
            if rich < 1 and r.random() > rich:
                n = 0
            if f.elem not in FMT and n > 5 and r.random() < .7:
                n = r.randint(0, 5)
            lst = t[f.name] = [gen_elem(f, r, pads, rich * .8)
                               for _ in range(n)]
            if n > 1 and r.random() < .15:
                # repeated elements
                for _ in range(r.randint(1, n)):
                    lst[r.randrange(n)] = copy(r.choice(lst))
        elif k == 'array':
            t[f.name] = [gen_scalar(r, f.fmt) for _ in range(f.n)]
        elif k == 'bits':
            for nm, w, isb in f.bits:
                x = r.random()
                v = (r.choice([0, 1, (1 << w) - 1, 1 << (w - 1)])
                     if x < .4 else r.getrandbits(w))
                if by_consts(r) and x > .5:
                    v = r.choice([int(c) for c in pool(*r.classes)
                                  if 0 <= c < 1 << w and c == int(c)]
                                 or [v])
                if nm == 'padding' and not pads and r.random() < .5:
                    v = 0
                t[nm] = bool(v) if isb else v
        elif k == 'custom':
            if f.key == 'beamStatus':
                t['beamState'] = r.randint(0, 1)
            elif f.key == 'variableDatum':
                gen_datum(r, t)
            elif f.key == 'modulation':
                gen_modulation(r, t, pads, True)
    if spec.ptype is not None:
        t['pduType'] = spec.ptype
        if r.random() < .7:
            t['protocolFamily'] = spec.family
        if r.random() < .5:
            t['protocolVersion'] = r.choice([5, 6, 7])
        if r.random() < .5:
            n = len(codec.enc(name, t))
            t['length'] = n & 0xffff
    return t


def gen_elem(f, r, pads, rich=1.0):
    if f.elem in FMT:
        return gen_scalar(r, f.elem)
    if f.elem.startswith('SV('):
        return gen_sv(r, f.elem[3:-1], pads, rich)
    return gen(f.elem, r, pads, rich)


# ---------------------------------------------------------------- directed
class _Sig:
    """Counter behind `signature`: every octet of the message differs."""

    def __init__(self, start):
        self.v = start

    def octets(self, n):
        out = []
        for _ in range(n):
            self.v = self.v % 251 + 1
            out.append(self.v)
        return bytes(out)


def signature(name, nlist=2, start=0, _s=None):
    """Deterministic tree in which (almost) every octet has its own value, so
    that any exchange, shift, loss or width error is visible."""
    s = _s or _Sig(start)
    spec = SPECS[name]
    t = {}
    for f in spec.fields:
        k = f.kind
        if k == 'scalar':
            b = s.octets(codec.SIZE[f.fmt])
            if f.fmt[0] == 'f':
                b = bytes([0x40 + b[0] % 32]) + b[1:]
            t[f.name] = struct.unpack(FMT[f.fmt], b)[0]
        elif k == 'rec':
            t[f.name] = signature(f.cls, nlist, 0, s)
        elif k == 'list':
            n = min(nlist, max_len(spec, f))
            lst = t[f.name] = []
            for i in range(n):
                if f.elem in FMT:
                    b = s.octets(codec.SIZE[f.elem])
                    lst.append(struct.unpack(FMT[f.elem], b)[0])
                elif f.elem.startswith('SV('):
                    lst.append(sig_sv(f.elem[3:-1], i, nlist, s))
                else:
                    lst.append(signature(f.elem, nlist, 0, s))
        elif k == 'array':
            t[f.name] = [struct.unpack(FMT[f.fmt],
                                       s.octets(codec.SIZE[f.fmt]))[0]
                         for _ in range(f.n)]
        elif k == 'bits':
            v = int.from_bytes(s.octets(f.n // 8), 'big')
            pos = f.n
            for nm, w, isb in f.bits:
                pos -= w
                x = v >> pos & (1 << w) - 1
                t[nm] = bool(x) if isb else x
        elif k == 'custom':
            if f.key == 'beamStatus':
                t['beamState'] = s.octets(1)[0] & 1
            elif f.key == 'variableDatum':
                n = s.octets(1)[0] % 13 + 1
                t['variableDatumID'] = int.from_bytes(s.octets(4), 'big')
                t['variableDatumLength'] = n * 8
                t['variableData'] = list(s.octets(n))
            elif f.key == 'modulation':
                t['modulationType']['radioSystem'] = 6
                sub = signature('CCTTSincgarsMP', nlist, 0, s)
                sub['$rec'] = 'CCTTSincgarsMP'
                t['modulationParameters'] = sub
                t['antennaPatternType'] = 1
                sub = signature('BeamAntennaPattern', nlist, 0, s)
                sub['$rec'] = 'BeamAntennaPattern'
                t['antennaPattern'] = sub
    if spec.ptype is not None:
        t['pduType'], t['protocolFamily'] = spec.ptype, spec.family
        t['protocolVersion'] = 7
        t['length'] = len(codec.enc(name, t)) & 0xffff
    return t


def zero(name, nlist=0, fill=0):
    """Every number zero (or, fill=1, at its maximum), every list nlist long."""
    spec = SPECS[name]
    t = {}
    for f in spec.fields:
        k = f.kind
        if k == 'scalar':
            t[f.name] = num(f.fmt, fill)
        elif k == 'rec':
            t[f.name] = zero(f.cls, nlist, fill)
        elif k == 'list':
            t[f.name] = [num(f.elem, fill) if f.elem in FMT else
                         {'$sv': 'unknown', 'recordType': 1, 'data': '00' * 2}
                         if f.elem.startswith('SV(') else
                         zero(f.elem, nlist, fill)
                         for _ in range(min(nlist, max_len(spec, f)))]
        elif k == 'array':
            t[f.name] = [num(f.fmt, fill)] * f.n
        elif k == 'bits':
            for nm, w, isb in f.bits:
                t[nm] = bool(fill) if isb else ((1 << w) - 1) * fill
        elif k == 'custom':
            if f.key == 'beamStatus':
                t['beamState'] = fill
            elif f.key == 'variableDatum':
                t.update(variableDatumID=0, variableDatumLength=8 * nlist,
                         variableData=[255 * fill] * nlist)
            elif f.key == 'modulation':
                t['modulationType']['radioSystem'] = 0
                t['antennaPatternType'] = 0
                t['modulationParameters'] = t['antennaPattern'] = None
    if spec.ptype is not None:
        t['pduType'], t['protocolFamily'] = spec.ptype, spec.family
    return t


def num(fmt, fill):
    return (float(fill) if fmt[0] == 'f' else RANGE[fmt][1]) if fill else (
        0.0 if fmt[0] == 'f' else 0)


def sig_sv(kind, i, nlist, s):
    names = [n for n in codec.SV_TYPES.values()
             if kind == 'any' or codec.SV_KIND[n] == kind]
    if i % (len(names) + 1) == len(names):
        return {'$sv': 'unknown',
                'recordType': int.from_bytes(s.octets(4), 'big') | 0x10000,
                'data': s.octets(10).hex()}
    nm = names[i % (len(names) + 1)]
    t = signature(nm, nlist, 0, s)
    t['$sv'] = nm
    return t


def copy(t):
    if isinstance(t, dict):
        return {k: copy(v) for k, v in t.items()}
    if isinstance(t, list):
        return [copy(v) for v in t]
    return t


SIZES = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100,
         127, 128, 129, 200, 254, 255, 256, 257, 300)
DEEP = (15, 16, 17, 33, 65, 128, 255, 256)
FIXED_FIELDS = {'pduType'}      # set by the class


def sweep(name, nlist=1, shard=0, nshards=1):
    """Directed trees: the signature, every scalar at its boundary values,
    every list at several sizes.  Sharded before anything is copied."""
    base = signature(name, nlist)
    n = [hash_name(name)]

    def mine():
        n[0] += 1
        return n[0] % nshards == shard

    if mine():
        yield 'signature', base
    if mine():
        yield 'signature', signature(name, 3, 101)
    if mine():
        yield 'signature', signature(name, 0, 57)
    if mine():
        yield 'signature', signature(name, 5, 143)
    seen = set()
    for path, f, spec, owner in codec.walk(name, base):
        if f.kind == 'scalar':
            if not swept(f, spec, path):
                continue
            vals = (key_ints(f.fmt) if f.fmt[0] != 'f'
                    else (F32 if f.fmt == 'f32' else F64))
            for v in vals:
                if mine():
                    t = copy(base)
                    codec.at(t, path)[f.name] = v
                    yield 'boundary', t
        elif f.kind == 'bits':
            for nm, w, isb in f.bits:
                for v in sorted({0, 1, (1 << w) - 1, 1 << (w - 1)}):
                    if mine():
                        t = copy(base)
                        codec.at(t, path)[nm] = bool(v) if isb else v
                        yield 'boundary', t
        elif f.kind == 'array':
            for i in range(f.n):
                for v in (0, 127, 128, 255):
                    if mine():
                        t = copy(base)
                        codec.at(t, path)[f.name][i] = v
                        yield 'boundary', t
        elif f.kind == 'list' and (spec.name, f.name) not in seen:
            seen.add((spec.name, f.name))
            mx = max_len(spec, f)
            for k in SIZES:
                if k > mx or (k > 9 and len(path) > 2 and
                              k not in DEEP) or not mine():
                    continue
                t = copy(base)
                o = codec.at(t, path)
                el = signature(spec.name, 3, 31)[f.name]
                o[f.name] = [copy(el[i % len(el)]) for i in range(k)]
                yield 'listsize', t
    yield from patterns(name, shard, nshards)
    yield from latin(name, 320, shard, nshards)
    yield from constants(name, shard, nshards)


def constants(name, shard=0, nshards=1):
    """Numbers the code itself uses, in every field: one field at a time,
    then many at once, then as sizes of lists."""
    base = signature(name, 2)
    n = [hash_name(name)]

    def mine():
        n[0] += 1
        return n[0] % nshards == shard

    walk = list(codec.walk(name, base))
    for path, f, spec, owner in walk:
        own = consts.around(consts.of_class(name) | consts.of_class(spec.name))
        if f.kind == 'scalar' and swept(f, spec, path):
            for c in own:
                v = fit(c, f.fmt) if abs(c) > 9 else None
                if v is not None and mine():
                    t = copy(base)
                    codec.at(t, path)[f.name] = v
                    yield 'constants', t
        elif f.kind == 'list':
            for c in own:
                if c == int(c) and 9 < c <= min(300, max_len(spec, f)) \
                        and (c < 40 or len(path) < 3) and mine():
                    t = copy(base)
                    el = signature(spec.name, 3, 31)[f.name]
                    codec.at(t, path)[f.name] = [
                        copy(el[i % len(el)]) for i in range(int(c))]
                    yield 'constants', t
    everyone = {s.name for _, _, s, _ in walk} | {name}
    big = {c for s in everyone for c in consts.of_class(s)
           if abs(c) > 9 or c != int(c)}
    for k in range(180 if big else 0):
        if not mine():
            continue
        r = Random(crc32(b'%d %s' % (k, name.encode())))
        t = signature(name, 2, k)
        p, exact = (.3, .6, 1)[k % 3], k // 3 % 4
        for path, f, spec, owner in codec.walk(name, t):
            own = consts.of_class(name) | consts.of_class(spec.name)
            own = sorted(own) if exact else consts.around(own)
            if f.kind == 'scalar' and swept(f, spec, path):
                if r.random() < p and own:
                    v = fit(r.choice(own), f.fmt)
                    owner[f.name] = owner[f.name] if v is None else v
            elif f.kind in ('array', 'list') and owner[f.name] \
                    and (f.kind == 'array' or f.elem in FMT):
                fmt = f.fmt if f.kind == 'array' else f.elem
                for i in range(len(owner[f.name])):
                    v = fit(r.choice(own), fmt) if own else None
                    if v is not None and r.random() < p:
                        owner[f.name][i] = v
            elif f.kind == 'bits':
                for nm, w, isb in f.bits:
                    v = [int(c) for c in own if 0 <= c < 1 << w
                         and c == int(c)]
                    if v and r.random() < p:
                        v = r.choice(v)
                        owner[nm] = bool(v) if isb else v
            elif f.kind == 'custom' and f.key == 'variableDatum':
                v = fit(r.choice(own), 'u32') if own else None
                if v is not None and r.random() < p:
                    owner['variableDatumID'] = v
        yield 'constants', t


def swept(f, spec, path):
    """Is this scalar free to take any value?"""
    return not ((spec.ptype is not None and not path
                 and f.name in FIXED_FIELDS)
                or (path and path[-1] == 'modulationType'
                    and f.name == 'radioSystem')
                or f.name == 'antennaPatternType')


def spread(fmt, k, h):
    """The k-th value for a number: over 320 consecutive k every 8-bit value
    and, for wider ones, every value up to 255."""
    if fmt[0] == 'f':
        k += h
        if k % 2:
            vals = F32 if fmt == 'f32' else F64
            return vals[k // 2 % len(vals)]
        v = (-1) ** (h % 2) * 10.0 ** (k // 2 % 16 - 6) * (1 + h % 97 / 97)
        return (v if fmt == 'f64' else
                struct.unpack('>f', struct.pack('>f', v))[0])
    lo, hi = RANGE[fmt]
    n = hi - lo + 1
    if n > 256 and k % 5 == 4:
        return hi - (k // 5 + h) % 64
    k = k // 5 * 4 + k % 5 if n > 256 else k
    m = 256 if k < 256 else 1024
    return lo + (k + h) % min(n, m) if n <= 1024 else (k + h) % m


def latin(name, rounds=320, shard=0, nshards=1):
    """Trees in which every field runs through its values at its own offset:
    over the rounds each field takes every value, against changing others."""
    n = hash_name(name)
    for k in range(rounds):
        n += 1
        if n % nshards != shard:
            continue
        t = signature(name, 2, k)
        for path, f, spec, owner in codec.walk(name, t):
            h = crc32(repr((path, f.name)).encode())
            if f.kind == 'scalar' and swept(f, spec, path):
                owner[f.name] = spread(f.fmt, k, h)
            elif f.kind == 'array':
                owner[f.name] = [spread(f.fmt, k, h + 37 * i)
                                 for i in range(f.n)]
            elif f.kind == 'list' and f.elem in FMT:
                owner[f.name] = [spread(f.elem, k, h + 37 * i)
                                 for i in range(len(owner[f.name]))]
            elif f.kind == 'bits':
                for nm, w, isb in f.bits:
                    v = k + crc32(nm.encode() + b'%d' % h) & (1 << w) - 1
                    owner[nm] = bool(v) if isb else v
        yield 'latin', t


def patterns(name, shard=0, nshards=1):
    """Each nested record and section entirely zero, one or at its maximum
    among distinct others; siblings equal; elements equal."""
    base = signature(name, 3)
    n = [hash_name(name)]

    def mine():
        n[0] += 1
        return n[0] % nshards == shard

    def out(path, v):
        t = copy(base)
        at = codec.at(t, path[:-1])
        at[path[-1]] = v
        return 'pattern', t
    for path, f, spec, owner in codec.walk(name, base):
        if f.kind == 'rec':
            for fill in (0, 1):
                if f.cls != 'ModulationType' and mine():
                    yield out(path + (f.name,), zero(f.cls, 2, fill))
            for g in spec.fields:
                if g is not f and g.kind == 'rec' and g.cls == f.cls \
                        and mine():
                    yield out(path + (f.name,), copy(owner[g.name]))
        elif f.kind == 'list' and owner[f.name]:
            els = owner[f.name]
            for i in range(len(els)):
                z = ([num(f.elem, x) for x in (0, 1)] if f.elem in FMT else
                     [] if f.elem.startswith('SV(') else
                     [zero(f.elem, 1, x) for x in (0, 1)])
                z += [copy(e) for j, e in enumerate(els) if j != i]
                for e in z:
                    if mine():
                        yield out(path + (f.name, i), e)
            for k in (2, 3):
                for e in els[:1]:
                    if k <= max_len(spec, f) and mine():
                        yield out(path + (f.name,),
                                  [copy(e) for _ in range(k)])
        elif f.kind == 'array' and mine():
            yield out(path + (f.name,), [0] * f.n)


def sweep_pads(name, shard=0, nshards=1):
    base = signature(name, 1)
    n = hash_name(name)
    for path, f, spec, owner in codec.walk(name, base):
        if f.kind == 'pad' and not f.zero:
            pats = [bytes(i) + b'\xa5' + bytes(f.n - i - 1)
                    for i in range(f.n)] + [b'\xff' * f.n, b'\x80' * f.n]
            for b in pats:
                n += 1
                if n % nshards == shard:
                    t = copy(base)
                    codec.at(t, path)[f.name] = b.hex()
                    yield 'padding', t


def hash_name(name):
    return sum(map(ord, name))


def rotate(r, names, per):
    """`per` rounds over all names in a shuffled order each."""
    names = list(names)
    if hasattr(r, 'load'):          # choices of the coverage-guided search
        for _ in range(per * len(names)):
            yield r.choice(names)
        return
    for _ in range(per):
        order = list(names)
        r.shuffle(order)
        yield from order


MODES = ('assign', 'mutate', 'ctor')
