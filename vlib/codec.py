"""Interpreter of the reference layout table (layout.py).

Everything here is independent of opendis: `enc` turns a value tree into the
octets the documented layout prescribes, `dec` reads octets back into a tree.
A tree is JSON: a dict attribute -> int | float | bool | list | dict, octet
strings as hex text.  Padding of a layout lives under keys '~0', '~1', ...
(hex; absent means zero).
"""
import re
import struct
from . import layout

FMT = {'u8': '>B', 'u16': '>H', 'u32': '>I', 'u64': '>Q',
       'i8': '>b', 'i16': '>h', 'i32': '>i', 'i64': '>q',
       'f32': '>f', 'f64': '>d'}
SIZE = {k: struct.calcsize(v) for k, v in FMT.items()}
RANGE = {}
for _k in FMT:
    if _k[0] == 'u':
        RANGE[_k] = (0, (1 << int(_k[1:])) - 1)
    elif _k[0] == 'i':
        _n = int(_k[1:])
        RANGE[_k] = (-(1 << (_n - 1)), (1 << (_n - 1)) - 1)


class Malformed(Exception):
    """The octets are not a well-formed message of the layout."""


class Short(Malformed):
    """The octets end before the message does."""


class Field:
    __slots__ = ('kind', 'name', 'fmt', 'default', 'cls', 'n', 'zero', 'list',
                 'k', 'c', 'elem', 'bits', 'readable', 'key')

    def __init__(self, kind, name, **kw):
        self.kind, self.name = kind, name
        self.readable = name != '-'
        for k in self.__slots__[2:]:
            if k != 'readable':
                setattr(self, k, kw.get(k))

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


class Spec:
    def __init__(self, name, ptype, family, fields):
        self.name, self.ptype, self.family, self.fields = \
            name, ptype, family, fields
        self.lists = {f.name: f for f in fields if f.kind == 'list'}
        self.by_name = {f.name: f for f in fields if f.name != '-'}

    def count_of(self, listname):
        for f in self.fields:
            if f.kind == 'count' and f.list == listname:
                return f


def _num(text, fmt):
    return float(text) if fmt[0] == 'f' else int(text)


def _parse_fields(text):
    for m, rep in layout.MACROS.items():
        text = re.sub(r'(?<!\S)%s(?!\S)' % m, lambda _: rep, text)
        text = re.sub(r'(?<!\S)%s(?!\S)' % 'H',
                      lambda _: layout.MACROS['H'], text)
    out, npad = [], 0
    for tok in re.findall(r'bits\{[^}]*\}|\S+', text):
        if tok.startswith('~'):
            zero = tok.endswith('!')
            out.append(Field('pad', '~%d' % npad, n=int(tok.strip('~!')),
                             zero=zero))
            npad += 1
        elif tok.startswith('bits{'):
            bits = []
            for b in tok[5:-1].split():
                nm, w = b.split(':')
                bits.append((nm, int(w.rstrip('b')), w.endswith('b')))
            out.append(Field('bits', '-', bits=bits,
                             n=sum(b[1] for b in bits)))
        elif '@' in tok:
            out.append(Field('custom', '-', key=tok.split('@')[1]))
        elif re.match(r'[\w-]+:#', tok):
            m = re.match(r'([\w-]+):#(\w+)\((\w+)\)(?:\*(\d+))?(?:\+(\d+))?$',
                         tok)
            assert m, tok
            out.append(Field('count', m[1], fmt=m[2], list=m[3],
                             k=int(m[4] or 1), c=int(m[5] or 0)))
        elif '*' in tok:
            nm, el = tok.split('*')
            out.append(Field('list', nm, elem=el))
        elif '[' in tok:
            m = re.match(r'(\w+)\[(\d+)\]:(\w+)$', tok)
            out.append(Field('array', m[1], n=int(m[2]), fmt=m[3]))
        else:
            nm, ty = tok.split(':')
            default = None
            if '=' in ty:
                ty, d = ty.split('=')
                default = _num(d, ty)
            if ty in FMT:
                if default is None:
                    default = 0.0 if ty[0] == 'f' else 0
                out.append(Field('scalar', nm, fmt=ty, default=default))
            else:
                out.append(Field('rec', nm, cls=ty))
    return out


SPECS = {}
PDU_NAMES = []      # in table order
RECORD_NAMES = []   # everything else, SV bodies excluded
for _line in layout.RAW.splitlines():
    _line = _line.split('#', 1)[0] if _line.startswith('#') else _line
    if not _line.strip():
        continue
    _m = re.match(r'(\w+)(?:\[(\d+),(\d+)\])? :(.*)$', _line)
    assert _m, _line
    SPECS[_m[1]] = Spec(_m[1], _m[2] and int(_m[2]), _m[3] and int(_m[3]),
                        _parse_fields(_m[4]))
    if _m[2]:
        PDU_NAMES.append(_m[1])

# standard variable records
SV_TYPES = {3000: 'HighFidelityHAVEQUICKRadio',
            4000: 'DirectedEnergyPrecisionAimpoint',
            4001: 'DirectedEnergyAreaAimpoint',
            4500: 'DirectedEnergyDamage'}
SV_NUMBER = {v: k for k, v in SV_TYPES.items()}
SV_KIND = {'HighFidelityHAVEQUICKRadio': 'vtp',
           'DirectedEnergyPrecisionAimpoint': 'damage',
           'DirectedEnergyAreaAimpoint': 'damage',
           'DirectedEnergyDamage': 'damage'}
SV_SIZE = {'HighFidelityHAVEQUICKRadio': 40,
           'DirectedEnergyPrecisionAimpoint': 96,
           'DirectedEnergyDamage': 40}
SV_BODY = set(SV_NUMBER)
RECORD_NAMES = [n for n in SPECS if n not in PDU_NAMES and n not in SV_BODY]
# PDUs reachable through the factory: everything but the flat duplicate of
# type 1 and the Attribute PDU, which the factory does not know.
FACTORY = {SPECS[n].ptype: n for n in PDU_NAMES
           if n not in ('FastEntityStatePdu', 'AttributePdu')}

MODULATION_SIZE = {'SimpleIntercomRadio': 0, 'GenericRadio': 0,
                   'BasicHaveQuickMP': 16, 'CCTTSincgarsMP': 16}
BEAM_PATTERN_SIZE = 40


def modulation_class(major, system, length):
    """The record class a decoder must pick for a modulation section."""
    if length == 0:
        return None
    name = {2: 'BasicHaveQuickMP', 3: 'BasicHaveQuickMP',
            4: 'BasicHaveQuickMP', 6: 'CCTTSincgarsMP'}.get(system)
    if name and MODULATION_SIZE[name] == length:
        return name
    return 'UnknownRadio'


def antenna_class(pattern_type, length):
    if length == 0:
        return None
    if pattern_type == 1 and length == BEAM_PATTERN_SIZE:
        return 'BeamAntennaPattern'
    return 'UnknownAntennaPattern'


# ------------------------------------------------------------------ encode
def f_bytes(fmt, v):
    return struct.pack(FMT[fmt], v)


def enc(name, tree):
    out = bytearray()
    _enc(SPECS[name], tree, out)
    return bytes(out)


def _pad(tree, f):
    raw = bytes.fromhex(tree.get(f.name, '')) if not f.zero else b''
    assert len(raw) in (0, f.n)
    return raw or bytes(f.n)


def enc_sv(t, out):
    if t['$sv'] == 'unknown':
        data = bytes.fromhex(t['data'])
        out += struct.pack('>IH', t['recordType'], 6 + len(data))
        out += data
        return
    body = enc(t['$sv'], t)
    tail = -(6 + len(body)) % 8
    out += struct.pack('>IH', SV_NUMBER[t['$sv']], 6 + len(body) + tail)
    out += body + bytes(tail)


def sub_bytes(t):
    """Octets of a modulation/antenna section (None, opaque or a record)."""
    if t is None:
        return b''
    if '$raw' in t:
        return bytes.fromhex(t['$raw'])
    return enc(t['$rec'], t)


def _enc(spec, tree, out):
    for f in spec.fields:
        k = f.kind
        if k == 'scalar':
            out += struct.pack(FMT[f.fmt], tree[f.name])
        elif k == 'rec':
            _enc(SPECS[f.cls], tree[f.name], out)
        elif k == 'pad':
            out += _pad(tree, f)
        elif k == 'count':
            out += struct.pack(FMT[f.fmt], len(tree[f.list]) * f.k + f.c)
        elif k == 'list':
            for e in tree[f.name]:
                if f.elem in FMT:
                    out += struct.pack(FMT[f.elem], e)
                elif f.elem.startswith('SV('):
                    enc_sv(e, out)
                else:
                    _enc(SPECS[f.elem], e, out)
        elif k == 'array':
            assert len(tree[f.name]) == f.n
            for e in tree[f.name]:
                out += struct.pack(FMT[f.fmt], e)
        elif k == 'bits':
            v = 0
            for nm, w, isb in f.bits:
                x = int(tree[nm])
                assert 0 <= x < (1 << w)
                v = (v << w) | x
            out += v.to_bytes(f.n // 8, 'big')
        elif k == 'custom':
            key = f.key
            if key == 'beamStatus':
                out.append(tree['beamState'] & 1)
            elif key == 'variableDatum':
                bits = tree['variableDatumLength']
                data = tree['variableData']
                n = (bits + 7) // 8
                assert n == len(data)
                out += struct.pack('>II', tree['variableDatumID'], bits)
                out += bytes(data) + bytes(-n % 8)
            elif key == 'antennaLength':
                out += struct.pack('>H', len(sub_bytes(tree['antennaPattern'])))
            elif key == 'modulationLength':
                out += struct.pack('>B', len(
                    sub_bytes(tree['modulationParameters'])))
            elif key == 'modulation':
                out += sub_bytes(tree['modulationParameters'])
            elif key == 'antenna':
                out += sub_bytes(tree['antennaPattern'])
            elif key == 'zero3':
                out += b'\0\0\0'
            else:
                raise AssertionError(key)


# ------------------------------------------------------------------ decode
class Reader:
    def __init__(self, data):
        self.d, self.p = data, 0

    def take(self, n):
        if self.p + n > len(self.d):
            raise Short('short at %d+%d of %d' % (self.p, n, len(self.d)))
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def num(self, fmt):
        return struct.unpack(FMT[fmt], self.take(SIZE[fmt]))[0]


def dec(name, data):
    """-> (tree, octets consumed); raises Malformed."""
    r = Reader(data)
    return _dec(SPECS[name], r), r.p


def dec_sv(r, kind):
    rt, rl = r.num('u32'), r.num('u16')
    name = SV_TYPES.get(rt)
    if rl % 8:
        raise Malformed('record length %d' % rl)
    if name is None:
        if rl < 6:
            raise Malformed('record length %d' % rl)
        return {'$sv': 'unknown', 'recordType': rt,
                'data': r.take(rl - 6).hex()}
    if kind != 'any' and SV_KIND[name] != kind:
        raise Malformed('record type %d in a %s list' % (rt, kind))
    t = {'$sv': name}
    start = r.p
    t.update(_dec(SPECS[name], r))
    if name in SV_SIZE:
        if rl != SV_SIZE[name]:
            # a known fixed-size record with another declared length:
            # outside of what is specified
            raise Malformed('length %d of %s' % (rl, name))
    else:
        rest = rl - 6 - (r.p - start)
        if rest < 0:
            raise Malformed('length %d of %s' % (rl, name))
        r.take(rest)
        if rest >= 8:
            raise Malformed('over-long %s' % name)
    return t


def dec_sub(cls, raw):
    if cls is None:
        return None
    if cls.startswith('Unknown'):
        return {'$raw': raw.hex()}
    t, n = dec(cls, raw)
    assert n == len(raw)
    t['$rec'] = cls
    return t


def _dec(spec, r):
    t, counts = {}, {}
    for f in spec.fields:
        k = f.kind
        if k == 'scalar':
            t[f.name] = r.num(f.fmt)
        elif k == 'rec':
            t[f.name] = _dec(SPECS[f.cls], r)
        elif k == 'pad':
            raw = r.take(f.n)
            if not f.zero and any(raw):
                t[f.name] = raw.hex()
        elif k == 'count':
            v = r.num(f.fmt) - f.c
            if v < 0 or (v % f.k and spec.name == 'IntercomControlPdu'):
                raise Malformed('count')
            counts[f.list] = -(-v // f.k)
        elif k == 'list':
            lst = t[f.name] = []
            for _ in range(counts[f.name]):
                if f.elem in FMT:
                    lst.append(r.num(f.elem))
                elif f.elem.startswith('SV('):
                    lst.append(dec_sv(r, f.elem[3:-1]))
                else:
                    lst.append(_dec(SPECS[f.elem], r))
        elif k == 'array':
            t[f.name] = [r.num(f.fmt) for _ in range(f.n)]
        elif k == 'bits':
            v = int.from_bytes(r.take(f.n // 8), 'big')
            pos = f.n
            for nm, w, isb in f.bits:
                pos -= w
                x = (v >> pos) & ((1 << w) - 1)
                t[nm] = bool(x) if isb else x
        else:
            key = f.key
            if key == 'beamStatus':
                t['beamState'] = r.num('u8') & 1
            elif key == 'variableDatum':
                t['variableDatumID'] = r.num('u32')
                bits = t['variableDatumLength'] = r.num('u32')
                n = (bits + 7) // 8
                t['variableData'] = list(r.take(n))
                r.take(-n % 8)
            elif key == 'antennaLength':
                counts['@a'] = r.num('u16')
            elif key == 'modulationLength':
                counts['@m'] = r.num('u8')
            elif key == 'modulation':
                cls = modulation_class(t['modulationType']['majorModulation'],
                                       t['modulationType']['radioSystem'],
                                       counts['@m'])
                t['modulationParameters'] = dec_sub(cls, r.take(counts['@m']))
            elif key == 'antenna':
                cls = antenna_class(t['antennaPatternType'], counts['@a'])
                t['antennaPattern'] = dec_sub(cls, r.take(counts['@a']))
            elif key == 'zero3':
                if any(r.take(3)):
                    raise Malformed('UA sections are not supported')
    return t


# ------------------------------------------------------------- inspection
def walk(name, tree, path=()):
    """Yield (path, Field, owner spec, owner tree) for every field instance."""
    spec = SPECS[name]
    for f in spec.fields:
        yield path, f, spec, tree
        if f.kind == 'rec':
            yield from walk(f.cls, tree[f.name], path + (f.name,))
        elif f.kind == 'list' and f.elem not in FMT:
            for i, e in enumerate(tree[f.name]):
                p = path + (f.name, i)
                if f.elem.startswith('SV('):
                    if e['$sv'] != 'unknown':
                        yield from walk(e['$sv'], e, p)
                else:
                    yield from walk(f.elem, e, p)
        elif f.kind == 'custom' and f.key in ('modulation', 'antenna'):
            nm = ('modulationParameters' if f.key == 'modulation'
                  else 'antennaPattern')
            sub = tree[nm]
            if sub is not None and '$rec' in sub:
                yield from walk(sub['$rec'], sub, path + (nm,))


def at(tree, path):
    for k in path:
        tree = tree[k]
    return tree


def num_elements(name, tree):
    return sum(len(t[f.name]) for _, f, _, t in walk(name, tree)
               if f.kind == 'list')


def default_tree(name):
    """Values of a default-constructed object."""
    spec, t = SPECS[name], {}
    for f in spec.fields:
        if f.kind == 'scalar':
            t[f.name] = f.default
        elif f.kind == 'rec':
            t[f.name] = default_tree(f.cls)
        elif f.kind == 'list':
            t[f.name] = []
        elif f.kind == 'array':
            t[f.name] = [0] * f.n
        elif f.kind == 'bits':
            for nm, w, isb in f.bits:
                t[nm] = False if isb else 0
        elif f.kind == 'custom':
            if f.key == 'beamStatus':
                t['beamState'] = 0
            elif f.key == 'variableDatum':
                t.update(variableDatumID=0, variableDatumLength=0,
                         variableData=[])
            elif f.key == 'modulation':
                t['modulationParameters'] = None
            elif f.key == 'antenna':
                t['antennaPattern'] = None
    if spec.ptype is not None:
        t['pduType'], t['protocolFamily'] = spec.ptype, spec.family
    return t
