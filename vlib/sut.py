"""Access to the code under test, always imported from the working tree of
/repo (VERIF_REPO overrides it for development)."""
import inspect
import copy
import io
import os
import struct
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
# never read a byte-code cache: only the current sources count
sys.pycache_prefix = '/nonexistent-pycache'
sys.path.insert(0, REPO)

import opendis                                            # noqa: E402
import opendis.dis7 as dis7                               # noqa: E402
import opendis.record as record                           # noqa: E402
import opendis.record.radio as radio                      # noqa: E402
import opendis.record.warfare as warfare                  # noqa: E402
import opendis.PduFactory as factory                      # noqa: E402
from opendis.stream import DataInputStream, DataOutputStream   # noqa: E402

assert os.path.realpath(opendis.__file__).startswith(
    os.path.realpath(REPO) + os.sep), opendis.__file__

from . import codec                                       # noqa: E402
from .codec import FMT, SPECS                             # noqa: E402
from .signatures import PARAMS                            # noqa: E402


class Violation(Exception):
    """The property does not hold; `kind` groups failures for shrinking."""

    def __init__(self, kind, detail=''):
        super().__init__('%s: %s' % (kind, detail) if detail else kind)
        self.kind, self.detail = kind, detail


class NoSuchClass(Exception):
    pass


def resolve(name):
    for ns in (dis7, record, radio, warfare):
        c = getattr(ns, name, None)
        if isinstance(c, type):
            return c
    if name not in SPECS and name not in PARAMS:
        raise KeyError(name)        # not a case of ours
    raise Violation('missing', 'no class %s' % name)


def sut(what, fn, *a, **k):
    """Call the code under test; an exception it raises is a violation."""
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except Exception as e:
        raise Violation('exception', '%s raised %s: %s'
                        % (what, type(e).__name__, e))


# ---------------------------------------------------------------- building
def expected_base(kind):
    return {'vtp': record.VariableTransmitterParametersRecord,
            'damage': record.DamageDescriptionRecord,
            'any': record.base.StandardVariableRecord}[kind]


def build_sv(t, kind, mode):
    if t['$sv'] == 'unknown':
        cls = sut('getStandardVariableClass', record.getStandardVariableClass,
                  t['recordType'], expected_base(kind))
        return cls(bytes.fromhex(t['data']))
    return build(t['$sv'], t, mode)


def build_sub(t, unknown, mode):
    if t is None:
        return None
    if '$raw' in t:
        return resolve(unknown)(bytes.fromhex(t['$raw']))
    return build(t['$rec'], t, mode)


def _elem(f, e, mode):
    if f.elem in FMT:
        return e
    if f.elem.startswith('SV('):
        return build_sv(e, f.elem[3:-1], mode)
    return build(f.elem, e, mode)


# (class, attribute) -> constructor parameter, where the names differ
CTOR_ALIAS = {
    ('UAFundamentalParameter', 'azimuthalBeamwidthHorizontal'):
        'azimuthBeamwidthHorizontal',
    ('ArealObjectStatePdu', 'forceID'): 'forceId',
    ('FirePdu', 'range'): 'range_',
    ('SeesPdu', 'orginatingEntityID'): 'originatingEntityID',
    ('IsPartOfPdu', 'orginatingEntityID'): 'originatingEntityID',
    ('StopFreezeReliablePdu', 'requiredReliablityService'):
        'requiredReliabilityService',
    ('IOCommunicationsNode', 'communcationsNodeType'):
        'communicationsNodeType',
    ('EngineFuelReload', 'fuelMeasurmentUnits'): 'fuelMeasurementUnits',
}


class Num(int):
    """An integer of another type, as enumerations are."""
    def __repr__(self):
        return '<Num: %d>' % self
    __str__ = __repr__


class Real(float):
    pass


def typed(v):
    """The same value as another python type."""
    if isinstance(v, list):
        return [typed(e) for e in v]
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return Num(v)
    if isinstance(v, float):
        if v and abs(v) < 2**53 and v == int(v):
            return int(v)
        return Real(v)
    return v


def field_values(name, tree, mode):
    """attribute -> function producing the python value to assign."""
    vals = _field_values(name, tree, mode)
    if mode == 'typed':
        return {a: (f, lambda mk=mk: typed(mk()))
                for a, (f, mk) in vals.items()}
    return vals


def _field_values(name, tree, mode):
    vals = {}
    for f in SPECS[name].fields:
        if f.kind == 'scalar':
            vals[f.name] = (f, lambda f=f: tree[f.name])
        elif f.kind == 'rec':
            vals[f.name] = (f, lambda f=f: build(f.cls, tree[f.name], mode))
        elif f.kind == 'list':
            vals[f.name] = (f, lambda f=f: [_elem(f, e, mode)
                                            for e in tree[f.name]])
        elif f.kind == 'array':
            vals[f.name] = (f, lambda f=f: list(tree[f.name]))
        elif f.kind == 'bits':
            for nm, w, isb in f.bits:
                vals[nm] = (f, lambda nm=nm: tree[nm])
        elif f.kind == 'custom':
            if f.key == 'beamStatus':
                vals['beamState'] = (f, lambda: tree['beamState'])
            elif f.key == 'variableDatum':
                for nm in ('variableDatumID', 'variableDatumLength'):
                    vals[nm] = (f, lambda nm=nm: tree[nm])
                vals['variableData'] = (f, lambda:
                                        list(tree['variableData']))
            elif f.key == 'modulation':
                vals['modulationParameters'] = (f, lambda: build_sub(
                    tree['modulationParameters'], 'UnknownRadio', mode))
            elif f.key == 'antenna':
                vals['antennaPattern'] = (f, lambda: build_sub(
                    tree['antennaPattern'], 'UnknownAntennaPattern', mode))
    return vals


def assign(obj, attr, value):
    if not hasattr(obj, attr):
        raise Violation('missing', '%s has no attribute %s'
                        % (type(obj).__name__, attr))
    prop = inspect.getattr_static(type(obj), attr, None)
    if isinstance(prop, property) and prop.fset is None:
        if isinstance(value, list):     # read-only view of a list: edit it
            _list(obj, attr)[:] = value
            return
        raise Violation('missing', '%s.%s cannot be assigned'
                        % (type(obj).__name__, attr))
    setattr(obj, attr, value)


def build(name, tree, mode='assign'):
    """A code-under-test object holding the values of the tree.

    mode: 'assign'  default construction, then every attribute assigned
          'mutate'  nested records and lists are filled in place
          'ctor'    as many values as possible go through the constructor
          'shared'  as 'assign', but parts that are equal are one object
          'decoded' by decoding the reference encoding
          'copied'  a deep copy of one built by assignment
          'typed'   as 'assign', with values of other types that mean the
                    same: subclasses of int and float, integers for
                    reals and for truth values
    """
    if mode == 'copied':
        return sut('copy.deepcopy(%s)' % name, copy.deepcopy,
                   _build(name, tree, 'assign'))
    if mode == 'decoded':
        return parse_into(name, codec.enc(name, tree))[0]
    if mode == 'shared':
        outer = not _parts
        key = name, repr(tree)
        try:
            if outer:
                _parts[''] = None
            if key not in _parts:
                _parts[key] = _build(name, tree, mode)
            return _parts[key]
        finally:
            if outer:
                _parts.clear()
    return _build(name, tree, mode)


_parts = {}


def _build(name, tree, mode):
    cls = resolve(name)
    vals = field_values(name, tree, mode)
    if mode == 'ctor':
        params = PARAMS.get(name, ())
        kw = {}
        for a in list(vals):
            p = CTOR_ALIAS.get((name, a), a)
            if p in params:
                kw[p] = vals.pop(a)[1]()
        obj = sut('%s(...)' % name, cls, **kw)
    else:
        obj = sut('%s()' % name, cls)
    for a, (f, mk) in vals.items():
        if mode == 'mutate' and f.kind == 'rec':
            fill(_get(obj, a), f.cls, tree[f.name])
        elif mode == 'mutate' and f.kind == 'list':
            lst = _list(obj, a)
            if lst:
                raise Violation('default', '%s().%s is not empty: %r'
                                % (name, a, lst))
            for e in mk():
                lst.append(e)
        elif mode == 'mutate' and f.kind == 'array':
            lst, new = _list(obj, a), mk()
            if len(lst) != len(new):
                raise Violation('default', '%s().%s is %r' % (name, a, lst))
            for i, e in enumerate(new):
                lst[i] = e
        else:
            assign(obj, a, mk())
    return obj


def fill(obj, name, tree):
    vals = field_values(name, tree, 'mutate')
    for a, (f, mk) in vals.items():
        if f.kind == 'rec':
            fill(_get(obj, a), f.cls, tree[f.name])
        elif f.kind == 'list':
            _list(obj, a)[:] = mk()
        else:
            assign(obj, a, mk())


# --------------------------------------------------------------- reading
class Unreadable(Violation):
    pass


def _get(obj, attr):
    try:
        return getattr(obj, attr)
    except Exception as e:
        raise Violation('unreadable', '%s.%s: %s: %s'
                        % (type(obj).__name__, attr, type(e).__name__, e))


def _list(obj, attr):
    v = _get(obj, attr)
    if not hasattr(v, 'append') or not hasattr(v, '__setitem__'):
        raise Violation('default', '%s.%s is not a list: %r'
                        % (type(obj).__name__, attr, v))
    return v


def extract(name, obj):
    """Tree of the readable attributes (padding left out), including counts."""
    t = {}
    for f in SPECS[name].fields:
        if f.kind in ('scalar', 'count'):
            if f.readable:
                t[f.name] = _get(obj, f.name)
        elif f.kind == 'rec':
            t[f.name] = extract(f.cls, _get(obj, f.name))
        elif f.kind == 'list':
            t[f.name] = [extract_elem(f, e) for e in _get(obj, f.name)]
        elif f.kind == 'array':
            t[f.name] = list(_get(obj, f.name))
        elif f.kind == 'bits':
            for nm, w, isb in f.bits:
                t[nm] = _get(obj, nm)
        elif f.kind == 'custom':
            if f.key == 'beamStatus':
                t['beamState'] = _get(obj, 'beamState')
            elif f.key == 'variableDatum':
                for nm in ('variableDatumID', 'variableDatumLength'):
                    t[nm] = _get(obj, nm)
                t['variableData'] = list(_get(obj, 'variableData'))
            elif f.key == 'modulation':
                t['modulationParameters'] = extract_sub(
                    _get(obj, 'modulationParameters'))
            elif f.key == 'antenna':
                t['antennaPattern'] = extract_sub(_get(obj, 'antennaPattern'))
            elif f.key == 'zero3':
                for nm in ('shaftRPMs', 'apaData', 'emitterSystems'):
                    if len(_get(obj, nm)):
                        raise Violation('value', '%s is not empty' % nm)
    return t


def extract_elem(f, e):
    if f.elem in FMT:
        return e
    if f.elem.startswith('SV('):
        return extract_sv(e)
    return extract(f.elem, e)


def extract_sv(o):
    nm = type(o).__name__
    if nm in codec.SV_NUMBER:
        t = extract(nm, o)
        t['$sv'] = nm
        t['recordType'] = _get(o, 'recordType')
        return t
    return {'$sv': 'unknown', 'recordType': _get(o, 'recordType'),
            'data': bytes(_get(o, 'data')).hex()}


def extract_sub(o):
    if o is None:
        return None
    nm = type(o).__name__
    if nm.startswith('Unknown'):
        return {'$raw': bytes(_get(o, 'data')).hex()}
    t = extract(nm, o)
    t['$rec'] = nm
    return t


def expected(name, tree):
    """What `extract` must give for an object holding `tree`."""
    t = {}
    for f in SPECS[name].fields:
        if f.kind == 'scalar':
            if f.readable:
                t[f.name] = tree[f.name]
        elif f.kind == 'count':
            if f.readable:
                t[f.name] = len(tree[f.list]) * f.k + f.c
        elif f.kind == 'rec':
            t[f.name] = expected(f.cls, tree[f.name])
        elif f.kind == 'list':
            if f.elem in FMT:
                t[f.name] = list(tree[f.name])
            elif f.elem.startswith('SV('):
                t[f.name] = [expected_sv(e) for e in tree[f.name]]
            else:
                t[f.name] = [expected(f.elem, e) for e in tree[f.name]]
        elif f.kind == 'array':
            t[f.name] = list(tree[f.name])
        elif f.kind == 'bits':
            for nm, w, isb in f.bits:
                t[nm] = tree[nm]
        elif f.kind == 'custom':
            if f.key == 'beamStatus':
                t['beamState'] = tree['beamState'] & 1
            elif f.key == 'variableDatum':
                for nm in ('variableDatumID', 'variableDatumLength'):
                    t[nm] = tree[nm]
                t['variableData'] = list(tree['variableData'])
            elif f.key in ('modulation', 'antenna'):
                nm = {'modulation': 'modulationParameters',
                      'antenna': 'antennaPattern'}[f.key]
                sub = tree[nm]
                if sub is None or '$raw' in sub:
                    t[nm] = sub
                else:
                    t[nm] = expected(sub['$rec'], sub)
                    t[nm]['$rec'] = sub['$rec']
    return t


def expected_sv(e):
    if e['$sv'] == 'unknown':
        return {k: e[k] for k in ('$sv', 'recordType', 'data')}
    t = expected(e['$sv'], e)
    t['$sv'] = e['$sv']
    t['recordType'] = codec.SV_NUMBER[e['$sv']]
    return t


def same(a, b, path=''):
    """None if equal, else a description of the first difference."""
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return '%s: expected a record, got %r' % (path, b)
        for k in a:
            if k not in b:
                return '%s.%s: missing' % (path, k)
            d = same(a[k], b[k], '%s.%s' % (path, k))
            if d:
                return d
        for k in b:
            if k not in a:
                return '%s.%s: unexpected %r' % (path, k, b[k])
        return None
    if isinstance(a, list):
        if not isinstance(b, list):
            return '%s: expected a list, got %r' % (path, b)
        if len(a) != len(b):
            return '%s: expected %d elements, got %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, float):
        if not isinstance(b, (int, float)) or isinstance(b, bool):
            return '%s: expected %r, got %r' % (path, a, b)
        if a != a:
            return None if b != b else '%s: expected nan, got %r' % (path, b)
        try:
            eq = struct.pack('>d', a) == struct.pack('>d', b)
        except OverflowError:
            eq = False
        return None if eq else '%s: expected %r, got %r' % (path, a, b)
    if isinstance(a, int):
        if not isinstance(b, int) or a != b:
            return '%s: expected %r, got %r' % (path, a, b)
        return None
    return None if a == b else '%s: expected %r, got %r' % (path, a, b)


# ------------------------------------------------------------------- I/O
def serialize(obj):
    buf = io.BytesIO()
    sut('serialize of %s' % type(obj).__name__,
        obj.serialize, DataOutputStream(buf))
    return buf.getvalue()


_PROPS = {}


def public(obj):
    """Names of the public data of an object, properties included."""
    c = type(obj)
    if c not in _PROPS:
        _PROPS[c] = [n for n in dir(c) if n[0] != '_' and isinstance(
            inspect.getattr_static(c, n, None), property)]
    return sorted({n for n in getattr(obj, '__dict__', ()) if n[0] != '_'}
                  | set(_PROPS[c]))


def snapshot(obj):
    """Everything public reachable from an object, as plain data."""
    if isinstance(obj, (list, tuple)):
        return [snapshot(e) for e in obj]
    if isinstance(obj, dict):
        return {repr(k): snapshot(v) for k, v in obj.items()}
    if isinstance(obj, (bytes, bytearray)):
        return obj.hex()
    if obj is None or isinstance(obj, (bool, int, float, str)):
        return repr(obj)
    d = {}
    for n in public(obj):
        try:
            d[n] = snapshot(getattr(obj, n))
        except Exception as e:
            d[n] = type(e).__name__
    return d


def slacken(obj, extra):
    """Put surplus octets behind every list of numbers."""
    n = 0
    if isinstance(obj, list):
        if obj and all(type(e) is int for e in obj):
            obj.extend(extra)
            return 1
        return sum(slacken(e, extra) for e in obj)
    if obj is None or isinstance(obj, (bool, int, float, str, bytes)):
        return 0
    for a in public(obj):
        try:
            v = getattr(obj, a)
        except Exception:
            continue
        n += slacken(v, extra)
    return n


def try_serialize(obj):
    """bytes, or the exception raised."""
    buf = io.BytesIO()
    try:
        obj.serialize(DataOutputStream(buf))
    except Exception as e:
        return e
    return buf.getvalue()


def decode(data):
    return sut('createPdu', factory.createPdu, data)


# StandardVariableRecord.parse expects its header consumed already; everything
# else reads from its first octet.
def parse_into(name, data):
    """Decode a record/PDU body of class `name` -> (object, octets used)."""
    buf = io.BytesIO(data)
    s = DataInputStream(buf)
    obj = sut('%s()' % name, resolve(name))
    sut('parse of %s' % name, obj.parse, s)
    return obj, buf.tell()


def diff_bytes(want, got):
    n = next((i for i, (x, y) in enumerate(zip(want, got)) if x != y),
             min(len(want), len(got)))
    return ('first difference at octet %d: expected %d octets ..%s.., got %d '
            '..%s..' % (n, len(want), want[n:n + 8].hex(), len(got),
                        got[n:n + 8].hex()))
