"""C11  values that do not fit are refused."""
from vlib import codec, gen, sut
from vlib.codec import RANGE, SPECS
from vlib.sut import Violation

ID = 'C11'
RULE = ('one case = one integer field (or octet of an array, or bit field) of '
        'one PDU or record set to one value outside or at the boundary of '
        'its range, or set to something that is no integer, or a floating-'
        'point field set to no number or one beyond its range, everything '
        'else valid, or one integer attribute of '
        'any kind set to a ladder of values; non-trivial: every case (the '
        'value is a boundary or out of range)')
ASSUMPTIONS = ['the beam status record keeps only its defined bit by '
               'documentation; its other bits are not fields']

ALL = list(codec.PDU_NAMES) + [n for n in codec.RECORD_NAMES
                               if n not in ('BeamStatus',)] \
    + sorted(codec.SV_BODY)


def outside(lo, hi, n):
    return sorted({lo - 1, hi + 1, hi + 2, lo - 2, -hi - 1 if lo == 0 else
                   -hi - 2, 2 * hi + 1 if lo == 0 else 2 * hi + 2,
                   (1 << n) + 1, 1 << 64, (1 << 64) + 7, -(1 << 63) - 1,
                   -(1 << 64)})


def slots(name, nlist=2):
    base = gen.signature(name, nlist)
    seen = set()
    for path, f, spec, owner in codec.walk(name, base):
        if f.kind == 'scalar' and f.fmt[0] != 'f':
            yield list(path) + [f.name], RANGE[f.fmt], codec.SIZE[f.fmt] * 8
        elif f.kind == 'array':
            for i in range(f.n):
                yield (list(path) + [f.name, i], RANGE[f.fmt],
                       codec.SIZE[f.fmt] * 8)
        elif f.kind == 'list' and f.elem in codec.FMT and owner[f.name] \
                and f.elem[0] != 'f':
            for i in range(len(owner[f.name])):
                yield (list(path) + [f.name, i], RANGE[f.elem],
                       codec.SIZE[f.elem] * 8)
        elif f.kind == 'bits':
            for nm, w, isb in f.bits:
                if not isb:
                    yield list(path) + [nm], (0, (1 << w) - 1), w
        elif f.kind == 'custom' and f.key == 'variableDatum':
            yield list(path) + ['variableDatumID'], RANGE['u32'], 32
            for i in range(len(owner['variableData'])):
                yield list(path) + ['variableData', i], RANGE['u8'], 8


def reals(name, nlist=2):
    base = gen.signature(name, nlist)
    for path, f, spec, owner in codec.walk(name, base):
        if f.kind == 'scalar' and f.fmt[0] == 'f':
            yield list(path) + [f.name], f.fmt
        elif f.kind == 'list' and f.elem in codec.FMT and f.elem[0] == 'f':
            for i in range(len(owner[f.name])):
                yield list(path) + [f.name, i], f.elem


def ints(obj):
    """Paths of the integers an object and its parts hold as attributes."""
    todo, seen = [([], obj)], set()
    while todo:
        path, o = todo.pop(0)
        if id(o) in seen or len(path) > 6:
            continue
        seen.add(id(o))
        if isinstance(o, list):
            items = list(enumerate(o))
        elif type(o).__module__.startswith('opendis') \
                and hasattr(o, '__dict__'):
            items = sorted(vars(o).items())
        else:
            continue
        for k, v in items:
            if type(v) is int and type(o).__name__ != 'BeamStatus':
                yield path + [k]
            else:
                todo.append((path + [k], v))


# the encoding must tell apart whatever it accepts of these
PROBE = sorted({s * (1 << k) + d for k in (7, 8, 15, 16, 31, 32, 63, 64)
                for s in (1, -1) for d in (-1, 0, 1)} | {0, 1, -1, 3, 1 << 70})


def cases(tier, rng_for, shard, nshards):
    n = 0
    for name in ALL:
        n += 1
        if n % nshards == shard:
            for path in ints(sut.build(name, gen.signature(name, 2),
                                       'assign')):
                yield 'distinct', dict(cls=name, attr=path)
    for name in ALL:
        for path, (lo, hi), bits in slots(name, 2):
            for v in outside(lo, hi, bits):
                if lo <= v <= hi:
                    continue
                n += 1
                if n % nshards == shard:
                    yield 'outside', dict(cls=name, path=path, value=v)
            for v in sorted({lo, hi, lo + 1, hi - 1, (lo + hi) // 2,
                             (lo + hi) // 2 + 1}):
                n += 1
                if n % nshards == shard and lo <= v <= hi:
                    yield 'boundary', dict(cls=name, path=path, value=v)
        for path, *_ in slots(name, 2):
            for v in (1.5, -.5, 255.75, None, 'x', [1]):
                n += 1
                if n % nshards == shard:
                    yield 'alien', dict(cls=name, alien=path, value=v)
        for path, fmt in reals(name, 2):
            for v in (None, 'x', [1.5], 10 ** 400) + (
                    (1e39, -1e39, 3.5e38) if fmt == 'f32' else ()):
                n += 1
                if n % nshards == shard:
                    yield 'alien', dict(cls=name, alien=path, value=v)
    r = rng_for('c11', shard)
    for name in gen.rotate(r, ALL, 100 if tier == 'quick' else 800):
        s = list(slots(name, 2))
        if not s:
            continue
        path, (lo, hi), bits = r.choice(s)
        k = r.choice([bits, bits, bits + 1, bits * 2, 70])
        v = r.choice([1, -1]) * r.getrandbits(k) + r.choice([0, hi + 1, -1])
        yield ('boundary' if lo <= v <= hi else 'outside'), dict(
            cls=name, path=path, value=v)


SPECIAL = ('radioSystem', 'antennaPatternType', 'majorModulation', 'pduType')


def distinct(case):
    """Also the fields the layout tables have as padding: two values the
    encoder accepts for one attribute must not look the same."""
    name, path = case['cls'], case['attr']
    obj = sut.build(name, gen.signature(name, 2), 'assign')
    o = obj
    for p in path[:-1]:
        o = o[p] if isinstance(p, int) else vars(o)[p]
    got = {}
    for v in PROBE:
        try:
            if isinstance(path[-1], int):
                o[path[-1]] = v
            else:
                setattr(o, path[-1], v)
            b = sut.try_serialize(obj)
        except Exception:
            continue
        if isinstance(b, bytes):
            got[v] = b
    if got.get(0) == got.get(1):
        return  # not written
    back = {}
    for v in sorted(got, key=abs):
        if got[v] in back:
            raise Violation('accepted', '%s.%s = %d was written like %d' % (
                name, '.'.join(map(str, path)), v, back[got[v]]))
        back[got[v]] = v


def alien(case):
    """A fraction in an integer field, a text in a number field, a number
    beyond the range of a single-precision field ..."""
    name, path, v = case['cls'], case['alien'], case['value']
    tree = gen.signature(name, 2)
    if not isinstance(path[-1], int) and path[-1] not in codec.at(
            tree, path[:-1]):
        raise AssertionError('no such field')
    kinds = {tuple(p): 'int' for p, *_ in slots(name, 2)}
    kinds.update((tuple(p), f) for p, f in reals(name, 2))
    k = kinds[tuple(path)]
    bad = v is None or isinstance(v, (str, list)) or (
        v != int(v) if k == 'int' else abs(v) > (
            3.4028236e38 if k == 'f32' else 1.7976931348623157e308))
    assert bad
    obj = sut.build(name, tree, 'assign')
    o = obj
    for p in path[:-1]:
        o = o[p] if isinstance(p, int) else getattr(o, p)
    try:
        if isinstance(path[-1], int):
            o[path[-1]] = v
        else:
            setattr(o, path[-1], v)
        got = sut.try_serialize(obj)
    except Exception:
        return
    if isinstance(got, bytes):
        raise Violation('accepted', '%s.%s = %.40r was written as %s...' % (
            name, '.'.join(map(str, path)), v, got[:40].hex()))


def check(case):
    if 'attr' in case:
        return distinct(case)
    if 'alien' in case:
        return alien(case)
    name, path, v = case['cls'], case['path'], case['value']
    sv = name in codec.SV_BODY
    tree = gen.signature(name, 2)
    owner = codec.at(tree, path[:-1])
    if not isinstance(path[-1], int) and path[-1] not in owner:
        raise AssertionError('no such field')
    lo, hi = next((b for p, b, _ in slots(name, 2) if p == path))
    fits = lo <= v <= hi
    obj = sut.build(name, tree, 'assign')
    o = obj
    for p in path[:-1]:
        o = o[p] if isinstance(p, int) else getattr(o, p)
    try:
        if isinstance(path[-1], int):
            o[path[-1]] = v
        else:
            setattr(o, path[-1], v)
        got = sut.try_serialize(obj)
    except Exception as e:
        got = e
    where = '%s.%s = %d' % (name, '.'.join(map(str, path)), v)
    if not fits:
        if isinstance(got, bytes):
            raise Violation('accepted', '%s was written as %s...' % (
                where, got[:40].hex()))
        return
    if not isinstance(got, bytes):
        raise Violation('refused', '%s: %s: %s' % (
            where, type(got).__name__, got))
    owner[path[-1]] = v
    if sv:
        out = bytearray()
        codec.enc_sv(dict(tree, **{'$sv': name}), out)
        want = bytes(out)
    else:
        want = codec.enc(name, tree)
    if got != want:
        raise Violation('bytes', '%s: %s' % (where,
                                             sut.diff_bytes(want, got)))


def nontrivial(case):
    return True
