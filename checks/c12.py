"""C12  bit fields."""
import io

from vlib import codec, gen, sut
from vlib.sut import Violation

ID = 'C12'
RULE = ('one case = a field-width list with values and raw octets, a refused '
        'field list, or a built-in bit-field record with all its fields (all '
        '65536 patterns of each built-in 16-bit record); '
        'non-trivial: at least 2 fields or a refused list')
ASSUMPTIONS = ['24-bit totals may be refused or packed exactly']

BUILTIN = ['SpreadSpectrum', 'NetId', 'DEFireFlags']


def widths(r):
    total = r.choice([8, 16, 16, 24, 32, 32])
    out = []
    while sum(out) < total:
        rest = total - sum(out)
        out.append(min(rest, r.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 16,
                                       31, 32])))
    r.shuffle(out)
    return out


def cases(tier, rng_for, shard, nshards):
    i = 0
    bad = [[], [0, 8], [8, 0], [-1, 9], [33], [33, 7], [40], [1], [7], [9],
           [3, 4], [8, 1], [16, 15], [31], [17], [32, 8], [16, 16, 8],
           [32, 32], [32, 1], [8, 8, 8, 8, 8], [4, 4, 4, 4, 4, 4, 4, 4, 4, 4],
           ['8'], [8.0], [None], [64], [16.5, 15.5]]
    for w in bad:
        i += 1
        if i % nshards == shard:
            yield 'refused', dict(what='refused', widths=w, kind='INTEGER')
    for k in ('CHAR', 'integer', '', None, 'FLOAT', 3):
        for w in ([8], [3, 5], [16], [4, 4, 8]):
            i += 1
            if i % nshards == shard:
                yield 'refused', dict(what='refused', widths=w, kind=k)
    for n in BUILTIN:
        for v in (range(65536)):
            i += 1
            if i % nshards == shard:
                yield 'builtin', dict(what='builtin', cls=n, raw=v)
        for b in range(16):
            for v in (1 << b, 0xffff ^ 1 << b):
                i += 1
                if i % nshards == shard:
                    yield 'builtin', dict(what='builtin', cls=n, raw=v)
    for total in (8, 16, 32):
        for k in range(1, 33):
            if total % k == 0:
                i += 1
                if i % nshards == shard:
                    w = [k] * (total // k)
                    yield 'equal', dict(what='pack', widths=w, vals=[
                        (j + 1) & ((1 << k) - 1) for j in range(len(w))],
                        change=[0, 1])
    r = rng_for('c12', shard)
    for _ in range(15000 if tier == 'quick' else 60000):
        x = r.random()
        w = widths(r)
        if x < .12:
            # spoil a valid list
            w[r.randrange(len(w))] += r.choice([-1, 1, 33, -40])
            t = sum(w)
            if all(1 <= x <= 32 for x in w) and t % 8 == 0 and 0 < t <= 32:
                continue
            yield 'refused', dict(what='refused', widths=w, kind='INTEGER')
            continue
        vals = []
        for k in w:
            m = (1 << k) - 1
            vals.append(r.choice([0, 1, m, m >> 1, 1 << (k - 1),
                                  r.getrandbits(k), r.getrandbits(k)]))
        yield 'pack', dict(what='pack', widths=w, vals=vals, change=[
            r.randrange(len(w)), r.getrandbits(32)])


def make(w, kind='INTEGER'):
    bf = sut.record.bitfield
    return bf.bitfield(name='T', fields=[('f%d' % i, kind, n)
                                         for i, n in enumerate(w)])


def pack(w, vals):
    x = 0
    for k, v in zip(w, vals):
        assert 0 <= v < 1 << k
        x = x << k | v
    return x.to_bytes(sum(w) // 8, 'big')


def check(case):
    what = case['what']
    if what == 'refused':
        w = case['widths']
        if case['kind'] == 'INTEGER' and w and all(
                isinstance(x, int) and 1 <= x <= 32 for x in w) \
                and sum(w) % 8 == 0 and sum(w) <= 32:
            raise AssertionError('a valid list')
        try:
            make(w, case['kind'])
        except Exception:
            return
        raise Violation('refused', 'widths %r of kind %r were accepted' % (
            w, case['kind']))
    if what == 'builtin':
        name, raw = case['cls'], case['raw'].to_bytes(2, 'big')
        tree, _ = codec.dec(name, raw)
        o, used = sut.parse_into(name, raw)
        if used != 2:
            raise Violation('size', '%s read %d octets' % (name, used))
        d = sut.same(sut.expected(name, tree), sut.extract(name, o), name)
        if d:
            raise Violation('value', d)
        for mode in ('assign', 'ctor'):
            b = sut.serialize(sut.build(name, tree, mode))
            if b != raw:
                raise Violation('bytes', '%s %r written as %s' % (
                    name, tree, b.hex()))
        if o.marshalledSize() != 2:
            raise Violation('size', '%s says %r octets' % (
                name, o.marshalledSize()))
        return
    w, vals = case['widths'], case['vals']
    assert len(w) == len(vals) and sum(w) in (8, 16, 24, 32)
    want = pack(w, vals)
    try:
        cls = make(w)
    except Exception as e:
        if sum(w) == 24:
            return
        raise Violation('refused', 'widths %r: %s' % (w, e))
    inst = sut.sut('bit field', cls, *vals)
    got = sut.serialize(inst)
    if got != want:
        raise Violation('bytes', 'widths %r values %r written as %s, '
                        'expected %s' % (w, vals, got.hex(), want.hex()))
    if inst.marshalledSize() != len(want):
        raise Violation('size', 'marshalledSize %r' % inst.marshalledSize())
    src = io.BytesIO(want + b'\xff\xff')
    back = sut.sut('parse', cls.parse, sut.DataInputStream(src))
    if src.tell() != len(want):
        raise Violation('size', 'read %d octets' % src.tell())
    rv = [getattr(back, 'f%d' % i) for i in range(len(w))]
    if rv != vals:
        raise Violation('value', 'widths %r: %s read as %r, expected %r' % (
            w, want.hex(), rv, vals))
    # change one field: the neighbours stay
    i, v = case['change']
    v &= (1 << w[i]) - 1
    setattr(back, 'f%d' % i, v)
    vals2 = vals[:i] + [v] + vals[i + 1:]
    rv = [getattr(back, 'f%d' % j) for j in range(len(w))]
    if rv != vals2 or sut.serialize(back) != pack(w, vals2):
        raise Violation('value', 'widths %r %r: setting field %d to %d gave '
                        '%r' % (w, vals, i, v, rv))
    if sut.serialize(inst) != want:
        raise Violation('shared', 'another instance changed')
    # values that do not fit
    for j, k in enumerate(w):
        for bad in (1 << k, (1 << k) + 1, -1, -(1 << (k - 1)), 3 << k,
                    1 << 32 if k < 32 else 1 << 64):
            unfit('widths %r: field %d' % (w, j),
                  lambda: setattr(back, 'f%d' % j, bad), bad)
            unfit('widths %r: constructor, field %d' % (w, j),
                  lambda: cls(*(vals[:j] + [bad] + vals[j + 1:])), bad)
            unfit('widths %r: constructor, field %d by name' % (w, j),
                  lambda: cls(**{'f%d' % j: bad}), bad)
    rv = [getattr(back, 'f%d' % j) for j in range(len(w))]
    if rv != vals2 or sut.serialize(back) != pack(w, vals2):
        raise Violation('value', 'widths %r: refused values left %r' % (
            w, rv))
    for n in range(len(want)):
        src = sut.DataInputStream(io.BytesIO(want[:n]))
        try:
            o = cls.parse(src)
        except Exception:
            continue
        raise Violation('short', 'widths %r were read from %d octets: %r' % (
            w, n, o))


def unfit(what, fn, bad):
    """An unfit value is refused, at once or when written."""
    try:
        o = fn()
        if o is None:
            raise Violation('unfit', '%s accepted %r' % (what, bad))
        b = sut.try_serialize(o)
    except Violation:
        raise
    except Exception:
        return
    if isinstance(b, bytes):
        raise Violation('unfit', '%s accepted %r' % (what, bad))


def nontrivial(case):
    return case['what'] != 'pack' or len(case['widths']) >= 2
