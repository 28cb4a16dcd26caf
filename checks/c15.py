"""C15  variable datums."""
from vlib import codec, gen, sut
from vlib.sut import Violation

ID = 'C15'
RULE = ('one case = a list of variable datums (bit lengths 0..520 directed, '
        'random lengths and contents) on its own or in one of the messages '
        'that carry datums; non-trivial: some datum is not empty')
ASSUMPTIONS = []

CARRIERS = [(n, f.name) for n in list(codec.PDU_NAMES) + codec.RECORD_NAMES
            for f in codec.SPECS[n].fields
            if f.kind == 'list' and f.elem == 'VariableDatum']


def datum(r, bits=None):
    t = {}
    gen.gen_datum(r, t)
    if bits is not None:
        t['variableDatumLength'] = bits
        t['variableData'] = list(gen.gen_bytes(r, (bits + 7) // 8))
    return t


def cases(tier, rng_for, shard, nshards):
    r = rng_for('lens', shard)
    for bits in range(0, 2101 if tier == 'quick' else 4200):
        if bits % nshards == shard:
            for rep in range(3):
                d = datum(r, bits)
                if rep == 2:
                    d['variableData'] = [255] * len(d['variableData'])
                yield 'length', dict(cls='VariableDatum', tree=d,
                                     mode='assign')
                c, l = CARRIERS[(bits + rep) % len(CARRIERS)]
                t = gen.signature(c, 0)
                t[l] = [d, datum(r, 24), datum(r, (bits * 7) % 130)]
                yield 'length-in-list', dict(cls=c, tree=t, mode='assign')
    for bits in (8 * 255, 8 * 256, 8 * 4096, 16383, 16392, 32767, 32768, 65535, 65536,
                 65544, 65536 + 8 * 77, 131072 + 5, 524288 + 24, 1 << 20):
        if bits % nshards == shard:
            yield 'long', dict(cls='VariableDatum', tree=datum(r, bits),
                               mode='assign')
    for i, (c, l) in enumerate(CARRIERS):
        for k in (17, 100, 256, 300):
            if (i + k) % nshards == shard and k <= gen.max_len(
                    codec.SPECS[c], codec.SPECS[c].lists[l]):
                t = gen.signature(c, 0)
                t[l] = [datum(r, (j * 5) % 75) for j in range(k)]
                yield 'many', dict(cls=c, tree=t, mode='assign')
    for c, l in gen.rotate(r, CARRIERS, 200 if tier == 'quick' else 1500):
        t = gen.gen(c, r, rich=.5)
        t[l] = [datum(r) for _ in range(r.choice([1, 2, 3, 5, 9]))]
        yield 'list', dict(cls=c, tree=t, mode=r.choice(gen.MODES))


def check(case):
    name, tree = case['cls'], case['tree']
    data = codec.enc(name, tree)
    o = sut.build(name, tree, case['mode'])
    got = sut.serialize(o)
    if got != data:
        raise Violation('layout', '%s: %s' % (name,
                                              sut.diff_bytes(data, got)))
    if name == 'VariableDatum' and len(got) % 8:
        raise Violation('alignment', '%d octets' % len(got))
    back, used = sut.parse_into(name, data + b'\x99' * 9)
    if used != len(data):
        raise Violation('consumed', '%s read %d of %d octets' % (
            name, used, len(data)))
    d = sut.same(sut.expected(name, tree), sut.extract(name, back), name)
    if d:
        raise Violation('value', d)
    again = sut.serialize(back)
    if again != data:
        raise Violation('bytes', '%s: %s' % (name,
                                             sut.diff_bytes(data, again)))


def nontrivial(case):
    t = case['tree']
    ds = [t] if case['cls'] == 'VariableDatum' else [
        d for _, l in CARRIERS if l in t for d in t[l]]
    return any(d['variableDatumLength'] for d in ds)
