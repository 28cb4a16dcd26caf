"""Pieces shared by the codec checks (C01-C06)."""
from . import codec, consts, gen
from .codec import RANGE, SPECS


def leaf_stats(tree):
    """(number of distinct non-zero leaves, list elements)"""
    vals, n = set(), 0
    stack = [tree]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            stack += x.values()
        elif isinstance(x, list):
            n += len(x)
            stack += x
        elif x not in (0, 0.0, False, '', None):
            vals.add(repr(x))
    return len(vals), n


def rich(tree):
    d, n = leaf_stats(tree)
    return d >= 8


def in_modes(trees, key, name, modes=gen.MODES):
    """List sizes in every way of building the object, the rest in turn."""
    for j, (label, t) in enumerate(trees):
        for m in (modes if label == 'listsize' else [modes[j % len(modes)]]):
            yield label, {key: name, 'tree': t, 'mode': m}
        if label == 'pattern' and 'mutate' in modes:
            yield label, {key: name, 'tree': t, 'mode': 'shared'}


def pdu_cases(tier, rng_for, shard, nshards, quick, thorough, pads=False,
              names=codec.PDU_NAMES, modes=gen.MODES):
    for i, name in enumerate(names):
        yield from in_modes(gen.sweep(name, 1, shard, nshards), 'pdu', name,
                            modes)
        if pads:
            for label, t in gen.sweep_pads(name, shard, nshards):
                yield label, dict(pdu=name, tree=t, mode=modes[0])
    r = rng_for('pdu', shard)
    per = quick if tier == 'quick' else thorough
    for name in gen.rotate(r, names, per):
        yield 'random', dict(pdu=name, tree=gen.gen(name, r, pads=pads),
                             mode=r.choice(modes + ('shared', 'copied')))


LONG = (1000, 4097)
LONGEST = LONG + (65537,)


def long_cases(names, shard, nshards, sizes=LONG, key='pdu'):
    """Sections far longer than usual, kept short as cases."""
    i = 0
    for name in names:
        for f in SPECS[name].lists.values():
            c = SPECS[name].count_of(f.name)
            if c is None or c.fmt not in ('u16', 'u32'):
                continue
            cap = (RANGE[c.fmt][1] - c.c) // c.k
            if f.elem.startswith('SV('):
                cap = 9000      # slow to build
            own = {int(c) for c in consts.around(
                consts.of_class(name) - set(codec.SV_TYPES), 300)
                if c < 10000 and c == int(c)}
            for n in sorted({min(n, cap) for n in {*sizes, *own}}):
                i += 1
                if i % nshards == shard:
                    yield 'long', {key: name, 'long': [f.name, n],
                                   'mode': gen.MODES[i % 3]}


def tree_of(case, key='pdu'):
    if 'long' not in case:
        return case['tree']
    name, (lst, n) = case[key], case['long']
    tree = gen.signature(name, 1)
    els = [gen.signature(name, 1, k)[lst][0] for k in range(0, 217, 31)]
    tree[lst] = [els[i % len(els)] for i in range(n)]
    if 'length' in tree:
        tree['length'] = len(codec.enc(name, tree)) & 0xffff
    return tree


def data_of(case):
    if 'long' not in case:
        return bytes.fromhex(case['data'])
    return codec.enc(case['pdu'], tree_of(case))


def in_factory(name):
    return codec.FACTORY.get(SPECS[name].ptype) == name


def mutate_bytes(r, data):
    """Structured damage to a message: (label, octets)."""
    b = bytearray(data)
    x = r.random()
    if x < .35 and b:
        for _ in range(r.choice([1, 1, 1, 2, 4, 8])):
            b[r.randrange(len(b))] = r.getrandbits(8)
        return 'bytes', bytes(b)
    if x < .5 and b:
        i = r.randrange(len(b))
        b[i] ^= 1 << r.randrange(8)
        return 'bitflip', bytes(b)
    if x < .65 and len(b) > 2:
        i = r.randrange(len(b))
        j = min(len(b), i + r.randint(1, 16))
        return 'delete', bytes(b[:i] + b[j:])
    if x < .8:
        i = r.randrange(len(b) + 1)
        return 'insert', bytes(b[:i]) + gen.gen_bytes(r, r.randint(1, 16)) \
            + bytes(b[i:])
    if x < .9:
        return 'truncate', bytes(b[:r.randrange(len(b) + 1)])
    i = r.randrange(len(b) + 1)
    return 'tail', bytes(b[:i]) + bytes(r.getrandbits(8)
                                        for _ in range(r.randint(0, 200)))
