"""C18  constructors."""
from vlib import codec, gen, sut
from vlib.codec import SPECS
from vlib.signatures import PARAMS
from vlib.sut import CTOR_ALIAS, Violation

ID = 'C18'
RULE = ('one case = one class with one subset of its constructor arguments '
        '(none, each alone, all, random subsets, positional prefixes) at '
        'zero, boundary, distinct or random values or zero but for one leaf; non-trivial: at least '
        'one argument')
ASSUMPTIONS = ['documented defaults are those of vlib/layout.py (zero unless '
               'stated), argument names and their order those of '
               'vlib/signatures.py']

ALL = list(codec.PDU_NAMES) + codec.RECORD_NAMES + sorted(codec.SV_BODY)
# arguments that are not fields of the layout
EXTRA = {'FastEntityStatePdu': ['numberOfVariableParameters'],
         'GridAxisDescriptorVariable': ['numberOfPointsOnXiAxis'],
         'IFFData': ['recordLength'],
         'UaPdu': ['shaftRPMs', 'apaData', 'emitterSystems']}


def fields(name):
    """constructor argument -> attribute, for layout fields."""
    attrs = sut.field_values(name, codec.default_tree(name), 'assign')
    back = {v: a for (c, a), v in CTOR_ALIAS.items() if c == name}
    return {p: back.get(p, p) for p in PARAMS[name]
            if back.get(p, p) in attrs}


def prefix(name):
    """How many leading parameters can be given by position."""
    fs = fields(name)
    n = 0
    for i, p in enumerate(PARAMS[name]):
        if p in fs:
            n = i + 1
        elif p not in EXTRA.get(name, ()):
            break
    return n


# constructors of the abstract base classes
BASES = {
    'PduSuperclass': ['protocolVersion', 'exerciseID', 'pduType',
                      'protocolFamily', 'timestamp', 'pduLength'],
    'Pdu': ['pduStatus'],
    'LiveEntityPdu': ['subprotocolNumber'],
    'SimulationManagementFamilyPdu': ['originatingEntityID',
                                      'receivingEntityID'],
    'SimulationManagementWithReliabilityFamilyPdu': ['originatingEntityID',
                                                     'receivingEntityID'],
    'WarfareFamilyPdu': ['firingEntityID', 'targetEntityID'],
}
BASE_DEFAULT = {'protocolVersion': 7, 'pduType': 77, 'protocolFamily': 99}


def subsets(names):
    for m in range(1 << len(names)):
        yield [n for i, n in enumerate(names) if m >> i & 1]


def check_base(case):
    base, args = case['base'], case['args']
    # concrete PDUs state their type and family on the class
    cls = type('X', (sut.resolve(base),), dict(pduType=77, protocolFamily=99))
    if ('pduType' in args) != ('protocolFamily' in args):
        return
    for zero in (False, True):
        vals = {}
        for i, a in enumerate(args):
            if a.endswith('EntityID'):
                vals[a] = sut.build('EntityIdentifier', case['tree'])
            else:
                vals[a] = 0 if zero else 3 + i
        o = sut.sut('%s(%s)' % (base, ', '.join(args)), cls, **vals)
        for a in BASES[base]:
            got = getattr(o, 'length' if a == 'pduLength' else a, None)
            if a in vals:
                ok = got is vals[a] or got == vals[a]
            elif a.endswith('EntityID'):
                ok = sut.serialize(got) == bytes(6)
            else:
                ok = got == BASE_DEFAULT.get(a, 0)
            if not ok:
                raise Violation('argument', '%s(%s): %s is %r' % (
                    base, ', '.join(args), a, got))


def lists(name, p):
    """Trees with the list argument `p`, if it is one, at every size."""
    spec = SPECS[name]
    f = next((f for f in spec.fields if f.name == fields(name)[p]), None)
    if f is None or f.kind != 'list':
        return
    base = gen.signature(name, 1)
    el = gen.signature(name, 3, 31)[f.name]
    for k in gen.SIZES:
        if k <= gen.max_len(spec, f):
            t = gen.copy(base)
            t[f.name] = [gen.copy(el[i % len(el)]) for i in range(k)]
            yield t


def leaves(name):
    """(argument, tree) with everything zero but one leaf of the argument."""
    back = {a: p for p, a in fields(name).items()}
    base = gen.zero(name, 1)
    for path, f, _, _ in codec.walk(name, base):
        top = back.get(path[0] if path else f.name)
        if top is None:
            continue
        if f.kind == 'scalar' and path:
            new = {f.name: gen.num(f.fmt, 1)}, {f.name: 1}
        elif f.kind == 'bits':
            new = [{nm: True if isb else 1} for nm, w, isb in f.bits]
        elif f.kind == 'array':
            z = [0] * f.n
            new = [{f.name: z[:i] + [1] + z[i + 1:]} for i in range(f.n)]
        else:
            continue
        for d in new:
            t = gen.copy(base)
            codec.at(t, path).update(d)
            yield top, t


def cases(tier, rng_for, shard, nshards):
    r = rng_for('c18', shard)
    for i, name in enumerate(ALL):
        if i % nshards != shard:
            continue
        yield 'none', dict(cls=name, args=[], tree=gen.signature(name, 1))
        fs = sorted(fields(name))
        for p in fs:
            for t in (gen.signature(name, 2), gen.gen(name, r),
                      gen.zero(name), gen.zero(name, 1),
                      gen.zero(name, 2, 1)):
                yield 'one', dict(cls=name, args=[p], tree=t)
        for p in fs:
            for t in lists(name, p):
                yield 'list', dict(cls=name, args=[p], tree=t)
        for p, t in leaves(name):
            yield 'leaf', dict(cls=name, args=[p], tree=t)
        for nl in (1, 2, 3):
            yield 'all', dict(cls=name, args=fs, tree=gen.signature(
                name, nl, 40 * nl))
        for t in (gen.zero(name), gen.zero(name, 1), gen.zero(name, 1, 1)):
            yield 'all', dict(cls=name, args=fs, tree=t)
        n = prefix(name)
        for k in range(1, n + 1):
            for t in (gen.signature(name, 2), gen.gen(name, r)):
                yield 'positional', dict(cls=name, args=[], positional=k,
                                         tree=t)
    if shard == 0:
        for base in BASES:
            for args in subsets(BASES[base]):
                yield 'base', dict(base=base, args=args,
                                   tree=gen.signature('EntityIdentifier'))
        for kind in ('any', 'vtp', 'damage'):
            for n in (0, 1, 77, 2999, 3001, 4002, 65536, 0xffffffff):
                yield 'unknown', dict(unknown=n, kind=kind)
    for name in gen.rotate(r, ALL, 100 if tier == 'quick' else 800):
        fs = sorted(fields(name))
        k = r.random()
        yield 'subset', dict(cls=name, args=[p for p in fs
                                             if r.random() < k],
                             tree=gen.gen(name, r))


def check_unknown(case):
    n = case['unknown']
    cls = sut.sut('getStandardVariableClass', sut.record.getStandardVariableClass,
                  n, sut.expected_base(case['kind']))
    for given in (None, b'', b'ab', bytes(10)):
        a = sut.sut('%s()' % cls.__name__, cls)
        if given is None:
            o = a
        else:
            o = sut.sut('%s(...)' % cls.__name__, cls, given)
            a.data = given
        for x in (a, o):
            if bytes(x.data) != (given or b''):
                raise Violation('argument', 'data is %r' % (x.data,))
            got = sut.serialize(x)
            want = n.to_bytes(4, 'big') + (6 + len(x.data)).to_bytes(
                2, 'big') + x.data
            if got != want:
                raise Violation('default', sut.diff_bytes(want, got))


def check(case):
    if 'unknown' in case:
        return check_unknown(case)
    if 'base' in case:
        return check_base(case)
    name, args, tree = case['cls'], case['args'], case['tree']
    cls = sut.resolve(name)
    fmap = fields(name)
    positional = case.get('positional')
    if positional:
        given = PARAMS[name][:positional]
        args = [p for p in given if p in fmap]
    model = codec.default_tree(name)
    vals = sut.field_values(name, tree, 'assign')
    a = sut.sut('%s()' % name, cls)
    d = sut.same(sut.expected(name, model), sut.extract(name, a), name)
    if d:
        raise Violation('default', d)
    if positional:
        obj = sut.sut('%s(%s)' % (name, ', '.join(given)), cls,
                      *[vals[fmap[p]][1]() if p in fmap else
                        0 if p.startswith(('number', 'record')) else None
                        for p in given])
    else:
        obj = sut.sut('%s(%s)' % (name, ', '.join(args)), cls,
                      **{p: vals[fmap[p]][1]() for p in args})
    for p in args:
        at = fmap[p]
        model[at] = tree[at]
        if at == 'pduType' and SPECS[name].ptype is not None:
            continue
        sut.assign(a, at, vals[at][1]())
    want = sut.expected(name, model)
    for o, how in ((obj, 'built with ' + ', '.join(args)), (a, 'assigned')):
        d = sut.same(want, sut.extract(name, o), name)
        if d:
            raise Violation('argument', '%s: %s' % (how, d))
    # a modulation or datum section may only make sense with other fields
    x, y = sut.try_serialize(obj), sut.try_serialize(a)
    if isinstance(x, bytes) != isinstance(y, bytes) or (
            isinstance(x, bytes) and x != y):
        raise Violation('bytes', '%s with %s: %r vs %r' % (
            name, ', '.join(args), x, y))
    if not args and not isinstance(x, bytes):
        raise Violation('default', 'a default %s cannot be encoded: %s' % (
            name, x))
    if not args and name not in codec.SV_BODY:
        want = codec.enc(name, model)
        if x != want:
            raise Violation('default', '%s(): %s' % (
                name, sut.diff_bytes(want, x)))


def nontrivial(case):
    return bool(case.get('args') or case.get('positional'))
