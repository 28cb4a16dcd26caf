"""C07  counts and lengths follow the contents."""
import struct

from vlib import codec, gen, sut
from vlib.codec import FMT, RANGE, SPECS
from vlib.sut import Violation

ID = 'C07'
RULE = ('one case = a PDU or record and a history of edits of its repeated '
        'sections (append, insert, repeat, move, delete, replace, clear, '
        'reverse, assign, at any depth), compared after every step with a reference model; or '
        'a section at and above the capacity of its count or of 1000 to 66000 elements, or datums holding '
        'more than they declare; non-trivial: at '
        'least 3 edits, or a capacity case')
ASSUMPTIONS = ['counts that are plain attributes in the documented interface '
               '(grid axis, IFF data length) are not derived']


def has_list(name, seen=()):
    return any(f.kind == 'list' or (f.kind == 'rec' and has_list(f.cls))
               or (f.kind == 'custom' and f.key in ('modulation', 'antenna'))
               for f in SPECS[name].fields)


TARGETS = [n for n in list(codec.PDU_NAMES) + codec.RECORD_NAMES
           if has_list(n)]


def capacities():
    """(class, list, capacity) for 8- and 16-bit counts."""
    for n in list(codec.PDU_NAMES) + codec.RECORD_NAMES + sorted(
            codec.SV_BODY):
        for f in SPECS[n].fields:
            if f.kind == 'list':
                c = SPECS[n].count_of(f.name)
                if c is not None and c.fmt in ('u8', 'u16'):
                    yield n, f, (RANGE[c.fmt][1] - c.c) // c.k


def large(tier, r):
    """(class, list, size) far beyond what an 8-bit number holds."""
    deep = []
    for n in list(codec.PDU_NAMES) + codec.RECORD_NAMES:
        for f in SPECS[n].fields:
            c = f.kind == 'list' and SPECS[n].count_of(f.name)
            if not c or c.fmt == 'u8':
                continue
            yield n, f.name, 1000
            top = (RANGE[c.fmt][1] - c.c) // c.k
            size = min(top, 66000) if c.fmt == 'u32' else min(top, 33000)
            if tier != 'quick' or n in codec.RECORD_NAMES:
                yield n, f.name, size
            else:
                deep.append((n, f.name, size))
    r.shuffle(deep)
    yield from deep[:6]


def check_large(case):
    name, f = case['cls'], SPECS[case['cls']].lists[case['list']]
    tree = codec.default_tree(name)
    els = gen.signature(name, 3)[f.name]
    n = case['n']
    obj = sut.build(name, tree)
    built = [sut._elem(f, e, 'assign') for e in els]
    k = len(els)
    sut.assign(obj, f.name, [built[i % k] for i in range(n)])
    tree[f.name] = [els[i % k] for i in range(n)]
    try:
        want = codec.enc(name, tree)
    except struct.error:
        want = None                     # the octets of a record exceed a count
    got = sut.try_serialize(obj)
    if want is None:
        if isinstance(got, bytes):
            raise Violation('overflow', '%s.%s with %d elements was written'
                            % (name, f.name, n))
        return
    if not isinstance(got, bytes):
        raise Violation('refused', '%s.%s with %d elements: %s'
                        % (name, f.name, n, got))
    if got != want:
        raise Violation('bytes', '%s with %d elements: %s' % (
            name, n, sut.diff_bytes(want, got)))
    back = sut.parse_into(name, got)
    back = back[0] if isinstance(back, tuple) else back
    c = SPECS[name].count_of(f.name)
    if c.readable and getattr(back, c.name) != n * c.k + c.c:
        raise Violation('count', '%s.%s is %r with %d elements decoded' % (
            name, c.name, getattr(back, c.name), n))
    again = sut.serialize(back)
    if again != got:
        raise Violation('bytes', '%s with %d elements decoded: %s' % (
            name, n, sut.diff_bytes(got, again)))


def cases(tier, rng_for, shard, nshards):
    i = 0
    for n, l, size in large(tier, rng_for('large')):
        i += 1
        if i % nshards == shard:
            yield 'large', dict(what='large', cls=n, list=l, n=size, long=1)
    for n, f, cap in capacities():
        if n in codec.SV_BODY:
            continue
        for extra in (0, 1, 2, 7):
            i += 1
            if i % nshards == shard:
                yield 'capacity', dict(what='capacity', cls=n, list=f.name,
                                       n=cap + extra)
    for kind, top in (('modulation', 255), ('antenna', 65535), ('sv', 65535)):
        for n in (top, top + 1, top + 9, 2 * top):
            i += 1
            if i % nshards == shard:
                yield 'capacity', dict(what='section', kind=kind, n=n)
    for a, b in ((1637, 0), (1638, 0), (1639, 0), (3000, 5), (0, 100),
                 (65535, 0), (65536, 0), (0, 5454), (0, 5455), (0, 5461),
                 (0, 5462), (0, 6000), (1000, 2120), (1000, 2122),
                 (1000, 3000), (0, 65536)):
        i += 1
        if i % nshards == shard:
            yield 'capacity', dict(what='area', a=a, b=b)
    r = rng_for('surplus', shard)
    for name in gen.rotate(r, sorted(
            n for n in TARGETS if 'variableDatumRecords' in SPECS[n].lists),
            60 if tier == 'quick' else 400):
        t = gen.gen(name, r, rich=.4)
        ds = []
        for _ in range(r.choice([1, 2, 3, 4, 6])):
            d = {}
            gen.gen_datum(r, d)
            ds.append(d)
        t['variableDatumRecords'] = ds
        yield 'surplus', dict(what='surplus', cls=name, tree=t, extra=[
            [r.randrange(256)] * r.choice([0, 1, 1, 2, 7, 8, 9])
            for _ in ds])
    r = rng_for('hist', shard)
    for name in gen.rotate(r, TARGETS, 200 if tier == 'quick' else 1500):
        mode = r.choice(gen.MODES + ('decoded', 'decoded', 'copied'))
        tree = gen.gen(name, r, rich=.7, pads=mode == 'decoded')
        model = gen.copy(tree)
        ops = []
        for _ in range(r.randint(1, 12)):
            op = gen_op(r, name, model)
            if op:
                apply_model(name, model, op)
                ops.append(op)
        yield 'history', dict(what='history', cls=name, tree=tree, ops=ops,
                              mode=mode)


def lists_of(name, model):
    out = []
    for path, f, spec, owner in codec.walk(name, model):
        if f.kind == 'list':
            out.append((path, f, spec, owner))
        elif f.kind == 'custom' and f.key in ('modulation', 'antenna'):
            out.append((path, f, spec, owner))
    return out


def gen_op(r, name, model):
    cand = lists_of(name, model)
    if not cand:
        return None
    path, f, spec, owner = r.choice(cand)
    if f.kind == 'custom':
        nm, rec, unk = (('modulationParameters',
                         r.choice(['BasicHaveQuickMP', 'CCTTSincgarsMP']), 255)
                        if f.key == 'modulation'
                        else ('antennaPattern', 'BeamAntennaPattern', 400))
        x = r.random()
        if x < .3:
            v = None
        elif x < .6:
            v = gen.gen(rec, r)
            v['$rec'] = rec
        else:
            v = {'$raw': gen.gen_bytes(r, r.randint(1, unk)).hex()}
        return ['section', list(path), nm, v]
    n = len(owner[f.name])
    mx = gen.max_len(spec, f)
    p = [list(path), f.name]
    what = r.choice(['append', 'append', 'insert', 'delete', 'delete',
                     'replace', 'clear', 'reverse', 'assign', 'extend', 'pop',
                     'again', 'move'])
    if what in ('append', 'insert', 'extend', 'again') and n + 3 > mx:
        what = 'clear'
    if what in ('delete', 'replace', 'pop', 'again', 'move') and n == 0:
        what = 'append'
    el = lambda: gen.gen_elem(f, r, False, .5)
    if what == 'append':
        return ['append', *p, el()]
    if what in ('again', 'move'):
        return [what, *p, r.randrange(n), r.randint(0, n - 1)]
    if what == 'insert':
        return ['insert', *p, r.randint(0, n), el()]
    if what == 'delete':
        return ['delete', *p, r.randrange(n)]
    if what == 'pop':
        return ['delete', *p, n - 1]
    if what == 'replace':
        return ['replace', *p, r.randrange(n), el()]
    if what == 'extend':
        return ['extend', *p, [el() for _ in range(r.randint(0, 3))]]
    if what == 'assign':
        return ['assign', *p, [el() for _ in range(r.randint(0, 4))]]
    return [what, *p]


def edit(lst, op, conv):
    """Apply a list edit to a list of trees (conv = identity) or objects."""
    k = op[0]
    if k == 'append':
        lst.append(conv(op[3]))
    elif k == 'insert':
        lst.insert(op[3], conv(op[4]))
    elif k == 'delete':
        del lst[op[3]]
    elif k == 'again':          # the very same element a second time
        lst.insert(op[4], lst[op[3]])
    elif k == 'move':
        lst.insert(op[4], lst.pop(op[3]))
    elif k == 'replace':
        lst[op[3]] = conv(op[4])
    elif k == 'extend':
        lst.extend([conv(e) for e in op[3]])
    elif k == 'clear':
        del lst[:]
    elif k == 'reverse':
        lst.reverse()
    else:
        raise AssertionError(k)


def apply_model(name, model, op):
    owner = codec.at(model, op[1])
    if op[0] == 'section':
        owner[op[2]] = gen.copy(op[3])
    elif op[0] == 'assign':
        owner[op[2]] = gen.copy(op[3])
    else:
        edit(owner[op[2]], op, gen.copy)


def nav(obj, path):
    for p in path:
        obj = obj[p] if isinstance(p, int) else getattr(obj, p)
    return obj


def field_at(name, model, op):
    for path, f, spec, owner in lists_of(name, model):
        if list(path) == op[1] and f.name == op[2]:
            return f
    raise AssertionError('no such section')


def apply_real(name, model, obj, op):
    owner = nav(obj, op[1])
    if op[0] == 'section':
        unk = ('UnknownRadio' if op[2] == 'modulationParameters'
               else 'UnknownAntennaPattern')
        setattr(owner, op[2], sut.build_sub(op[3], unk, 'assign'))
        return
    f = field_at(name, model, op)
    conv = lambda e: sut._elem(f, e, 'assign')
    if op[0] == 'assign':
        sut.assign(owner, op[2], [conv(e) for e in op[3]])
    else:
        edit(getattr(owner, op[2]), op, conv)


def compare(name, model, obj, when):
    d = sut.same(sut.expected(name, model), sut.extract(name, obj), name)
    if d:
        raise Violation('count', '%s: %s' % (when, d))
    sizes(obj)
    want, got = codec.enc(name, model), sut.serialize(obj)
    if want != got:
        raise Violation('bytes', '%s: %s: %s' % (
            name, when, sut.diff_bytes(want, got)))


def sizes(obj, depth=0):
    """Self-measuring records report what they write."""
    if isinstance(obj, list):
        for e in obj[:20]:
            sizes(e, depth)
        return
    if not type(obj).__module__.startswith('opendis'):
        return
    for a in ('marshalledSize', 'recordLength'):
        if a in ('recordLength',) and type(obj).__name__ not in \
                codec.SV_NUMBER and not type(obj).__name__.startswith(
                    'UnknownStandard'):
            continue
        n = getattr(obj, a, None)
        if callable(n):
            n = sut.sut(a, n)
        if n is None:
            continue
        data = sut.try_serialize(obj)
        if isinstance(data, bytes) and n != len(data):
            raise Violation('size', '%s: %s is %r, %d octets are written' % (
                type(obj).__name__, a, n, len(data)))
    if depth < 3:
        for a in sut.public(obj):
            v = getattr(obj, a, None)
            if isinstance(v, list) and v and not isinstance(v[0], (
                    int, float)) or a in ('modulationParameters',
                                          'antennaPattern'):
                sizes(v, depth + 1)


def check(case):
    if case['what'] == 'history':
        name = case['cls']
        model = gen.copy(case['tree'])
        obj = sut.build(name, model, case['mode'])
        compare(name, model, obj, 'initially')
        for i, op in enumerate(case['ops']):
            apply_real(name, model, obj, op)
            apply_model(name, model, op)
            compare(name, model, obj, 'after step %d (%s)' % (i + 1, op[0]))
        return
    if case['what'] == 'capacity':
        name = case['cls']
        spec = SPECS[name]
        f = spec.lists[case['list']]
        c = spec.count_of(f.name)
        cap = (RANGE[c.fmt][1] - c.c) // c.k
        tree = codec.default_tree(name)
        el = gen.signature(name, 1)[f.name][0]
        n = case['n']
        obj = sut.build(name, tree)
        e = sut._elem(f, el, 'assign')
        sut.assign(obj, f.name, [e] * n)
        got = sut.try_serialize(obj)
        if n > cap:
            if isinstance(got, bytes):
                raise Violation('overflow', '%s.%s with %d elements was '
                                'written' % (name, f.name, n))
            return
        if not isinstance(got, bytes):
            raise Violation('refused', '%s.%s with %d elements: %s'
                            % (name, f.name, n, got))
        if c.readable and getattr(obj, c.name) != n * c.k + c.c:
            raise Violation('count', '%s.%s is %r with %d elements'
                            % (name, c.name, getattr(obj, c.name), n))
        tree[f.name] = [el] * n
        want = codec.enc(name, tree)
        if got != want:
            raise Violation('bytes', '%s: %s' % (
                name, sut.diff_bytes(want, got)))
        return
    if case['what'] == 'large':
        return check_large(case)
    if case['what'] == 'surplus':
        return surplus(case['cls'], case['tree'], case['extra'])
    if case['what'] == 'area':
        return area(case['a'], case['b'])
    kind, n = case['kind'], case['n']
    top = 255 if kind == 'modulation' else 65535
    t = gen.signature('TransmitterPdu', 1)
    t['variableTransmitterParameters'] = []
    if kind == 'modulation':
        t['modulationType']['radioSystem'] = 77
        obj = sut.build('TransmitterPdu', t)
        t['modulationParameters'] = {'$raw': '5a' * n}
        obj.modulationParameters = sut.resolve('UnknownRadio')(b'Z' * n)
    elif kind == 'antenna':
        obj = sut.build('TransmitterPdu', t)
        t['antennaPattern'] = {'$raw': '5a' * n}
        obj.antennaPattern = sut.resolve('UnknownAntennaPattern')(b'Z' * n)
    else:
        n = n // 8 * 8 + (8 if n > top else 0)
        obj = sut.build('TransmitterPdu', t)
        sv = {'$sv': 'unknown', 'recordType': 9, 'data': '5a' * (n - 6)}
        t['variableTransmitterParameters'] = [sv]
        obj.variableTransmitterParameters.append(
            sut.build_sv(sv, 'vtp', 'assign'))
    got = sut.try_serialize(obj)
    if n > top:
        if isinstance(got, bytes):
            raise Violation('overflow', '%s section of %d octets was written'
                            % (kind, n))
    elif got != codec.enc('TransmitterPdu', t):
        raise Violation('bytes', '%s section of %d octets' % (kind, n))


def surplus(name, tree, extra):
    """Datums holding more octets than their declared length."""
    obj = sut.build(name, tree, 'assign')
    n = len(tree['variableDatumRecords'])
    ds = obj.variableDatumRecords
    for d, e in zip(ds, extra):
        d.variableData = list(d.variableData) + e
    for o in (obj, getattr(obj, '_datums', None)):
        got = getattr(o, 'numberOfVariableDatumRecords', n)
        if got != n:
            raise Violation('count', '%s counts %r of %d datums' % (
                name, got, n))
    data = sut.try_serialize(obj)
    if not isinstance(data, bytes):
        return                          # refused
    try:
        back, used = codec.dec(name, data)
    except codec.Malformed as e:
        raise Violation('bytes', '%s with a datum longer than declared was '
                        'written malformed: %s' % (name, e))
    if len(back['variableDatumRecords']) != n or used != len(data):
        raise Violation('count', '%s: %d datums written, the message says '
                        '%d' % (name, n, len(back['variableDatumRecords'])))
    for d, w in zip(back['variableDatumRecords'],
                    tree['variableDatumRecords']):
        k = len(w['variableData'])
        if d['variableDatumID'] != w['variableDatumID'] or \
                d['variableData'][:k] != w['variableData']:
            raise Violation('value', '%s: datum %r became %r' % (name, w, d))


def area(a, b):
    """An area aimpoint about as long as its length can say."""
    t = gen.signature('DirectedEnergyAreaAimpoint', 1)
    for lst, n in (('beamAntennaPatterns', a),
                   ('directedEnergyTargetEnergyDepositions', b)):
        t[lst] = t[lst][:1] * n
    t['$sv'] = 'DirectedEnergyAreaAimpoint'
    tree = gen.signature('DirectedEnergyFirePdu', 0)
    tree['dERecords'] = [t]
    got = sut.try_serialize(sut.build('DirectedEnergyFirePdu', tree))
    try:
        want = codec.enc('DirectedEnergyFirePdu', tree)
    except struct.error:
        if isinstance(got, bytes):
            raise Violation('overflow', 'an aimpoint with %d patterns and %d '
                            'depositions was written' % (a, b))
        return
    if got != want:
        raise Violation('bytes', 'an aimpoint with %d patterns and %d '
                        'depositions' % (a, b))


def nontrivial(case):
    return case['what'] != 'history' or len(case['ops']) >= 3
