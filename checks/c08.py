"""C08  instances are independent."""
import copy

from vlib import codec, common, gen, sut
from vlib.codec import SPECS
from vlib.sut import Violation
from checks import c07

ID = 'C08'
RULE = ('one case = a history over up to 5 live objects (create, build, '
        'copy, edit any field or section at any depth, decode, decode rubbish, encode), all '
        'objects compared with their own models after every step; directed '
        'create-mutate-create and decode-mutate-decode histories for every '
        'class; non-trivial: at least 2 objects and 1 edit')
ASSUMPTIONS = []

ALL = list(codec.PDU_NAMES) + codec.RECORD_NAMES + sorted(codec.SV_BODY)
PDUS = [n for n in codec.PDU_NAMES]


def cases(tier, rng_for, shard, nshards):
    for i, name in enumerate(ALL):
        if i % nshards == shard:
            yield 'directed', dict(what='twins', cls=name)
    r = rng_for('hist', shard)
    n = 10000 if tier == 'quick' else 60000
    order = gen.rotate(r, ALL, 10 ** 6)
    for _ in range(n):
        fav = next(order)
        if r.random() < .4:
            fav = r.choice(PDUS)
        yield 'history', dict(what='history', ops=gen_history(r, fav))


def gen_history(r, fav):
    ops, slots = [], []
    for _ in range(r.randint(3, 14)):
        x = r.random()
        if len(slots) < 2 or (x < .2 and len(slots) < 5):
            name = fav if r.random() < .75 else r.choice(ALL)
            if name in PDUS and common.in_factory(name) and r.random() < .4:
                t = gen.gen(name, r, rich=.7)
                old = [o[2] for o in ops if o[0] == 'decode' and o[1] == name]
                if old and r.random() < .6:
                    # the same message, or nearly
                    t = gen.copy(r.choice(old))
                    if r.random() < .5:
                        part = gen.gen(name, r, rich=.7)
                        k = r.choice([k for k in t if k != 'pduType'])
                        if name != 'TransmitterPdu' and k in part:
                            t[k] = part[k]
                ops.append(['decode', name, t])
                slots.append((name, gen.copy(t)))
            elif slots and r.random() < .2:
                i = r.randrange(len(slots))
                ops.append(['copy', i])
                slots.append((slots[i][0], copy.deepcopy(slots[i][1])))
            elif name not in codec.SV_BODY and r.random() < .4:
                t = gen.gen(name, r, rich=.7)
                ops.append(['build', name, t, r.choice(['ctor', 'assign'])])
                slots.append((name, gen.copy(t)))
            else:
                ops.append(['new', name])
                slots.append((name, codec.default_tree(name)))
        elif x < .75:
            i = r.randrange(len(slots))
            name, model = slots[i]
            if r.random() < .45:
                op = c07.gen_op(r, name, model)
                if op:
                    c07.apply_model(name, model, op)
                    ops.append(['edit', i, op])
            else:
                c = [(p, f) for p, f, s, o in codec.walk(name, model)
                     if f.kind == 'scalar' and f.name not in
                     ('pduType', 'protocolFamily')
                     or f.kind in ('bits', 'array')]
                if c:
                    p, f = r.choice(c)
                    if f.kind == 'scalar':
                        k, v = f.name, gen.gen_scalar(r, f.fmt)
                        codec.at(model, p)[k] = v
                    elif f.kind == 'bits':
                        k, w, isb = r.choice(f.bits)
                        v = bool(r.getrandbits(1)) if isb \
                            else r.getrandbits(w)
                        codec.at(model, p)[k] = v
                    else:
                        p, k = p + (f.name,), r.randrange(f.n)
                        v = gen.gen_scalar(r, f.fmt)
                        codec.at(model, p)[k] = v
                    ops.append(['set', i, list(p), k, v])
        elif x < .85:
            name = r.choice(PDUS)
            data = codec.enc(name, gen.gen(name, r, rich=.7))
            ops.append(['rubbish', data[:r.randrange(3, len(data))].hex()])
        else:
            ops.append(['encode', r.randrange(len(slots))])
    return ops


def compare(slots, when):
    for i, (name, model, obj) in enumerate(slots):
        d = sut.same(sut.expected(name, model), sut.extract(name, obj), name)
        if d:
            raise Violation('shared', 'object %d %s: %s' % (i, when, d))


def check(case):
    if case['what'] == 'twins':
        return twins(case['cls'])
    slots = []
    for n, op in enumerate(case['ops']):
        k = op[0]
        if k == 'new':
            slots.append((op[1], codec.default_tree(op[1]),
                          sut.sut(op[1], sut.resolve(op[1]))))
        elif k == 'decode':
            obj = sut.decode(codec.enc(op[1], op[2]))
            slots.append((op[1], gen.copy(op[2]), obj))
        elif k == 'build':
            slots.append((op[1], gen.copy(op[2]),
                          sut.build(op[1], op[2], op[3])))
        elif k == 'copy':
            name, model, obj = slots[op[1]]
            # an element listed twice is listed twice in the copy
            slots.append((name, copy.deepcopy(model), sut.sut(
                'copy.deepcopy', copy.deepcopy, obj)))
        elif k == 'edit':
            name, model, obj = slots[op[1]]
            c07.apply_real(name, model, obj, op[2])
            c07.apply_model(name, model, op[2])
        elif k == 'set':
            name, model, obj = slots[op[1]]
            codec.at(model, op[2])[op[3]] = op[4]
            o = c07.nav(obj, op[2])
            if isinstance(op[3], int):
                o[op[3]] = op[4]
            else:
                sut.assign(o, op[3], op[4])
        elif k == 'rubbish':
            try:
                sut.factory.createPdu(bytes.fromhex(op[1]))
            except Exception:
                pass
        elif k == 'encode':
            name, model, obj = slots[op[1]]
            if name not in codec.SV_BODY:
                got, want = sut.serialize(obj), codec.enc(name, model)
                if got != want:
                    raise Violation('shared', 'object %d: %s' % (
                        op[1], sut.diff_bytes(want, got)))
        compare(slots, 'after step %d (%s)' % (n + 1, k))


def twins(name):
    """Create, mutate everything in place, create again; the same with
    decoding."""
    cls = sut.resolve(name)
    d0 = codec.default_tree(name)
    sig = gen.signature(name, 2)
    a, b = cls(), cls()
    slots = [(name, d0, a), (name, d0, b)]
    compare(slots, 'when fresh')
    sut.fill(a, name, sig)
    slots[0] = (name, sig, a)
    compare(slots, 'after filling the first')
    c = cls()
    slots.append((name, d0, c))
    compare(slots, 'after filling the first and making a third')
    sig2 = gen.signature(name, 3, 99)
    sut.fill(c, name, sig2)
    slots[2] = (name, sig2, c)
    compare(slots, 'after filling the third')
    if name in codec.SV_BODY:
        return
    data, data2 = codec.enc(name, sig), codec.enc(name, sig2)
    u, _ = sut.parse_into(name, data)
    x, _ = sut.parse_into(name, data)
    y, _ = sut.parse_into(name, data2)
    z, _ = sut.parse_into(name, data)
    slots += [(name, sig, x), (name, sig2, y), (name, sig, z), (name, sig, u)]
    compare(slots, 'after decoding three')
    sut.fill(x, name, sig2)
    slots[3] = (name, sig2, x)
    compare(slots, 'after refilling a decoded one')
    for n, model, obj in slots:
        got = sut.serialize(obj)
        if got != codec.enc(n, model):
            raise Violation('shared', '%s: %s' % (n, sut.diff_bytes(
                codec.enc(n, model), got)))
    compare(slots, 'after encoding all')
    w = cls()
    compare(slots + [(name, d0, w)], 'after making another')


def nontrivial(case):
    return case['what'] == 'twins' or (
        sum(o[0] in ('new', 'decode') for o in case['ops']) >= 2
        and any(o[0] in ('set', 'edit') for o in case['ops']))
