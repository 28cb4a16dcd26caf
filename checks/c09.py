"""C09  repeatable encoding, exact concatenation."""
import io

from vlib import codec, common, gen, sut
from vlib.sut import Violation
from checks import c11

ID = 'C09'
RULE = ('one case = 1 to 6 PDUs and records written (some repeatedly) into '
        'one stream and read back from it, or one whose encoding fails at '
        'every octet of the stream or for the sake of one field and then '
        'succeeds; non-trivial: at least 2 items, an item with a repeated '
        'section, or a failure')
ASSUMPTIONS = []

ALL = list(codec.PDU_NAMES) + [n for n in codec.RECORD_NAMES
                               if n != 'ChangeOptions']


def cases(tier, rng_for, shard, nshards):
    for i, name in enumerate(ALL):
        if i % nshards == shard:
            for n in (1, 3):
                t = gen.signature(name, n)
                yield 'slack', dict(slack=[0, 7, 255], item=[name, t,
                                                             'assign'])
            for n in (0, 1, 3):
                t = gen.signature(name, n)
                yield 'directed', dict(items=[[name, t, 'assign']], order=[
                    0, 0, 0], head='', tail='')
                yield 'directed', dict(items=[[name, t, 'decoded']], order=[
                    0, 0], head='', tail='')
            for _, t in gen.sweep_pads(name):
                yield 'padding', dict(items=[[name, t, 'decoded']], order=[
                    0, 0], head='', tail='')
            for n in (1, 3):
                yield 'fault', dict(fault='all', item=[
                    name, gen.signature(name, n), gen.MODES[n % 3]])
    n = 0
    for name in ALL:
        for path, (lo, hi), bits in c11.slots(name, 2):
            n += 1
            if n % nshards == shard:
                yield 'refused', dict(refused=path, value=hi + 1, item=[
                    name, gen.signature(name, 2), gen.MODES[n % 3]])
    r = rng_for('c09', shard)
    for name in gen.rotate(r, ALL, 6 if tier == 'quick' else 60):
        mode = r.choice(gen.MODES + ('decoded',))
        yield 'fault', dict(fault=[r.random() for _ in range(5)], item=[
            name, gen.gen(name, r, rich=.7), mode])
    for name in gen.rotate(r, ALL, 100 if tier == 'quick' else 700):
        items = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            mode = r.choice(gen.MODES + ('shared', 'decoded', 'copied'))
            items.append([name, gen.gen(name, r, rich=.7,
                                        pads=mode == 'decoded'), mode])
            if r.random() < .6:
                name = r.choice(ALL)
        order = [r.randrange(len(items)) for _ in range(r.randint(1, 6))]
        yield 'random', dict(items=items, order=order,
                             head='ee' * r.choice([0, 0, 1, 2, 3, 4, 5, 6,
                                                   7, 9, 100]),
                             tail=gen.gen_bytes(r, r.choice([0, 1, 9])).hex())


def unaltered(what, o, before):
    d = sut.same(before, sut.snapshot(o), what)
    if d:
        raise Violation('altered', 'encoding changed the object: ' + d)


def check_slack(case):
    """Objects holding more octets than they announce."""
    name, tree, mode = case['item']
    o = sut.build(name, tree, mode)
    sut.slacken(o, case['slack'])
    before = sut.snapshot(o)
    one = sut.try_serialize(o)
    unaltered(name, o, before)
    two = sut.try_serialize(o)
    if isinstance(one, bytes) != isinstance(two, bytes) or (
            isinstance(one, bytes) and one != two):
        raise Violation('unstable', '%s: first %r then %r' % (name, one, two))


class Full(io.BytesIO):
    """A stream with room for n octets."""

    def __init__(self, n):
        super().__init__()
        self.room = n

    def write(self, b):
        if len(b) > self.room:
            super().write(b[:self.room])
            self.room = 0
            raise OSError('no room')
        self.room -= len(b)
        return super().write(b)


def check_fault(case):
    """Encodings that stop in the middle leave the object as it was."""
    name, tree, mode = case['item']
    o = sut.build(name, tree, mode)
    want = sut.serialize(o)
    before = sut.snapshot(o)
    at = (range(len(want)) if case['fault'] == 'all' else
          sorted({int(x * len(want)) for x in case['fault']}))
    for n in at:
        if n >= len(want):
            continue
        try:
            o.serialize(sut.DataOutputStream(Full(n)))
        except Exception:
            pass
        else:
            raise Violation('lost', '%s: an error of the stream after %d of '
                            '%d octets was not reported' % (
                                name, n, len(want)))
        again = sut.serialize(o)
        if again != want:
            raise Violation('altered', '%s: after an encoding that failed at '
                            'octet %d: %s' % (name, n, sut.diff_bytes(
                                want, again)))
        if n % 8 == 0 or len(at) < 20:
            unaltered(name, o, before)
    unaltered(name, o, before)


def check_refused(case):
    """So do encodings refused because of a value."""
    name, tree, mode = case['item']
    path = case['refused']
    o = sut.build(name, tree, mode)
    want = sut.serialize(o)
    before = sut.snapshot(o)
    owner = o
    for p in path[:-1]:
        owner = owner[p] if isinstance(p, int) else getattr(owner, p)
    if isinstance(path[-1], int):
        old, owner[path[-1]] = owner[path[-1]], case['value']
    else:
        old = getattr(owner, path[-1])
        try:
            setattr(owner, path[-1], case['value'])
        except Exception:
            pass                # refused at once
    sut.try_serialize(o)
    if isinstance(path[-1], int):
        owner[path[-1]] = old
    else:
        setattr(owner, path[-1], old)
    unaltered(name, o, before)
    again = sut.serialize(o)
    if again != want:
        raise Violation('altered', '%s: after an encoding refused for %s: %s'
                        % (name, path, sut.diff_bytes(want, again)))


def check(case):
    if 'slack' in case:
        return check_slack(case)
    if 'fault' in case:
        return check_fault(case)
    if 'refused' in case:
        return check_refused(case)
    objs, single = [], []
    for name, tree, mode in case['items']:
        codec.enc(name, tree)
        o = sut.build(name, tree, mode)
        want = sut.expected(name, tree)
        before = sut.snapshot(o)
        one = sut.serialize(o)
        unaltered(name, o, before)
        d = sut.same(want, sut.extract(name, o), name)
        if d:
            raise Violation('altered', 'encoding changed the object: ' + d)
        two = sut.serialize(o)
        if one != two:
            raise Violation('unstable', '%s: second encoding: %s' % (
                name, sut.diff_bytes(one, two)))
        objs.append(o)
        single.append(one)
    head = bytes.fromhex(case['head'])
    buf = io.BytesIO()
    buf.write(head)
    out = sut.DataOutputStream(buf)
    for i in case['order']:
        sut.sut('serialize', objs[i].serialize, out)
    got = buf.getvalue()
    want = head + b''.join(single[i] for i in case['order'])
    if got != want:
        raise Violation('concat', sut.diff_bytes(want, got))
    tail = bytes.fromhex(case['tail'])
    src = io.BytesIO(want + tail)
    src.seek(len(head))
    s = sut.DataInputStream(src)
    pos = len(head)
    for k, i in enumerate(case['order']):
        name, tree, _ = case['items'][i]
        o = sut.sut(name, sut.resolve(name))
        sut.sut('parse of item %d (%s)' % (k, name), o.parse, s)
        pos += len(single[i])
        if src.tell() != pos:
            raise Violation('position', 'item %d (%s): stream at %d, '
                            'expected %d' % (k, name, src.tell(), pos))
        d = sut.same(sut.expected(name, tree), sut.extract(name, o), name)
        if d:
            raise Violation('value', 'item %d: %s' % (k, d))
        again = sut.serialize(o)
        if again != single[i]:
            raise Violation('bytes', 'item %d (%s): %s' % (
                k, name, sut.diff_bytes(single[i], again)))
        if k == 0 and common.in_factory(name):
            # the dispatcher leaves the stream where the decoder does
            whole = io.BytesIO(single[i] + want[pos:] + tail)
            sut.sut('getPdu', sut.factory.getPdu, sut.DataInputStream(whole))
            if whole.tell() != len(single[i]):
                raise Violation('position', 'getPdu read %d octets of a %s '
                                'of %d' % (whole.tell(), name,
                                           len(single[i])))


def nontrivial(case):
    if 'item' in case:
        return True
    return len(case['order']) > 1 or any(
        codec.num_elements(n, t) for n, t, _ in case['items'])
