"""Operations carried out in another process with other surroundings.

Run as a script it reads a JSON object from standard input and writes the
list of results, in the order of the operations, to standard output."""
import json
import os
import random
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
MODULES = ['opendis.dis7', 'opendis.PduFactory', 'opendis.RangeCoordinates',
           'opendis.DeadReckoning', 'opendis.stream', 'opendis.record',
           'opendis.record.radio', 'opendis.record.warfare', 'opendis.types']
SECONDS = 120


def perform(sut, codec, gps, op):
    """A JSON-able result."""
    k = op['op']
    try:
        if k == 'enc':
            return sut.serialize(sut.build(op['name'], op['tree'],
                                           op['mode'])).hex()
        if k == 'misfit':
            obj = sut.build(op['name'], op['tree'], 'assign')
            for p in op['path'][:-1]:
                obj = obj[p] if isinstance(p, int) else getattr(obj, p)
            setattr(obj, op['path'][-1], op['value'])
            return sut.serialize(obj).hex()
        if k == 'dec':
            data = bytes.fromhex(op['hex'])
            if op.get('file'):
                with tempfile.NamedTemporaryFile() as f:
                    f.write(data)
                    f.flush()
                    pdu = sut.factory.createPduFromFilePath(f.name)
            else:
                pdu = sut.factory.createPdu(data)
            return None if pdu is None else [
                type(pdu).__name__, repr(sut.snapshot(pdu))]
        if k == 'geo':
            return plain(getattr(gps, op['name'])(*[
                list(a) if isinstance(a, list) else a for a in op['args']]))
        from . import motion
        return [plain(v) for v in motion.call(op['name'], op['state'])]
    except Exception as e:
        return ['error']


def plain(v):
    if isinstance(v, str):
        return v
    if hasattr(v, 'tolist'):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return float(v)


def everything(ops, order):
    from . import codec, sut
    from opendis.RangeCoordinates import GPS
    gps = GPS()
    out = [None] * len(ops)
    for i in order:
        out[i] = perform(sut, codec, gps, ops[i])
    return out


def run(ops, where):
    """The results of the operations in a process with surroundings `where`."""
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('LC_', 'LANG', 'TZ', 'PYTHON'))}
    env.update(where['env'])
    p = subprocess.run(
        [sys.executable, *where['flags'], os.path.join(
            HERE, 'elsewhere.py')],
        input=json.dumps(dict(ops=ops, where=where)), env=env,
        cwd=where['cwd'], capture_output=True, text=True, timeout=SECONDS)
    if p.returncode:
        return p.stderr[-600:]
    return json.loads(p.stdout.splitlines()[-1])


def main():
    job = json.load(sys.stdin)
    where, ops = job['where'], job['ops']
    if where['clock'] is not None:
        import time
        t = float(where['clock'])
        set_clock(time, t, where['pace'])
    random.seed(where['seed'])
    sys.path[0] = os.path.dirname(HERE)
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pycache'
    import importlib
    for m in where['imports']:
        importlib.import_module(m)
    import numpy
    numpy.random.seed(where['seed'] % 2 ** 32)
    if where['print']:
        numpy.set_printoptions(precision=where['print'], suppress=True)
    if where['strict']:
        numpy.seterr(over='raise', divide='raise', invalid='raise')
    order = list(range(len(ops)))
    random.Random(where['order']).shuffle(order)
    from vlib import elsewhere
    out, got = os.fdopen(os.dup(1), 'w'), []
    if where['streams']:
        sys.stdin = sys.stdout = sys.stderr = \
            None if where['streams'] == 'none' else Broken()
    import gc
    if where['collector'] == 'off':
        gc.disable()
    elif where['collector'] == 'often':
        gc.set_threshold(1, 1, 1)
    if where['gone']:
        # a working directory which no longer exists
        d = tempfile.mkdtemp()
        os.chdir(d)
        os.rmdir(d)

    def work():
        got.append(elsewhere.everything(ops, order))
    if where['trace']:
        # as under a debugger or a coverage tool
        import threading

        def trace(frame, event, arg):
            return trace if '/opendis/' in frame.f_code.co_filename else None
        sys.settrace(trace)
        threading.settrace(trace)
    if where['thread']:
        import threading
        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    out.write(json.dumps(got[0]) + '\n')
    out.flush()
    os._exit(0)


class Broken:
    """A standard stream which is of no use."""

    def fail(self, *args, **kwargs):
        raise OSError('broken stream')
    write = flush = read = readline = fileno = fail


def set_clock(time, t, pace):
    """Let every clock stand at t, or run by `pace` at each look."""
    import datetime
    looks = [0]

    def now():
        looks[0] += 1
        return t + pace * looks[0]
    time.time = time.monotonic = time.perf_counter = time.process_time = now
    time.time_ns = time.monotonic_ns = time.perf_counter_ns = \
        lambda: int(now() * 1e9)
    for n in ('localtime', 'gmtime', 'ctime'):
        f = getattr(time, n)
        setattr(time, n, lambda *a, f=f: f(*(a or (now(),))))
    real = datetime.datetime

    class Fake(real):
        @classmethod
        def now(cls, tz=None):
            return real.fromtimestamp(now(), tz)

        @classmethod
        def utcnow(cls):
            return real.utcfromtimestamp(now())
        today = now
    datetime.datetime = Fake


if __name__ == '__main__':
    main()
