"""Coverage-guided search (thorough tier): atheris mutates the sequence of
choices the random part of a check's generator makes; the check itself is the
oracle.  Run as a program: fuzz.py CHECK SEED SECONDS DIRECTORY"""
import json
import os
import random
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Choices(random.Random):
    """Random numbers read from a string of octets, then zeros."""

    def load(self, data):
        self.left = data
        self.drawn = 0

    def getrandbits(self, k):
        n = (k + 7) // 8
        self.drawn += n
        b, self.left = self.left[:n], self.left[n:]
        return int.from_bytes(b.ljust(n, b'\0'), 'big') >> (8 * n - k)

    def random(self):
        return self.getrandbits(24) / (1 << 24)

    def seed(self, *a, **k):
        self.load(b'')


def search(prop, seed, seconds, out):
    import atheris
    sys.path.insert(0, VERIF)
    with atheris.instrument_imports(include=['opendis']):
        from vlib import sut                                    # noqa: F401
        import opendis.DeadReckoning                            # noqa: F401
        import opendis.RangeCoordinates                         # noqa: F401
    import importlib
    from vlib import engine
    mod = importlib.import_module('checks.' + prop.lower())
    engine.limits()
    r = Choices()

    def fresh():
        # no directed case falls to shard 1 of so many
        return mod.cases('thorough', lambda *a: r, 1, 1 << 40)
    state = dict(gen=fresh(), runs=0, nontrivial=set())

    def stats():
        with open(os.path.join(out, 'stats.json'), 'w') as f:
            json.dump(dict(runs=state['runs'],
                           nontrivial=len(state['nontrivial'])), f)

    def one(data):
        r.load(data)
        try:
            label, case = next(state['gen'])
        except StopIteration:
            state['gen'] = fresh()
            return
        if not r.drawn:
            return
        state['runs'] += 1
        v = engine.run_one(mod, case)
        if v is not None:
            with open(os.path.join(out, 'fail.json'), 'w') as f:
                json.dump([case, v.kind, v.detail], f)
            stats()
            os._exit(0)
        if mod.nontrivial(case):
            state['nontrivial'].add(hash(engine.canon(case)))
        if state['runs'] % 500 == 0:
            stats()
    corpus = os.path.join(out, 'corpus')
    os.makedirs(corpus)
    rr = random.Random('%s %s' % (prop, seed))
    for i in range(60):
        with open(os.path.join(corpus, str(i)), 'wb') as f:
            f.write(bytes(rr.getrandbits(8) for _ in range(
                rr.choice([60, 200, 600, 2000]))))
    atheris.Setup([sys.argv[0], '-seed=%d' % (seed + 1), '-max_len=4096',
                   '-use_value_profile=1', '-len_control=0',
                   '-max_total_time=%d' % seconds, '-timeout=0',
                   '-rss_limit_mb=0', '-verbosity=0', corpus], one)
    atheris.Fuzz()


def campaign(prop, seed, seconds, scratch, procs=8):
    """Search in several processes; what they covered, and a failure."""
    dirs, ps = [], []
    for i in range(procs):
        d = os.path.join(scratch, 'fuzz%d' % i)
        os.makedirs(d)
        dirs.append(d)
        ps.append(subprocess.Popen(
            [sys.executable, os.path.abspath(__file__), prop,
             str(seed * procs + i), str(seconds), d], cwd=d,
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in ps:
        try:
            p.wait(seconds + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    total, distinct, fail = 0, 0, None
    for d in dirs:
        try:
            s = json.load(open(os.path.join(d, 'stats.json')))
        except (OSError, ValueError):
            continue
        total += s['runs']
        distinct += s['nontrivial']
        path = os.path.join(d, 'fail.json')
        if fail is None and os.path.exists(path):
            fail = tuple(json.load(open(path)))
    out = dict(coverage_guided=dict(
        runs=total, nontrivial=distinct, processes=procs, seconds=seconds))
    if fail:
        out['fail'] = fail
    return out


if __name__ == '__main__':
    search(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
