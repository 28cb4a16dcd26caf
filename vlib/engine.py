"""Search engine shared by all checks.

A check module defines
    ID, RULE
    cases(tier, rng_for, shard, nshards)  generator of (label, JSON case)
    check(case)                           raises sut.Violation if it fails
    nontrivial(case) -> bool
and optionally ASSUMPTIONS, PROBES, WALL, FUZZ.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import fuzz

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NSHARDS = 8
CASE_TIMEOUT = 20
FUZZ_SECONDS = 90      # coverage-guided search, thorough tier


class Timeout(BaseException):
    pass


_watch = [0, 0, 0]     # limit, processor time at the start, alarms so far


def _alarm(*_):
    # a machine that stood still is no fault of the code: only processor
    # time counts at first, and a case that is blocked gets two alarms
    _watch[2] += 1
    if (time.process_time() - _watch[1] >= _watch[0] / 2
            or _watch[2] >= 2):
        raise Timeout()


def rng(seed, *key):
    h = hashlib.sha256(repr((seed,) + key).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def run_one(mod, case):
    """None or a Violation."""
    from .sut import Violation
    limit = CASE_TIMEOUT * (5 if 'long' in case else 1)
    _watch[:] = limit, time.process_time(), 0
    signal.setitimer(signal.ITIMER_REAL, limit, limit)
    try:
        mod.check(case)
        return None
    except Violation as v:
        return v
    except SystemExit:
        return Violation('exception', 'the code under test raised SystemExit')
    except Timeout:
        return Violation('timeout', 'no result within %d s' % limit)
    except Exception as e:
        if from_repo(e) or of_repo(getattr(e, 'obj', None)):
            return Violation('exception', 'the code under test raised %s: %s'
                             % (type(e).__name__, e))
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def from_repo(e):
    """Did the exception pass through the code under test?"""
    from .sut import REPO
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def of_repo(o):
    """Is this a module, class or object of the code under test?"""
    c = o if isinstance(o, type) else type(o)
    return c.__module__.split('.')[0] == 'opendis' or \
        str(getattr(o, '__name__', '')).split('.')[0] == 'opendis'


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def limits():
    signal.signal(signal.SIGALRM, _alarm)
    lim = 3 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except ValueError:
        pass


def shard_main(args):
    modname, tier, seed, shard, nshards, wall = args
    try:
        limits()
        mod = importlib.import_module(modname)
        t0 = time.time()
        out = dict(n=0, nontrivial=set(), labels={}, samples=[], fail=None,
                   stopped=False)
        gen = mod.cases(tier, lambda *k: rng(seed, mod.ID, *k), shard, nshards)
        while True:
            try:
                label, case = next(gen)
            except StopIteration:
                break
            out['n'] += 1
            out['labels'][label] = out['labels'].get(label, 0) + 1
            v = run_one(mod, case)
            if v is not None:
                out['fail'] = (case, v.kind, v.detail, shard, out['n'])
                break
            if mod.nontrivial(case):
                s = canon(case)
                out['nontrivial'].add(
                    hashlib.blake2b(s.encode(), digest_size=8).digest())
                if len(s) < 2500 and (out['n'] % 37 == 5
                                      or not out['samples']) \
                        and len(out['samples']) < 2:
                    out['samples'].append(case)
            if time.time() - t0 > wall:
                out['stopped'] = True
                break
        return out
    except BaseException:
        return dict(error=traceback.format_exc())


# ------------------------------------------------------------------ shrink
def _simpler(v):
    if isinstance(v, bool):
        return [False] if v else []
    if isinstance(v, int):
        c = []
        for x in (0, 1, v // 2, v - 1 if v > 0 else v + 1):
            if x != v and abs(x) <= abs(v):
                c.append(x)
        return c
    if isinstance(v, float):
        if v != v:
            return [0.0, 1.0]
        c = [x for x in (0.0, 1.0, float(int(v)) if abs(v) < 1e15 else 0.0,
                         v / 2 if abs(v) > 1e-3 else 0.0)
             if x != v and abs(x) <= abs(v)]
        return c
    if isinstance(v, str):
        c = []
        if v and all(ch in '0123456789abcdef' for ch in v) \
                and len(v) % 2 == 0:
            for s in ('', v[:len(v) // 4 * 2], v[:-16], v[:-2],
                      '00' * (len(v) // 2)):
                if s != v and s not in c and len(s) <= len(v):
                    c.append(s)
        elif v:
            for s in (v[:len(v) // 2], v[:-1], 'a' * len(v)):
                if s != v and s not in c:
                    c.append(s)
        return c
    return []


# text which selects what a case does
LABELS = {'what', 'fn', 'kind', 'name', 'cls', 'mode'}


def _paths(c, path=()):
    if isinstance(c, dict):
        for k in sorted(c):
            if k.startswith('$') or k in LABELS and isinstance(c[k], str):
                continue
            yield from _paths(c[k], path + (k,))
    elif isinstance(c, list):
        yield ('list', path)
        for i in range(len(c)):
            yield from _paths(c[i], path + (i,))
    else:
        yield ('leaf', path)


def _with(c, path, val):
    if not path:
        return val
    if isinstance(c, dict):
        d = dict(c)
        d[path[0]] = _with(c[path[0]], path[1:], val)
        return d
    d = list(c)
    d[path[0]] = _with(c[path[0]], path[1:], val)
    return d


def _at(c, path):
    for k in path:
        c = c[k]
    return c


def shrink(mod, case, kind, budget=20.0):
    """Greedy structural minimisation of a failing JSON case."""
    t_end = time.time() + budget

    def fails(c):
        try:
            v = run_one(mod, c)
        except Exception:
            return False        # not a valid case
        return v is not None and v.kind == kind

    progress = True
    while progress and time.time() < t_end:
        progress = False
        for what, path in list(_paths(case)):
            if time.time() > t_end:
                break
            try:
                cur = _at(case, path)
            except (KeyError, IndexError, TypeError):
                continue
            if what == 'list':
                n = len(cur)
                step = max(n // 2, 1)
                while step >= 1 and time.time() < t_end:
                    i = 0
                    while isinstance(cur, list) and i < len(cur) \
                            and time.time() < t_end:
                        cand = _with(case, path, cur[:i] + cur[i + step:])
                        if fails(cand):
                            case, progress = cand, True
                            cur = _at(case, path)
                        else:
                            i += step
                    step //= 2
            else:
                again = True
                while again and time.time() < t_end:
                    again = False
                    for s in _simpler(cur):
                        cand = _with(case, path, s)
                        if fails(cand):
                            case, progress, again, cur = cand, True, True, s
                            break
    return case


# ------------------------------------------------------------------- main
def known_findings(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    for line in open(path):
        if line.startswith('open:'):
            head = dict(w.split('=', 1) for w in line.split()[1:3])
            if head.get('property') == prop:
                out.append((head['key'], line.split(None, 3)[3].strip()))
    return out


def _child(conn, fn, a):
    try:
        limits()
        conn.send(fn(*a))
    except BaseException:
        conn.send(dict(error=traceback.format_exc()))
    conn.close()


def in_fork(fn, *a):
    """fn(*a) in a child process, so that nothing the code under test
    remembers carries over."""
    ctx = mp.get_context('fork')
    ours, theirs = ctx.Pipe(False)
    p = ctx.Process(target=_child, args=(theirs, fn, a))
    p.start()
    theirs.close()
    try:
        res = ours.recv()
    except EOFError:
        res = dict(error='the process ended')
    p.join()
    return res


def run_history(mod, cases):
    """(kind, detail) of the first failure, or None."""
    for case in cases:
        v = run_one(mod, case)
        if v is not None:
            return v.kind, v.detail
    return None


def fails_with(mod, cases, kind):
    res = in_fork(run_history, mod, cases)
    return res if isinstance(res, tuple) and res[0] == kind else None


def minimise(mod, tier, seed, case, kind, detail, shard=None, n=None):
    """(list of cases, kind, detail) of a small reproduction."""
    small = in_fork(shrink, mod, case, kind)
    for cand in (small, case):
        res = fails_with(mod, [cand], kind)
        if res:
            return [cand], kind, res[1]
    if shard is None:
        return [case], kind, detail
    # the failure depends on earlier cases of the same process
    gen = mod.cases(tier, lambda *k: rng(seed, mod.ID, *k), shard, NSHARDS)
    past = [next(gen)[1] for _ in range(n)]
    size = 2
    while size < n and not fails_with(mod, past[-size:], kind):
        size *= 2
    past = past[-size:]
    t_end, step = time.time() + 40, max(len(past) // 2, 1)
    while step >= 1:
        i = 0
        while i < len(past) - 1 and time.time() < t_end:
            cand = past[:i] + past[min(i + step, len(past) - 1):]
            if fails_with(mod, cand, kind):
                past = cand
            else:
                i += step
        step //= 2
    res = fails_with(mod, past, kind)
    return past, kind, res[1] if res else detail


def report(mod, cases, kind, detail):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(canon(cases).encode()).hexdigest()[:12]
    path = os.path.join(d, '%s-%s.json' % (mod.ID, h))
    with open(path, 'w') as f:
        json.dump(dict(property=mod.ID, kind=kind, detail=detail,
                       cases=cases), f, indent=1)
    print('%s: %s' % (kind, detail[:600]))
    print('VIOLATION property=%s replay=%s' % (mod.ID, path), flush=True)


def scratch():
    """A directory of this process inside the run's scratch directory."""
    d = os.path.join(os.environ['VERIF_SCRATCH'], str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


def with_scratch(fn, *a):
    root = tempfile.mkdtemp(prefix='verif-scratch-')
    os.environ['VERIF_SCRATCH'] = root
    try:
        return fn(*a)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main(modname, tier, seed):
    return with_scratch(_main, modname, tier, seed)


def _main(modname, tier, seed):
    t0 = time.time()
    limits()
    mod = importlib.import_module(modname)
    wall = getattr(mod, 'WALL', {}).get(tier, 100 if tier == 'quick' else 640)
    jobs = [(modname, tier, seed, i, NSHARDS, wall) for i in range(NSHARDS)]
    with mp.get_context('fork').Pool(NSHARDS) as pool:
        res = pool.map(shard_main, jobs, chunksize=1)
    for r in res:
        if 'error' in r:
            print(r['error'], file=sys.stderr)
            print('check %s: internal error' % mod.ID, file=sys.stderr)
            return 2
    labels, distinct, samples = {}, set(), []
    for r in res:
        for k, n in r['labels'].items():
            labels[k] = labels.get(k, 0) + n
        distinct |= r['nontrivial']
        samples += r['samples']
    fails = [r['fail'] for r in res if r['fail']]
    extra = {}
    if tier == 'thorough' and not fails and getattr(mod, 'FUZZ', True):
        found = fuzz.campaign(mod.ID, seed, FUZZ_SECONDS, scratch(), NSHARDS)
        f = found.pop('fail', None)
        extra.update(found)
        if f:
            fails.append(f)
    nviol = 0
    if fails:
        nviol = 1
        fails.sort(key=lambda f: len(canon(f[0])))
        report(mod, *minimise(mod, tier, seed, *fails[0]))
    known = known_findings(mod.ID)
    if known:
        probes = mod.PROBES
        for key, text in known:
            if probes[key]():
                print('KNOWN-FINDING: property=%s %s' % (mod.ID, text))
    cov = dict(evaluations=sum(r['n'] for r in res),
               distinct_nontrivial=len(distinct), rule=mod.RULE,
               samples=samples[:4], labels=labels,
               shards=NSHARDS,
               stopped_by_wall_clock=any(r['stopped'] for r in res))
    cov.update(extra)
    ev = dict(property=mod.ID, tier=tier, seed=seed, level='exploration',
              coverage=cov, assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not nviol:
        print('%s: held on %d cases (%d distinct non-trivial), %.1f s' % (
            mod.ID, cov['evaluations'], cov['distinct_nontrivial'],
            ev['wall_s']))
    return 1 if nviol else 0


def replay(path):
    return with_scratch(_replay, path)


def _replay(path):
    limits()
    d = json.load(open(path))
    mod = importlib.import_module('checks.' + d['property'].lower())
    v = run_history(mod, d['cases'])
    if v is None:
        print('replay: the property holds on this case')
        return 0
    print('%s: %s' % v)
    print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1
