"""Histories of neighbouring calls: what an earlier call leaves behind must
not show in a later one."""
import copy


def nudge(r, x):
    """A number close to x, or related to it."""
    k = r.random()
    if k < .75:
        return x + r.choice([1, -1]) * 10 ** r.uniform(-7, .5) * max(
            1.0, abs(x) * .01)
    if k < .85:
        return -x
    if k < .9:
        return float(round(x))
    return x


def other(r, x):
    """A different number of the same order."""
    k = r.random()
    if k < .3 and x:
        return -x
    if k < .6:
        return x * r.uniform(.3, .99) if x else .5
    return nudge(r, x)


def near(r, case, keys, fix):
    """A copy of the case with some numbers of the vectors under `keys`
    moved; fix(copy) brings them back into their ranges."""
    c = copy.deepcopy(case)
    if r.random() < .4:
        # a single number, the others exactly as they are
        k = r.choice([k for k in keys if c.get(k) is not None])
        if isinstance(c[k], list):
            i = r.randrange(len(c[k]))
            c[k][i] = other(r, c[k][i])
        else:
            c[k] = other(r, c[k])
        fix(c)
        return c
    p = r.choice([.2, .5, 1.0])
    for k in keys:
        v = c.get(k)
        if v is None:
            continue
        if isinstance(v, list):
            for i in range(len(v)):
                if r.random() < p:
                    v[i] = nudge(r, v[i])
        elif r.random() < p:
            c[k] = nudge(r, v)
    fix(c)
    return c


def sequence(r, case, keys, fix):
    """The case, two to five neighbours, and possibly the case again."""
    seq = [case]
    for _ in range(r.choice([2, 3, 5])):
        seq.append(near(r, r.choice(seq), keys, fix))
    if r.random() < .5:
        seq.append(case)
    if r.random() < .3:
        r.shuffle(seq)
    return dict(seq=seq)


def relate(r, v, p=.08):
    """The vector, in some cases with components that depend on others."""
    if len(v) < 2 or r.random() >= p:
        return v
    v = list(v)
    i = r.randrange(len(v))
    j = (i + 1 + r.randrange(len(v) - 1)) % len(v)
    k = r.randrange(6)
    if k == 0:
        v[j] = v[i]
    elif k == 1:
        v[j] = -v[i]
    elif k == 2:
        v[j] = 0.0
        v[j] = -sum(v)
    elif k == 3:
        v = [r.choice([1, -1]) * v[i] for _ in v]
    elif k == 4:
        v = [v[i]] * len(v)
    else:
        v.sort(reverse=bool(r.getrandbits(1)))
    return v


def clamp(x, lo, hi):
    return min(max(x, lo), hi)
