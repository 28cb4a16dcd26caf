"""Numbers that occur in the code under test: a dictionary for the generators,
so that values the code treats specially are tried in every field."""
import math
import types

from . import sut

_COLLECTIONS = (tuple, list, set, frozenset, dict, range)
_CLASS, _FUNC = {}, {}


def numbers(v, depth=0):
    if isinstance(v, bool) or v is None:
        return
    if isinstance(v, (int, float)):
        if abs(v) < 1 << 64:
            yield v
    elif isinstance(v, bytes) and 0 < len(v) < 9:
        yield int.from_bytes(v, 'big')
        yield from v
    elif isinstance(v, _COLLECTIONS) and depth < 3 and len(v) < 80:
        for e in v:
            yield from numbers(e, depth + 1)
            if isinstance(v, dict):
                yield from numbers(v[e], depth + 1)


def of_code(code):
    """(numbers, names) used by a code object and those inside it."""
    nums, names = set(), set(code.co_names)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            a, b = of_code(c)
            nums |= a
            names |= b
        else:
            nums.update(numbers(c))
    return nums, names


def of_function(fn, owner=None, depth=0):
    """Numbers used by a function, by what it refers to in its module, and by
    attributes of the class it belongs to."""
    fn = getattr(fn, '__func__', fn)
    fn = getattr(fn, '__wrapped__', fn)
    if not isinstance(fn, types.FunctionType):
        return set()
    key = fn, owner
    if key in _FUNC:
        return _FUNC[key]
    nums, names = of_code(fn.__code__)
    for d in (fn.__defaults__ or ()):
        nums.update(numbers(d))
    for n in names:
        g = fn.__globals__.get(n)
        nums.update(numbers(g))
        if isinstance(g, types.FunctionType) and depth < 2 and \
                g.__module__.startswith('opendis'):
            nums |= of_function(g, None, depth + 1)
        if owner is not None and n != 'pduType':
            nums.update(numbers(getattr(owner, n, None)))
    _FUNC[key] = nums
    return nums


def of_type(cls):
    """Numbers used by the methods of a class and of its opendis bases."""
    if cls not in _CLASS:
        nums = set()
        for c in cls.__mro__:
            if not c.__module__.startswith('opendis'):
                continue
            for v in list(vars(c).values()):
                for f in (v, getattr(v, 'fget', None),
                          getattr(v, 'fset', None)):
                    nums |= of_function(f, cls)
        _CLASS[cls] = frozenset(nums)
    return _CLASS[cls]


def of_class(name):
    try:
        return of_type(sut.resolve(name))
    except (sut.Violation, KeyError):
        return frozenset()


def of_module(mod):
    nums = set()
    for v in list(vars(mod).values()):
        if getattr(v, '__module__', None) == mod.__name__:
            if isinstance(v, type):
                nums |= of_type(v)
            else:
                nums |= of_function(v)
        elif not isinstance(v, types.ModuleType):
            nums.update(numbers(v))
    return frozenset(nums)


def around(nums, lo=None, hi=None):
    """The numbers and the integers next to them."""
    out = set()
    for v in nums:
        if v != v:
            continue
        out.update((v, v - 1, v + 1) if isinstance(v, int) else (v,))
    return sorted(v for v in out if (lo is None or v >= lo)
                  and (hi is None or v <= hi))


_REALS = {}


def reals(mod, top):
    """The module's numbers, what lies next to and between them, and their
    conversions between degrees and radians; none above top."""
    if mod not in _REALS:
        own = {abs(float(c)) for c in of_module(mod) if abs(c) < 1e9}
        own |= {math.radians(c) for c in own} | {
            math.degrees(c) for c in own if c < 10}
        own = sorted(own)
        out = set(own) | {(a + b) / 2 for a, b in zip(own, own[1:])}
        for c in own:
            e = 1e-9 * max(1.0, c)
            out.update((c - e, c + e, c - 1, c + 1, c * .999, c * 1.001))
        out |= {-c for c in out}
        _REALS[mod] = sorted(out), {}
    every, cut = _REALS[mod]
    if top not in cut:
        cut[top] = [c for c in every if abs(c) <= top]
    return cut[top]
