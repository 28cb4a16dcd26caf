"""Copies of a module of the code under test that have no past: whatever the
module, its classes or its functions remember from earlier calls is absent."""
import importlib
import types

_CODE = {}


def fresh(name):
    """A newly executed copy of the module, not entered in sys.modules."""
    mod = importlib.import_module(name)
    if name not in _CODE:
        with open(mod.__file__, 'rb') as f:
            _CODE[name] = compile(f.read(), mod.__file__, 'exec',
                                  dont_inherit=True)
    m = types.ModuleType(name)
    m.__dict__.update(__file__=mod.__file__, __package__=mod.__package__,
                      __spec__=mod.__spec__)
    exec(_CODE[name], m.__dict__)
    return m
