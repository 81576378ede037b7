"""Access to the compiled modules' existing entry points."""
from .harness import HarnessError


def get(module, name):
    import importlib
    m = importlib.import_module(module)
    f = getattr(m, name, None)
    if f is None:
        raise HarnessError("%s.%s is not available" % (module, name))
    return f
