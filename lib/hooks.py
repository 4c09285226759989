"""Access to the hooks of a build made with -DGRAPHILLION_VERIF_HOOKS."""
import ctypes
import _graphillion

lib = ctypes.PyDLL(_graphillion.__file__)
RAND = ctypes.CFUNCTYPE(ctypes.c_double)


def _var(t, name):
    try:
        return t.in_dll(lib, name)
    except ValueError:
        return None


requests = _var(ctypes.c_longlong, "bddverif_requests")
gc_at = _var(ctypes.c_longlong, "bddverif_gc_at")
gc_every = _var(ctypes.c_int, "bddverif_gc_every")
_rand = _var(ctypes.c_void_p, "graphillion_verif_rand")
_keep = [None]


def set_rand(fn):
    """fn() -> float replaces the library's random numbers (None: the library's own)."""
    if _rand is None:
        return False
    cb = RAND(fn) if fn else None
    _keep[0] = cb
    _rand.value = ctypes.cast(cb, ctypes.c_void_p).value if cb else None
    return True


def _fn(*names):
    for n in names:
        try:
            return getattr(lib, n)
        except AttributeError:
            pass
    return None


_used, _gc = _fn("_Z7bddusedv", "bddused"), _fn("_Z5bddgcv", "bddgc")
if _used:
    _used.restype = ctypes.c_ulonglong


def used():
    """nodes in the table, dead ones included"""
    return _used() if _used else 0


def gc():
    """collects garbage now"""
    return _gc() if _gc else 0
