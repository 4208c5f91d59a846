"""Import the code under test with every source of nondeterminism behind a seam.

* ``NBKODE_NONUMBA`` - nbkode's own switch - makes the shipped source run as plain
  Python in this process, so the simulator decides what happens at every right-hand
  side / event evaluation, at every allocation and at every line.
* ``numpy.empty``/``empty_like`` return *uninitialised* memory: a source of
  nondeterminism.  They are replaced (before nbkode binds them) by versions that fill
  the block with a poison value chosen by the run's seed.
* the numpy allocation functions are also the fault point for "allocation fails":
  when armed, the n-th call made *from nbkode code* raises MemoryError.
"""

import importlib.util
import os
import sys
import warnings

from . import clients

sys.dont_write_bytecode = True
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


class HarnessError(Exception):
    """Something is wrong with the harness (never a verdict on the code)."""


class ImportBroken(Exception):
    """nbkode does not import in the requested mode."""


class AllocSeam:
    """Seam over numpy's allocating functions."""

    NAMES = ("empty", "empty_like", "zeros", "zeros_like", "copy", "array", "asarray")

    def __init__(self):
        self.poison = 1.25e155
        self.armed = None  # countdown
        self.exc = None
        self.fired = 0
        self.calls = 0

    def reset(self, poison=float("nan")):
        self.poison = poison
        self.armed = None
        self.exc = None
        self.fired = 0
        self.calls = 0

    def hit(self, frame):
        if self.armed is None:
            return
        if not frame.f_globals.get("__name__", "").startswith("nbkode"):
            return
        self.calls += 1
        self.armed -= 1
        if self.armed <= 0:
            self.armed = None
            self.fired += 1
            raise self.exc


ALLOC = AllocSeam()


def _install_numpy_seam():
    import numpy as np

    def wrap(name, fn):
        poisons = name in ("empty", "empty_like")

        def seam(*a, **k):
            ALLOC.hit(sys._getframe(1))
            out = fn(*a, **k)
            if poisons and isinstance(out, np.ndarray) and out.dtype.kind == "f":
                out.fill(ALLOC.poison)
            return out

        seam.__name__ = name
        seam.__doc__ = fn.__doc__
        seam._sim_seam = True
        return seam

    for name in AllocSeam.NAMES:
        fn = getattr(np, name)
        if not getattr(fn, "_sim_seam", False):
            setattr(np, name, wrap(name, fn))


_loaded = None
CLIENTS = True  # define the client's own methods (sim/clients.py) in every copy of nbkode


def load(numba_mode=False):
    """Import nbkode from REPO and return the module."""
    global _loaded
    if _loaded is not None:
        return _loaded
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if numba_mode:
        os.environ.pop("NBKODE_NONUMBA", None)
    else:
        os.environ["NBKODE_NONUMBA"] = "1"
        # scipy first: it must bind the genuine numpy functions
        import scipy.integrate  # noqa: F401
        import scipy.optimize  # noqa: F401

        _install_numpy_seam()
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    try:
        import nbkode
    except Exception as e:  # noqa: BLE001
        raise ImportBroken(f"import nbkode: {e!r}") from e
    got = os.path.realpath(nbkode.__file__)
    if not got.startswith(REPO + os.sep):
        raise HarnessError(f"nbkode comes from {got}, not from {REPO}")
    from nbkode.nbcompat import NO_NUMBA

    if bool(NO_NUMBA) == bool(numba_mode):
        raise HarnessError(f"NO_NUMBA={NO_NUMBA} but numba_mode={numba_mode}")
    if CLIENTS:
        clients.define(nbkode)
    _loaded = nbkode
    return nbkode


# -- the simulated compiled mode --------------------------------------------------------
_copies = {}  # mode -> (nbkode module, its entries of sys.modules)
_active = None
JIT = None  # njit of the active mode if client functions arrive jitted


def _entries(*roots):
    return {k: m for k, m in sys.modules.items() if k.split(".")[0] in roots}


def _swap(entries, plain):
    for k in _entries("nbkode", "numba"):
        del sys.modules[k]
    sys.modules.update(entries)
    if plain:
        os.environ["NBKODE_NONUMBA"] = "1"
    else:
        os.environ.pop("NBKODE_NONUMBA", None)


def activate(mode=None):
    """Make the copy of nbkode of `mode` the one that imports resolve to.

    None: plain mode. "sim": compiled-mode branches on a simulated numba.
    "jit": the same, and client functions are already jitted when handed over.
    """
    global _active, JIT
    nb = load()
    if not _copies:
        _copies[None] = nb, _entries("nbkode", "numba")
    want = "sim" if mode in ("sim", "jit") else None
    if want and want not in _copies:
        from . import simnumba

        fake = simnumba.modules()
        _swap(fake, False)
        try:
            import nbkode

            ok = not nbkode.core.event_handler.NO_NUMBA
            if ok and CLIENTS:
                clients.define(nbkode)
        except Exception:  # noqa: BLE001
            ok = False  # this tree needs more of numba than is simulated
        _copies[want] = (nbkode, _entries("nbkode", "numba")) if ok else None
        _swap(_copies[None][1], True)
    if _copies[want] is None:
        want = None
    if want != _active:
        _swap(_copies[want][1], want is None)
        _active = want
    JIT = None
    if want and mode == "jit":
        JIT = sys.modules["numba"].njit
    return _copies[want][0]


def jitted(fn):
    """A client function the way the client of the current run hands it over."""
    return fn if JIT is None else JIT(fn)


def njit(fn):
    """What a client who extends nbkode would apply to a step function."""
    return fn if _active is None else sys.modules["numba"].njit(fn)


def importable():
    return importlib.util.find_spec("nbkode") is not None
