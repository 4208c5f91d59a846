"""The simulated world around a solver: callbacks, faults, construction, call log."""

import collections
import hashlib
import math

import numpy as np

from . import boot, problems

EXCS = {}


class SimFault(Exception):
    """A fault injected by the simulator (an application exception)."""


for _e in (ValueError, ZeroDivisionError, KeyboardInterrupt, MemoryError, OSError,
           RuntimeError, FloatingPointError, StopIteration, SimFault, TypeError, AttributeError,
           IndexError, KeyError, AssertionError, NotImplementedError, RecursionError, OverflowError):
    EXCS[_e.__name__] = _e


class Budget(BaseException):
    """The code under test used more right-hand-side evaluations than any run needs."""


class Slow(Budget):
    """Many evaluations, but steps are being accepted."""


class Callbacks:
    """Every right-hand side / event evaluation of one simulated client goes here."""

    def __init__(self, f, budget=200_000):
        self.f = f
        self.n = 0  # total evaluations
        self.budget = budget
        self.limit = budget  # absolute: raise Budget when n exceeds it
        self.plan = None  # armed fault of the current call
        self.count = 0  # evaluations since armed
        self.fired = 0
        self.led = 0
        self.injected = None
        self.hook = None  # called before each evaluation (scheduling point)
        self.share = None  # shared output buffer, if the client reuses one
        self.trace = None  # optional list of right-hand side evaluation times
        self.times = None  # optional list of (where, t)

    # -- right-hand side -----------------------------------------------------------
    def rhs(self, t, y):
        self.n += 1
        if self.n > self.limit:
            raise Budget(f"{self.n} evaluations")
        if self.hook is not None:
            self.hook("rhs", float(t))
        if self.trace is not None:
            self.trace.append(float(t))
        if self.times is not None:
            self.times.append(("rhs", float(t)))
        bad = self._fault("rhs")
        out = self.f(t, y)
        if bad is not None:
            out = np.array(out, dtype=float)
            i = self.plan.get("comp")
            out[slice(None) if i is None else i % out.size] = bad
        if isinstance(self.share, str):  # "same": the very array it was given
            return y if bad is None else out
        if self.share is not None:
            if self.share is True:
                self.share = np.array(out, dtype=float)
            self.share[...] = out
            return self.share
        return out

    def event(self, g, t, y):
        self.n += 1
        if self.n > self.limit:
            raise Budget(f"{self.n} evaluations")
        if self.hook is not None:
            self.hook("event", float(t))
        if self.times is not None:
            self.times.append(("event", float(t), g))
        self._fault("event")
        return g(t, y)

    # -- faults --------------------------------------------------------------------
    def arm(self, plan):
        """plan: {"on": "rhs"|"event"|"alloc", "at": n, "kind": ..., "len": m, "lead": l}

        The l evaluations before the n-th return NaN."""
        self.plan = plan
        self.count = 0
        self.led = 0
        self.fired = 0
        self.injected = None
        boot.ALLOC.armed = None
        if plan and plan["on"] == "alloc":
            self.injected = MemoryError("simulated allocation failure")
            boot.ALLOC.fired = 0
            boot.ALLOC.exc = self.injected
            boot.ALLOC.armed = plan["at"]

    def disarm(self):
        if self.plan and self.plan["on"] == "alloc":
            self.fired = boot.ALLOC.fired
        boot.ALLOC.armed = None
        self.plan = None

    def _fault(self, where):
        p = self.plan
        if p is None or p["on"] != where:
            return None
        self.count += 1
        at, ln = p["at"], p.get("len", 1)
        if at - p.get("lead", 0) <= self.count < at:
            self.led += 1
            return math.nan
        if not (at <= self.count < at + ln):
            return None
        self.fired += 1
        if p["kind"] == "nan":
            return math.nan
        if p["kind"] == "inf":
            return math.inf
        if self.injected is None:
            self.injected = EXCS[p["kind"]](f"injected at {where} evaluation {at}")
        raise self.injected


def is_injected(e, inj):
    """The exception the client raised reached the client (possibly as a cause)."""
    seen = set()
    while e is not None and id(e) not in seen:
        if e is inj:
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def plain(fn):
    """A plain Python function around a bound method (what a client would pass)."""

    def rhs(t, y):
        return fn(t, y)

    return rhs


def strided(v):
    """The values of v in an array that is not contiguous."""
    a = np.full(3 * len(v) + 1, -77.0)
    a[1::3] = v
    return a[1::3]


FORMS = {
    "list": list, "tuple": tuple, "array": lambda v: np.array(v, dtype=float), "strided": strided,
    "reversed": lambda v: np.array(v[::-1], dtype=float)[::-1],
    "int": lambda v: [int(x) for x in v], "intarray": lambda v: np.array([int(x) for x in v]),
    "scalar": lambda v: v[0], "np": lambda v: np.float64(v[0]), "0d": lambda v: np.array(v[0]),
}
INTS = ("int", "intarray")
SCALARS = ("scalar", "np", "0d")


def formed(v, form):
    """The values v in the form a client hands them over in."""
    if form in SCALARS and len(v) != 1 or form in INTS and any(x != int(x) for x in v):
        form = "list"
    return FORMS[form or "list"](v)


def with_params(fn, base):
    """rhs(t, y, p): uses p, equals base when p == [1, 0]."""

    def rhs(t, y, p):
        return fn(t, y) * p[0] + p[1]

    return rhs


OPT_KEYS = ("atol", "rtol", "min_step", "max_step", "min_factor", "max_factor",
            "safety_factor", "first_step")


def kwargs_of(cfg):
    from . import models

    kw = {}
    if cfg["solver"] in models.ADAPTIVE:
        kw.update({k: v for k, v in cfg.get("opts", {}).items() if k in OPT_KEYS})
    else:
        kw["h"] = cfg["h"]
        if cfg["solver"] in models.MULTISTEP and "starter" in cfg:
            kw["first_stepper_cls"] = cfg["starter"]
    if cfg.get("t_bound") is not None:
        kw["t_bound"] = cfg["t_bound"]
    return kw


def build(nb, cfg, cb, rhs=None, y0=None, params="cfg"):
    """Construct the solver of `cfg` on callbacks `cb`."""
    cls = nb.get_solver(cfg["solver"])
    rhs = rhs or plain(cb.rhs)
    kw = kwargs_of(cfg)
    fm = cfg.get("forms") or {}
    y0 = formed(cfg["prob"]["y0"], fm.get("y0")) if y0 is None else y0
    t0 = FORMS[fm.get("t0", "scalar")]([cfg["t0"]])
    if isinstance(t0, list):  # whole numbers as int
        t0 = t0[0] if t0[0] == cfg["t0"] else cfg["t0"]
    if fm.get("h") == "default":
        if kw.get("h") == 1.0:
            del kw["h"]
    elif "h" in kw and "h" in fm:
        kw["h"] = FORMS[fm["h"]]([kw["h"]])
    for k in ("first_step", "t_bound"):
        if kw.get(k) is not None and k in fm:
            kw[k] = FORMS[fm[k]]([kw[k]])
    if isinstance(params, str):
        params = cfg.get("params")
        if params is not None:
            params = formed(params, fm.get("params"))
    if params is not None:
        return cls(boot.jitted(with_params(rhs, None)), t0, y0, params=params, **kw)
    return cls(boot.jitted(rhs), t0, y0, **kw)


def pure_f(cfg):
    """The fault-free right-hand side of cfg as the solver sees it."""
    f = problems.make(cfg["prob"])
    p = cfg.get("params")
    if p is None:
        return f
    p0, p1 = float(p[0]), float(p[1])
    return lambda t, y: f(t, y) * p0 + p1


class Log:
    """Event log of one run; only its digest is kept (never perturbs the run)."""

    def __init__(self, keep=False):
        self.h = hashlib.sha256()
        self.lines = [] if keep else None
        self.sig = hashlib.sha256()
        self.counts = collections.Counter()

    def count(self, what, n=1):
        self.counts[what] += n

    def add(self, *items):
        s = "|".join(_fmt(x) for x in items)
        self.h.update(s.encode())
        self.h.update(b"\n")
        if self.lines is not None:
            self.lines.append(s)

    def mark(self, *items):
        """Contribute to the interleaving signature (shape of the run, no floats)."""
        self.sig.update(repr(items).encode())

    def digest(self):
        return self.h.hexdigest()[:16]

    def signature(self):
        return self.sig.hexdigest()[:16]


def _fmt(x):
    if isinstance(x, float):
        return x.hex()
    if isinstance(x, np.ndarray):
        return "[" + ",".join(float(v).hex() for v in x.ravel()) + "]"
    if isinstance(x, (list, tuple)):
        return "(" + ",".join(_fmt(v) for v in x) + ")"
    if isinstance(x, BaseException):
        return type(x).__name__
    if isinstance(x, np.generic):
        return _fmt(x.item())
    return str(x)


def guarded(fn, *a, **k):
    """Run one call of the code under test -> ("ok", value) | ("exc", exception)."""
    try:
        return "ok", fn(*a, **k)
    except Budget as e:
        return "budget", e
    except (Exception, KeyboardInterrupt) as e:
        return "exc", e


def close(a, b, rtol=1e-9, atol=1e-11):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    eq = (a == b) | (np.isnan(a) & np.isnan(b))
    with np.errstate(all="ignore"):
        ok = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
    return bool(np.all(eq | ok))


UNIT = 1.0  # time scale of the problem of the current run
TREL = 1e-12  # relative rounding accumulated in times
NOISE = 0.0  # rounding of times as a fraction of UNIT: uncertainty of dense output


def set_scale(cfg):
    """Adopt the time scale of one run (called before each)."""
    global UNIT, TREL, NOISE
    prob = (cfg or {}).get("prob") or {}
    UNIT = prob.get("tscale", 1.0)
    off = prob.get("toff", 0.0)
    TREL = 2e-14 if off else 1e-12
    NOISE = 2048 * float(np.spacing(abs(off))) / UNIT if off else 0.0


def teq(a, b, rtol=None):
    """Times equal up to accumulated rounding."""
    return abs(a - b) <= (TREL if rtol is None else rtol) * max(UNIT, abs(a), abs(b))


def feq(a, b, rtol=1e-9):
    """Derivatives equal up to rounding."""
    return close(a, b, rtol, 1e-2 * rtol / UNIT)


def heq(a, b):
    """Step sizes equal up to rounding."""
    return close(a, b, 1e-9, 1e-11 * UNIT)


def state(sol):
    return float(sol.t), np.array(sol.y, dtype=float), np.array(sol.f, dtype=float)


def fl(x):
    return float(np.asarray(x).ravel()[0])
