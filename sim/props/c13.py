"""C13: compiled and uncompiled modes behave the same.

The parent (plain mode) turns a seed into a *concrete* history: it drives a plain
solver and writes down every call with its absolute times, the armed fault and the
outcome.  Worker processes (numba mode, one compile per solver and worker) execute
the same concrete history and the outcomes are compared call by call.

Right-hand side and event functions are one generic source, compiled once: what they
compute, and at which evaluation they misbehave, is read from a memory block (M).
"""

import hashlib
import json
import math
import os
import queue
import random
import subprocess
import sys
import threading
import time

import numpy as np

from .. import boot, clients, models, world
from .base import Skip, Viol  # noqa: F401

CATS = ("outcome", "value", "state", "events", "crash")
RUNS = {"quick": 300, "thorough": 8000}  # histories per solver
WALL = {"quick": 700, "thorough": 5000}
EXTRA = {"quick": ("RungeKutta4", "BDF2", "RungeKutta45"), "thorough": models.ALL}
FULL = {"quick": ("RungeKutta23", "DOP853", "BDF3", "RungeKutta3_8"), "thorough": ()}  # optimised as shipped, in the quick tier too
RULE = ("per solver: seeded problem (7 families), dimension 1-4, rarely up to 33, step size, bound, and history of step/skip/run/"
        "run_events/interpolate calls with NaN, inf and raising right-hand sides and raising events at seeded "
        "evaluations; the same concrete history executed in plain and in compiled mode; compared per call: kind of "
        "outcome, returned times, states, event lists, number of evaluations, t, y, f, h; non-trivial: every run")
ASSUMES = ["rounding differs between the modes: compared to 1e-8 (implicit solvers 2e-6)",
           "one right-hand side source and two event sources, parametrised through memory",
           "quick tier compiles with NUMBA_OPT=0 except for RungeKutta23, DOP853, BDF3, RungeKutta3_8; thorough with numba's default"]
REAL = ["nbkode in both modes (shipped source, real numba compilation)"]
STUB = ["client right-hand side and events (parametrised through memory, fault points)"]

# -- the parametrised client ------------------------------------------------------
SIZE = 64
N, KIND, A, B, W, NAN_AT, NAN_LEN, NAN_VAL, EXC_AT, LIMIT = range(10)
EN, E_EXC_AT, E_I, E_C, E_S, E_T, E_TS = range(20, 27)
NOISE = 30


def client(jit, mem):
    """The generic right-hand side and events, on top of mem() -> the block."""

    def rhs(t, y):
        m = mem()
        m[0] += 1.0
        if m[0] > m[9]:
            raise OverflowError("evaluation budget")
        if m[0] == m[8]:
            raise ZeroDivisionError("injected")
        n = y.size
        k = int(m[1])
        a = m[2]
        b = m[3]
        w = m[4]
        out = np.zeros(n)
        for i in range(n):
            nxt = y[(i + 1) % n]
            if k == 0:
                out[i] = -a * (1.0 + 0.3 * i) * y[i] + b * math.cos(w * t + i)
            elif k == 1:
                if i == n - 1:
                    out[i] = -w * w * nxt - 0.1 * a * y[i]
                else:
                    out[i] = nxt
            elif k == 2:
                out[i] = a * y[i] * (1.0 - 0.5 * (y[i] + 0.3 * nxt))
            elif k == 3:
                out[i] = -30.0 * a * (y[i] - b * math.cos(w * t))
            elif k == 4:
                out[i] = b + a * t * (i + 1.0)
            elif k == 5:
                out[i] = 0.0
            else:
                out[i] = a * y[i] * nxt * 0.3 - b * y[i]
        if m[30] != 0.0:  # rounding noise (conditioning twin, plain mode only)
            for i in range(n):
                out[i] *= 1.0 + m[30] * ((m[0] * (i + 1)) % 3 - 1.0)
        if m[5] <= m[0] and m[0] < m[5] + m[6]:
            for i in range(n):
                out[i] = m[7]
        return out

    def g0(t, y):
        m = mem()
        m[20] += 1.0
        if m[20] == m[21]:
            raise ZeroDivisionError("injected")
        return m[24] * (y[int(m[22]) % y.size] - m[23])

    def g1(t, y):
        m = mem()
        m[20] += 1.0
        if m[20] == m[21]:
            raise ZeroDivisionError("injected")
        return m[26] * (t - m[25])

    return jit(rhs), jit(g0), jit(g1)


def rhs_params(rhs):
    def rhs_p(t, y, p):
        return rhs(t, y) * p[0] + p[1]

    return rhs_p


def plain_client():
    m = np.zeros(SIZE)
    return (m, *client(lambda f: f, lambda: m))


def compiled_client():
    import numba
    from numba.core import cgutils, types
    from numba.extending import intrinsic

    m = np.zeros(SIZE)
    addr = m.ctypes.data

    @intrinsic
    def vp(typingctx, src):
        def codegen(context, builder, sig, args):
            return builder.inttoptr(args[0], cgutils.voidptr_t)

        return types.voidptr(src), codegen

    @numba.njit
    def mem():
        return numba.carray(vp(addr), (SIZE,), numba.float64)

    return (m, *client(numba.njit, mem))


# -- generation ---------------------------------------------------------------------
def gen(rng, name):
    adaptive = name in models.ADAPTIVE
    dim = rng.choice([1, 2, 2, 3, 4]) if rng.random() < 0.97 else rng.choice([7, 16, 33])
    kind = rng.choice([0, 0, 1, 1, 2, 3, 4, 5] + ([] if adaptive else [6]))
    if kind == 1 and dim == 1:
        dim = 2
    r = lambda a, b: round(rng.uniform(a, b), 4)  # noqa: E731
    cfg = dict(solver=name, kind=kind, a=r(0.2, 1.5), b=r(-1, 1), w=r(0.5, 2.5),
               y0=[r(0.2, 1.6) for _ in range(dim)], t0=rng.choice([0.0, 0.0, -1.5, 40.25, r(-3, 3)]))
    if kind == 3:
        cfg["a"] = r(0.2, 1.0)
    if adaptive:
        o = cfg["opts"] = {}
        if rng.random() < 0.6:
            o["rtol"] = 10.0 ** -rng.randrange(2, 7)
        if rng.random() < 0.6:
            o["atol"] = 10.0 ** -rng.randrange(4, 9)
        if rng.random() < 0.5:
            o["max_step"] = r(0.05, 1.0)
        elif kind in (4, 5):
            o["max_step"] = r(0.2, 2.0)
        if rng.random() < 0.4:
            o["first_step"] = 10.0 ** rng.uniform(-3, 0)
        if rng.random() < 0.2:
            o["min_factor"] = rng.choice([0.1, 0.4])
        if rng.random() < 0.2:
            o["max_factor"] = rng.choice([1.5, 3.0, 20.0])
    else:
        cfg["h"] = rng.choice([0.1, 0.0625, r(0.01, 0.12)])
        if kind == 3:
            cfg["h"] = min(cfg["h"], 0.03)
        if name in models.MULTISTEP and rng.random() < 0.4:
            cfg["starter"] = None
    if rng.random() < 0.3:
        cfg["form"] = rng.choice(["list", "strided", "0d"])
    elif name in EXTRA["quick"] and rng.random() < 0.2:
        cfg["form"] = "int"  # whole numbers as int: other signatures of the compiled functions
        cfg["y0"] = [float(rng.choice([1, 1, 2])) for _ in range(dim)]
        cfg["t0"] = float(round(cfg["t0"]))
    if rng.random() < 0.3:
        cfg["bound"] = rng.randrange(1, 40) + rng.choice([0.0, 0.5, 0.37])
    ops = []
    for _ in range(rng.randrange(3, 9)):
        k = rng.choice(["step", "step", "skip", "skip", "run", "run", "interp", "events", "events", "bad"])
        op = {"op": k}
        if k in ("step", "skip"):
            x = rng.random()
            if x < 0.55:
                op["n"] = rng.choice([0, 1, 2, 3, 6]) if rng.random() < 0.96 else rng.choice([33, 100, 300])
            if x > 0.35 and x < 0.9:
                op["x"] = r(0, 6)
        elif k == "run":
            op["xs"] = [r(-1.0, 5) if rng.random() < 0.3 else r(0, 5) for _ in range(rng.choice([1, 1, 2, 4, 7]))]
            if rng.random() < 0.03:
                op["xs"] = []
        elif k == "events":
            op["xs"] = [r(0, 8) if rng.random() < 0.9 else r(-0.9, 0) for _ in range(rng.choice([1, 2, 4, 7]))]
            op["which"] = rng.choice(["0", "1", "01", "10", "01"])
            op["i"] = rng.randrange(4)
            op["c"] = r(0, 5)
            op["tx"] = r(0, 6)
            op["s"] = [10.0 ** rng.choice([0, 0, 0, 0, -6, 4, -60, -200, 150]) * rng.choice([1, -1]) for _ in range(2)]
            op["term"] = [rng.random() < 0.35, rng.random() < 0.35]
            op["dir"] = [rng.choice([0, 0, 1, -1, 1.0, -2, 0.5, -0.25]), rng.choice([0, 0, 1, -1, -1.0])]
            if rng.random() < 0.1:
                op["term"] = [int(op["term"][0]), "np" if op["term"][1] else False]
        elif k == "interp":
            op["x"] = r(-1.2, 0.0)
        elif k == "bad":
            op["how"] = rng.choice(["interp+", "interp-", "run-", "run_bound", "step_bound", "run_nan", "step_nan"])
        if rng.random() < 0.2 and k in ("step", "skip", "run", "events"):
            op["num"] = True
        if rng.random() < 0.25 and k not in ("interp", "bad"):
            f = rng.choice(["nan", "inf", "exc", "exc"] + (["eexc"] * 3 if k == "events" else []))
            op["fault"] = [f, rng.choice([1, 1, 2, 3, rng.randrange(1, 30)]), rng.choice([1, 1, 2, 5, 40])]
        ops.append(op)
    return {"cfg": cfg, "ops": ops}


# -- execution of one history ----------------------------------------------------------
def construct(nb, cfg, m, rhs, params, noise=0.0):
    m[:] = 0.0
    m[NOISE] = noise
    m[KIND], m[A], m[B], m[W] = cfg["kind"], cfg["a"], cfg["b"], cfg["w"]
    m[LIMIT] = 1e300
    disarm(m)
    kw = {}
    if "h" in cfg:
        kw["h"] = cfg["h"]
    if "starter" in cfg:
        kw["first_stepper_cls"] = cfg["starter"]
    kw.update(cfg.get("opts", {}))
    if "t_bound" in cfg:
        kw["t_bound"] = cfg["t_bound"]
    if params:
        kw["params"] = [0.9, 0.05]
    y0, t0, form = np.array(cfg["y0"]), cfg["t0"], cfg.get("form")
    if form == "list":
        y0 = list(cfg["y0"])
        kw = {k: np.float64(v) if k in ("h", "first_step", "t_bound") else v for k, v in kw.items()}
    elif form == "int":
        y0, t0 = [int(y) for y in y0], int(t0)
    elif form == "strided":
        y0, t0 = world.strided(y0), np.float64(t0)
    elif form == "0d":
        y0, t0 = (np.array(y0[0]) if len(y0) == 1 else y0[::-1].copy()[::-1]), np.array(t0)
        kw = {k: np.array(v) if k in ("h", "first_step") else v for k, v in kw.items()}
    return nb.get_solver(cfg["solver"])(rhs, t0, y0, **kw)


def disarm(m):
    m[NAN_AT] = m[EXC_AT] = m[E_EXC_AT] = -1.0
    m[NAN_LEN] = 0.0


def snapshot(sol):
    return [float(sol.t), [float(x) for x in sol.y], [float(x) for x in sol.f], float(np.asarray(sol.h).ravel()[0])]


def perform(op, sol, m, evs):
    """One concrete call -> JSON-able outcome."""
    disarm(m)
    n0, e0 = m[N], m[EN]
    m[LIMIT] = n0 + 30000
    f = op.get("fault")
    if f:
        if f[0] in ("nan", "inf"):
            m[NAN_AT], m[NAN_LEN], m[NAN_VAL] = n0 + f[1], f[2], float(f[0])
        elif f[0] == "exc":
            m[EXC_AT] = n0 + f[1]
        else:
            m[E_EXC_AT] = e0 + f[1]
    k = op["op"]
    try:
        if k in ("step", "skip"):
            kw = {q: op[q] for q in ("n", "upto_t") if q in op}
            if op.get("num"):
                kw = {q: np.int64(v) if q == "n" else np.float64(v) for q, v in kw.items()}
            v = getattr(sol, k)(**kw)
            val = None if v is None else [arr(v[0]), arr(v[1])]
        elif k == "run":
            v = sol.run(form_of(op["ts"], op.get("num")))
            val = [arr(v[0]), arr(v[1])]
        elif k == "interp":
            val = [arr(sol.interpolate(op["t"]))]
        else:
            m[E_I], m[E_C], m[E_S], m[E_T], m[E_TS] = op["i"], op["c"], op["s"][0], op["tev"], op["s"][1]
            sel = []
            for c in op["which"]:
                g = evs[int(c)]
                g.terminal = np.bool_(True) if op["term"][int(c)] == "np" else op["term"][int(c)]
                g.direction = op["dir"][int(c)]
                sel.append(g)
            v = sol.run_events(form_of(op["ts"], op.get("num")), tuple(sel) if op.get("num") else sel)
            val = [arr(v[0]), arr(v[1]), [[float(x) for x in q] for q in v[2]], [[arr(x) for x in q] for q in v[3]]]
        st = ["ok", val]
    except (Exception, KeyboardInterrupt) as e:
        st = ["exc", type(e).__name__, str(e)[:120]]
    fired = (m[N] - n0 >= f[1] if f[0] != "eexc" else m[EN] - e0 >= f[1]) if f else False
    disarm(m)
    return dict(st=st, state=snapshot(sol), evals=[m[N] - n0, m[EN] - e0], fired=bool(fired))


def form_of(ts, num):
    """The requested times as a list, or in one of the other forms clients use."""
    return ts if not num else ts[0] if len(ts) == 1 else world.strided(ts) if len(ts) % 2 else np.array(ts)


def arr(x):
    return np.asarray(x, dtype=float).tolist()


def concretise(scn, nb, cl=None):
    """Plain mode: fix the absolute times of scn, record the outcomes."""
    m, rhs, g0, g1 = cl or plain_client()
    params = scn.get("params", False)
    if params:
        rhs = rhs_params(rhs)
    cfg = dict(scn["cfg"])
    if "bound" in cfg:
        # the bound is placed on the fixed step grid or relative to a fixed time scale
        cfg["t_bound"] = cfg["t0"] + cfg.pop("bound") * cfg.get("h", 0.15)
        if cfg.get("form") == "int":
            cfg["t_bound"] = math.ceil(cfg["t_bound"])
    out = dict(cfg=cfg, params=params, ops=[])
    for key in ("bound",):
        cfg.pop(key, None)
    try:
        sol = construct(nb, cfg, m, rhs, params)
    except (ValueError, RuntimeError) as e:
        out["ctor"] = ["exc", type(e).__name__, str(e)[:120]]
        return out
    except Exception as e:
        out["ctor"] = ["exc", type(e).__name__, str(e)[:120]]
        return out
    out["ctor"] = ["ok", snapshot(sol), m[N]]
    twin = twin_of(nb, cfg, params)
    tol = tolerance(cfg) / (200 if cfg["solver"] in models.ADAPTIVE else 20)
    adaptive = cfg["solver"] in models.ADAPTIVE
    for op in scn["ops"]:
        op = dict(op)
        t, h = float(sol.t), float(np.asarray(sol.h).ravel()[0])
        if not np.isfinite(t) or not np.all(np.isfinite(sol.y)) or np.max(np.abs(sol.y)) > 1e4:
            break
        if adaptive:
            h = min(h, 0.5)

        def at(x):
            if not adaptive and x > 0 and x == int(x):
                s = t
                for _ in range(int(x)):
                    s += h
                return s
            return t + x * h

        if op["op"] == "bad":
            how = op["how"]
            b = cfg.get("t_bound")
            if how.endswith("bound") and b is None:
                how = "interp+"
            op = {"interp+": {"op": "interp", "t": t + h}, "interp-": {"op": "interp", "t": t - 50 * h - 1},
                  "run-": {"op": "run", "ts": [t - 50 * h - 1, t + h]},
                  "run_nan": {"op": "run", "ts": [t, float("nan")]},
                  "step_nan": {"op": "step", "upto_t": float("nan")},
                  "run_bound": {"op": "run", "ts": [t, (b or 0) + 1.0]},
                  "step_bound": {"op": "step", "upto_t": (b or 0) + 0.5}}[how]
        else:
            if "x" in op:
                x = op.pop("x")
                if not adaptive and round(x * 10000) % 3 == 0:
                    x = float(round(x))
                op["t" if op["op"] == "interp" else "upto_t"] = at(x)
            if "xs" in op:
                op["ts"] = [at(x) for x in op.pop("xs")]
                b = cfg.get("t_bound")
                if b is not None:
                    op["ts"] = [min(x, b) for x in op["ts"]]
            if "tx" in op:
                op["tev"] = at(op.pop("tx"))
                y = sol.y[op["i"] % len(sol.y)]
                d = (op["c"] - 2.0) * 0.3 * h * sol.f[op["i"] % len(sol.y)]
                op["c"] = float(y + (d if abs(d) > 1e-5 else 1.0))
            if "upto_t" in op and cfg.get("t_bound") is not None:
                op["upto_t"] = min(op["upto_t"], cfg["t_bound"])
            if "upto_t" in op and cfg.get("form") == "int" and not op.get("num"):
                op["upto_t"] = math.ceil(op["upto_t"])
        op["was"] = perform(op, sol, m, (g0, g1))
        if ill_conditioned(op, twin, tol):
            out["cut"] = True
            break
        out["ops"].append(op)
    return out


def twin_of(nb, cfg, params):
    """A plain solver whose right-hand side carries rounding-sized noise."""
    m, rhs, g0, g1 = plain_client()
    sol = construct(nb, cfg, m, rhs_params(rhs) if params else rhs, params, noise=2e-15)
    return sol, m, (g0, g1)


def ill_conditioned(op, twin, tol):
    """Rounding-sized noise changes what the call does: nothing to compare."""
    sol, m, evs = twin
    now = perform(op, sol, m, evs)
    a, b = op["was"]["st"], now["st"]
    if a[0] != b[0] or (a[0] == "exc" and a[1] != b[1]):
        return True
    if a[0] == "ok" and differ_val(a[1], b[1], tol, op):
        return True
    return differ(now["state"], op["was"]["state"], tol) is not None


def tolerance(cfg):
    if cfg["solver"] in models.IMPLICIT:
        return 2e-6
    return 1e-7 if cfg["solver"] in models.ADAPTIVE else 1e-8


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))
                           | (np.abs(a - b) <= tol * (1 + np.maximum(np.abs(a), np.abs(b))))))


def compare(c, nb, cl):
    """Execute the concrete history c and compare -> (cat, detail, stats) or None."""
    m, rhs, g0, g1 = cl
    cfg = c["cfg"]
    what = f"{cfg['solver']}"
    tol = tolerance(cfg)
    tally = []
    if c["params"]:
        rhs = rhs_params(rhs)
    try:
        sol = construct(nb, cfg, m, rhs, c["params"])
        ctor = ["ok", snapshot(sol), m[N]]
    except Exception as e:
        ctor = ["exc", type(e).__name__, str(e)[:120]]
    if ctor[0] != c["ctor"][0] or (ctor[0] == "exc" and ctor[1] != c["ctor"][1]):
        return "outcome", f"{what}: constructor: plain {c['ctor']}, compiled {ctor}", tally
    if ctor[0] == "exc":
        return None, None, tally
    bad = differ(ctor[1], c["ctor"][1], tol)
    if bad:
        return "state", f"{what}: after construction {bad}", tally
    for j, op in enumerate(c["ops"]):
        was = op["was"]
        now = perform(op, sol, m, (g0, g1))
        tally.append((op["op"], op["fault"][0] if op.get("fault") and now["fired"] else "", was["st"][0]))
        show = {k: v for k, v in op.items() if k != "was"}
        w = f"{what}: call {j} {show}"
        a, b = was["st"], now["st"]
        if a[0] != b[0]:
            return "outcome", f"{w}: plain mode gives {brief(a)}, compiled mode {brief(b)}", tally
        if a[0] == "exc" and a[1] != b[1]:
            clean = not (was["fired"] or op.get("fault"))
            if clean or "ZeroDivisionError" in (a[1], b[1]) or "OverflowError" in (a[1], b[1]):
                return "outcome", f"{w}: plain mode raises {a[1]}({a[2]}), compiled mode {b[1]}({b[2]})", tally
        if a[0] == "ok":
            bad = differ_val(a[1], b[1], tol, op)
            if bad:
                return bad[0], f"{w}: {bad[1]}", tally
        bad = differ(now["state"], was["state"], tol)
        if bad:
            return "state", f"{w}: afterwards {bad}", tally
        if was["st"][0] == "exc" and not op.get("fault") and was["evals"][0] > 1000:
            break
    return None, None, tally


def brief(st):
    return f"{st[1]}({st[2]})" if st[0] == "exc" else f"a result {str(st[1])[:160]}"


def differ(now, was, tol):
    for name, a, b in zip(("t", "y", "f", "h"), now, was):
        if not near(a, b, tol if name != "f" else 50 * tol):
            return f"{name} is {a} in compiled mode, {b} in plain mode"
    return None


def differ_val(a, b, tol, op):
    """plain a, compiled b"""
    if a is None or b is None:
        return None if a is b else ("value", f"plain {a}, compiled {b}")
    if len(a) == 4:
        ta, tb = a[2], b[2]
        if [len(x) for x in ta] != [len(x) for x in tb]:
            return "events", f"event times {ta} in plain mode, {tb} in compiled mode"
        for x, y in zip(ta, tb):
            if not near(x, y, 1e-5):
                return "events", f"event times {ta} in plain mode, {tb} in compiled mode"
        for x, y in zip(a[3], b[3]):
            for p, q in zip(x, y):
                if not near(p, q, 10 * tol):
                    return "events", f"event states {a[3]} in plain mode, {b[3]} in compiled mode"
        tt = 1e-5
    else:
        tt = tol
    if not near(a[0], b[0], tt):
        return "value", f"returns times {a[0]} in plain mode, {b[0]} in compiled mode"
    for p, q in zip(a[1:2], b[1:2]):
        if not near(p, q, 10 * tt if len(a) == 4 else 10 * tol):
            return "value", f"returns {p} in plain mode, {q} in compiled mode"
    return None


# -- workers -------------------------------------------------------------------------------
def worker():
    """Numba-mode process: one concrete history per line -> one verdict per line."""
    import warnings

    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    nb = boot.load(numba_mode=True)
    warnings.simplefilter("ignore")
    cl = compiled_client()
    for line in sys.stdin:
        c = json.loads(line)
        t0 = time.monotonic()
        try:
            cat, detail, tally = compare(c, nb, cl)
            r = dict(cat=cat, detail=detail, tally=tally)
        except Exception as e:
            import traceback

            r = dict(err=f"{e!r} {traceback.format_exc()[-1500:]}")
        r["s"] = time.monotonic() - t0
        out.write(json.dumps(r) + "\n")
        out.flush()


class Worker:
    def __init__(self, tier, full=False):
        env = dict(os.environ, NUMBA_NUM_THREADS="1")
        env.pop("NBKODE_NONUMBA", None)
        env.pop("NUMBA_DISABLE_JIT", None)
        self.full = bool(full or tier != "quick")
        if not self.full:
            env["NUMBA_OPT"] = "0"
        root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        self.p = subprocess.Popen(
            [sys.executable, "-B", "-c", "from sim.props import c13; c13.worker()"], cwd=root, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        self.tail = []
        self.th = threading.Thread(target=self._drain, daemon=True)
        self.th.start()

    def _drain(self):
        for line in self.p.stderr:
            self.tail = (self.tail + [line])[-15:]

    def ask(self, c):
        try:
            self.p.stdin.write(json.dumps(c) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            rc = self.p.wait()
            self.th.join(2)
            text = "".join(self.tail)
            if rc is not None and rc < 0 and rc != -9:
                return dict(cat="crash", detail=f"{c['cfg']['solver']}: the compiled process died with signal {-rc}", tally=[])
            raise boot.HarnessError(f"worker ended with {rc}: {text}")
        r = json.loads(line)
        if "err" in r:
            raise boot.HarnessError(r["err"])
        return r

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


def scenario(seed, name, i, params=False, full=False):
    rng = random.Random(f"C13/{seed}/{name}/{i}/{params}" + "/full" * full)
    scn = gen(rng, name)
    if full:
        scn["cfg"]["full"] = True
        scn["cfg"].pop("starter", None)  # each one compiles another solver
    if params:
        scn["params"] = True
        scn["cfg"].pop("bound", None)
        scn["cfg"].pop("starter", None)
    return json.loads(json.dumps(scn))


COST = {n: (3 if n in models.IMPLICIT or n in models.ADAPTIVE else 2 if n in models.MULTISTEP else 1) for n in models.ALL}


def main(seed, tier):
    from .. import runner

    t0 = time.monotonic()
    nb = boot.load()
    n = int(os.environ.get("VERIF_RUNS", RUNS[tier]))
    only = os.environ.get("VERIF_SOLVERS")
    names = only.split(",") if only else [n for n in models.ALL if n not in clients.UNDERIVABLE]
    jobs = [(name, 0, n // 2, False, True) for name in FULL[tier] if name in names]
    jobs += [(name, i0, n, False, False) for name in sorted(names, key=lambda x: -COST[x]) for i0 in [0]]
    rot = list(EXTRA[tier])
    for name in rot:
        if name in names:
            jobs.append((name, 0, 1 if tier == "quick" else 2, True, False))
    deadline = t0 + WALL[tier]
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    tot = dict(n=0, counts={}, sigs=set(), viols=[], known={}, sim=0.0, steps=0, skipped=0,
               nontrivial=0, samples=[], late=0)
    lock = threading.Lock()
    gate = threading.Lock()  # plain-mode execution shares this process's state
    errs, stop = [], threading.Event()

    def count(k, v=1):
        tot["counts"][k] = tot["counts"].get(k, 0) + v

    def serve():
        w = None
        try:
            while not stop.is_set():
                try:
                    name, i0, m, params, full = q.get_nowait()
                except queue.Empty:
                    return
                if w is None or w.full != (full or tier != "quick"):
                    if w:
                        w.close()
                    w = Worker(tier, full)
                for i in range(i0, i0 + m):
                    if time.monotonic() > deadline or stop.is_set():
                        with lock:
                            tot["late"] += m - (i - i0)
                        break
                    scn = scenario(seed, name, i, params, full)
                    with gate:
                        c = concretise(scn, nb)
                    r = w.ask(c)
                    with lock:
                        tot["n"] += 1
                        tot["nontrivial"] += 1
                        tot["steps"] += len(c["ops"])
                        if c["ctor"][0] == "ok" and c["ops"]:
                            tot["sim"] += max(0.0, c["ops"][-1]["was"]["state"][0] - c["cfg"]["t0"])
                        count("histories cut where ill-conditioned", int(bool(c.get("cut"))))
                        count("solver:" + name + ("+params" if params else "") + (" (optimised)" if full else ""))
                        for op, f, st in r["tally"]:
                            count("op:" + op)
                            count("outcome:" + st)
                            if f:
                                count("fault:" + f)
                        tot["sigs"].add(hashlib.sha256(repr((name, c["cfg"]["kind"], r["tally"])).encode()).hexdigest()[:16])
                        if len(tot["samples"]) < 2 and i == 3:
                            tot["samples"].append(dict(solver=name, index=i, scenario=scn))
                        if r["cat"]:
                            tot["viols"].append((name, i, params, r["cat"], r["detail"], c))
                            if not os.environ.get("VERIF_KEEP_GOING"):
                                stop.set()
                            else:
                                print(name, i, r["cat"], r["detail"][:600])
                    if r["cat"] == "crash":
                        w.close()
                        w = Worker(tier, full)
        except Exception as e:
            errs.append(e)
            stop.set()
        finally:
            if w:
                w.close()

    ths = [threading.Thread(target=serve) for _ in range(min(runner.procs(), len(jobs)))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    tot["wall"] = time.monotonic() - t0
    if errs and not tot["viols"]:
        raise errs[0]
    mod = sys.modules[__name__]
    viols = sorted(tot["viols"], key=lambda v: (v[0], v[1]))
    rc = 0
    if viols:
        name, i, params, cat, detail, c = viols[0]
        w = Worker(tier, c["cfg"].get("full"))
        try:
            small, tried = minimise(w, scn_of(c), cat, tier)
            c2 = concretise(small, nb)
            r = Worker(tier, c["cfg"].get("full"))
            try:
                v = r.ask(c2)
            finally:
                r.close()
            if v["cat"]:
                c, cat, detail = c2, v["cat"], v["detail"]
            else:
                small = scn_of(c)
        finally:
            w.close()
        res = dict(cat=cat, detail=detail, digest=digest(cat, detail), lines=[])
        path = runner.write_replay("C13", seed, tier, f"{name}-{i}", small, c, res, tried)
        ok = runner.replay_ok(path, res)
        print(f"  [{cat}] {detail}")
        print(f"  replays exactly in a fresh process: {ok}")
        print(f"VIOLATION property=C13 replay={path}")
        rc = 1
    runner.evidence("C13", seed, tier, mod, tot, time.monotonic() - t0, len(viols))
    print(f"C13: {tot['n']} runs ({len(tot['sigs'])} distinct, {tot['late']} not started), {tot['steps']} calls, "
          f"wall {tot['wall']:.1f} s")
    if tot["n"] == 0:
        raise boot.HarnessError("no run was executed")
    return rc


def scn_of(c):
    """A concrete history as a scenario (times already absolute)."""
    ops = []
    for op in c["ops"]:
        ops.append({k: v for k, v in op.items() if k != "was"})
    return dict(cfg=c["cfg"], ops=ops, params=c["params"])


def digest(cat, detail):
    return hashlib.sha256(f"{cat}|{detail}".encode()).hexdigest()[:16]


def minimise(w, scn, cat, tier, seconds=40.0):
    nb = boot.load()
    end = time.monotonic() + seconds
    tried = 0

    def bad(s):
        nonlocal tried
        tried += 1
        return w.ask(concretise(s, nb))["cat"] == cat

    if cat == "crash" or scn["params"]:
        return scn, 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        cands = []
        for i in range(len(scn["ops"])):
            cands.append(dict(scn, ops=scn["ops"][:i] + scn["ops"][i + 1:]))
        for i, op in enumerate(scn["ops"]):
            if "fault" in op:
                cands.append(dict(scn, ops=scn["ops"][:i] + [{k: v for k, v in op.items() if k != "fault"}] + scn["ops"][i + 1:]))
            if len(op.get("ts", [])) > 1:
                cands.append(dict(scn, ops=scn["ops"][:i] + [dict(op, ts=op["ts"][:1])] + scn["ops"][i + 1:]))
        for key in ("t_bound", "starter"):
            if key in scn["cfg"]:
                cands.append(dict(scn, cfg={k: v for k, v in scn["cfg"].items() if k != key}))
        for c in cands:
            if time.monotonic() > end:
                break
            if bad(c):
                scn = c
                progress = True
                break
    return scn, tried


def replay(d):
    nb = boot.load()
    w = Worker(d.get("tier", "quick"), d["scenario"]["cfg"].get("full"))
    try:
        r = w.ask(concretise(d["scenario"], nb))
    finally:
        w.close()
    if r["cat"]:
        dg = digest(r["cat"], r["detail"])
        print(f"  [{r['cat']}] {r['detail']}")
        print(f"VIOLATION property=C13 replay={d['property']} digest={dg}")
        return 1
    print("no violation")
    return 0
