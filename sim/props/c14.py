"""C14: multistep startup produces the right history from any start."""

import numpy as np
from scipy.integrate._ivp.common import select_initial_step

from .. import boot, gen as G
from .. import models, problems, world
from ..ref import steps_pre  # noqa: F401
from ..world import close, guarded, teq
from .base import Skip, Viol

CATS = ("time", "state", "deriv", "fault", "bound", "exc", "step", "hang")
RUNS = {"quick": 60000, "thorough": 900000}
WALL = {"quick": 110, "thorough": 3000}
RULE = ("seeded k-step solver, problem, start time, step size and starter (none, default, any one-step solver by class, "
        "name or alias in any case); the points recorded by the constructor and the dense output between them are "
        "compared with an independent implementation of the starter run from t0, and the first steps with the "
        "multistep formula over them; t_bound inside, on and after the startup; the constructor is also run with the "
        "n-th evaluation or allocation failing and repeated; non-trivial: startup points were compared or a fault fired")
ASSUMES = ["fixed-step starters agree to 1e-9, implicit ones to 1e-6, adaptive ones to 1e-9 (their controller is "
           "re-implemented; on an accept/reject tie the run is skipped)"]
STARTERS = G.ONE_STEP_STARTERS + models.ADAPTIVE


def gen(rng, tier):
    names = [n for n in models.MULTISTEP if models.steps_used(n) > 1]
    cfg = G.gen_cfg(rng, names=names, bound=0.0, params=0.3)
    x = rng.random()
    if x < 0.15:
        cfg["starter"] = None
    elif x < 0.35:
        cfg.pop("starter", None)
    else:
        cfg["starter"] = rng.choice(STARTERS)
    cfg["t0"] += rng.choice([0.0, 0.0, 1e3, -1e3, 0.1]) * cfg["prob"].get("tscale", 1.0)
    scn = {"cfg": cfg, "how": rng.choice(["name", "name", "class", "alias", "lower", "alias lower"]), "steps": rng.randrange(0, 4),
           "ths": [round(rng.random(), 3) for _ in range(4)], "share": rng.random() < 0.2,
           "hform": rng.choice(["float", "float", "array"])}
    if rng.random() < 0.35:
        k = models.steps_used(cfg["solver"])
        scn["bound"] = [rng.randrange(0, k + 2), rng.choice([0.0, 0.5, -1e-9, 1e-9, 0.999])]
    if rng.random() < 0.5:
        scn["fault"] = rng.choice([
            {"on": "rhs", "kind": rng.choice(G.EXC_NAMES), "at": int(10 ** rng.uniform(0, 2))},
            {"on": "rhs", "kind": rng.choice(G.EXC_NAMES), "at": rng.randrange(1, 12)},
            {"on": "alloc", "kind": "MemoryError", "at": rng.randrange(1, 60)}])
    return scn


def model(cfg, f):
    """-> times, states of the startup, oldest first (None: the initial point only)."""
    name, t0, h = cfg["solver"], cfg["t0"], cfg["h"]
    y = np.array(cfg["prob"]["y0"], dtype=float)
    k = models.steps_used(name)
    starter = cfg.get("starter", "auto")
    if starter is None:
        return [(t0, y)], 1e-12
    if starter == "auto":
        starter = "RungeKutta45"
    out = [(t0, y)]
    if starter in models.RK:
        for j in range(k - 1):
            t = t0 + j * h
            y = models.rk_step(starter, f, t, y, f(t, y), h)
            out.append((t0 + (j + 1) * h, y))
        return out, 1e-9
    if starter in models.LM:
        for j in range(k - 1):
            t = t0 + j * h
            K, bn = models.lm_rhs(starter, [y], [f(t, y)], h)
            y = implicit(f, t + h, K, h * bn, y) if bn else K
            out.append((t0 + (j + 1) * h, y))
        return out, 1e-6 if models.LM[starter][1] else 1e-9
    o = models.OPT_DEFAULTS
    t, fy = t0, f(t0, y)
    hh = select_initial_step(f, t0, y, fy, 1, models.PAIRS[starter].q, o["rtol"], o["atol"])
    for j in range(1, k):
        tj = t0 + j * h
        while t < tj:
            try:
                s = models.adaptive_step(starter, {}, f, t, y, fy, hh)
            except models.Giveup:
                raise Skip("starter model gives up") from None
            if s["margin"] < 1e-6:
                raise Skip("starter on the threshold")
            old = (t, y, fy)
            t, y, fy, hh = s["t"], s["y"], s["f"], s["h_next"]
        out.append((tj, models.dense_between(starter, f, old, (t, y, fy), tj)))
    return out, 1e-9


def implicit(f, t, K, hb, y):
    n = y.size
    for _ in range(100):
        r = y - hb * f(t, y) - K
        J = np.empty((n, n))
        for i in range(n):
            d = np.zeros(n)
            d[i] = 1e-6 * (1 + abs(y[i]))
            J[:, i] = ((y + d - hb * f(t, y + d)) - (y - d - hb * f(t, y - d))) / (2 * d[i])
        dy = np.linalg.solve(J, -r)
        y = y + dy
        if np.max(np.abs(dy)) < 1e-13 * (1 + np.max(np.abs(y))):
            return y
    raise Skip("no implicit solution")


def alias_of(nb, name, how):
    if how == "class":
        return nb.get_solver(name)
    if how.startswith("alias"):
        for line in map(str, nb.list_solvers()):
            if line.endswith(f"(alias of {name})"):
                name = line.split()[0]
                return name.lower() if how == "alias lower" else name
        return name.upper()
    return name.lower() if how == "lower" else name


def construct(nb, scn, cfg, cb):
    kw = world.kwargs_of(cfg)
    st = cfg.get("starter", "auto")
    if st not in (None, "auto"):
        kw["first_stepper_cls"] = alias_of(nb, st, scn["how"])
    if scn.get("hform") == "array":
        kw["h"] = np.array(cfg["h"])
    rhs = world.plain(cb.rhs)
    y0 = list(cfg["prob"]["y0"])
    if cfg.get("params") is not None:
        return nb.get_solver(cfg["solver"])(boot.jitted(world.with_params(rhs, None)), cfg["t0"], y0, params=cfg["params"], **kw)
    return nb.get_solver(cfg["solver"])(boot.jitted(rhs), cfg["t0"], y0, **kw)


def run(scn, ctx):
    cfg = dict(scn["cfg"])
    name, t0, h = cfg["solver"], cfg["t0"], cfg["h"]
    f = world.pure_f(cfg)
    pts, tol = model(cfg, f)
    what = f"{name}(t0={t0!r}, h={h!r}, starter {cfg.get('starter', 'auto')!r})"
    ctx.log.count("solver:" + name)
    ctx.log.count("starter:" + str(cfg.get("starter", "auto")))
    ctx.log.mark(name, cfg.get("starter", "auto"), cfg["prob"]["kind"], cfg["prob"]["dim"], scn["how"], scn.get("bound"))
    end = pts[-1][0]
    allowed = True
    if scn.get("bound"):
        j, th = scn["bound"]
        cfg["t_bound"] = max(t0 + (j + th) * h, t0)
        if cfg["t_bound"] < end and not teq(cfg["t_bound"], end, 1e-14):
            allowed = False
        elif teq(cfg["t_bound"], end, 1e-12) and cfg["t_bound"] != end:
            raise Skip("bound within rounding of the last startup point")
        elif teq(cfg["t_bound"], end, 1e-14):
            allowed = None  # rounding decides
    cb = world.Callbacks(problems.make(cfg["prob"]))
    if scn.get("share"):
        cb.share = True
    fault = scn.get("fault")
    if fault:
        cb.arm(fault)
        st, v = guarded(construct, ctx.nb, scn, cfg, cb)
        inj = cb.injected
        cb.disarm()
        if cb.fired:
            ctx.nontrivial = True
            ctx.log.count(f"fault:{fault['on']}:{fault['kind']}")
            ctx.log.mark("fault", fault["on"])
            if st != "exc" or not world.is_injected(v, inj):
                # t_bound may be refused before the fault is reached, never after
                raise Viol("fault", f"{what}: constructor gave {v!r} although evaluation/allocation {fault['at']} raised {inj!r}")
        boot.ALLOC.armed = None
    st, sol = guarded(construct, ctx.nb, scn, cfg, cb)
    ctx.log.count("op:constructor")
    if allowed is not True and st != "ok":
        if not isinstance(sol, (ValueError, RuntimeError)):
            raise Viol("bound", f"{what}: t_bound={cfg['t_bound']!r}: {sol!r}")
        ctx.log.count("refused by t_bound")
        ctx.log.add("refused", cfg["t_bound"])
        ctx.nontrivial = True
        return
    if st != "ok":
        raise Viol("exc", f"{what}, t_bound={cfg.get('t_bound')!r}: {sol!r}")
    if allowed is False:
        raise Viol("bound", f"{what}: startup went to t={float(sol.t)!r} beyond t_bound={cfg['t_bound']!r}")
    check(cfg, sol, f, pts, tol, what, scn, ctx)
    ctx.nontrivial = True


def check(cfg, sol, f, pts, tol, what, scn, ctx):
    name, t0, h = cfg["solver"], cfg["t0"], cfg["h"]
    t, y, fy = world.state(sol)
    ctx.log.add(t, y, fy)
    end, yend = pts[-1]
    if not teq(t, end, 1e-13):
        raise Viol("time", f"{what}: starts at t={t!r} instead of {end!r}")
    if not close(y, yend, 10 * tol, tol):
        raise Viol("state", f"{what}: state {y.tolist()} at t={t!r} instead of {yend.tolist()}")
    if not world.feq(fy, f(t, y), 1e-12):
        raise Viol("deriv", f"{what}: derivative {fy.tolist()} at t={t!r} instead of {f(t, y).tolist()}")
    past = []
    for j, (tj, yj) in enumerate(pts):
        x = min(max(tj, t0), t)
        st, v = guarded(sol.interpolate, x)
        if st != "ok":
            raise Viol("time", f"{what}: startup point {j} at t={x!r} is not in the history: {v!r}")
        v = np.array(v, dtype=float)
        if not close(v, yj, 10 * tol, tol + 1e-13 * abs(t) / h):
            raise Viol("state", f"{what}: startup point {j} at t={x!r} is {v.tolist()} instead of {yj.tolist()}")
        past.append((x, v, f(x, v)))
    st, v = guarded(sol.interpolate, t0 - 0.01 * h)
    if st == "ok":
        raise Viol("time", f"{what}: history starts before t0")
    for j in range(len(past) - 1):
        th = scn["ths"][j % len(scn["ths"])]
        x = past[j][0] + th * (past[j + 1][0] - past[j][0])
        st, v = guarded(sol.interpolate, x)
        exp = models.hermite(*past[j], *past[j + 1], x)
        if st != "ok" or not close(v, exp, 1e-8, 1e-8):
            raise Viol("deriv", f"{what}: between startup points {j} and {j + 1}, at t={x!r}: {v!r} instead of {exp.tolist()}")
    ctx.log.count("startup points compared", len(past))
    k = models.steps_used(name)
    if len(past) < k:
        past = [past[-1]] * k
    past = past[::-1]
    past[0] = (t, y, fy)
    for _ in range(scn["steps"]):
        if cfg.get("t_bound") is not None and float(sol.t) + h > cfg["t_bound"]:
            break
        st, v = guarded(sol.step)
        if st != "ok":
            raise Viol("exc", f"{what}: step from t={past[0][0]!r}: {v!r}")
        t1, y1, f1 = world.state(sol)
        exp, bn = models.lm_rhs(name, [p[1] for p in past], [p[2] for p in past], h)
        if bn:
            exp = implicit(f, t1, exp, h * bn, y1)
        if not close(y1, exp, 1e-9, 1e-6 if bn else 1e-9):
            raise Viol("step", f"{what}: step to t={t1!r} gives {y1.tolist()}, the formula over the startup points {exp.tolist()}")
        past.insert(0, (t1, y1, f1))
        ctx.steps += 1
    ctx.sim += float(sol.t) - t0
