"""C03: every accepted step is a step of the method the solver is named after."""

import numpy as np

from .. import gen as G
from .. import models, problems, world
from ..world import close, fl, guarded, teq
from . import base  # noqa: F401
from .base import Skip, Viol

CATS = ("step", "deriv", "time", "solve", "hang")
RUNS = {"quick": 40000, "thorough": 600000}
WALL = {"quick": 110, "thorough": 3000}
RULE = ("seeded configuration (26 solvers and 4 client-defined methods, 9 problem families incl. stiff ones and ones without an implicit solution, "
        "step sizes, options, starters) and history of 3-14 single- and multi-step calls with injected exceptions "
        "in between; every pair of consecutive accepted points is compared with an independent implementation of "
        "the published formula applied to the points before it; non-trivial: at least one step was compared")
ASSUMES = ["coefficients of the reference methods: Hairer/Norsett/Wanner, Butcher, and scipy's RK23/RK45/DOP853 tables",
           "implicit steps: the new state is within 2e-7 (relative to 1+|y|) of a root of the implicit equation"]


def gen(rng, tier):
    kinds = None
    x = rng.random()
    if x < 0.25:
        kinds = ["stiff"]
    elif x < 0.35:
        kinds = ["quad"]
    names = None
    flat = not kinds and rng.random() < 0.04
    if kinds:
        names = models.IMPLICIT
    elif flat:
        names = ["BackwardEuler", "BDF1", "AdamsMoulton1"]
    elif rng.random() < 0.4:
        names = models.ALL  # every solver equally often
    cfg = G.gen_cfg(rng, names=names, kinds=kinds, bound=0.0, rich=rng.random() < 0.5)
    if kinds == ["quad"]:
        cfg["starter"] = None
        cfg["h"] = cfg["h"] * rng.choice([1, 2, 5])
    elif flat:
        h = rng.choice([0.5, 0.25, 0.0625])
        cfg["h"] = h
        cfg.pop("params", None)
        cfg["prob"] = {"kind": "flat", "dim": 1, "y0": [rng.choice([0.5, 1.0, 1.5, -1.25])],
                       "p": {"flat": rng.choice([0.75, 1.25, 2.0, -1.0]), "gain": 1 / h}}
    elif kinds == ["stiff"] and "starter" in cfg and cfg["starter"] in G.ONE_STEP_STARTERS[:6]:
        cfg["starter"] = None
    if cfg["solver"] in models.IMPLICIT and rng.random() < 0.12:
        # the implicit equation of some step has no finite residual
        y0 = cfg["prob"]["y0"][0]
        span = rng.randrange(1, 12) * cfg["h"]
        cfg["prob"]["domain"] = dict(val=rng.choice(["inf", "-inf", "nan"]),
                                     **({"t": cfg["t0"] + span} if rng.random() < 0.7 else
                                        {"y": y0 + rng.choice([0.2, -0.2]), "side": rng.choice([1, -1])}))
        if "domain" in cfg["prob"] and "y" in cfg["prob"]["domain"]:
            d = cfg["prob"]["domain"]
            d["side"] = 1 if d["y"] > y0 else -1
        cfg["starter"] = None
        cfg["prob"].pop("tscale", None)
    ops = []
    for _ in range(rng.randrange(3, 15)):
        op = {"op": rng.choice(["step", "step", "skip", "nstep", "upto", "run", "events"])}
        if op["op"] in ("nstep", "upto"):
            op["n"] = rng.randrange(1, 7)
        elif rng.random() < 0.3:
            G.gen_fault(rng, op, event=False)
        if op["op"] in ("run", "events"):
            op["th"] = rng.choice([1e-6, 0.5, 1.0])
        ops.append(op)
    return {"cfg": cfg, "ops": ops, "share": rng.random() < 0.15}


def run(scn, ctx):
    cfg = dict(scn["cfg"])
    name = cfg["solver"]
    cb = world.Callbacks(problems.make(cfg["prob"]))
    cb.share = True if scn.get("share") else None
    f = world.pure_f(cfg)
    st, sol = guarded(world.build, ctx.nb, cfg, cb)
    if st != "ok":
        raise Skip(f"constructor {sol!r}")
    ctx.log.count("solver:" + name)
    ctx.log.mark(name, cfg["prob"]["kind"], cfg["prob"]["dim"], cfg.get("starter", "auto"))
    past = startup(cfg, sol, f)
    hard = cfg["prob"]["kind"] in ("stiff", "quad", "flat") or "domain" in cfg["prob"]
    gain = cfg["params"][0] if "params" in cfg else 1.0
    if cfg["prob"]["kind"] not in ("lin", "const", "poly") and gain * cfg.get("h", 0.0) >= 0.4 * cfg["prob"].get("tscale", 1.0):
        hard = True  # Newton's method may fail on a nonlinear equation of a long step
    w = Walk(cfg, sol, f, past, ctx, hard)
    for op in scn["ops"]:
        if float(np.max(np.abs(sol.y))) > 1e6 or not np.all(np.isfinite(sol.y)):
            break
        if not w.op(op, cb):
            break
    ctx.steps += w.steps
    ctx.sim += float(sol.t) - cfg["t0"]
    ctx.nontrivial = w.steps > 0


def startup(cfg, sol, f):
    """Points recorded by the constructor, newest first."""
    name = cfg["solver"]
    t, y, fy = world.state(sol)
    k = models.steps_used(name)
    if name not in models.MULTISTEP or k == 1:
        return [(t, y, fy)]
    if cfg.get("starter", "auto") is None:
        return [(t, y, fy)] * k
    out = [(t, y, fy)]
    for j in range(k - 2, -1, -1):
        tj = min(max(cfg["t0"] + j * cfg["h"], cfg["t0"]), t)
        st, yj = guarded(sol.interpolate, tj)
        if st != "ok":
            raise Skip("startup history")
        yj = np.array(yj, dtype=float)
        out.append((tj, yj, f(tj, yj)))
    return out


class Walk:
    def __init__(self, cfg, sol, f, past, ctx, hard):
        self.cfg, self.sol, self.f, self.past, self.ctx, self.hard = cfg, sol, f, past, ctx, hard
        self.name = cfg["solver"]
        self.steps = 0

    def op(self, op, cb):
        sol, kind = self.sol, op["op"]
        t0, h0 = float(sol.t), fl(sol.h)
        fault = op.get("fault")
        if fault:
            cb.arm(fault)
        cb.limit = cb.n + cb.budget
        if kind == "step":
            st, v = guarded(sol.step)
        elif kind == "skip":
            st, v = guarded(sol.skip)
        elif kind == "nstep":
            st, v = guarded(sol.step, n=op["n"])
        elif kind == "upto":
            st, v = guarded(sol.step, upto_t=t0 + (op["n"] + 0.5) * h0)
        elif kind == "run":
            st, v = guarded(sol.run, t0 + op["th"] * h0 * 1e-3)
        else:
            st, v = guarded(sol.run_events, t0 + op["th"] * h0 * 1e-3, [lambda t, y: t - t0 - 1e-5 * h0])
        if fault:
            cb.disarm()
        fired = cb.fired if fault else 0
        self.ctx.log.count("op:" + kind)
        if fired:
            self.ctx.log.count(f"fault:{fault['on']}:{fault['kind']}")
        what = f"{self.name}: {kind} from t={t0!r}"
        if st == "budget":
            raise Viol("hang", f"{what}: {v}")
        n_before = self.steps
        t, y, fy = world.state(sol)
        if kind in ("nstep", "upto") and st == "ok":
            try:
                ts, ys = np.asarray(v[0], float), np.asarray(v[1], float)
                rows = list(zip(ts.tolist(), [np.array(r).reshape(y.shape) for r in ys]))
            except Exception:
                raise Skip("rows") from None
            if not rows:
                return t == t0
            if rows[-1][0] != t or not np.array_equal(rows[-1][1], y):
                raise Skip("rows")
            for tr, yr in rows[:-1]:
                self.step(tr, yr, None, None, what)
            self.step(t, y, fy, None, what)
        elif kind in ("nstep", "upto"):
            if t != t0:  # failed on the way: the points in between are unknown
                self.refused(kind, v, what)
                return False
        elif t != t0:
            self.step(t, y, fy, h0, what)
        elif st == "ok" and kind in ("step", "skip"):
            raise Skip("no advance")
        self.ctx.log.mark(kind, st, bool(fired), self.steps - n_before)
        self.ctx.log.add(kind, st, t, y, fy)
        if st == "exc" and not fired:
            if kind in ("step", "skip") and t != t0:
                raise Viol("solve", f"{what}: raised {v!r} but moved to {t!r}")
            self.refused(kind, v, what)
        return True

    def refused(self, kind, v, what):
        """A step that raised although nothing was injected."""
        if not self.hard or self.name not in models.IMPLICIT:
            raise Viol("solve", f"{what}: {v!r}")
        if not isinstance(v, (RuntimeError, np.linalg.LinAlgError)):
            raise Viol("solve", f"{what}: {v!r}")
        self.ctx.log.count("implicit equation not solved")

    def step(self, t1, y1, f1, h, what):
        """Check the accepted step to (t1, y1, f1) and append it to the past."""
        name, f = self.name, self.f
        t, y, fy = self.past[0]
        fixed = name not in models.ADAPTIVE
        fpure = f(t1, y1)
        if f1 is not None and not world.feq(f1, fpure, 1e-12):
            raise Viol("deriv", f"{what}: derivative at t={t1!r} is {f1.tolist()}, rhs there is {fpure.tolist()}")
        if fixed:
            h = self.cfg["h"]
            if not teq(t1, t + h):
                raise Viol("time", f"{what}: step of size h={h!r} from {t!r} ends at {t1!r}")
        else:
            if not t1 > t:
                raise Viol("time", f"{what}: step from {t!r} ends at {t1!r}")
            h = t1 - t
        scale = 1.0 + float(np.max(np.abs(y1)))
        atol = 1e-10 * scale + (0 if fixed else 64 * np.spacing(max(abs(t), abs(t1))) * float(np.max(np.abs(fy)) + np.max(np.abs(fpure))))
        if name in models.RK:
            exp = models.rk_step(name, f, t, y, fy, h)
        elif name in models.ADAPTIVE:
            exp, _ = models.PAIRS[name].attempt(f, t, y, fy, h)
        else:
            ys, fs = [p[1] for p in self.past], [p[2] for p in self.past]
            exp, bn = models.lm_rhs(name, ys, fs, h)
            if bn:
                self.implicit(t1, y1, exp, h * bn, what)
                exp = None
        if exp is not None and not close(y1, exp, 1e-10, atol):
            raise Viol("step", f"{what}: step from ({t!r}, {y.tolist()}) with h={h!r} gives {y1.tolist()}, the formula of {name} gives {np.asarray(exp).tolist()}")
        self.steps += 1
        self.past.insert(0, (t1, y1, fpure if f1 is None else f1))
        del self.past[8:]

    def implicit(self, t1, y1, K, hb, what):
        """Distance of y1 to the root of y - hb*f(t1, y) - K near it."""
        f, n = self.f, y1.size

        def F(y):
            return y - hb * f(t1, y) - K

        r = F(y1)
        if float(np.max(np.abs(y1))) > 1e6:
            raise Skip("far away")
        if not np.all(np.isfinite(r)):
            raise Viol("step", f"{what}: state {y1.tolist()} at t={t1!r} has residual {r.tolist()} in the implicit "
                               f"equation of {self.name}")
        J = np.empty((n, n))
        for i in range(n):
            e = 1e-6 * (1.0 + abs(y1[i]))
            d = np.zeros(n)
            d[i] = e
            J[:, i] = (F(y1 + d) - F(y1 - d)) / (2 * e)
        if n == 1 and float(np.abs(J[0, 0])) < 1e-7 and float(np.abs(r[0])) > 1e-3:
            raise Viol("step", f"{what}: state {y1.tolist()} at t={t1!r} has residual {r.tolist()} in the implicit "
                               f"equation of {self.name}, which is flat there")
        try:
            dist = np.linalg.solve(J, r)
        except np.linalg.LinAlgError:
            raise Skip("singular") from None
        tol = 2e-7 * (1.0 + float(np.max(np.abs(y1))))
        if float(np.max(np.abs(r))) <= 2e-8:
            return
        if not np.all(np.isfinite(dist)) or float(np.max(np.abs(dist))) > tol:
            raise Viol("step", f"{what}: state {y1.tolist()} at t={t1!r} is {np.max(np.abs(dist)):.3g} away from the "
                               f"solution of the implicit equation of {self.name} (residual {r.tolist()})")
