"""C05: every call makes progress or raises: no hang, no non-finite result accepted."""

import numpy as np

from .. import gen as G
from .. import models, problems, world
from ..problems import rnd
from ..world import close, fl, guarded
from .base import Skip, Viol

CATS = ("hang", "finite", "progress", "state", "recover", "exc")
RUNS = {"quick": 16000, "thorough": 240000}
WALL = {"quick": 110, "thorough": 3000}
BUDGET = 60_000  # evaluations without an accepted step
TOTAL = 90_000  # evaluations of one call that keeps advancing
RULE = ("seeded solver (adaptive or implicit; any for steps too small) and misbehaving right-hand side (bursts of NaN/inf starting at a chosen "
        "evaluation and healing later, a domain border beyond which it is NaN/inf for ever, finite-time blow-up, rest "
        "points, implicit equations without solution, steps too small for the clock) and history of 2-9 calls; each "
        "call must accept a step or raise within an evaluation budget, and leave a finite accepted point; "
        "after a burst heals the solver must advance; non-trivial: a non-finite evaluation or a refusal happened")
ASSUMES = ["60000 evaluations without an accepted step count as a hang (the longest legal sequence of rejections needs "
           "25000); a call that keeps advancing is cut off, without a verdict, after 90000",
           "recovery is required of implicit solvers only while the derivatives they recorded are finite",
           "the right-hand side is finite during construction"]
REAL = ["nbkode.core", "nbkode.buffer", "nbkode.multistep.*", "nbkode.runge_kutta.*", "nbkode.nbcompat.zeros",
        "nbkode.event_handler"]


def gen(rng, tier):
    mode = rng.choice(["burst", "burst", "burst", "domain", "domain", "blow", "rest", "quad", "tiny"])
    implicit = rng.random() < 0.4
    if mode == "quad":
        implicit = True
    names = models.IMPLICIT if implicit else models.ADAPTIVE
    if mode == "tiny":
        implicit = False
        names = rng.choice([models.ADAPTIVE, models.FIXED])
    kinds = {"blow": ["blow"], "rest": ["rest", "const"], "quad": ["quad"]}.get(mode, ["lin", "osc", "logistic", "pend", "ring"])
    cfg = G.gen_cfg(rng, names=names, kinds=kinds, bound=0.0, params=0.1)
    prob, s = cfg["prob"], cfg["prob"].get("tscale", 1.0)
    o = cfg.get("opts", {})
    if "rtol" in o:
        o["rtol"] = max(o["rtol"], 1e-5)
    if "atol" in o:
        o["atol"] = max(o["atol"], 1e-7)
    if mode == "blow" and rng.random() < 0.4:
        prob["p"]["exp"] = True
    if mode == "domain":
        d = {"val": rng.choice(["nan", "inf", "-inf"])}
        if rng.random() < 0.6 or prob["kind"] in ("ring",):
            # in the problem's own time, which is (t - toff) / tscale
            d["t"] = cfg["t0"] / s + rnd(rng.uniform(0.4, 4))
        else:
            side = rng.choice([1, -1])
            d.update(y=rnd(prob["y0"][0] + side * rng.uniform(0.05, 0.6)), side=side)
        prob["domain"] = d
        cfg.pop("starter", None)
        if implicit:
            cfg["starter"] = None
    if mode == "rest":
        cfg.pop("params", None)
        if rng.random() < 0.5:
            o.pop("max_step", None)
        if prob["kind"] == "const" and rng.random() < 0.5:
            prob["p"]["slope"] = [0.0] * prob["dim"]
    if mode == "quad":
        cfg["starter"] = None
        cfg["h"] = cfg["h"] * rng.choice([1, 2, 5, 20])
    if mode == "tiny" and "h" in cfg:
        if cfg["t0"] == 0.0:
            cfg["t0"] = rng.choice([1.0, -3.0]) * s
        cfg["h"] = abs(cfg["t0"]) * rng.choice([2.0**-54, 1e-17, 1e-20, 1e-200])
        if rng.random() < 0.7:
            cfg.pop("starter", None)
            if cfg["solver"] in models.MULTISTEP:
                cfg["starter"] = None
    elif mode == "tiny":
        key = rng.choice(["first_step", "max_step"])
        o[key] = rng.choice([1e-20, 1e-30, 1e-300]) * s
        if cfg["t0"] == 0.0:
            cfg["t0"] = rng.choice([1.0, -3.0]) * s
    if rng.random() < 0.1 and not implicit:
        o["min_step"] = 1e-4 * s
    ops = []
    for _ in range(rng.randrange(2, 10)):
        if mode == "burst" and rng.random() < 0.5:
            ops.append({"op": "burst", "kind": rng.choice(["nan", "inf"]), "at": rng.choice([1, 1, 2, 3, rng.randrange(1, 60)]),
                        "len": rng.choice([1, 1, 2, 5, rng.randrange(1, 80), 10**9])})
            if rng.random() < 0.5:  # only one of the components
                ops[-1]["comp"] = rng.randrange(prob["dim"])
        if mode == "burst" and rng.random() < 0.3:
            ops.append({"op": "heal"})
        op = {"op": rng.choice(["step", "step", "skip", "nstep", "nskip", "upto", "run", "run", "events"])}
        if op["op"] in ("nstep", "nskip"):
            op["n"] = rng.randrange(1, 9)
        elif op["op"] in ("upto", "run", "events"):
            op["x"] = rnd(10 ** rng.uniform(-1.5, 0.6), 4) * s
            if mode == "rest" and rng.random() < 0.3:
                op["x"] *= 1000
            if implicit:
                op["x"] = min(op["x"], 60 * cfg["h"])
        ops.append(op)
    if mode == "burst":
        ops.append({"op": "heal"})
    return {"mode": mode, "cfg": cfg, "ops": ops}


class Patience(world.Callbacks):
    """Raises Budget when no step is accepted for BUDGET evaluations, Slow after TOTAL."""

    sol = None
    t_mark = None
    n_call = 0

    def begin(self, sol):
        self.sol, self.t_mark, self.n_call = sol, float(sol.t), self.n
        self.limit = self.n + BUDGET

    def rhs(self, t, y):
        if self.n + 1 > self.limit and self.sol is not None:
            if float(self.sol.t) > self.t_mark:
                if self.n - self.n_call > TOTAL:
                    raise world.Slow(f"{self.n - self.n_call} evaluations")
                self.t_mark = float(self.sol.t)
                self.limit = self.n + BUDGET
        return super().rhs(t, y)


def run(scn, ctx):
    cfg = dict(scn["cfg"])
    name = cfg["solver"]
    adaptive = name in models.ADAPTIVE
    f = world.pure_f(cfg)
    cb = Patience(problems.make(cfg["prob"]), budget=BUDGET)
    st, sol = guarded(world.build, ctx.nb, cfg, cb)
    if st == "budget":
        raise Viol("hang", f"{name}: constructor: {sol}")
    if st != "ok":
        raise Skip(f"constructor {type(sol).__name__}")
    ctx.log.count("solver:" + name)
    ctx.log.count("mode:" + scn["mode"])
    ctx.log.mark(name, scn["mode"], cfg["prob"]["kind"], cfg["prob"]["dim"])
    t_start = float(sol.t)
    bad = 0  # non-finite evaluations or refusals seen
    clean = True  # no burst armed
    dirty = False  # a burst was armed since the last heal
    for op in scn["ops"]:
        if op["op"] == "burst":
            cb.arm({"on": "rhs", "kind": op["kind"], "at": op["at"], "len": op["len"], "comp": op.get("comp")})
            clean, dirty = False, True
            continue
        if op["op"] == "heal":
            bad += cb.fired
            if cb.fired:
                ctx.log.count("fault:rhs:" + cb.plan["kind"])
                ctx.log.count("non-finite evaluations", cb.fired)
            fired = cb.fired
            cb.disarm()
            cb.fired = 0
            clean = True
            if dirty and fired:
                recover(scn, cfg, sol, cb, ctx, adaptive)
            dirty = False
            continue
        t0, y0, f0 = world.state(sol)
        if not np.all(np.isfinite(y0)) or np.max(np.abs(y0)) > 1e12:
            break
        h0 = fl(sol.h)
        n0, fired0 = cb.n, cb.fired
        cb.begin(sol)
        what = f"{name} ({scn['mode']}): {op['op']} {op.get('n', op.get('x', ''))} from t={t0!r}"
        st, v = guarded(call(op, sol, t0))
        ctx.log.count("op:" + op["op"])
        if isinstance(v, world.Slow):
            ctx.log.count("cut off while advancing")
            break
        if st == "budget":
            raise Viol("hang", f"{what}: no end after {cb.n - n0} evaluations, now at t={float(sol.t)!r} h={fl(sol.h)!r}")
        t, y, fy = world.state(sol)
        ctx.log.mark(op["op"], st, t > t0, cb.fired > fired0)
        ctx.log.add(op["op"], st, t, y)
        ctx.steps += 1
        if st == "exc":
            bad += 1
        if not np.isfinite(t) or t < t0:
            raise Viol("progress", f"{what}: now at t={t!r}")
        if adaptive and not (np.all(np.isfinite(y)) and np.all(np.isfinite(fy))):
            raise Viol("finite", f"{what}: accepted y={y.tolist()} f={fy.tolist()} at t={t!r}")
        if adaptive and not close(fy, f(t, y), 1e-9, 1e-12):
            raise Viol("state", f"{what}: derivative {fy.tolist()} at t={t!r}, rhs there is {f(t, y).tolist()}")
        if st == "ok":
            need = {"step": t > t0, "skip": t > t0, "nstep": t > t0, "nskip": t > t0,
                    "run": t >= t0 + op.get("x", 0), "events": t >= t0 + op.get("x", 0),
                    "upto": t > t0 or t0 + h0 > t0 + op.get("x", 0) * (1 - 1e-9) - 4 * np.spacing(abs(t0)) or not clean}[op["op"]]
            if not need:
                raise Viol("progress", f"{what}: returned without reaching its target, at t={t!r}, h={h0!r}")
        else:
            if op["op"] in ("step", "skip") and not (t == t0 and np.array_equal(y, y0, equal_nan=True) and np.array_equal(fy, f0, equal_nan=True)):
                raise Viol("state", f"{what}: raised {v!r} but moved to ({t!r}, {y.tolist()})")
            if op["op"] in ("step", "skip") and fl(sol.h) != h0:
                raise Viol("state", f"{what}: raised {v!r} and changed the next step size from {h0!r} to {fl(sol.h)!r}")
            if clean and adaptive and scn["mode"] in ("burst", "rest") and fl(sol.h) < 1e300:
                raise Viol("exc", f"{what}: {v!r} although the right-hand side behaves")
    ctx.sim += float(sol.t) - t_start
    ctx.nontrivial = bad > 0 or scn["mode"] == "rest"


def call(op, sol, t0):
    k = op["op"]
    if k in ("step", "skip"):
        return getattr(sol, k)
    if k == "nstep":
        return lambda: sol.step(n=op["n"])
    if k == "nskip":
        return lambda: sol.skip(n=op["n"])
    if k == "upto":
        return lambda: sol.skip(upto_t=t0 + op["x"])
    if k == "run":
        return lambda: sol.run([t0 + 0.3 * op["x"], t0 + op["x"]])
    return lambda: sol.run_events(t0 + op["x"], [lambda t, y: y[0] - 0.7, lambda t, y: t - t0 - 0.4 * op["x"]])


def recover(scn, cfg, sol, cb, ctx, adaptive):
    """The right-hand side behaves again: the next calls advance."""
    name = cfg["solver"]
    for i in range(3):
        t0 = float(sol.t)
        if not adaptive:
            if not (np.all(np.isfinite(sol.y)) and np.all(np.isfinite(sol.f))):
                return
            if models.steps_used(name) > 1:
                # older recorded derivatives may be non-finite as well
                ts = [t0 - (j + 0.5) * cfg["h"] for j in range(models.steps_used(name) - 1)]
                for x in ts:
                    st, v = guarded(sol.interpolate, x)
                    if st == "ok" and not np.all(np.isfinite(v)):
                        return
        cb.begin(sol)
        st, v = guarded(sol.step if i != 1 else sol.skip)
        if st == "budget":
            raise Viol("hang", f"{name}: step after the rhs recovered at t={t0!r}")
        if st != "ok" or not float(sol.t) > t0:
            raise Viol("recover", f"{name}: right-hand side is finite again but step() from t={t0!r} "
                                  f"{'raised ' + repr(v) if st != 'ok' else 'did not advance'}")
        if not np.all(np.isfinite(np.asarray(sol.y, float))):
            raise Viol("finite", f"{name}: step after recovery from t={t0!r} gives {np.asarray(sol.y).tolist()}")
    ctx.log.count("recoveries")
