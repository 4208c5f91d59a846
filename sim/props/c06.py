"""C06: stop conditions are exact and t_bound is never crossed."""

import numpy as np

from .. import gen as G
from .. import models, problems, world
from . import base
from .base import Ref, Skip, Viol

CATS = ("stop", "rows", "exc", "move", "bound")
RUNS = {"quick": 25000, "thorough": 375000}
WALL = {"quick": 110, "thorough": 3000}
RULE = ("seeded configuration (70% with t_bound on / one ulp around / between step ends, also inside the multistep "
        "startup) and history of 3-14 step/skip/run/refused calls whose n, upto_t and times coincide with, or are "
        "ulps away from, step ends; optionally driven to exhaustion; the steps taken, rows returned, errors raised "
        "and the final time are compared with the reference step grid; non-trivial: the solver advanced")
ASSUMES = ["an adaptive step whose proposed end exceeds the limit but whose accepted end (after a rejection) does "
           "not may or may not be taken"]
KEY = "adaptive-stops-before-t_bound"


def gen(rng, tier):
    cfg = G.gen_cfg(rng, bound=0.7, params=0.1)
    mode = rng.random()
    if mode < 0.12 and cfg["solver"] in models.MULTISTEP and models.steps_used(cfg["solver"]) > 1:
        cfg.pop("bound_at", None)
        return {"mode": "startup", "cfg": cfg, "j": rng.randrange(0, models.steps_used(cfg["solver"])),
                "th": rng.choice([0.0, 0.5, -1e-9, 1e-9, 0.999])}
    ops = G.gen_ops(rng, rng.randrange(3, 15), step=4, skip=4, run=1, bad=2, interp=0.5)
    scn = {"mode": "ops", "cfg": cfg, "ops": ops}
    if "bound_at" in cfg and rng.random() < 0.6:
        scn["exhaust"] = rng.choice(["skip", "step", "skip_n", "step_n", "upto", "run"])
    return scn


def run(scn, ctx):
    if scn["mode"] == "startup":
        return startup(scn, ctx)
    cfg, ref, sol, cb, fo = base.start(scn, ctx, CATS)
    limit = cfg.get("t_bound", float("inf"))

    def after(op):
        if float(sol.t) > limit:
            raise Viol("bound", f"solver at t={float(sol.t)!r}, beyond t_bound={limit!r}")

    base.drive(fo, scn["ops"], ctx, after)
    if scn.get("exhaust") and np.isfinite(limit):
        exhaust(scn["exhaust"], fo, limit, ctx)
        after(None)


def exhaust(how, fo, limit, ctx):
    ref, sol = fo.ref, fo.sol
    for _ in range(400):
        fo.cb.limit = fo.cb.n + fo.cb.budget
        t_before = float(sol.t)
        lo, hi = ref.reach(fo.k, 1, limit)
        if how in ("skip", "step", "skip_n", "step_n"):
            fn = getattr(sol, how[:4])
            st, v = world.guarded(fn, **({"n": 2} if how.endswith("_n") else {}))
        elif how == "upto":
            st, v = world.guarded(sol.skip, upto_t=limit)
        else:
            st, v = world.guarded(sol.run, limit)
        k = fo.locate(f"driving to t_bound with {how}")
        fo.k = k
        if how in ("upto", "run"):
            if st != "ok":
                fo.fail("exc", f"{how} to t_bound={limit!r}: {v!r}")
            break
        if st == "exc":
            if not isinstance(v, RuntimeError):
                fo.fail("exc", f"{how} at t_bound: {v!r}")
            break
        if float(sol.t) == t_before:
            fo.fail("exc", f"{how} at t={t_before!r}, t_bound={limit!r} neither advanced nor raised")
            break
    t = float(sol.t)
    ctx.log.count("driven to t_bound")
    lo, hi = ref.reach(fo.k, 1, limit)
    if lo >= 1:
        fo.fail("stop", f"driven with {how} to t_bound={limit!r}: stopped at t={t!r} although the next step ends at {ref.t(fo.k + 1)!r}")
    elif not ref.fixed and t < limit:
        ctx.finding(KEY, f"{fo.cfg['solver']} driven with {how} to t_bound={limit!r} ends at t={t!r}, next step of {ref.hs[fo.k]!r} not shortened")


def startup(scn, ctx):
    """t_bound inside the points the constructor of a multistep solver computes."""
    cfg = dict(scn["cfg"])
    ref = Ref(ctx.nb, cfg)
    h, k = cfg["h"], models.steps_used(cfg["solver"])
    end = ref.t(0)
    cfg["t_bound"] = cfg["t0"] + (scn["j"] + scn["th"]) * h
    if cfg["t_bound"] < cfg["t0"]:
        raise Skip("bound before t0")
    if world.teq(cfg["t_bound"], end):
        raise Skip("bound on the last startup point")
    cb = world.Callbacks(problems.make(cfg["prob"]))
    st, v = world.guarded(world.build, ctx.nb, cfg, cb)
    ctx.log.count("op:constructor with t_bound in startup")
    ctx.log.count("solver:" + cfg["solver"])
    ctx.log.mark("startup", cfg["solver"], scn["j"], scn["th"], st)
    ctx.nontrivial = True
    if st == "ok":
        if float(v.t) > cfg["t_bound"]:
            raise Viol("bound", f"{cfg['solver']}: startup went to t={float(v.t)!r} beyond t_bound={cfg['t_bound']!r}")
    elif end <= cfg["t_bound"]:
        raise Viol("exc", f"{cfg['solver']}: startup to {end!r} refused although t_bound={cfg['t_bound']!r}: {v!r}")
    elif not isinstance(v, (ValueError, RuntimeError)):
        raise Viol("exc", f"{cfg['solver']}: startup beyond t_bound raised {v!r}")
    ctx.log.add("startup", st, cfg["t_bound"])
    del k
