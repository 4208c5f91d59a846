"""C04: adaptive step control honours tolerances and options."""

import itertools

import numpy as np
from scipy.integrate._ivp.common import select_initial_step

from .. import gen as G
from .. import models, problems, world
from ..problems import rnd
from ..world import close, fl, guarded, teq
from .base import Skip, Viol

WOBBLE = 1 + 3e-16 * np.random.RandomState(20).choice([-1.0, 1.0], (61, 2, 128))
CATS = ("first", "accept", "h", "max", "state", "exc", "hang")
RUNS = {"quick": 40000, "thorough": 600000}
WALL = {"quick": 110, "thorough": 3000}
RULE = ("seeded embedded pair, option set (rtol, atol, first_step, min/max_step, min/max_factor, safety_factor), "
        "problem (smooth, pulse, van der Pol, rest point, polynomial) and history of 4-20 single steps, with "
        "injected exceptions in some; each accepted step, the number of rejections behind it and the next step size "
        "are compared with an independent controller started from the observed point; non-trivial: a step was compared")
ASSUMES = ["an attempt whose error norm is within the rounding noise of 1 may go either way",
           "the automatic first step is scipy's select_initial_step (Hairer/Norsett/Wanner), clipped to [min_step, max_step]"]
REAL = ["nbkode.core", "nbkode.buffer", "nbkode.runge_kutta.core", "nbkode.runge_kutta.explicit"]


def gen(rng, tier):
    kinds = rng.choice([None, ["pulse"], ["pulse"], ["vdp"], ["rest"], ["const"], ["pend"], ["logistic"]])
    cfg = G.gen_cfg(rng, names=models.ADAPTIVE, kinds=kinds, bound=0.0, rich=True)
    if kinds == ["rest"]:
        cfg["opts"].setdefault("max_step", rnd(rng.uniform(0.2, 5)) * cfg["prob"].get("tscale", 1.0))
        cfg.pop("params", None)
    s = cfg["prob"].get("tscale", 1.0)
    if rng.random() < 0.15:
        cfg["opts"]["min_step"] = rng.choice([1e-4, 1e-3, 1e-2]) * s
    ops = []
    for _ in range(rng.randrange(4, 21)):
        op = {"op": rng.choice(["step", "skip", "run", "step1"])}
        if rng.random() < 0.15:
            G.gen_fault(rng, op, event=False)
        ops.append(op)
    return {"cfg": cfg, "ops": ops}


def run(scn, ctx):
    cfg = dict(scn["cfg"])
    name, opts = cfg["solver"], cfg.get("opts", {})
    o = {**models.OPT_DEFAULTS, **opts}
    f = world.pure_f(cfg)
    cb = world.Callbacks(problems.make(cfg["prob"]))
    st, sol = guarded(world.build, ctx.nb, cfg, cb)
    if st != "ok":
        raise Viol("exc", f"{name}({opts}): constructor: {sol!r}")
    ctx.log.count("solver:" + name)
    ctx.log.mark(name, cfg["prob"]["kind"], sorted(opts))
    first(cfg, sol, f, o, name)
    cb.trace = []
    steps = 0
    for op in scn["ops"]:
        t, y, fy = world.state(sol)
        h = fl(sol.h)
        if not np.all(np.isfinite(y)) or np.max(np.abs(y)) > 1e8:
            break
        what = f"{name}({opts}) {op['op']} from t={t!r}"
        cb.trace.clear()
        fault = op.get("fault")
        if fault:
            cb.arm(fault)
        cb.limit = cb.n + cb.budget
        call = {"step": sol.step, "skip": sol.skip, "step1": lambda: sol.step(n=1),
                "run": lambda: sol.run(t + 1e-9 * h)}[op["op"]]
        st, v = guarded(call)
        if fault:
            cb.disarm()
        fired = cb.fired if fault else 0
        if fired:
            ctx.log.count(f"fault:{fault['on']}:{fault['kind']}")
        ctx.log.count("op:" + op["op"])
        if st == "budget":
            raise Viol("hang", f"{what}: {v}")
        far = max([x - t for x in cb.trace], default=0.0)
        if far > o["max_step"] * (1 + 1e-9) + 4 * np.spacing(abs(t)):
            raise Viol("max", f"{what}: evaluated the rhs {far!r} ahead, max_step={o['max_step']!r}")
        t1, y1, f1 = world.state(sol)
        ctx.log.mark(op["op"], st, bool(fired), t1 > t)
        ctx.log.add(op["op"], st, t1, y1, fl(sol.h))
        if t1 == t:
            if st == "ok":
                raise Skip("no advance")
            if fl(sol.h) != h:
                raise Viol("h", f"{what}: failed ({v!r}) and changed the next step size from {h!r} to {fl(sol.h)!r}")
            if not fired:
                if not giveup(name, opts, f, t, y, fy, h):
                    raise Viol("exc", f"{what}: {v!r}")
                break
            continue
        steps += compare(name, opts, f, (t, y, fy, h), (t1, y1, fl(sol.h)), what, ctx)
    ctx.steps += steps
    ctx.sim += float(sol.t) - cfg["t0"]
    ctx.nontrivial = steps > 0


def first(cfg, sol, f, o, name):
    h = fl(sol.h)
    t0, y0 = float(sol.t), np.array(sol.y, dtype=float)
    want = o.get("first_step")
    if want is None:
        want = select_initial_step(f, t0, y0, f(t0, y0), 1, models.PAIRS[name].q, o["rtol"], o["atol"])
    want = min(o["max_step"], max(o["min_step"], want))
    if not close(h, want, 1e-9, 0.0):
        raise Viol("first", f"{name}({cfg.get('opts')}): first step size {h!r} instead of {want!r}")


def giveup(name, opts, f, t, y, fy, h):
    try:
        models.adaptive_step(name, opts, f, t, y, fy, h)
    except models.Giveup:
        return True
    return False


def compare(name, opts, f, old, new, what, ctx):
    t, y, fy, h = old
    t1, y1, h1 = new
    outs = []
    eps = 3e-16
    rs = np.arange(y.size) % 2 * 2 - 1
    jitters = [None, None, None, None, [1, -1], [1, 1, -1, -1, 1], "values", "values", "values"]
    wobble = itertools.cycle(WOBBLE)
    for dy, jit in zip((0.0, eps * rs, -eps * rs, eps, 0.0, eps, 0.0, 0.0, 0.0), jitters):  # rounding noise of the estimate
        g = f
        if jit == "values":  # the stages are sums in some order

            def g(t, y):
                r = next(wobble)
                return f(t, y * r[0, : y.size]) * r[1, : y.size]

        elif jit:
            it = itertools.cycle(jit)

            def g(t, y):
                return f(t + next(it) * float(np.spacing(abs(t) + h)), y)

        try:
            outs.append(models.adaptive_step(name, opts, g, t, y * (1 + dy), fy * (1 + dy * 2), h))
        except models.Giveup:
            outs.append(None)
    m = outs[0]
    if m is None or any(x is None or x["rejects"] != m["rejects"] for x in outs):
        if any(x is not None for x in outs) or m is not None:
            raise Skip("on the threshold")
        raise Viol("accept", f"{what}: accepted a step to {t1!r}, the controller gives up from h={h!r}")
    noise = max(abs(x["margin"] - m["margin"]) for x in outs)
    if m["margin"] < 1e-7 + 20 * noise:
        raise Skip("on the threshold")
    ctx.log.count("rejections", m["rejects"])
    if not teq(t1 - t, m["h_taken"], 1e-9 + 20 * max(abs(x["h_taken"] - m["h_taken"]) for x in outs)) or (
            abs((t1 - t) - m["h_taken"]) > 1e-6 * m["h_taken"] + 8 * np.spacing(max(abs(t1), abs(t)))):
        raise Viol("accept", f"{what}: h={h!r}: accepted step of {t1 - t!r}, the controller accepts {m['h_taken']!r} "
                             f"after {m['rejects']} rejections (error {m['err']!r})")
    tol = 1e-9 * m["h_next"] + 20 * max(abs(x["h_next"] - m["h_next"]) for x in outs)
    if not abs(h1 - m["h_next"]) <= tol:
        raise Viol("h", f"{what}: next step size {h1!r} instead of {m['h_next']!r} "
                        f"(error {m['err']!r}, step {m['h_taken']!r})")
    if not close(y1, m["y"], 1e-7, 1e-8 * (1 + np.max(np.abs(y1)))):
        raise Viol("state", f"{what}: state {y1.tolist()} instead of {m['y'].tolist()}")
    return 1
