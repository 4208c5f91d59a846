"""C19: callbacks are evaluated only where, and only as often as, the integration needs."""

import numpy as np

from .. import gen as G
from .. import models, problems, world
from . import base
from .base import Follower, Ref, Skip, Viol

CATS = ("where", "bound", "often", "hang")
RUNS = {"quick": 16000, "thorough": 240000}
WALL = {"quick": 110, "thorough": 3000}
RULE = ("seeded configuration (half with t_bound) and history of 3-12 calls of all kinds, some hit by an injected "
        "exception or allocation failure and some refused; the time of every evaluation of the right-hand side and of "
        "the event functions is recorded and compared with the steps that were attempted, and their number with the "
        "cost of these steps in the reference run, which is itself checked against the number of stages of the method "
        "and the rejections of an independent controller; non-trivial: the solver advanced")
ASSUMES = ["of an implicit step only the position and an upper bound of the number of evaluations is checked",
           "one step of DOP853 costs three further evaluations when its dense output is first used"]
KEY = "starter-evaluates-beyond-t_bound"
ROOT = 140  # evaluations of an event function to locate one root


def gen(rng, tier):
    cfg = G.gen_cfg(rng, bound=0.5, offset=0.2, rich=rng.random() < 0.4)
    if "bound_at" in cfg and rng.random() < 0.4:
        cfg["bound_at"][0] = rng.choice([0, 0, 1])
    ops = G.gen_ops(rng, rng.randrange(3, 13), step=3, skip=2, run=3, run_events=3, interp=2, bad=1, _terminal=0.15)
    for op in ops:
        if rng.random() < 0.15:
            G.gen_fault(rng, op)
    return {"cfg": cfg, "ops": ops}


def stages(name):
    """Evaluations of one attempted step (None: depends on the iteration)."""
    if name == "ClientPair23":  # does not reuse the last stage
        return 4
    if name in models.PAIRS:
        return len(models.PAIRS[name].C)
    if name in models.RK:
        return len(models.RK[name][2])
    return None if name in models.IMPLICIT else 1


def run(scn, ctx):
    cfg = dict(scn["cfg"])
    name = cfg["solver"]
    ref = Ref(ctx.nb, cfg)
    G.place_bound(cfg, ref)
    ref = base.bounded(ctx.nb, cfg, ref)
    bound = cfg.get("t_bound", float("inf"))
    cb = world.Callbacks(problems.make(cfg["prob"]))
    cb.times = []
    st, sol = world.guarded(world.build, ctx.nb, cfg, cb)
    if st != "ok":
        raise Skip(f"constructor {sol!r}")
    ctx.log.count("solver:" + name)
    ctx.log.mark(name, cfg["prob"]["kind"], cfg.get("starter", "auto"), "t_bound" in cfg)
    construction(cfg, ref, cb.times, bound, ctx)
    fo = Follower(ref, cfg, sol, cb, ctx.log, ())
    fo.k = fo.locate("constructor")
    known, used = set(), set()
    for op in scn["ops"]:
        if fo.k > 300:
            break
        op = base.concrete(fo, op)
        if op is None:
            continue
        k = fo.k
        cb.times.clear()
        st = fo.do(op)
        ctx.steps += fo.k - k
        ctx.sim += ref.t(fo.k) - ref.t(k)
        ctx.nontrivial = ctx.nontrivial or fo.k > 0
        what = f"{name}: {op['op']} from t={ref.t(k)!r} to {ref.t(fo.k)!r}"
        where(op, ref, k, fo.k, st, cb.times, bound, what)
        often(op, ref, k, fo.k, st, cb.times, what, used)
        event_cost(ref, k, fo.k, cb.times, what)
        for j in range(k, fo.k):
            if j not in known:
                known.add(j)
                cost(cfg, ref, j)


def construction(cfg, ref, times, bound, ctx):
    name = cfg["solver"]
    over = [x for w, x in times if x > bound]
    adaptive = cfg.get("starter", "auto") == "auto" or cfg.get("starter") in models.ADAPTIVE
    if over and name in models.MULTISTEP and models.steps_used(name) > 1 and adaptive:
        ctx.finding(KEY, f"{name}: startup by an adaptive starter with t_bound={bound!r} evaluated the rhs at t={over[0]!r}")
    elif over:
        raise Viol("bound", f"{name}: the constructor evaluated the rhs at t={over[0]!r}, beyond t_bound={bound!r}")
    low = min(x for w, x in times)
    if low < cfg["t0"] - slack(low):
        raise Viol("where", f"{name}: the constructor evaluated the rhs at t={low!r}, before t0={cfg['t0']!r}")
    if name in models.MULTISTEP and models.steps_used(name) > 1 and cfg.get("starter", "auto") is not None:
        startup(cfg, len(times), ctx)
    elif len(times) > 6:
        raise Viol("often", f"{name}: the constructor evaluated the rhs {len(times)} times")


def startup(cfg, n, ctx):
    """The startup costs what the starter costs when it is used by itself."""
    starter = cfg.get("starter", "auto")
    if starter == "auto":
        starter = "RungeKutta45"
    k, t0, h = models.steps_used(cfg["solver"]), cfg["t0"], cfg["h"]
    cb = world.Callbacks(problems.make(cfg["prob"]))
    alone = {"solver": starter, "prob": cfg["prob"], "t0": t0, "opts": {}, "h": h, "params": cfg.get("params")}
    st, s = world.guarded(world.build, ctx.nb, alone, cb)
    if st != "ok":
        raise Skip("starter alone")
    if starter in models.ADAPTIVE:
        st, _ = world.guarded(s.run, [t0 + j * h for j in range(1, k)])
        most = cb.n + k  # and the derivatives at the points in between
    else:
        st, _ = world.guarded(s.skip, n=k - 1)
        most = cb.n + 1
    if st != "ok":
        raise Skip("starter alone")
    ctx.log.count("startups by " + ("an adaptive" if starter in models.ADAPTIVE else "a fixed step") + " method")
    if n > most:
        raise Viol("often", f"{cfg['solver']}: startup by {starter} evaluated the rhs {n} times instead of at most {most}")


def slack(*ts):
    return 16 * float(np.spacing(max(abs(x) for x in ts)))


def where(op, ref, k0, k1, st, times, bound, what):
    rhs = [x[1] for x in times if x[0] == "rhs"]
    ev = [x[1] for x in times if x[0] == "event"]
    if rhs and max(rhs) > bound:
        raise Viol("bound", f"{what}: evaluated the rhs at t={max(rhs)!r}, beyond t_bound={bound!r}")
    last = k1 if st == "ok" else k1 + 1
    hi = ref.t(k1)
    for j in range(k0, last):
        hi = max(hi, ref.t(j) + ref.hs[j])
    if op["op"] in ("interp", "bad"):
        hi = ref.t(k1)
    lo = ref.hist_start(k0)
    for x in rhs:
        if x > hi + slack(x, hi) or x < lo - slack(x, lo):
            raise Viol("where", f"{what}: evaluated the rhs at t={x!r}, outside [{lo!r}, {hi!r}]")
    # the step from k1 on is attempted only in calls that failed on the way
    lo, hi = ref.t(k0), ref.t(k1)
    for x in ev:
        if x > hi + slack(x, hi) or x < lo - slack(x, lo):
            raise Viol("where", f"{what}: evaluated an event function at t={x!r}, outside [{lo!r}, {hi!r}]")


def often(op, ref, k0, k1, st, times, what, used):
    n = sum(x[0] == "rhs" for x in times)
    steps = most = sum(ref.cost[j] for j in range(k0, k1)) if k1 > k0 else 0
    if st != "ok" and op["op"] not in ("interp", "bad"):
        ref.t(k1 + 1)
        most += ref.cost[k1]
    if ref.name in models.IMPLICIT:
        most = 2 * most + 20 if most else 0
    if ref.name == "DOP853" and op["op"] not in ("step", "skip"):
        most += 3 * (k1 - k0) + (0 if k0 in used else 3)
        if st == "ok" and n >= steps + 3:
            used.add(k0)  # its dense output has been set up
    if n > most:
        raise Viol("often", f"{what}: evaluated the rhs {n} times instead of at most {most}")


def event_cost(ref, k0, k1, times, what):
    """Event functions are evaluated at the points, and elsewhere only in steps with a crossing."""
    seen = {}
    for x in times:
        if x[0] == "event":
            seen.setdefault(id(x[2]), (x[2], []))[1].append(x[1])
    nodes = [ref.node(j) for j in range(k0, k1 + 1)]
    for g, ts in seen.values():
        vals = [float(g(t, y)) for t, y, _ in nodes]
        crossed = 0
        for (a, v), (b, w) in zip(zip(nodes, vals), zip(nodes[1:], vals[1:])):
            noise = 1e-9 * max(abs(v), abs(w))  # the solver's points may differ by rounding
            n = sum(a[0] < t < b[0] for t in ts)
            if v * w <= 0 or min(abs(v), abs(w)) <= noise or not np.isfinite(v * w):
                crossed += 1
                if n > ROOT:
                    raise Viol("often", f"{what}: evaluated an event function {n} times in the step from {a[0]!r} to {b[0]!r}")
            elif n:
                raise Viol("often", f"{what}: evaluated an event function {n} times inside the step from {a[0]!r} to "
                                    f"{b[0]!r}, where its values at the ends are {v!r} and {w!r}")
        most = 3 + 3 * len(nodes) + crossed * ROOT
        if len(ts) > most:
            raise Viol("often", f"{what}: evaluated an event function {len(ts)} times instead of at most {most}")


def cost(cfg, ref, j):
    """The reference's own step j costs what the method says."""
    name, n, s = ref.name, ref.cost[j], stages(ref.name)
    t, y, f = ref.node(j)
    if s is None:
        most = 60 * (y.size + 2)
    elif ref.fixed:
        most = s
    else:
        tries = 1
        if ref.t(j + 1) - t < ref.hs[j] * (1 - 1e-9) - slack(t):
            try:
                m = models.adaptive_step(name, cfg.get("opts", {}), ref.f, t, y, f, ref.hs[j])
            except models.Giveup:
                return
            if m["margin"] < 1e-6 or abs(m["t"] - ref.t(j + 1)) > 1e-9 * m["h_taken"] + slack(t):
                return
            tries += m["rejects"]
        most = s * tries
    if n > most:
        raise Viol("often", f"{name}: the step from t={t!r} to {ref.t(j + 1)!r} evaluated the rhs {n} times instead of at most {most}")
