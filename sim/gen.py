"""Seeded generation of configurations, call histories and fault plans."""

from . import models, problems
from .problems import rnd

ONE_STEP_STARTERS = ("RungeKutta4", "Heun3", "Runge2", "Runge3", "RungeKutta3_8",
                     "ForwardEuler", "BackwardEuler", "AdamsBashforth1", "BDF1")


def pick_solver(rng, names=None):
    if names is not None:
        return rng.choice(list(names))
    x = rng.random()
    if x < 0.35:
        return rng.choice(models.ADAPTIVE)
    if x < 0.5:
        return rng.choice(models.FIXED_RK)
    return rng.choice(models.MULTISTEP)


def gen_opts(rng, scale, rich=False):
    o = {}
    if rng.random() < 0.7:
        o["rtol"] = 10.0 ** rng.choice([-2, -3, -3, -4, -5, -6])
    if rng.random() < 0.7:
        o["atol"] = 10.0 ** rng.choice([-4, -6, -6, -7, -9])
    if rng.random() < (0.7 if rich else 0.4):
        o["first_step"] = rnd(10 ** rng.uniform(-3, 0.7 if rich else 0), 5) * scale
    if rng.random() < (0.5 if rich else 0.4):
        o["max_step"] = rnd(10 ** rng.uniform(-1.5, 0.3), 4) * scale
    if rng.random() < (0.4 if rich else 0.1):
        o["max_factor"] = rng.choice([1.5, 2.0, 3.0, 5.0, 20.0])
    if rng.random() < (0.4 if rich else 0.1):
        o["min_factor"] = rng.choice([0.05, 0.1, 0.33, 0.5, 0.7])
    if rng.random() < (0.4 if rich else 0.1):
        o["safety_factor"] = rng.choice([0.5, 0.7, 0.8, 0.95])
    if rng.random() < 0.1:
        o["min_step"] = 1e-9 * scale
    return o


def gen_cfg(rng, names=None, kinds=None, bound=0.2, params=0.25, rich=False,
            starters=True, tscales=True, offset=0.0):
    name = pick_solver(rng, names)
    prob = problems.gen(rng, kinds)
    s = rng.choice([1.0] * 12 + [1e-3] * 4 + [50.0] * 4 + [2e-6] * 2 + [1e-12, 1e6]) if tscales else 1.0
    if s != 1.0:
        prob["tscale"] = s
    t0 = rng.choice([0.0, 0.0, 1.0, -2.5, rnd(rng.uniform(-5, 5)), 123.25]) * s
    if s == 1.0 and prob["kind"] != "poly" and rng.random() < 0.03:
        t0 = rng.choice([1e4, -1e4, 54321.5])
    if s < 1 and rng.random() < offset:  # steps tiny compared with the time
        t0 = prob["toff"] = rng.choice([1.0, -2.5, 123.25] if s < 1e-4 else [1e3, -2e4, 123.25]) if s > 1e-8 else 1e-4
    cfg = {"solver": name, "prob": prob, "t0": t0}
    if name in models.ADAPTIVE:
        cfg["opts"] = gen_opts(rng, s, rich)
        if prob["kind"] in ("poly", "const"):
            cfg["opts"].setdefault("max_step", rnd(rng.uniform(0.2, 2)) * s)
    else:
        hi = 0.12 if name in models.MULTISTEP else 0.3
        cfg["h"] = rng.choice([0.1, 0.0625, 0.05, rnd(rng.uniform(0.01, hi)), rnd(rng.uniform(0.03, hi))]) * s
        if name in models.MULTISTEP and starters:
            x = rng.random()
            if x < 0.25:
                cfg["starter"] = None
            elif x < 0.5:
                cfg["starter"] = rng.choice(ONE_STEP_STARTERS + models.ADAPTIVE)
    if rng.random() < params:
        p1 = rng.uniform(-0.2, 0.2) / s
        cfg["params"] = [rnd(rng.uniform(0.6, 1.4)), rnd(abs(p1) if prob["kind"] == "logistic" else p1, 6)]
    if rng.random() < 0.35:
        cfg["forms"] = gen_forms(rng, cfg)
    if rng.random() < bound:
        # resolved later against the reference nodes: see place_bound
        cfg["bound_at"] = [rng.randrange(1, 25), rng.choice([0.0, 0.0, 0.3, 0.5, 0.999, -1e-3, -1e-7, -1e-10])]
    return cfg


def gen_forms(rng, cfg):
    """In which form the client passes the arguments of the constructor."""
    prob = cfg["prob"]
    fm = {"y0": rng.choice(["tuple", "array", "strided", "reversed", "int", "intarray"]),
          "t0": rng.choice(["scalar", "np", "0d", "int"])}
    if prob["dim"] == 1 and rng.random() < 0.6:
        fm["y0"] = rng.choice(["scalar", "np", "0d"])
    if fm["y0"] in ("int", "intarray"):
        if prob["kind"] in ("lin", "osc", "pend", "ring", "poly", "logistic"):
            prob["y0"] = [float(rng.choice([1, 1, 2])) * (1 if y > 0 else -1) for y in prob["y0"]]
        else:
            fm["y0"] = "array"
    if "params" in cfg:
        fm["params"] = rng.choice(["tuple", "array", "strided", "reversed"])
    for k in ("h", "first_step", "t_bound"):
        if rng.random() < 0.5:
            fm[k] = rng.choice(["np", "0d"])
    if cfg.get("h") is not None and "tscale" not in prob and rng.random() < 0.05:
        cfg["h"], fm["h"] = 1.0, "default"
    return fm


def place_bound(cfg, ref):
    """Turn the symbolic bound of cfg into t_bound (on / between reference nodes)."""
    if "bound_at" not in cfg:
        return
    j, th = cfg["bound_at"]
    a, b = ref.t(j), ref.t(j + 1)
    x = a if th == 0.0 else a + th * (b - a)
    lo = ref.t(0)
    cfg["t_bound"] = max(x, lo)


def when(rng, future=True, past=True, far=6):
    """A symbolic time relative to the solver's position."""
    c = []
    if future:
        c += [["rel", rnd(rng.uniform(0.0, far), 3)], ["btw", rng.randrange(0, far), rnd(rng.random(), 3)],
              ["node", rng.randrange(0, far)], ["ulp", rng.randrange(1, far), rng.choice([-1, 1, 2])]]
    if past:
        c += [["hist", rng.randrange(0, 5), rnd(rng.random(), 3)], ["hnode", rng.randrange(0, 6)]]
    return rng.choice(c)


def gen_events(rng, n=None, terminal=0.0, far=8):
    out = []
    n = n or (rng.randrange(4, 10) if rng.random() < 0.04 else rng.choice([1, 1, 2, 3]))
    if n > 3 and rng.random() < 0.08:
        n = rng.choice([17, 33, 65])
    for _ in range(n):
        kind = rng.choice(["time", "time", "comp", "comp", "sin", "mix", "cubic", "pair", "steep"])
        e = {"kind": kind}
        if kind in ("time", "cubic", "steep"):
            e["at"] = rng.choice([["btw", rng.randrange(0, far), rnd(rng.random(), 3)],
                                  ["btw", rng.randrange(0, far), rnd(rng.random(), 3)],
                                  ["node", rng.randrange(0, far)]])
            if kind == "steep":
                e["steep"] = rng.choice([3.0, 50.0, 1e4, 1e9])
        elif kind == "pair":
            # two zeros, the second one often exactly on a step end
            e["at"] = ["btw", rng.randrange(0, far), rnd(rng.random(), 3)]
            e["at2"] = ["node", max(e["at"][1] + rng.choice([-1, 0, 1, 2, 2, 3, 4]), 1)] if rng.random() < 0.7 else ["btw", rng.randrange(0, far), rnd(rng.random(), 3)]
        elif kind == "comp":
            e["i"] = rng.randrange(4)
            e["sg"] = rng.choice([1.0, -1.0])
            e["val"] = ["btw", rng.randrange(0, far), rnd(rng.random(), 3)]
        elif kind == "sin":
            e["at"] = ["btw", rng.randrange(0, far), rnd(rng.random(), 3)]
            e["turns"] = rnd(rng.uniform(0.05, 0.45), 3)
        else:
            e["turns"] = rnd(rng.uniform(0.05, 0.3), 3)
            e["c"] = rnd(rng.uniform(-0.5, 0.5), 3)
        if kind != "cubic":
            e["scale"] = rng.choice([0, 0, 0, 0, -3, -7, -10, 4, 8, -200, 150])
        if rng.random() < 0.5:
            e["direction"] = rng.choice([1, -1, 0, 1.0, -2, -0.5, 0.25])
        if rng.random() < terminal:
            e["terminal"] = rng.choice([True, True, True, 1, "np"])
            if "at2" in e and e["at2"] == ["node", e["at"][1] + 1]:  # both zeros in one step
                e["at2"][1] += 1
            if e.get("at") == ["node", 0]:  # starts at zero: outside the properties
                e["at"] = ["node", rng.randrange(1, far + 1)]
        out.append(e)
    return out


def resolve_events(ref, k, events):
    """Symbolic event positions -> concrete event specs (see ref.event_fn)."""
    import math

    from .ref import resolve

    out = []
    step = max(ref.t(k + 4) - ref.t(k), 1e-300) / 4
    for e in events:
        e = dict(e)
        if "at" in e:
            e["c"] = float(resolve(ref, k, e["at"]))
        if "at2" in e:
            e["d"] = float(resolve(ref, k, e["at2"]))
        if "val" in e:
            t = float(resolve(ref, k, e["val"]))
            j = k
            while ref.t(j + 1) < t:
                j += 1
            y = ref.dense(j + 1, t)
            e["c"] = float(y[e["i"] % len(y)])
        if "turns" in e:
            e["w"] = 2 * math.pi * e["turns"] / step
        if "steep" in e:
            e["w"] = e["steep"] / step
        out.append(e)
    return out


def gen_op(rng, weights, terminal=0.0):
    kinds = list(weights)
    kind = rng.choices(kinds, [weights[k] for k in kinds])[0]
    if kind in ("step", "skip"):
        op = {"op": kind}
        x = rng.random()
        if x < 0.3:
            pass
        elif x < 0.55:
            op["n"] = rng.choice([0, 1, 1, 2, 3, 5, 8])
        elif x < 0.8:
            op["upto"] = when(rng, past=rng.random() < 0.15)
        else:
            op["n"] = rng.choice([0, 1, 2, 3, 6])
            op["upto"] = when(rng, past=rng.random() < 0.15)
        if rng.random() < 0.04:  # a long stretch in one call
            n = rng.choice([16, 17, 31, 33, 64, rng.randrange(16, 130)])
            if rng.random() < 0.08:
                n = rng.choice([256, 257, 513, 1000, 1025, rng.randrange(130, 1100)])
            if rng.random() < 0.5:
                op["n"] = n
            else:
                op["upto"] = rng.choice([["btw", n, rnd(rng.random(), 3)], ["node", n]])
                op.pop("n", None)
        if rng.random() < 0.15:
            op["num"] = "np"
        return op
    if kind in ("run", "run_events"):
        n, far = rng.choice([1, 1, 2, 3, 5, 9]), 6
        if rng.random() < 0.03:  # a long table of times
            n, far = rng.choice([33, 64, rng.randrange(20, 160)]), rng.choice([3, 12, 40])
            if rng.random() < 0.08:
                n = rng.choice([257, 513, rng.randrange(160, 1100)])
        op = {"op": kind, "ts": [when(rng, past=rng.random() < 0.25, far=far) for _ in range(n)]}
        if rng.random() < 0.2:
            op["ts"].append(rng.choice(op["ts"]))
        if rng.random() < 0.12:  # a time just after another one
            op["ts"].append(["off", rng.choice(op["ts"]), rng.choice([1, 3, 40, 1000, 30000])])
        op["form"] = rng.choice(["list", "list", "tuple", "array", "strided", "int"])
        if n == 1 and rng.random() < 0.5:
            op["form"] = "scalar"
        if rng.random() < 0.015:  # nothing requested
            op["ts"] = []
        if kind == "run_events":
            op["events"] = gen_events(rng, terminal=terminal)
            if rng.random() < 0.15:  # the event functions (and the list) of the last such call once more
                op["again"] = True
            if rng.random() < 0.3:
                op["evform"] = rng.choice(["single", "tuple", "iter"])
        elif rng.random() < 0.5:
            op["sorted"] = True
        return op
    if kind == "interp":
        return {"op": "interp", "t": when(rng, future=False)}
    if kind == "bad":
        return {"op": "bad", "how": rng.choice(
            ["interp_future", "interp_past", "run_past", "run_past_future", "run_bound",
             "run_bound_unsorted", "run_bound_ulp", "step_bound", "skip_bound",
             "step_bound_ulp", "nstep_bound", "nskip_bound", "nan_" + rng.choice(
                 ["run", "run_mixed", "run_events", "step", "skip", "nstep", "nskip", "interp"])])}
    raise KeyError(kind)


def gen_ops(rng, n, _terminal=0.0, **weights):
    w = {k: v for k, v in weights.items() if v}
    return [gen_op(rng, w, _terminal) for _ in range(n)]


EXC_NAMES = ["SimFault", "ValueError", "ZeroDivisionError", "KeyboardInterrupt",
             "RuntimeError", "MemoryError", "OSError", "FloatingPointError", "StopIteration",
             "TypeError", "AttributeError", "IndexError", "KeyError", "AssertionError", "NotImplementedError",
             "RecursionError", "OverflowError"]


def gen_fault(rng, op, alloc=0.25, event=True):
    """Attach a fault plan to op."""
    x = rng.random()
    at = int(10 ** rng.uniform(0, 1.9)) if rng.random() < 0.7 else rng.randrange(1, 15)
    if x < alloc:
        op["fault"] = {"on": "alloc", "kind": "MemoryError", "at": rng.randrange(1, 40)}
    elif event and op["op"] == "run_events" and x < 0.7:
        op["fault"] = {"on": "event", "kind": rng.choice(EXC_NAMES), "at": at}
    else:
        op["fault"] = {"on": "rhs", "kind": rng.choice(EXC_NAMES), "at": at}
    return op
