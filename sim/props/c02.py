"""C02: a failing callback or allocation never corrupts a solver."""

from .. import gen as G
from .. import models, problems, world
from . import base

CATS = ("node", "h", "fault", "dense", "hang")
RUNS = {"quick": 16000, "thorough": 240000}
WALL = {"quick": 110, "thorough": 3000}
RULE = ("seeded configuration and history of 3-12 calls; in about half of the calls the n-th rhs evaluation, event "
        "evaluation or allocation raises one of seventeen exception types (in adaptive steps sometimes after a burst of NaN, sometimes already during an earlier, failing "
        "construction); after every fault and every later call the "
        "solver is compared with the undisturbed run (state, derivative, step size, dense output); non-trivial: "
        "at least one fault fired")
ASSUMES = ["faults are raised synchronously by the callback or by numpy's allocating functions; asynchronous "
           "interrupts between two statements of the solver are outside the property"]


def gen(rng, tier):
    cfg = G.gen_cfg(rng, offset=0.3, bound=0.15, rich=rng.random() < 0.5)
    ops = []
    for op in G.gen_ops(rng, rng.randrange(3, 13), step=3, skip=2, run=3, run_events=2, interp=2):
        if rng.random() < 0.5:
            G.gen_fault(rng, op)
            if op["op"] in ("step", "skip") and op["fault"]["on"] == "rhs" and rng.random() < 0.35 and \
                    cfg["solver"] in models.ADAPTIVE:
                # attempts that are rejected, and then the exception
                op["fault"]["lead"] = rng.randrange(1, 40)
                op["fault"]["at"] += op["fault"]["lead"]
            ops.append(op)
            if rng.random() < 0.7:  # look at the history the fault left behind
                ops += [{"op": "interp", "t": G.when(rng, future=False)} for _ in range(rng.choice([1, 2]))]
            if rng.random() < 0.5:  # and retry the same call
                ops.append({k: v for k, v in op.items() if k != "fault"})
        else:
            ops.append(op)
    scn = {"cfg": cfg, "ops": ops, "share": rng.random() < 0.15}
    if rng.random() < 0.15:  # a construction that fails, before the one that counts
        scn["ctor"] = G.gen_fault(rng, {"op": "ctor"}, event=False)["fault"]
        scn["ctor"]["at"] = rng.choice([1, 1, 2, rng.randrange(1, 12)])
    return scn


def run(scn, ctx):
    base.attributed(attempt, scn, ctx, faultless, ("fault", "hang"))


def faultless(scn):
    for op in scn["ops"]:
        op.pop("fault", None)
    scn.pop("ctor", None)


def failing_ctor(scn, ctx):
    """A constructor interrupted by the fault raises it; nothing of it may be left behind."""
    cb = world.Callbacks(problems.make(scn["cfg"]["prob"]))
    cb.arm(scn["ctor"])
    st, v = world.guarded(world.build, ctx.nb, scn["cfg"], cb)
    inj = cb.injected
    cb.disarm()
    if not cb.fired:
        return 0
    ctx.log.count(f"fault:constructor:{scn['ctor']['kind']}")
    if st != "exc":
        raise base.Viol("fault", f"constructor: injected {inj!r} was swallowed")
    if not world.is_injected(v, inj):
        raise base.Viol("fault", f"constructor: client got {v!r} instead of the injected {inj!r}")
    return 1


def attempt(scn, ctx):
    early = failing_ctor(scn, ctx) if scn.get("ctor") else 0
    cfg, ref, sol, cb, fo = base.start(scn, ctx, CATS)
    base.drive(fo, scn["ops"], ctx)
    ctx.nontrivial = fo.faulted + early > 0
