"""C01: the trajectory does not depend on how the solver is driven."""

from .. import gen as G
from . import base

CATS = ("node", "h", "move", "hang")
RUNS = {"quick": 16000, "thorough": 240000}
WALL = {"quick": 110, "thorough": 3000}
RULE = ("seeded random configuration (26 solvers and 4 client-defined methods, 7 problem families, step sizes, options, starters, bounds, "
        "parameters) and call history of 3-14 step/skip/run/run_events/interpolate/refused calls; non-trivial: "
        "the solver advanced; compared after every call with the same configuration advanced by single steps")
ASSUMES = ["the reference trajectory is the code's own, driven by bare step() calls (its steps are C03's business)",
           "callbacks are deterministic functions of (t, y)"]


def gen(rng, tier):
    cfg = G.gen_cfg(rng, offset=0.5, bound=0.25)
    ops = G.gen_ops(rng, rng.randrange(3, 15), step=3, skip=3, run=3, run_events=2, interp=2, bad=1,
                      _terminal=0.15)
    return {"cfg": cfg, "ops": ops, "share": rng.random() < 0.2}


def run(scn, ctx):
    cfg, ref, sol, cb, fo = base.start(scn, ctx, CATS)
    base.drive(fo, scn["ops"], ctx)


