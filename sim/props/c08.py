"""C08: dense output is the documented interpolant of the accepted points."""

from .. import gen as G
from . import base
from .base import Ref  # noqa: F401

CATS = ("dense", "out", "denseexc")
RUNS = {"quick": 20000, "thorough": 300000}
WALL = {"quick": 110, "thorough": 3000}
RULE = ("seeded configuration and history of 3-12 calls; after most calls 1-5 dense-output queries anywhere in the "
        "recorded history (inside steps, exactly on points, repeated, in random order), some after failed attempts "
        "(injected exceptions) and rejected steps, some outside the history; values from interpolate, run and events "
        "are compared with an independent implementation of the interpolant on the reference's accepted points; "
        "non-trivial: the solver advanced and at least one query was compared")
ASSUMES = ["RungeKutta23/45 and DOP853 interpolants as in scipy/Hairer; cubic Hermite for all other methods"]


def queries(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 5])):
        if out and rng.random() < 0.3:
            out.append(dict(rng.choice(out)))
        elif rng.random() < 0.12:
            out.append({"op": "bad", "how": rng.choice(["interp_future", "interp_past"])})
        else:
            out.append({"op": "interp", "t": G.when(rng, future=False)})
    return out


def gen(rng, tier):
    cfg = G.gen_cfg(rng, offset=0.5, bound=0.1, params=0.15, rich=rng.random() < 0.5)
    ops = queries(rng)
    for op in G.gen_ops(rng, rng.randrange(3, 13), step=4, skip=2, run=3, run_events=1):
        if rng.random() < 0.2:
            G.gen_fault(rng, op, alloc=0.1)
        ops.append(op)
        ops += queries(rng)
    return {"cfg": cfg, "ops": ops}


def run(scn, ctx):
    cfg, ref, sol, cb, fo = base.start(scn, ctx, CATS)
    fail = fo.fail

    def fail2(cat, detail):
        if cat == "exc":
            cat = "denseexc" if detail.startswith(("interp", "bad(how='interp")) else "other exc"
        if cat == "out" and not detail.startswith("run"):
            cat = "other out"
        fail(cat, detail)

    fo.fail = fail2
    base.drive(fo, scn["ops"], ctx)
    ctx.nontrivial = fo.k > 0 and ctx.log.counts["op:interp"] > 0
