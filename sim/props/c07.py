"""C07: run returns exactly the requested times, in order, with the solution there."""

from .. import gen as G
from . import base

CATS = ("rows", "out", "exc", "move", "runstop")
RUNS = {"quick": 20000, "thorough": 300000}
WALL = {"quick": 110, "thorough": 3000}
RULE = ("seeded configuration and history of 2-9 calls, mostly run/run_events with 1-12 requested times: scalar, list, "
        "tuple, array or integers; sorted or not; repeated; past, future, on step ends or ulps away; cut short by "
        "t_bound or refused; returned times, order, values and the distance advanced are compared with the dense "
        "output of the reference steps; non-trivial: the solver advanced")
ASSUMES = []


def gen(rng, tier):
    cfg = G.gen_cfg(rng, offset=0.3, bound=0.4, params=0.1)
    ops = []
    for op in G.gen_ops(rng, rng.randrange(2, 10), step=1, skip=1, run=6, run_events=2, interp=0.3, bad=1):
        if op["op"] == "run" and rng.random() < 0.3:
            op["ts"] = op["ts"] + [G.when(rng, past=rng.random() < 0.3) for _ in range(rng.randrange(1, 6))]
            rng.shuffle(op["ts"])
        if op["op"] == "run" and op.get("form") == "scalar" and len(op["ts"]) > 1:
            op["form"] = "list"
        ops.append(op)
    if "bound_at" in cfg and rng.random() < 0.6:
        j = cfg["bound_at"][0]
        ts = [["btw", rng.randrange(0, j + 1), round(rng.random(), 3)] for _ in range(rng.randrange(1, 7))]
        ops.append({"op": "run", "ts": ts + [["abs_bound"]], "form": "list"})
        if rng.random() < 0.5:
            rng.shuffle(ops[-1]["ts"])
    return {"cfg": cfg, "ops": ops}


def run(scn, ctx):
    cfg, ref, sol, cb, fo = base.start(scn, ctx, CATS)

    # "stop" concerns C07 only for run; steps of step/skip are C06's business
    ops = []
    for op in scn["ops"]:
        op = dict(op)
        if "ts" in op:
            op["ts"] = [["abs", fo.bound] if s[0] == "abs_bound" else s for s in op["ts"]]
            if fo.bound == float("inf"):
                op["ts"] = [s for s in op["ts"] if s[0] != "abs"] or [["rel", 1.5]]
        ops.append(op)
    orig = fo.expect_at

    def expect_at(lo, hi, what, cat):
        run_op = what.startswith("run")
        if cat == "stop" and run_op:
            cat = "runstop"
        if cat == "exc" and not run_op:
            cat = "exc2"
        orig(lo, hi, what, cat)

    fail = fo.fail

    def fail2(cat, detail):
        if not detail.startswith(("run", "bad(how='run")):
            cat = "other " + cat
        fail(cat, detail)

    fo.expect_at, fo.fail = expect_at, fail2
    base.drive(fo, ops, ctx)
