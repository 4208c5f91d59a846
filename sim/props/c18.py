"""C18: an integration can be resumed from its last recorded point."""

import json

from .. import gen as G
from .. import models, problems, world
from . import base
from .base import Follower, Viol

CATS = ("node", "h", "stop", "move", "exc", "rows", "out", "dense", "events", "tevents", "tstop", "trows", "fault", "hang")
RUNS = {"quick": 16000, "thorough": 240000}
WALL = {"quick": 110, "thorough": 3000}
ONE_STEP = models.ADAPTIVE + models.FIXED_RK + tuple(n for n in models.MULTISTEP if models.steps_used(n) == 1)
RULE = ("seeded one-step or embedded-pair configuration and history of 4-16 calls during which the client saves its "
        "checkpoint (t, y and, for adaptive solvers, the step size, as text) at seeded moments; at other moments it crashes "
        "(the call in progress is cut by an exception from the n-th evaluation or allocation, or between calls) and a new "
        "solver is constructed from the last or an older checkpoint, or a second solver is started from a checkpoint and "
        "used alternately with the first; every call of every incarnation is compared with the one undisturbed run from t0; "
        "non-trivial: a successor was constructed and advanced")
ASSUMES = ["multistep methods of more than one step keep points the constructor cannot be given: outside the property",
           "the successor's recorded past begins at its checkpoint"]


def gen(rng, tier):
    cfg = G.gen_cfg(rng, names=models.ADAPTIVE if rng.random() < 0.5 else ONE_STEP, bound=0.25, offset=0.2,
                    rich=rng.random() < 0.6)
    ops = []
    for op in G.gen_ops(rng, rng.randrange(4, 17), step=4, skip=3, run=3, run_events=2, interp=1.5, bad=0.7, _terminal=0.2):
        x = rng.random()
        if x < 0.3:
            ops.append({"op": "save"})
        if 0.25 < x < 0.45:
            ops.append({"op": "resume", "from": rng.choice([0, 0, 0, 1, 2]), "crash": rng.random() < 0.7})
        if rng.random() < 0.2:
            G.gen_fault(rng, op)
            op["fatal"] = rng.random() < 0.7
        op["who"] = rng.randrange(4)
        ops.append(op)
    return {"cfg": cfg, "ops": ops, "share": rng.random() < 0.15}


def run(scn, ctx):
    base.attributed(attempt, scn, ctx, uninterrupted, ())


def uninterrupted(scn):
    scn["ops"] = [dict(op, who=0, fatal=False) for op in scn["ops"] if op["op"] not in ("save", "resume")]


def checkpoint(fo):
    t, y, _ = world.state(fo.sol)
    text = json.dumps({"t": t, "y": y.tolist(), "h": world.fl(fo.sol.h)})
    return fo.k, text


def successor(cfg, ref, saved, scn, ctx):
    """A new solver, constructed from nothing but the configuration and the checkpoint."""
    k, text = saved
    p = json.loads(text)
    new = json.loads(json.dumps(cfg))
    new["t0"], new["prob"]["y0"] = p["t"], p["y"]
    if cfg["solver"] in models.ADAPTIVE:
        new["opts"]["first_step"] = p["h"]
    cb = world.Callbacks(problems.make(cfg["prob"]))
    if scn.get("share"):
        cb.share = True
    st, sol = world.guarded(world.build, ctx.nb, new, cb)
    if st != "ok":
        raise Viol("node", f"{cfg['solver']}: construction from the checkpoint {text} failed: {sol!r}")
    fo = Follower(ref.resumed(k), new, sol, cb, ctx.log, CATS, start=k)
    if fo.locate("construction from a checkpoint") != k:
        raise Viol("node", f"{cfg['solver']}: construction from the checkpoint {text} did not start there")
    ctx.log.count("op:resume")
    return fo


def attempt(scn, ctx):
    cfg, ref, sol, cb, first = base.start(scn, ctx, CATS)
    live = [first]
    saves = [checkpoint(first)]
    made = 0
    reached = {}
    try:
        for op in scn["ops"]:
            if op["op"] == "save":
                saves.append(checkpoint(live[-1]))
                continue
            if op["op"] == "resume":
                if op["crash"]:
                    live.clear()
                    ctx.log.count("fault:client:crash between calls")
                live.append(successor(cfg, ref, saves[-1 - op["from"] % len(saves)], scn, ctx))
                made += 1
                ctx.log.mark("resume", op["crash"], live[-1].k)
                del live[:-3]
                continue
            fo = live[op.get("who", 0) % len(live)]
            if fo.k > 300:
                continue
            do = base.concrete(fo, op)
            if do is None:
                continue
            k = fo.k
            st = fo.do(do)
            if fo is not first:
                reached[id(fo)] = reached.get(id(fo), 0) + fo.k - k
            ctx.steps += fo.k - k
            ctx.sim += fo.ref.t(fo.k) - fo.ref.t(k)
            if st == "fault" and op.get("fatal"):
                # the process is gone; only the checkpoints survive
                ctx.log.count("fault:client:crash inside a call")
                live.clear()
                live.append(successor(cfg, ref, saves[-1], scn, ctx))
                made += 1
    finally:
        ctx.nontrivial = made > 0 and any(reached.values())
    if not made:
        ctx.log.count("runs without a crash")
