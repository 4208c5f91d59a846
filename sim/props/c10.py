"""C10: terminal events stop integration at the earliest one, losing nothing before it."""

from .. import gen as G
from . import base

CATS = ("tstop", "trows", "tevents", "eventexc")
RUNS = {"quick": 16000, "thorough": 240000}
WALL = {"quick": 110, "thorough": 3000}
RULE = ("seeded configuration and history of 1-6 calls, mostly run_events with 1-5 event functions of which at least one "
        "is terminal, zeros close together (often in the same step), 1-12 requested times before, between and after "
        "them, sorted or not, also in the past; the stopping step, the returned rows and all event lists are compared "
        "with the earliest terminal crossing along the reference's accepted points and dense output; non-trivial: the "
        "solver advanced")
ASSUMES = ["terminal events that start exactly at zero, only touch zero, or tie with another terminal event to within "
           "rounding are outside the property",
           "a requested time equal to the reported time of the stopping event is the one that the event's row replaces"]


def gen(rng, tier):
    cfg = G.gen_cfg(rng, offset=0.3, bound=0.12, params=0.1)
    ops = []
    for op in G.gen_ops(rng, rng.randrange(1, 7), step=1, skip=1, run_events=6):
        if op["op"] == "run_events":
            far = rng.choice([1, 2, 4, 8])
            op["events"] = G.gen_events(rng, n=rng.choice([1, 1, 2, 2, 3, 4]), terminal=0.5, far=far)
            op["events"][rng.randrange(len(op["events"]))] = G.gen_events(rng, n=1, terminal=1.0, far=far)[0]
            if rng.random() < 0.5:
                op["ts"] = op["ts"] + [["btw", rng.randrange(0, far + 2), round(rng.random(), 3)]
                                       for _ in range(rng.randrange(1, 6))]
                if rng.random() < 0.5:
                    op["sorted"] = True
                op["form"] = "list"
            if rng.random() < 0.2:  # a request exactly at the event
                j = rng.randrange(1, far + 1)
                e = {"kind": "time", "at": ["node", j], "terminal": True}
                if rng.random() < 0.3:
                    e["scale"] = rng.choice([-10, 4, 150])
                if rng.random() < 0.3:
                    e["direction"] = 1
                op["events"][rng.randrange(len(op["events"]))] = e
                op["ts"] = op["ts"] + [["node", j]] * rng.choice([1, 1, 2])
                if rng.random() < 0.7:
                    op["ts"].append(["btw", j + rng.randrange(0, 3), round(rng.random(), 3)])
                op["sorted"] = rng.random() < 0.6
                op["form"] = rng.choice(["list", "array"])
            if rng.random() < 0.12:
                again = dict(op)
                G.gen_fault(rng, op)
                ops += [op, again]
                continue
        ops.append(op)
    return {"cfg": cfg, "ops": ops}


def run(scn, ctx):
    cfg, ref, sol, cb, fo = base.start(scn, ctx, CATS)
    fail = fo.fail

    def fail2(cat, detail):
        if cat == "exc" and detail.startswith("run_events") and "'terminal': True" in detail:
            cat = "eventexc"
        fail(cat, detail)

    fo.fail = fail2
    base.drive(fo, scn["ops"], ctx)
