"""C09: each event crossing is reported exactly once, at the right time and state."""

from .. import gen as G
from . import base

CATS = ("events", "tevents", "eventexc")
RUNS = {"quick": 16000, "thorough": 240000}
WALL = {"quick": 110, "thorough": 3000}
RULE = ("seeded configuration and history of 2-8 calls, mostly run_events with 1-5 event functions (of time, of a "
        "component, oscillating, tangential; any scale 1e-10..1e8, direction, occasionally terminal) whose zeros lie "
        "inside steps and on step ends, 1-9 requested times, also in the past, cut short by t_bound; the event lists "
        "are compared with the sign changes of each event function along the reference's accepted points and dense "
        "output; in some calls an event function or the rhs raises and the call is repeated; non-trivial: the solver "
        "advanced")
ASSUMES = ["an event function with more than one root inside one step is outside the property",
           "a zero exactly on an accepted point counts as one crossing at most, required only when the sign changes through it",
           "crossings already in the recorded past when run_events is called are not reported (documented by a warning)"]


def gen(rng, tier):
    cfg = G.gen_cfg(rng, offset=0.3, bound=0.2, params=0.15)
    ops = []
    for op in G.gen_ops(rng, rng.randrange(2, 9), step=1, skip=1, run=0.5, run_events=6, _terminal=0.08):
        if op["op"] == "run_events":
            if rng.random() < 0.2:
                op["events"] += G.gen_events(rng, n=2)
            if rng.random() < 0.3:  # everything ahead, over many steps
                op["ts"] = [["btw", rng.randrange(2, 14), round(rng.random(), 3)]]
                op["form"] = "list"
            if len(op["events"]) == 1 and rng.random() < 0.3:
                op["form"] = "scalar"
                op["ts"] = op["ts"][:1]
            if rng.random() < 0.15:
                again = {k: v for k, v in op.items()}
                G.gen_fault(rng, op)
                ops += [op, again]
                continue
        ops.append(op)
    return {"cfg": cfg, "ops": ops, "share": rng.random() < 0.1}


def run(scn, ctx):
    cfg, ref, sol, cb, fo = base.start(scn, ctx, CATS)
    fail = fo.fail

    def fail2(cat, detail):
        if cat == "exc" and detail.startswith("run_events"):
            cat = "eventexc"
        fail(cat, detail)

    fo.fail = fail2
    base.drive(fo, scn["ops"], ctx)
