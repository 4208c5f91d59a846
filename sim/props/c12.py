"""C12: returned arrays are snapshots and inputs are copied."""

import numpy as np

from .. import gen as G
from .. import problems, world
from ..ref import Follower, Ref, Skip, Viol, _form
from . import base

CATS = ("snapshot", "input", "node", "h", "out", "dense", "move", "events", "hang")
RUNS = {"quick": 20000, "thorough": 300000}
WALL = {"quick": 110, "thorough": 3000}
RULE = ("seeded configuration and history of 3-12 calls; the client overwrites arrays it got back (rows, states, event "
        "lists) with garbage at seeded moments, overwrites its own y0, params, step-size, t_bound, option and requested-times arrays after the "
        "call they were given to, and its rhs may reuse one output buffer or return the array it was given; after every call: results kept and not "
        "overwritten are bit-identical to when they were returned, inputs are as the client left them, and state and "
        "results equal the undisturbed run's; non-trivial: something was overwritten and the solver advanced")
ASSUMES = ["the y, f, t attributes of the solver are views by design; only arrays returned by calls are snapshots"]


def gen(rng, tier):
    same = rng.random() < 0.08  # dy/dt = y, and a right-hand side that returns its argument
    if same:
        cfg = G.gen_cfg(rng, bound=0.2, params=0.0, kinds=["grow"], tscales=False)
    else:
        cfg = G.gen_cfg(rng, bound=0.2, params=0.5)
    ops = []
    for op in G.gen_ops(rng, rng.randrange(3, 13), step=3, skip=1, run=3, run_events=3, interp=3, _terminal=0.25):
        if "ts" in op and rng.random() < 0.7:
            op["form"] = "array"
            if rng.random() < 0.5:
                op["sorted"] = True
        op["scribble"] = rng.choice([0, 0, 1, 2, 3])  # overwrite: nothing / this result / an old one / inputs
        far = [op.get("n", 0), len(op.get("ts", ()))] + [s[1] for s in (op.get("upto"),) if s and s[0] in ("btw", "node")]
        if same and max(far) > 12:
            continue
        ops.append(op)
    return {"cfg": cfg, "ops": ops, "share": "same" if same else rng.random() < 0.35, "y0form": rng.choice(["array", "array", "list", "int"]),
            "pick": rng.randrange(1 << 20), "harr": rng.random() < 0.4, "early": rng.random() < 0.6}


def arrays(v):
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            out += arrays(x)
        return out
    return []


def lists(v):
    """Mutable lists of a result (event lists)."""
    out = []
    if isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out.append(v)
        for x in v:
            out += lists(x)
    return out


def bits(a):
    return a.shape, a.tobytes()


def run(scn, ctx):
    base.attributed(attempt, scn, ctx, polite, ("snapshot", "input"))


def polite(scn):
    """The same scenario with a client that overwrites nothing."""
    for op in scn["ops"]:
        op.pop("scribble", None)
    scn.update(early=False, share=False, harr=False)


def attempt(scn, ctx):
    cfg = dict(scn["cfg"])
    ref = Ref(ctx.nb, cfg)
    G.place_bound(cfg, ref)
    ref = base.bounded(ctx.nb, cfg, ref)
    cb = world.Callbacks(problems.make(cfg["prob"]))
    if scn.get("share"):
        cb.share = scn["share"]
    if scn["y0form"] == "array":
        y0 = np.array(cfg["prob"]["y0"], dtype=float)
    else:
        y0 = list(cfg["prob"]["y0"])
    p = cfg.get("params")
    params = None if p is None else np.array(p, dtype=float)
    cfg2, hs = dict(cfg), []
    if scn.get("harr"):
        # step sizes, bound and options as 0-d arrays, which the client may change later
        cfg2["opts"] = dict(cfg.get("opts", {}))
        for d, k in [(cfg2, "h"), (cfg2, "t_bound")] + [(cfg2["opts"], k) for k in world.OPT_KEYS]:
            if d.get(k) is not None:
                d[k] = np.array(float(d[k]))
                hs.append(d[k])
    st, sol = world.guarded(world.build, ctx.nb, cfg2, cb, None, y0, params)
    if st != "ok":
        raise Skip(f"constructor {sol!r}")
    ctx.log.count("solver:" + cfg["solver"])
    ctx.log.mark(cfg["solver"], cfg["prob"]["dim"], scn.get("share"), scn["y0form"], scn["early"], params is not None)
    inputs = [(x, b) for x, b in ((y0, "y0"), (params, "params")) if isinstance(x, np.ndarray)]
    inputs += [(x, "step size or option") for x in hs]
    mine = {id(x): bits(x) for x, _ in inputs}
    w = dict(n=0)

    def scribble_inputs():
        for x, _ in inputs:
            x[...] = x * -7.0 + 3.25e3
            mine[id(x)] = bits(x)
            w["n"] += 1
        if isinstance(y0, list):
            y0[:] = [1e9] * len(y0)
        ctx.log.count("fault:client:overwrites y0, params, step size, t_bound, options")

    if scn["early"]:
        scribble_inputs()
    fo = Follower(ref, cfg, sol, cb, ctx.log, CATS)
    fo.k = fo.locate("constructor")
    kept = []  # (array, bits when returned, what)
    pick = np.random.RandomState(scn["pick"])
    now = {}
    tsin = []

    def got(kind, args, v):
        """Runs right after a successful call, before anything else."""
        for a in arrays(v):
            for b, name in live:
                if np.shares_memory(a, b):
                    raise Viol("snapshot", f"{kind}: returned array shares memory with the solver's {name}")
        now["v"], now["kind"] = v, kind

    live = [(np.asarray(sol.y), "state"), (np.asarray(sol.f), "derivative")]
    for nm in ("ts", "ys", "fs"):
        x = getattr(getattr(sol, "cache", None), nm, None)
        if isinstance(x, np.ndarray):
            live.append((x, "history"))
    fo.on_result = got
    call = fo._call

    def call2(kind, a):
        if "ts" in a and a.get("form") == "array":
            arr = _form(a["ts"], "array")
            a2 = dict(a, ts=arr, form="raw")
            tsin.append((arr, bits(arr)))
            return call(kind, a2)
        return call(kind, a)

    fo._call = call2

    def after(op):
        v = now.pop("v", None)
        if v is not None:
            mode = op.get("scribble", 0)
            if mode == 1:
                garbage(v, w, ctx)
            else:
                w["call"] = w.get("call", 0) + 1
                kept.extend((a, bits(a), now["kind"], w["call"]) for a in arrays(v))
                del kept[:-40]
        if op.get("scribble") == 2 and kept:
            i = int(pick.randint(len(kept)))
            a, _, _, nr = kept.pop(i)
            kept[:] = [k for k in kept if not (k[3] == nr and np.shares_memory(k[0], a))]
            fill(a)
            w["n"] += 1
            ctx.log.count("fault:client:overwrites an old result")
        if op.get("scribble") == 3:
            scribble_inputs()
            for arr, _ in tsin:
                arr[...] = -1e6
            tsin[:] = [(arr, bits(arr)) for arr, _ in tsin]
        look(op)

    def look(op):
        for a, b, kind, _ in kept:
            if bits(a) != b:
                raise Viol("snapshot", f"array returned by an earlier {kind} changed to {a.tolist()} during or after {op['op']}")
        for x, name in inputs:
            if bits(x) != mine[id(x)]:
                raise Viol("input", f"the client's {name} array was changed to {x.tolist()} by {op['op']}")
        for arr, b in tsin:
            if bits(arr) != b:
                raise Viol("input", f"the client's array of requested times was changed to {arr.tolist()} by {op['op']}")
        del tsin[:-10]

    base.drive(fo, scn["ops"], ctx, after)
    ctx.nontrivial = w["n"] > 0 and fo.k > 0


def fill(a):
    if a.flags.writeable and a.size:
        a[...] = -9.87e7


def garbage(v, w, ctx):
    for a in arrays(v):
        fill(a)
    for x in lists(v):
        del x[:]
        x.append("garbage")
    w["n"] += 1
    ctx.log.count("fault:client:overwrites the result")
