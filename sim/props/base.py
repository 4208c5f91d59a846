"""Helpers shared by the property modules."""

from scipy.integrate._ivp.common import select_initial_step

from .. import gen, models, problems, world
from ..ref import Follower, Ref, Skip, Viol, resolve  # noqa: F401


def start(scn, ctx, cats, cfg=None):
    """Reference, solver and follower of a single-client scenario."""
    cfg = dict(cfg or scn["cfg"])
    ref = Ref(ctx.nb, cfg)
    gen.place_bound(cfg, ref)
    ref = bounded(ctx.nb, cfg, ref)
    cb = world.Callbacks(problems.make(cfg["prob"]), budget=scn.get("budget", 200_000))
    if scn.get("share"):
        cb.share = True
    st, sol = world.guarded(world.build, ctx.nb, cfg, cb)
    if st != "ok":
        if "node" in cats:
            raise Viol("node", f"constructor failed without a fault: {sol!r}")
        raise Skip(f"constructor {sol!r}")
    ctx.log.count("solver:" + cfg["solver"])
    ctx.log.mark(cfg["solver"], cfg["prob"]["kind"], cfg["prob"]["dim"], cfg.get("starter", "auto"),
                 sorted(cfg.get("opts", {})), "t_bound" in cfg)
    fo = Follower(ref, cfg, sol, cb, ctx.log, cats)
    fo.k = fo.locate("constructor")
    if fo.k != 0 and "node" in cats:
        raise Viol("node", f"constructor: solver starts {fo.k} steps ahead of the reference")
    return cfg, ref, sol, cb, fo


def bounded(nb, cfg, ref):
    """The reference, given that the automatic first step may not look beyond t_bound."""
    b = cfg.get("t_bound")
    opts = cfg.get("opts", {})
    if b is None or cfg["solver"] not in models.ADAPTIVE or "first_step" in opts or ref.furthest <= b:
        return ref
    o = {**models.OPT_DEFAULTS, **opts}
    t0, y0, f0 = ref.node(0)
    h = select_initial_step(lambda t, y: ref.f(min(t, b), y), t0, y0, f0, 1, models.PAIRS[ref.name].q, o["rtol"], o["atol"])
    return Ref(nb, {**cfg, "opts": {**opts, "first_step": h}})


def drive(fo, ops, ctx, after=None):
    """Run the ops; stops early when the trajectory horizon is used up."""
    t0 = fo.ref.t(0)
    try:
        for op in ops:
            if fo.k > 300:
                break
            op = concrete(fo, op)
            if op is None:
                continue
            fo.do(op)
            if after:
                after(op)
    finally:
        ctx.steps += fo.k
        ctx.sim += fo.ref.t(fo.k) - t0
        ctx.nontrivial = ctx.nontrivial or fo.k > 0


def concrete(fo, op):
    """op with its events, order and limits resolved (None: it cannot be made here)."""
    op = dict(op)
    if fo.cfg["prob"]["dim"] > 16:  # not both wide and long
        if (op.get("n") or 0) > 40:
            op["n"] = 40
        if op.get("upto", [0])[0] in ("btw", "node") and op["upto"][1] > 40:
            op["upto"] = ["node", 40]
    if op["op"] == "run_events":
        if op.get("again") and fo.made:
            op["events"] = fo.made[0]
        else:
            op["events"] = gen.resolve_events(fo.ref, fo.k, op["events"])
    if op.get("sorted"):
        op["ts"] = order(fo, op["ts"])
    if op["op"] == "bad" and "bound" in op["how"] and fo.bound == float("inf"):
        return None
    if "ts" in op or "upto" in op:
        op = inside(fo, op)
    return op


def order(fo, ts):
    return sorted(ts, key=lambda s: resolve(fo.ref, fo.k, s))


def inside(fo, op):
    """Keep requested times within t_bound (requests beyond it are op "bad")."""
    if fo.bound == float("inf"):
        return op

    def cap(s):
        return s if resolve(fo.ref, fo.k, s) <= fo.bound else ["abs", fo.bound]

    op = dict(op)
    if "ts" in op:
        op["ts"] = [cap(s) for s in op["ts"]]
        if op.get("form") == "int":
            op["form"] = "list"
    if "upto" in op:
        op["upto"] = cap(op["upto"])
    return op


def attributed(attempt, scn, ctx, strip, own):
    """Run `attempt`; a violation that the stripped scenario shows as well is not this property's."""
    import copy

    from .. import boot, engine

    try:
        return attempt(scn, ctx)
    except Viol as e:
        if e.cat in own:
            raise
        plain = copy.deepcopy(scn)
        strip(plain)
        boot.ALLOC.reset(boot.ALLOC.poison)
        try:
            attempt(plain, engine.Ctx(ctx.nb))
        except (Viol, Skip):
            raise Skip(f"not due to this property's faults: {e.cat}") from None
        raise
