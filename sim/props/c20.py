"""C20: what a solver retains is bounded, and nothing outlives it."""

import gc
import sys
import types
import warnings
import weakref

import numpy as np

from .. import boot, problems, world
from .. import gen as G
from . import base
from .base import Viol

CATS = ("grow", "kept", "outlives")
RUNS = {"quick": 4000, "thorough": 60000}
WALL = {"quick": 150, "thorough": 3000}
CHUNK = 20
RULE = ("seeded configuration and a pattern of 1-4 calls (step, skip, run, run_events with new functions, interpolate, refused "
        "and failing calls, other solvers constructed and dropped, constructions that fail) repeated 170 times and then three times as often as a "
        "window of 20-60 repetitions, every result dropped by the client; after each window the memory held in the process is "
        "measured, then results, functions and finally the solver are dropped and watched through weak references; "
        "non-trivial: the solver advanced or another one was constructed in every window")
ASSUMES = ["caches with a limit of up to 128 entries are filled before the first measurement",
           "counted are the interpreter's memory blocks (sys.getallocatedblocks: every Python object, numpy arrays included, but "
           "not the size of their data) and the bytes of all arrays reachable from the solver; what real numba retains of "
           "compiled code is its own business",
           "garbage in reference cycles is collected by the client (gc.collect) before it measures"]

WARM = 170
CONFIRM = 4, 300  # further windows and their repetitions: numpy's own small caches fill up slowly
KINDS = ["lin", "osc", "logistic", "pend", "ring", "const", "rest"]


def gen(rng, tier):
    cfg = G.gen_cfg(rng, kinds=KINDS, bound=0, tscales=rng.random() < 0.3)
    if "opts" in cfg:
        s = cfg["prob"].get("tscale", 1.0)
        cfg["opts"].setdefault("max_step", G.rnd(rng.uniform(0.05, 0.5)) * s)
    ops = [call(rng) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    if all(op["op"] in ("interp", "refused") for op in ops):
        ops.append({"op": "skip", "n": 1})
    return {"cfg": cfg, "ops": ops, "reps": rng.randrange(20, 61), "share": rng.random() < 0.15}


def call(rng):
    kind = rng.choice(["step", "skip", "skip", "run", "run", "events", "events", "interp", "refused", "new", "new_bad"])
    op = {"op": kind}
    if kind in ("step", "skip"):
        op["n"] = rng.choice([1, 1, 2, 3])
        op["by"] = rng.choice(["n", "n", "none", "upto"])
    elif kind in ("run", "events"):
        op["ts"] = [G.rnd(rng.uniform(-0.9, 2.5), 3) for _ in range(rng.choice([1, 2, 3, 5]))]
    elif kind in ("interp", "refused"):
        op["at"] = G.rnd(rng.uniform(0, 0.99), 3)
    elif kind == "new":
        op["rhs"] = rng.choice(["own", "fresh"])
        op["n"] = rng.choice([0, 1, 2])
    if kind == "events":
        op["same"] = rng.random() < 0.4
        op["k"] = rng.choice([1, 1, 2, 3])
        op["turns"] = G.rnd(rng.uniform(0.05, 0.6), 3)
        op["terminal"] = rng.random() < 0.2
    if kind not in ("refused", "new_bad") and rng.random() < 0.2:
        op["fault"] = {"on": rng.choice(["rhs", "rhs", "alloc"] + ["event"] * (kind == "events")),
                       "kind": rng.choice(G.EXC_NAMES), "at": rng.randrange(1, 9)}
    return op


class Payload:
    """Something of the client's that only its function refers to."""

    def __init__(self):
        self.block = bytes(256)


def carrying(fn):
    """A new function of the client's, with data of its own -> (function, weak reference to the data)."""
    p = Payload()

    def rhs(t, y):
        p.block  # noqa: B018
        return fn(t, y)

    return rhs, weakref.ref(p)


def wave(cb, w, t0, i, terminal, payload):
    import math

    def g(t, y):
        payload.block  # noqa: B018
        return math.sin(w * (t - t0) + i)

    def ev(t, y):
        return cb.event(g, t, y)

    if terminal:
        ev.terminal = True
    ev.direction = (i % 3) - 1
    return ev


class Client:
    def __init__(self, nb, cfg, scn):
        self.nb, self.cfg = nb, cfg
        self.cb = world.Callbacks(problems.make(cfg["prob"]))
        self.cb.limit = float("inf")
        if scn.get("share"):
            self.cb.share = True
        rhs, self.data = carrying(self.cb.rhs)
        self.sol = world.build(nb, cfg, self.cb, rhs=rhs)
        self.rhs = rhs
        self.own = {}
        self.made = self.failed = 0
        self.watch = []  # (what, weak reference): nobody but the client may hold these

    def step_size(self):
        return abs(world.fl(self.sol.h))

    def do(self, ix, op, watching=False):
        cb, sol = self.cb, self.sol
        fault = op.get("fault")
        cb.arm(fault)
        try:
            out = self.calls(ix, op, watching)
        except (Exception, KeyboardInterrupt):
            out = None
            self.failed += 1
        finally:
            cb.disarm()
            cb.injected = boot.ALLOC.exc = None
        if watching and out is not None:
            for o in flat(out):
                self.watch.append((f"an array returned by {op['op']}", weakref.ref(o)))
        del sol

    def calls(self, ix, op, watching):
        sol, cb, kind = self.sol, self.cb, op["op"]
        h, t = self.step_size(), float(sol.t)
        if kind in ("step", "skip"):
            fn = getattr(sol, kind)
            if op["by"] == "none":
                return fn()
            if op["by"] == "n":
                return fn(n=op["n"])
            return fn(upto_t=t + (op["n"] + 0.5) * h)
        if kind == "run":
            return sol.run([max(t + x * h, 0.5 * h) if x < 0 and t == 0 else t + x * h for x in op["ts"]])
        if kind == "events":
            evs = self.own.get(ix)
            if evs is None:
                p = Payload()
                evs = [boot.jitted(wave(cb, op["turns"] * 6.283 / h, t, i, op["terminal"], p)) for i in range(op["k"])]
                if op["same"]:
                    self.own[ix] = evs
                elif watching:
                    self.watch.append(("the data of an event function", weakref.ref(p)))
                del p
            return sol.run_events([t + x * h for x in op["ts"]], evs)[:2]
        if kind == "interp":
            return sol.interpolate(t - op["at"] * h)
        if kind == "refused":
            return sol.interpolate(t + (1 + op["at"]) * h)
        if kind == "new":
            rhs, data = (self.rhs, None) if op["rhs"] == "own" else carrying(cb.rhs)
            if watching and data is not None:
                self.watch.append(("the data of a dropped solver's right-hand side", data))
            other = world.build(self.nb, self.cfg, cb, rhs=rhs)
            if watching:
                self.watch.append(("a dropped solver", weakref.ref(other)))
            self.made += 1
            return other.step(n=op["n"])
        if kind == "new_bad":
            rhs, data = carrying(cb.rhs)
            if watching:
                self.watch.append(("the data of a right-hand side whose solver was refused", data))
            cls = self.nb.get_solver(self.cfg["solver"])
            self.made += 1
            return cls(boot.jitted(rhs), 0.0, [1.0], no_such_option=1.0)
        raise KeyError(kind)


def flat(out):
    if isinstance(out, np.ndarray):
        return [out]
    if isinstance(out, tuple):
        return [o for o in out if isinstance(o, np.ndarray)]
    return []


def run(scn, ctx):
    cfg = scn["cfg"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        gc.collect()
        gc.freeze()
        try:
            attempt(scn, cfg, ctx)
        finally:
            gc.unfreeze()
    ctx.log.add("done", scn["reps"])


OPAQUE = (types.ModuleType, type, types.CodeType, types.FrameType, world.Callbacks, Payload)


def array_bytes(root):
    """Size of all arrays that can be reached from root."""
    seen, todo, total = set(), [root], 0
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, OPAQUE):
            continue
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            if isinstance(o.base, np.ndarray):
                todo.append(o.base)
            else:
                total += o.nbytes
            if o.dtype != object:
                continue
        if isinstance(o, types.FunctionType):
            todo += [o.__closure__, o.__defaults__, o.__dict__]
        else:
            todo += gc.get_referents(o)
    return total


def held(sol):
    gc.collect()
    return sys.getallocatedblocks(), array_bytes(sol)


def repeat(c, ops, n):
    for _ in range(n):
        for ix, op in enumerate(ops):
            c.do(ix, op)


def growing(c, scn, marks):
    """One more block, or number in an array, per repetition in every window - and in the windows after them."""
    reps = scn["reps"]

    def rates(kind):
        return [b[kind] - a[kind] for a, b in zip(marks, marks[1:])]

    if min(rates(1)) >= 8 * reps:
        raise Viol("grow", f"{c.cfg['solver']}: the arrays the solver refers to grow by {rates(1)} bytes in three windows of "
                           f"{reps} repetitions of {[o['op'] for o in scn['ops']]}")
    if min(rates(0)) < 0.9 * reps:
        return
    windows, n = CONFIRM
    last = [held(c.sol)]
    for _ in range(windows):
        repeat(c, scn["ops"], n)
        last.append(held(c.sol))
        if last[-1][0] - last[-2][0] < 0.9 * n:
            return
    raise Viol("grow", f"{c.cfg['solver']}: {last[-1][0] - last[0][0]} more memory blocks are held after {windows * n} more "
                       f"repetitions of {[o['op'] for o in scn['ops']]}")


def attempt(scn, cfg, ctx):
    st, c = world.guarded(Client, ctx.nb, cfg, scn)
    if st != "ok":
        raise base.Skip(f"constructor {c!r}")
    ops, reps = scn["ops"], scn["reps"]
    ctx.log.count("solver:" + cfg["solver"])
    ctx.log.mark(cfg["solver"], cfg["prob"]["kind"], cfg["prob"]["dim"], [(o["op"], "fault" in o) for o in ops], reps)
    t0 = float(c.sol.t)
    marks, moved = [], True
    for window in range(4):
        before = (float(c.sol.t), c.made)
        repeat(c, ops, WARM if window == 0 else reps)
        moved = moved and before != (float(c.sol.t), c.made)
        marks.append(held(c.sol))
    for op in ops:
        ctx.log.count("op:" + op["op"], WARM + 3 * reps)
        if "fault" in op:
            ctx.log.count("fault:" + op["fault"]["on"], c.failed)
            break
    ctx.sim += float(c.sol.t) - t0
    ctx.steps += c.cb.n
    ctx.nontrivial = moved
    ctx.log.add("t", float(c.sol.t), c.cb.n, c.made, c.failed)
    growing(c, scn, marks)
    for watching in (True, False, False):  # the last result may be remembered until the next
        for ix, op in enumerate(ops):
            c.do(ix, op, watching)
    gc.collect()
    alive = sorted({what for what, r in c.watch if r() is not None})
    if alive:
        raise Viol("kept", f"{cfg['solver']}: still referred to after the client dropped it: {', '.join(alive)}")
    data, sol = c.data, weakref.ref(c.sol)
    del c
    gc.collect()
    if sol() is not None or data() is not None:
        raise Viol("outlives", f"{cfg['solver']}: the client dropped solver and functions, but "
                               f"{'the solver' if sol() is not None else 'data of its right-hand side'} is still referred to")
