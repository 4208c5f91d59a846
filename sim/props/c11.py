"""C11: solver instances are independent under every interleaving."""

import gc
import random
import sys
import threading

import numpy as np

from .. import boot, child, gen as G
from .. import models, problems, world
from ..problems import rnd
from ..ref import event_fn
from ..world import close, fl, guarded
from .base import Skip, Viol

CATS = ("alone", "hang")
RUNS = {"quick": 16000, "thorough": 240000}
WALL = {"quick": 170, "thorough": 3000}
CHUNK = 20
RULE = ("2-4 seeded clients (same or different solver classes; shared or separate rhs function, y0/params arrays, event "
        "functions), each a program of construction and 2-7 calls, some failing by injected exceptions; first each "
        "alone, then together: calls interleaved by a seeded scheduler, calls executed inside another client's rhs or "
        "event evaluation, or one thread per client preempted at seeded source lines or byte codes of nbkode (one thread "
        "runs at a time); each of these executions in a process of its own; every call's outcome and the solver's state after it must equal the solo run; non-trivial: at least "
        "one switch happened between two calls or inside one")
ASSUMES = ["threads are preempted between source lines or byte codes of nbkode and at callbacks (not inside numpy calls)",
           "one solver instance is used by one thread at a time"]
STUB = ["numba decorators (NBKODE_NONUMBA)", "client callbacks", "numpy empty (poison)",
        "thread scheduling: baton scheduler over sys.settrace line and sys.monitoring instruction events"]


# -- scenario ----------------------------------------------------------------------------
def gen(rng, tier):
    mode = rng.choice(["ops", "ops", "nest", "nest", "threads", "threads"])
    n = rng.choice([2, 2, 3, 4]) if mode != "threads" else rng.choice([2, 2, 3])
    share = rng.choice(["none", "rhs", "rhs", "all", "all"])
    base = G.gen_cfg(rng, bound=0.0, params=0.35 if share != "none" else 0.2)
    clients = []
    for i in range(n):
        if i == 0:
            cfg = base
        elif rng.random() < 0.5:  # same class
            cfg = G.gen_cfg(rng, names=[base["solver"]], bound=0.0)
        else:
            cfg = G.gen_cfg(rng, bound=0.0)
        if share != "none" and i:
            cfg = dict(cfg, prob=base["prob"], t0=base["t0"] if rng.random() < 0.7 else base["t0"] + 0.37)
            cfg.pop("params", None)
            if "params" in base:
                cfg["params"] = base["params"]
                if share == "rhs" and rng.random() < 0.6:  # same function, other parameters
                    cfg["params"] = [rnd(rng.uniform(0.6, 1.4)), base["params"][1]]
            rescale(cfg, base["prob"].get("tscale", 1.0), rng)
        ops = []
        for _ in range(rng.randrange(2, 6 if mode == "threads" else 8)):
            op = {"op": rng.choice(["step", "step", "skip", "nstep", "upto", "run", "run", "events", "events", "interp"])}
            if op["op"] == "nstep":
                op["n"] = rng.randrange(1, 6)
            elif op["op"] in ("upto", "run", "events"):
                op["x"] = [rnd(rng.uniform(0.1, 5), 3) for _ in range(rng.randrange(1, 4))]
            elif op["op"] == "interp":
                op["x"] = rnd(rng.random(), 3)
            if op["op"] == "events":
                op["ev"] = [rng.randrange(3) for _ in range(rng.randrange(1, 3))]
            if rng.random() < 0.2:
                op["fault"] = {"on": rng.choice(["rhs", "rhs", "event"]), "kind": rng.choice(G.EXC_NAMES[:6]),
                               "at": rng.choice([1, 2, 3, rng.randrange(1, 40)])}
            ops.append(op)
        clients.append({"cfg": cfg, "ops": ops})
    evs = [{"kind": "comp", "i": rng.randrange(3), "c": rnd(rng.uniform(-0.5, 1.2)), "direction": rng.choice([0, 1, -1])},
           {"kind": "mix", "w": rnd(rng.uniform(0.5, 3)), "c": rnd(rng.uniform(-0.3, 0.3))},
           {"kind": "comp", "i": 0, "c": rnd(rng.uniform(-0.5, 1.2)), "terminal": True}]
    scn = {"mode": mode, "share": share, "clients": clients, "evs": evs, "sched_seed": rng.randrange(1 << 30)}
    if mode == "ops" and rng.random() < 0.35:
        # short-lived clients: functions and arrays exist only as long as their client
        scn["brief"] = True
        if share == "all":
            scn["share"] = "rhs"
        if rng.random() < 0.6:
            scn["queue"] = True  # one after the other
        if rng.random() < 0.6:
            scn["refill"] = rng.choice(["list", "array"])
    if mode == "nest":
        scn["sched"] = [[rng.randrange(n), rng.choice(["rhs", "event"]), int(10 ** rng.uniform(0, 1.6)), rng.randrange(n)]
                        for _ in range(rng.randrange(3, 14))]
    if mode == "threads":
        scn["gap"] = rng.choice([1, 3, 10, 40, 150])
        if rng.random() < 0.3:  # preemption between byte codes
            scn["grain"] = "opcode"
            scn["gap"] = rng.choice([2, 10, 50, 300])
    return scn


def rescale(cfg, s, rng):
    """Step sizes for the time scale of the shared problem."""
    if cfg["solver"] in models.ADAPTIVE:
        o = cfg.get("opts", {})
        for k in ("first_step", "max_step", "min_step"):
            o.pop(k, None)
        o["max_step"] = rnd(rng.uniform(0.1, 1.0), 3) * s
    else:
        cfg["h"] = rnd(rng.uniform(0.02, 0.1), 3) * s


# -- clients ---------------------------------------------------------------------------------
class World:
    """The functions and arrays the clients of one execution use."""

    def __init__(self, scn):
        self.scn = scn
        self.stack = []  # nesting of clients (cooperative modes)
        self.baton = None  # threads mode
        self.hook = None
        n = len(scn["clients"])
        self.cbs = [world.Callbacks(problems.make(c["cfg"]["prob"]), budget=60_000) for c in scn["clients"]]
        share = scn["share"]
        self.events = [self._event(spec, None) for spec in scn["evs"]]
        self.rhs, self.y0, self.params, self.evs = [], [], [], []
        if scn.get("brief"):
            self.rhs, self.y0, self.params, self.evs = [None] * n, [None] * n, [None] * n, [None] * n
            self.shared = None
            # one array (or list) that the clients fill with their values in turn
            self.box = [0.0, 0.0] if scn.get("refill") == "list" else np.zeros(2)
            return
        for i in range(n):
            cfg = scn["clients"][i]["cfg"]
            if share != "none" and i:
                self.rhs.append(self.rhs[0])
            else:
                who = None if share != "none" else i
                fn = self._rhs(who)
                if cfg.get("params") is not None:
                    fn = world.with_params(fn, None)
                self.rhs.append(boot.jitted(fn))
            if share == "all" and i:
                self.y0.append(self.y0[0])
                self.params.append(self.params[0])
            else:
                self.y0.append(np.array(cfg["prob"]["y0"], dtype=float))
                p = cfg.get("params")
                self.params.append(None if p is None else np.array(p, dtype=float))
            self.evs.append(self.events if share == "all" else [self._event(s, i) for s in scn["evs"]])

    def arrive(self, i):
        """A short-lived client brings its functions and arrays."""
        cfg = self.scn["clients"][i]["cfg"]
        if self.scn["share"] == "none" or self.shared is None:
            fn = self._rhs(i if self.scn["share"] == "none" else None)
            if cfg.get("params") is not None:
                fn = world.with_params(fn, None)
            fn = boot.jitted(fn)
            if self.scn["share"] != "none":
                self.shared = fn
        self.rhs[i] = fn if self.scn["share"] == "none" else self.shared
        self.y0[i] = np.array(cfg["prob"]["y0"], dtype=float)
        self.evs[i] = [self._event(s, i) for s in self.scn["evs"]]

    def leave(self, i):
        self.rhs[i] = self.y0[i] = self.evs[i] = None

    def current(self):
        return self.baton.current if self.baton else self.stack[-1]

    def _rhs(self, who):
        def rhs(t, y):
            i = self.current() if who is None else who
            if self.hook:
                self.hook(i, "rhs")
            return self.cbs[i].rhs(t, y)

        return rhs

    def _event(self, spec, who):
        g0 = event_fn(spec)

        def g(t, y):
            i = self.current() if who is None else who
            if self.hook:
                self.hook(i, "event")
            return self.cbs[i].event(g0, t, y)

        if spec.get("terminal"):
            g.terminal = True
        if spec.get("direction"):
            g.direction = spec["direction"]
        return boot.jitted(g)


class Client:
    def __init__(self, nb, w, i):
        self.nb, self.w, self.i = nb, w, i
        c = w.scn["clients"][i]
        self.cfg, self.ops = c["cfg"], c["ops"]
        self.cb = w.cbs[i]
        self.sol = None
        self.pos = -1  # next op; -1 is the construction
        self.record = []
        self.busy = False
        self.gone = False

    @property
    def done(self):
        return self.gone or self.pos >= len(self.ops) or (self.pos >= 0 and self.sol is None)

    def next(self):
        """Execute the next call of this client's program and record its outcome."""
        self.busy = True
        self.w.stack.append(self.i)
        try:
            if self.pos < 0:
                self.pos = 0
                st, v = guarded(self._build)
                if st == "ok":
                    self.sol, v = v, None
            else:
                op = self.ops[self.pos]
                self.pos += 1
                if op.get("fault"):
                    self.cb.arm(op["fault"])
                self.cb.limit = self.cb.n + self.cb.budget
                st, v = guarded(self._call, op)
                if op.get("fault"):
                    self.cb.disarm()
            out = [st, type(v).__name__ if st != "ok" else flat(v)]
            if self.sol is not None:
                out += [*world.state(self.sol), fl(self.sol.h)]
            self.record.append(out)
            if self.done and self.w.scn.get("brief"):
                self.sol, self.gone = None, True
                v = None
                self.w.leave(self.i)
                gc.collect()
        finally:
            self.w.stack.pop()
            self.busy = False

    def _build(self):
        cfg, w, i = self.cfg, self.w, self.i
        if w.scn.get("brief"):
            w.arrive(i)
            if cfg.get("params") is not None:
                p = list(cfg["params"])
                if w.scn.get("refill"):
                    w.box[:] = p
                    p = w.box
                return self.nb.get_solver(cfg["solver"])(w.rhs[i], cfg["t0"], list(cfg["prob"]["y0"]),
                                                         params=p, **world.kwargs_of(cfg))
        cls = self.nb.get_solver(cfg["solver"])
        kw = world.kwargs_of(cfg)
        if w.params[i] is not None:
            return cls(w.rhs[i], cfg["t0"], w.y0[i], params=w.params[i], **kw)
        return cls(w.rhs[i], cfg["t0"], w.y0[i], **kw)

    def _call(self, op):
        s, k = self.sol, op["op"]
        t, h = float(s.t), fl(s.h)
        if self.cfg["solver"] in models.ADAPTIVE:
            h = min(h, 0.5 * self.cfg["prob"].get("tscale", 1.0))
        if k == "step":
            return s.step()
        if k == "skip":
            return s.skip()
        if k == "nstep":
            return s.step(n=op["n"])
        if k == "upto":
            return s.skip(upto_t=t + max(op["x"]) * h)
        if k == "run":
            return s.run([t + x * h for x in op["x"]])
        if k == "events":
            return s.run_events([t + x * h for x in op["x"]], [self.w.evs[self.i][j] for j in op["ev"]])
        st, v = guarded(s.interpolate, t - op["x"] * 0.5 * h)
        return v if st == "ok" else None


def flat(v):
    if v is None:
        return []
    if isinstance(v, np.ndarray):
        return [np.array(v, dtype=float)]
    if isinstance(v, (tuple, list)):
        out = []
        for x in v:
            out += flat(x)
        return out
    return [np.array(v, dtype=float)]


# -- executions ----------------------------------------------------------------------------
def solo(nb, scn, i):
    w = World(scn)
    c = Client(nb, w, i)
    while not c.done:
        c.next()
    return c.record


def together(nb, scn, ctx):
    w = World(scn)
    cs = [Client(nb, w, i) for i in range(len(scn["clients"]))]
    rng = random.Random(scn["sched_seed"])
    if scn.get("brief"):
        gc.freeze()
    if scn["mode"] == "ops":
        last = None
        while any(not c.done for c in cs):
            c = rng.choice([c for c in cs if not c.done])
            if scn.get("queue") and last is not None and not last.done:
                c = last
            if c is not last and last is not None:
                ctx.log.count("switches between calls")
                ctx.nontrivial = True
            last = c
            ctx.log.mark(c.i, c.pos)
            c.next()
    elif scn["mode"] == "nest":
        plan = [list(x) for x in scn.get("sched", [])]
        seen = {}

        def hook(i, where):
            key = (i, where)
            seen[key] = seen.get(key, 0) + 1
            if len(w.stack) > 3:
                return
            for p in plan:
                if p[0] % len(cs) == i and p[1] == where and p[2] == seen[key]:
                    inner = cs[p[3] % len(cs)]
                    if not inner.busy and not inner.done:
                        ctx.log.count("calls nested in " + where)
                        ctx.log.mark("nest", i, where, inner.i, inner.pos)
                        ctx.nontrivial = True
                        # the inner client's own rhs is a different "current" client
                        inner.next()

        w.hook = hook
        while any(not c.done for c in cs):
            rng.choice([c for c in cs if not c.done]).next()
    else:
        threads(w, cs, rng, scn, ctx)
    return [c.record for c in cs], [None if a is None else a.tolist() for a in w.y0]


TOOL = 4  # sys.monitoring tool id; each execution has its own process


class Abort(BaseException):
    pass


class Baton:
    """Exactly one client thread runs; the others wait for their semaphore."""

    def __init__(self, n, rng, gap, ctx):
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.current = 0
        self.rng, self.gap, self.ctx = rng, gap, ctx
        self.abort = False
        self.left = self._gap()
        self.switches = 0
        self.errors = []
        self.finished = threading.Semaphore(0)

    def _gap(self):
        return 1 + int(self.rng.expovariate(1.0 / self.gap))

    def tick(self, me, where=None):
        if self.abort:
            raise Abort
        self.left -= 1
        if self.left <= 0:
            self.left = self._gap()
            others = [i for i, a in enumerate(self.alive) if a and i != me]
            if others:
                to = self.rng.choice(others)
                self.switches += 1
                if where is not None:
                    self.ctx.log.mark(me, to, where)
                self.hand(to)
                self.sems[me].acquire()
                if self.abort:
                    raise Abort

    def hand(self, to):
        self.current = to
        self.sems[to].release()

    def finish(self, me):
        self.alive[me] = False
        others = [i for i, a in enumerate(self.alive) if a]
        if others and not self.abort:
            self.hand(self.rng.choice(others))
        else:
            self.finished.release()


def threads(w, cs, rng, scn, ctx):
    b = Baton(len(cs), rng, scn.get("gap", 10), ctx)
    w.baton = b
    w.hook = lambda i, where: b.tick(b.current)  # the running thread, whoever's function it is in
    root = boot.REPO + "/nbkode/"
    inside = {}
    grain = scn.get("grain", "line")
    fine = grain == "opcode"

    def body(c):
        me = c.i

        def local(frame, event, arg):
            if event == grain:
                b.tick(me, (frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno) if b.left <= 1 else None)
            return local

        def tracer(frame, event, arg):
            fn = frame.f_code.co_filename
            ok = inside.get(fn)
            if ok is None:
                ok = inside[fn] = fn.startswith(root)
            return local if ok else None

        b.sems[me].acquire()
        try:
            if not b.abort:
                if not fine:
                    sys.settrace(tracer)
                while not c.done:
                    c.next()
        except Abort:
            pass
        except BaseException as e:  # noqa: BLE001
            b.errors.append(e)
        finally:
            sys.settrace(None)
            b.finish(me)

    if fine:
        # sys.settrace's opcode events crash 3.12 when several threads are traced

        def instruction(code, offset):
            fn = code.co_filename
            ok = inside.get(fn)
            if ok is None:
                ok = inside[fn] = fn.startswith(root)
            if not ok:
                return mon.DISABLE
            b.tick(b.current, (code.co_name, offset) if b.left <= 1 else None)
            return None

        mon = sys.monitoring
        mon.use_tool_id(TOOL, "sim")
        mon.register_callback(TOOL, mon.events.INSTRUCTION, instruction)
        mon.set_events(TOOL, mon.events.INSTRUCTION)
    ts = [threading.Thread(target=body, args=(c,), daemon=True) for c in cs]
    for t in ts:
        t.start()
    b.hand(rng.randrange(len(cs)))
    try:
        b.finished.acquire()
    except BaseException:
        b.abort = True
        for s in b.sems:
            s.release()
        raise
    for t in ts:
        t.join(10)
    ctx.log.count(f"thread switches between {grain}s", b.switches)
    ctx.nontrivial = ctx.nontrivial or b.switches > 0
    if b.errors:
        if isinstance(b.errors[0], (Viol, Skip)):
            raise b.errors[0]
        raise boot.HarnessError(f"thread failed: {b.errors[0]!r}") from b.errors[0]


def run(scn, ctx):
    # every execution in a process of its own: state that solvers share within a process
    # (class attributes, caches) must not be the same "alone" and together
    alone = [child.run(lambda c, i=i: solo(c.nb, scn, i), ctx) for i in range(len(scn["clients"]))]
    ctx.log.count("mode:" + scn["mode"])
    ctx.log.count("share:" + scn["share"])
    if scn.get("brief"):
        ctx.log.count("short-lived clients")
    ctx.log.mark(scn["mode"], scn["share"], [c["cfg"]["solver"] for c in scn["clients"]])
    recs, y0s = child.run(lambda c: together(c.nb, scn, c), ctx)
    for i, (a, b) in enumerate(zip(alone, recs)):
        c = scn["clients"][i]
        name = c["cfg"]["solver"]
        ctx.log.count("solver:" + name)
        if len(a) != len(b):
            raise Viol("alone", f"client {i} ({name}): {len(b)} calls finished, {len(a)} when alone")
        for j, (x, y) in enumerate(zip(a, b)):
            op = "construction" if j == 0 else f"call {j} {c['ops'][j - 1]}"
            bad = differs(x, y)
            if bad:
                raise Viol("alone", f"client {i} ({name}), {op}: {bad} (mode {scn['mode']}, sharing {scn['share']})")
            ctx.log.add(i, j, *y)
            ctx.log.count("calls")
            if x[0] == "exc":
                ctx.log.count("fault:call raised:" + x[1])
        if len(b) and len(b[-1]) > 2:
            ctx.sim += b[-1][2] - c["cfg"]["t0"]
    ctx.steps += sum(len(r) for r in recs)
    for i, y0 in enumerate(y0s):
        if scn["share"] != "all" or i == 0:
            if y0 is not None and y0 != scn["clients"][i]["cfg"]["prob"]["y0"]:
                raise Viol("alone", f"client {i}: its y0 array was changed to {y0}")


def differs(x, y):
    if x[0] != y[0] or (x[0] != "ok" and x[1] != y[1]):
        return f"outcome {y[0]} {y[1] if y[0] != 'ok' else ''} instead of {x[0]} {x[1] if x[0] != 'ok' else ''}"
    if x[0] == "ok":
        if len(x[1]) != len(y[1]):
            return f"{len(y[1])} result arrays instead of {len(x[1])}"
        for p, q in zip(x[1], y[1]):
            if p.shape != q.shape or not close(q, p, 1e-12, 1e-13):
                return f"result {q.tolist()} instead of {p.tolist()}"
    if len(x) != len(y):
        return "no solver"
    for nm, p, q in zip(("t", "y", "f", "h"), x[2:], y[2:]):
        if not close(q, p, 1e-12, 1e-13):
            return f"afterwards {nm}={np.asarray(q).tolist()} instead of {np.asarray(p).tolist()}"
    return None
