"""Fault-free reference trajectory and the follower that checks calls against it."""

import copy

import numpy as np

from . import boot, models, problems, world
from .boot import HarnessError
from .world import close, fl, guarded, teq


class Viol(Exception):
    """A property violation: (category, human-readable detail)."""

    def __init__(self, cat, detail):
        super().__init__(f"{cat}: {detail}")
        self.cat, self.detail = cat, detail


class Skip(Exception):
    """The run left the domain this property speaks about (never a verdict)."""


class Ref:
    """Accepted steps of the same configuration, driven by single steps, no faults."""

    def __init__(self, nb, cfg):
        self.cfg = {**cfg, "t_bound": None, "forms": None}
        self.name = cfg["solver"]
        self.cb = world.Callbacks(problems.make(cfg["prob"]))
        self.cb.times = []
        self.f = world.pure_f(cfg)
        st, v = guarded(world.build, nb, self.cfg, self.cb)
        if st != "ok":
            raise Viol("ref", f"constructor of {self.name} failed without a fault: {v!r}")
        self.sol = v
        self.furthest = max([x[1] for x in self.cb.times], default=cfg["t0"])  # evaluated by the constructor
        self.cb.times = None
        self.cost = []  # right-hand side evaluations of each step
        t, y, f = world.state(v)
        self.nodes = [(t, y, f)]
        self.hs = [fl(v.h)]
        self._big = 0, 0.0
        self.fixed = self.name not in models.ADAPTIVE
        self.hist = models.history_len(self.name)
        self.pre = []  # startup nodes before node 0, oldest first
        self.floor = -(10**9)  # no history before this node
        n = steps_pre(cfg)
        t0, h = cfg["t0"], cfg.get("h")
        for j in range(n):
            tj = min(max(t0 + j * h, t0), t)
            st, yj = guarded(v.interpolate, tj)
            if st != "ok":
                raise Viol("ref", f"interpolate({tj!r}) in startup history: {yj!r}")
            yj = np.array(yj, dtype=float)
            self.pre.append((tj, yj, self.f(tj, yj)))

    def node(self, k):
        if k < 0:
            i = len(self.pre) + k
            return self.pre[max(i, 0)] if self.pre else self.nodes[0]
        while len(self.nodes) <= k:
            t_old = self.nodes[-1][0]
            n = self.cb.n
            self.cb.limit = n + 20_000
            st, v = guarded(self.sol.step)
            if st != "ok":
                raise Viol("ref", f"step() from t={t_old!r} failed without a fault: {v!r}")
            t, y, f = world.state(self.sol)
            if not t > t_old:
                raise Viol("ref", f"step() from t={t_old!r} ended at t={t!r}")
            self.nodes.append((t, y, f))
            self.cost.append(self.cb.n - n)
            self.hs.append(fl(self.sol.h))
        return self.nodes[k]

    def t(self, k):
        return self.node(k)[0]

    def noise(self):
        """Rounding of dense output: of the times, and of the largest states seen."""
        n, big = self._big
        for node in self.nodes[n:]:
            big = max(big, float(np.max(np.abs(node[1]))))
        self._big = len(self.nodes), big
        return world.NOISE + (1e-14 * big if np.isfinite(big) else 0.0)

    def first(self, k):
        """Index of the oldest node still in the history at node k."""
        return max(k - self.hist + 1, -len(self.pre), self.floor)

    def resumed(self, k):
        """This trajectory as seen by a solver constructed at node k."""
        view = copy.copy(self)
        view.floor = k
        return view

    def hist_start(self, k):
        return self.node(self.first(k))[0]

    def dense(self, k, te):
        """Dense output at te, te within the history at node k."""
        j = k
        while j - 1 >= self.first(k) and self.t(j - 1) >= te:
            j -= 1
        if self.t(j) == te:
            return np.array(self.node(j)[1])
        return models.dense_between(self.name, self.f, self.node(j - 1), self.node(j), te)

    def may_step(self, j, limit):
        """From node j, is the next step allowed by `limit`?  -> yes/no/either"""
        t, h = self.t(j), self.hs[j]
        nxt = self.t(j + 1)
        if self.fixed:
            return "yes" if nxt <= limit else "no"
        slack = 8 * np.spacing(max(abs(limit), abs(t) + h)) if np.isfinite(limit) else 0.0
        if nxt > limit + slack:
            return "no"
        if t + h <= limit - slack:
            return "yes"
        return "either"

    def reach(self, k, n, limit):
        """Fewest/most nodes reachable from k with at most n steps up to limit."""
        lo = hi = 0
        sure = True
        while hi < n:
            m = self.may_step(k + hi, limit)
            if m == "no":
                break
            hi += 1
            if m == "either":
                sure = False
            if sure:
                lo = hi
        return lo, hi


def steps_pre(cfg):
    """Startup nodes taken by the constructor before the first step."""
    if cfg["solver"] not in models.MULTISTEP:
        return 0
    if cfg.get("starter", "auto") is None:
        return 0
    return models.steps_used(cfg["solver"]) - 1


def resolve(ref, k, spec):
    """A time spec of an op -> absolute time.

    ["rel", x]       t_k + x*h_k
    ["node", j]      exactly the time of node k+j (j >= 0)
    ["ulp", j, s]    s ulps after the time of node k+j
    ["off", s, n]    n ulps (of the time) after the time s
    ["btw", j, th]   th of the way from node k+j to node k+j+1
    ["hist", j, th]  th of the way through the (j+1)-last step of the history
    ["hnode", j]     exactly the (j+1)-last node of the history
    """
    kind = spec[0]
    if kind == "abs":
        return spec[1]
    t = ref.t(k)
    if kind == "rel":
        return t + spec[1] * ref.hs[k]
    if kind == "node":
        return ref.t(k + spec[1])
    if kind == "ulp":
        x = ref.t(k + spec[1])
        for _ in range(abs(spec[2])):
            x = float(np.nextafter(x, np.inf if spec[2] > 0 else -np.inf))
        return x
    if kind == "off":
        x = float(resolve(ref, k, spec[1]))
        return x + spec[2] * float(np.spacing(abs(x)))
    if kind == "btw":
        a, b = ref.t(k + spec[1]), ref.t(k + spec[1] + 1)
        return a + spec[2] * (b - a)
    if kind == "hist":
        lo = ref.first(k)
        j = max(k - spec[1] - 1, lo)
        a, b = ref.t(j), ref.t(min(j + 1, k))
        th = spec[2]
        if j < 0 and j > -len(ref.pre):
            th = max(th, startup_noise(a, b))  # startup times are known up to rounding only
        return min(max(a + th * (b - a), a), b)
    if kind == "hnode":
        j = max(k - spec[1], ref.first(k))
        x = ref.t(j)
        if j < 0 and j > -len(ref.pre):
            x += startup_noise(x, ref.t(j + 1)) * (ref.t(j + 1) - x)
        return x
    raise KeyError(kind)


def startup_noise(a, b):
    return max(1e-9, min(0.5, 8 * float(np.spacing(max(abs(a), abs(b)))) / (b - a)))


MAX_ADV = 60  # no op advances more nodes than this
ALL_CATS = ("node", "h", "stop", "out", "exc", "move", "rows", "events", "fault", "dense")


class Follower:
    """Drives one solver through ops and checks what it does against `ref`.

    Categories of violations - each check enables those its property speaks about:
    node   the solver is not on an accepted step of the reference trajectory
    h      next step size differs from the reference's there
    stop   advanced too far / not far enough
    move   a refused call or a query of the past moved the solver
    exc    unexpected exception, or an expected refusal is missing
    rows   number/time of returned rows wrong
    out    returned values wrong
    dense  interpolate() wrong
    events event lists wrong
    fault  injected exception swallowed or replaced
    """

    def __init__(self, ref, cfg, sol, cb, log, cats, start=0):
        self.ref, self.cfg, self.sol, self.cb, self.log = ref, cfg, sol, cb, log
        self.cats = frozenset(cats)
        self.k = start
        b = cfg.get("t_bound")
        self.bound = float("inf") if b is None else b
        self.results = []
        self.faulted = 0
        self.on_result = None
        self.made = None  # event specs and functions of the last run_events

    def fail(self, cat, detail):
        if cat in self.cats:
            raise Viol(cat, detail)
        self.log.count("ignored:" + cat)

    # -- state --------------------------------------------------------------------
    def locate(self, what):
        """Which node is the solver on?  (never goes back)"""
        t, y, f = world.state(self.sol)
        ref = self.ref
        k = self.k
        if not np.isfinite(t) or (t < ref.t(k) and not teq(t, ref.t(k))):
            if "node" in self.cats:
                raise Viol("node", f"{what}: time went from {ref.t(k)!r} to {t!r}")
            raise Skip("node")
        while ref.t(k) < t and not teq(ref.t(k), t):
            k += 1
            if k > self.k + 20 * MAX_ADV:
                raise Skip("far")
        rt, ry, rf = ref.node(k)
        if not teq(t, rt):
            if "node" in self.cats:
                raise Viol(
                    "node",
                    f"{what}: solver is at t={t!r}, which is not an accepted step of the "
                    f"undisturbed run (neighbours {ref.t(k - 1)!r}, {rt!r})",
                )
            raise Skip("node")
        bad = None
        if not close(y, ry):
            bad = f"{what}: at t={t!r} state {y.tolist()} instead of {ry.tolist()}"
        elif not world.feq(f, rf):
            bad = f"{what}: at t={t!r} derivative {f.tolist()} instead of {rf.tolist()}"
        if bad:
            if "node" in self.cats:
                raise Viol("node", bad)
            raise Skip("node")
        h = fl(self.sol.h)
        if not world.heq(h, ref.hs[k]):
            self.fail("h", f"{what}: at t={t!r} next step size {h!r} instead of {ref.hs[k]!r}")
        return k

    def expect_at(self, lo, hi, what, cat):
        """After a call the solver must be at a node in lo..hi."""
        k = self.locate(what)
        if not lo <= k <= hi:
            self.fail(cat, f"{what}: advanced {k - self.k} steps instead of {lo - self.k}..{hi - self.k}")
        self.k = k

    # -- ops ----------------------------------------------------------------------
    def do(self, op):
        """Execute op and check it; returns "ok", "exc" or "fault"."""
        kind = op["op"]
        fault = op.get("fault")
        k0 = self.k
        args = self._args(op)
        if kind in ("step", "skip", "run", "run_events"):
            self._target(kind, args)  # Skip when the op would take too many steps
        self.cb.limit = self.cb.n + self.cb.budget
        if fault:
            self.cb.arm(fault)
        st, v = guarded(self._call, kind, args)
        inj = self.cb.injected
        if fault:
            self.cb.disarm()
        fired = self.cb.fired if fault else 0
        what = f"{kind}({_show(args)})"
        self.log.count("op:" + kind)
        if st == "budget":
            raise Viol("hang", f"{what}: more than {self.cb.budget} evaluations")
        if fault and self.cb.led:
            self.log.count("fault:rhs:nan before the exception", self.cb.led)
            if not fired and st == "exc" and isinstance(v, RuntimeError):
                fired, inj = 1, v  # the step size was exhausted first
        if (fired or fault and self.cb.led) and (fault["on"] == "alloc" or fault["kind"] not in ("nan", "inf")):
            self.faulted += 1
            self.log.count(f"fault:{fault['on']}:{fault['kind']}")
            if st != "exc":
                self.fail("fault", f"{what}: injected {inj!r} was swallowed")
            elif not world.is_injected(v, inj):
                self.fail("fault", f"{what}: client got {v!r} instead of the injected {inj!r}")
            hi = self.k
            if kind not in ("interp", "bad"):
                hi = self.k + self.ref.reach(self.k, *self._target(kind, args))[1]
            self.expect_at(self.k, hi, f"{what} failed by injected {type(inj).__name__}", "node")
            self.log.mark(kind, "fault", fault["on"], self.k - k0)
            self.log.add("fault", self.k)
            return "fault"
        getattr(self, "_check_" + kind)(args, st, v, what)
        self.log.mark(kind, tuple(sorted(args)), st, self.k - k0)
        t, y, f = world.state(self.sol)
        self.log.add("at", self.k, t, y, f)
        if st == "ok" and self.on_result is not None:
            self.on_result(kind, args, v)
        return st

    def _target(self, kind, args):
        """-> (max steps, time limit of a step) for the advancing ops."""
        if kind in ("step", "skip"):
            n = args.get("n")
            up = args.get("upto")
            if up is not None and up < float(self.sol.t):
                return 0, up
            if n is None:
                n = 1 if up is None else 20 * MAX_ADV
            return n, min(self.bound, up if up is not None else self.bound)
        if kind in ("run", "run_events"):
            tmax = max(args["ts"], default=-np.inf)
            n = 0
            while self.ref.t(self.k + n) < tmax:
                n += 1
                if n > 20 * MAX_ADV:
                    raise Skip("run target too far")
            return n, self.bound
        raise KeyError(kind)

    def _args(self, op):
        r = lambda s: float(resolve(self.ref, self.k, s))  # noqa: E731
        a = {}
        for key in ("n", "upto", "ts", "t", "how", "form", "events", "num", "evform"):
            if key in op:
                a[key] = op[key]
        if "upto" in a:
            a["upto"] = r(a["upto"])
        if "ts" in a:
            a["ts"] = [r(s) for s in a["ts"]]
            if a.get("form") == "int" and world.UNIT < 1e-3:
                a["form"] = "list"
            if a.get("form") == "int":
                a["ts"] = [float(int(x)) for x in a["ts"]]
                lo = self.ref.hist_start(self.k)
                a["ts"] = [x if x >= lo else x + 1.0 for x in a["ts"]]
        if "t" in a:
            a["t"] = r(a["t"])
        return a

    def _call(self, kind, a):
        s = self.sol
        if kind in ("step", "skip"):
            kw = {}
            num = a.get("num") == "np"
            if "n" in a:
                kw["n"] = np.int64(a["n"]) if num else a["n"]
            if "upto" in a:
                kw["upto_t"] = np.float64(a["upto"]) if num else a["upto"]
            return getattr(s, kind)(**kw)
        if kind == "run":
            return s.run(_form(a["ts"], a.get("form")))
        if kind == "run_events":
            if self.made and self.made[0] is a["events"]:
                evs = self.made[1]
                self.log.count("op:run_events with the same event list")
            else:
                evs = [make_event(e, self.cb) for e in a["events"]]
                self.made = a["events"], evs
            if len(evs) == 1 and (a.get("form") == "scalar" or a.get("evform") == "single"):
                evs = evs[0]
            elif a.get("evform") == "tuple":
                evs = tuple(evs)
            elif a.get("evform") == "iter":
                evs = iter(evs)
            return s.run_events(_form(a["ts"], a.get("form")), evs)
        if kind == "interp":
            return s.interpolate(np.float64(a["t"]) if a.get("num") == "np" else a["t"])
        if kind == "bad":
            return self._bad(a["how"])
        raise KeyError(kind)

    # -- requests that must be refused without moving ------------------------------
    def _bad(self, how):
        s, t = self.sol, float(self.sol.t)
        start = self.ref.hist_start(self.k)
        H = max(abs(self.ref.hs[self.k]), 1e-3 * world.UNIT)
        b = self.bound
        if how == "interp_future":
            return s.interpolate(t + 0.5 * H)
        if how == "interp_past":
            return s.interpolate(start - 0.5 * H)
        if how == "run_past":
            return s.run([start - 0.5 * H, t])
        if how == "run_past_future":
            return s.run([t + H, start - 0.5 * H])
        if how.startswith("nan_"):
            nan = float("nan")
            return {
                "run": lambda: s.run(nan), "run_mixed": lambda: s.run([t, nan, start]),
                "run_events": lambda: s.run_events([nan], [boot.jitted(lambda t, y: y[0])]),
                "step": lambda: s.step(upto_t=nan), "skip": lambda: s.skip(upto_t=nan),
                "nstep": lambda: s.step(n=2, upto_t=nan), "nskip": lambda: s.skip(n=2, upto_t=nan),
                "interp": lambda: s.interpolate(nan),
            }[how[4:]]()
        if not np.isfinite(b):
            raise Skip("no bound")
        if how == "run_bound":
            return s.run([t, b + H])
        if how == "run_bound_unsorted":
            return s.run([b + H, t])
        if how == "run_bound_ulp":
            return s.run(float(np.nextafter(b, np.inf)))
        if how == "step_bound":
            return s.step(upto_t=b + H)
        if how == "skip_bound":
            return s.skip(upto_t=b + H)
        if how == "step_bound_ulp":
            return s.step(upto_t=float(np.nextafter(b, np.inf)))
        if how == "nstep_bound":
            return s.step(n=2, upto_t=b + H)
        if how == "nskip_bound":
            return s.skip(n=2, upto_t=b + H)
        raise KeyError(how)

    def _check_bad(self, a, st, v, what):
        if st != "exc":
            self.fail("exc", f"{what}: accepted, returned {v!r}")
        elif not isinstance(v, ValueError):
            self.fail("exc", f"{what}: {v!r} instead of ValueError")
        self.expect_at(self.k, self.k, what, "move")

    # -- stepping ---------------------------------------------------------------
    def _check_step(self, a, st, v, what, skip=False):
        k0, ref = self.k, self.ref
        n, lim = self._target("step", a)
        if "upto" in a and a["upto"] < ref.t(k0):
            self.expect_at(k0, k0, what, "move")
            if st != "ok":
                self.fail("exc", f"{what}: {v!r}")
            elif not skip:
                self._rows(v, [], what)
            return
        lo, hi = ref.reach(k0, n, lim)
        if "upto" not in a:  # all n steps are due, else RuntimeError
            if st == "exc":
                self.expect_at(k0 + lo, k0 + hi, what, "stop")
                if lo >= n or not isinstance(v, RuntimeError):
                    self.fail("exc", f"{what}: {v!r}")
            else:
                self.expect_at(k0 + min(n, hi), k0 + hi, what, "stop")
                if hi < n:
                    self.fail("exc", f"{what}: bound reached after {hi} of {n} steps without an error, returned {v!r}")
                    return
        else:
            self.expect_at(k0 + lo, k0 + hi, what, "stop")
            if st != "ok":
                self.fail("exc", f"{what}: {v!r}")
        if st != "ok":
            return
        if skip:
            if v is not None:
                self.fail("rows", f"{what}: returned {v!r}")
            return
        idx = list(range(k0 + 1, self.k + 1))
        if "n" not in a and "upto" not in a:
            self._one(v, idx, what)
        else:
            self._rows(v, idx, what)

    def _check_skip(self, a, st, v, what):
        self._check_step(a, st, v, what, skip=True)

    def _one(self, v, idx, what):
        try:
            t, y = v
            t, y = np.asarray(t, float), np.asarray(y, float)
        except Exception:
            self.fail("rows", f"{what}: returned {v!r}")
            return
        if len(idx) != 1 or t.size != 1 or not teq(float(t.ravel()[0]), self.ref.t(idx[0])):
            self.fail("rows", f"{what}: returned time {t.tolist()} after {len(idx)} steps to {self.ref.t(self.k)!r}")
            return
        rt, ry, _ = self.ref.node(idx[0])
        if not close(y.ravel(), ry):
            self.fail("out", f"{what}: returned state {y.tolist()} for node ({rt!r}, {ry.tolist()})")

    def _rows(self, v, idx, what):
        try:
            ts, ys = v
            ts, ys = np.asarray(ts, float), np.asarray(ys, float)
        except Exception:
            self.fail("rows", f"{what}: returned {v!r}")
            return
        if ts.shape != (len(idx),) or len(ys) != len(idx):
            self.fail("rows", f"{what}: returned {ts.shape}/{ys.shape} rows for {len(idx)} steps")
            return
        for i, k in enumerate(idx):
            rt, ry, _ = self.ref.node(k)
            if not teq(ts[i], rt):
                self.fail("rows", f"{what}: row {i} has time {ts[i]!r}, step ended at {rt!r}")
            elif not close(ys[i], ry):
                self.fail("out", f"{what}: row {i} is {ys[i].tolist()} at t={rt!r} where the step ended in {ry.tolist()}")

    # -- run ------------------------------------------------------------------------
    def _check_run(self, a, st, v, what):
        k0, ref = self.k, self.ref
        want = a["ts"]
        n, lim = self._target("run", a)
        lo, hi = ref.reach(k0, n, lim)
        self.expect_at(k0 + lo, k0 + hi, what, "stop")
        if st != "ok":
            self.fail("exc", f"{what}: {v!r}")
            return
        self._run_rows(v[:2] if isinstance(v, tuple) else v, want, k0, what)

    def _run_rows(self, v, want, k0, what):
        reach_t = float(self.sol.t)
        kept = [x for x in want if x <= reach_t]
        self._rows_at(v, kept, k0, what, len(want))

    def _rows_at(self, v, kept, k0, what, nwant, values=None):
        try:
            ts, ys = v
            ts, ys = np.asarray(ts, float), np.asarray(ys, float)
        except Exception:
            self.fail("rows", f"{what}: returned {v!r}")
            return
        if ts.shape != (len(kept),) or ys.shape[:1] != (len(kept),):
            self.fail("rows", f"{what}: {ts.shape} times and {ys.shape} states for {len(kept)} reachable of {nwant} requested times")
            return
        for i, x in enumerate(kept):
            if ts[i] != x and not (values is not None and i in values and teq(ts[i], x, 1e-9)):
                self.fail("rows", f"{what}: row {i} has time {ts[i]!r} instead of {x!r}")
                return
            if values is not None and i in values:
                exp, tol = values[i]
            else:
                exp, tol = ref_value(self.ref, k0, x), 1e-9 + self.ref.noise()
            if not close(ys[i], exp, rtol=10 * tol, atol=tol):
                self.fail("out", f"{what}: value at t={x!r} is {ys[i].tolist()}, solution there is {exp.tolist()}")
                return

    # -- dense output -----------------------------------------------------------------
    def _check_interp(self, a, st, v, what):
        t = a["t"]
        self.expect_at(self.k, self.k, what, "move")
        if st != "ok":
            self.fail("exc", f"{what}: {v!r}")
            return
        exp = self.ref.dense(self.k, t)
        y = np.asarray(v, float)
        if not close(y.ravel(), exp, rtol=1e-8, atol=1e-9 + self.ref.noise()):
            self.fail("dense", f"{what}: {y.tolist()} instead of {exp.tolist()}")

    # -- events -------------------------------------------------------------------------
    def _check_run_events(self, a, st, v, what):
        from . import evcheck

        evcheck.check(self, a, st, v, what)


def ref_value(ref, k0, x):
    """Solution at x: dense output over the step that contains it."""
    k = k0
    while ref.t(k) < x:
        k += 1
    return ref.dense(k, x)


def make_event(spec, cb=None):
    """spec -> event function g(t, y) with scipy-style attributes."""
    g0 = event_fn(spec)

    if cb is None:

        def g(t, y):
            return g0(t, y)

    else:

        def g(t, y):
            return cb.event(g0, t, y)

    if spec.get("terminal"):
        g.terminal = np.bool_(True) if spec["terminal"] == "np" else spec["terminal"]
    elif spec.get("terminal") is False:
        g.terminal = False
    if spec.get("direction"):
        g.direction = spec["direction"]
    return boot.jitted(g)


def event_fn(spec):
    kind, s = spec["kind"], 10.0 ** spec.get("scale", 0)
    c = spec.get("c", 0.0)
    if kind == "time":
        return lambda t, y: s * (t - c)
    if kind == "pair":
        d = spec["d"]
        return lambda t, y: s * (t - c) * (t - d)
    if kind == "comp":
        i, sg = spec["i"], spec.get("sg", 1.0)
        return lambda t, y: s * sg * (y[i % len(y)] - c)
    if kind == "sin":
        w = spec["w"]
        return lambda t, y: s * np.sin(w * (t - c))
    if kind == "mix":
        w = spec["w"]
        return lambda t, y: s * (y[0] * np.cos(w * t) - c)
    if kind == "steep":
        w = spec["w"]
        return lambda t, y: s * np.tanh(w * (t - c))
    if kind == "cubic":
        return lambda t, y: s * (t - c) ** 3
    raise KeyError(kind)


def boot_error(msg):
    return HarnessError(msg)


def _form(ts, form):
    if form == "raw":
        return ts
    if form == "scalar" and len(ts) == 1:
        return ts[0]
    if form == "tuple":
        return tuple(ts)
    if form == "array":
        return np.array(ts)
    if form == "strided":
        return world.strided(ts)
    if form == "int":
        return [int(x) for x in ts]
    return list(ts)


def _show(a):
    return ", ".join(f"{k}={v!r}" for k, v in a.items())
