"""C15: the solver registry stays consistent under every sequence of definitions."""

import os
import pickle
import random
import re
import signal
import types

import numpy as np

from .. import boot, child, models, world
from ..ref import Skip, Viol
from ..world import close, guarded

boot.CLIENTS = False

CATS = ("lookup", "group", "filter", "define", "use", "trace")
RUNS = {"quick": 10000, "thorough": 150000}
WALL = {"quick": 110, "thorough": 3000}
CHUNK = 20
RULE = ("each run in a forked process: seeded sequence of 2-14 solver definitions (fixed-step Runge-Kutta, adaptive pair "
        "with and without FSAL, explicit/implicit multistep, from scratch, subclass of a shipped solver; own or shared "
        "group; aliases) of which about half fail (duplicate name or alias in any case, bad history length, builder or "
        "allocation raising one of nine exceptions), interleaved with lookups by name/alias in random case, group and "
        "keyword queries and integrations with the new solvers; everything is compared with a model registry after "
        "each definition; non-trivial: at least one definition succeeded or failed")
ASSUMES = ["definitions are made one after the other in one thread",
           "of dir(nbkode) and of the message of a failed lookup only the names they offer are compared"]
REAL = ["nbkode.core (Solver.__init_subclass__, get_solver, get_solvers, get_groups, list_solvers)", "nbkode.util",
        "nbkode.__init__", "builders of nbkode.multistep and nbkode.runge_kutta"]
STUB = ["numba decorators (NBKODE_NONUMBA)", "the defined solver classes (test workload)", "numpy allocation failure"]

GROUPS = {
    "Euler": ("ForwardEuler", "BackwardEuler"),
    "Adams-Bashforth": tuple(f"AdamsBashforth{i}" for i in range(1, 6)),
    "Adams-Moulton": tuple(f"AdamsMoulton{i}" for i in range(1, 6)),
    "BDF": tuple(f"BDF{i}" for i in range(1, 7)),
    "Runge-Kutta": ("Runge2", "Runge3", "Heun3", "RungeKutta4", "RungeKutta3_8", "RungeKutta23", "RungeKutta45", "DOP853"),
}
POOL = ["Foo", "Bar", "Quux", "MySolver", "RK_test", "Zeta9"]
KINDS = ["erk", "erk", "pair", "fsal", "ab", "am", "scratch", "sub"]
BAD = ["dup_name", "dup_alias", "dup_self", "dup_new", "len1", "len0", "lenstr", "lenfloat", "fixed_raises",
       "step_raises", "alloc"]


def case(rng, s):
    return "".join(rng.choice([c.lower(), c.upper()]) for c in s)


def gen(rng, tier):
    ops = []
    for _ in range(rng.randrange(2, 15)):
        d = {"op": "define", "kind": rng.choice(KINDS), "name": rng.choice(POOL) + rng.choice(["", "", "2"])}
        if rng.random() < 0.2:
            d["name"] = case(rng, d["name"])
        if rng.random() < 0.5:
            d["aliases"] = [rng.choice(["al", "beta", "Gamma", "delta"]) + rng.choice(["", "1", "X"])
                            for _ in range(rng.randrange(1, 3))]
            d["mixin"] = rng.random() < 0.4
        d["npbn"] = rng.random() < 0.5
        if rng.random() < 0.5:
            d["group"] = rng.choice(["Mine", "mine", "Other", "Euler", "bdf"])
        if rng.random() < 0.5:
            d["bad"] = rng.choice(BAD)
            d["exc"] = rng.choice(["SimFault", "ValueError", "KeyboardInterrupt", "MemoryError", "RuntimeError"])
            d["at"] = rng.randrange(1, 4)
            d["seed"] = rng.randrange(1 << 20)
        if rng.random() < 0.1:
            d["abstract"] = True
        ops.append(d)
        if rng.random() < 0.4:
            ops.append({"op": "retry"})
        if rng.random() < 0.5:
            ops.append({"op": "query", "seed": rng.randrange(1 << 20)})
        if rng.random() < 0.6:
            ops.append({"op": "use", "seed": rng.randrange(1 << 20)})
    return {"ops": ops}


def run(scn, ctx):
    """Fork: definitions cannot be undone in this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            child.alone()
            try:
                Session(scn, ctx).go()
                out = ("ok", None, None)
            except Viol as e:
                out = ("viol", e.cat, e.detail)
            except Skip as e:
                out = ("skip", None, str(e))
            except BaseException as e:  # noqa: BLE001
                import traceback

                out = ("err", repr(e), traceback.format_exc())
            lg = ctx.log
            data = pickle.dumps((out, lg.digest(), lg.signature(), dict(lg.counts), lg.lines, ctx.nontrivial, ctx.steps, ctx.sim))
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        except BaseException:  # noqa: BLE001
            code = 1
        os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        raise boot.HarnessError("registry session died")
    out, dig, sig, counts, lines, nt, steps, sim = pickle.loads(data)
    ctx.log.add("session", dig)
    ctx.log.mark(sig)
    ctx.log.counts.update(counts)
    if lines is not None:
        ctx.log.lines.extend(lines)
    ctx.nontrivial, ctx.steps, ctx.sim = nt, steps, sim
    if out[0] == "viol":
        raise Viol(out[1], out[2])
    if out[0] == "skip":
        raise Skip(out[2])
    if out[0] == "err":
        raise boot.HarnessError(out[2])


class Session:
    def __init__(self, scn, ctx):
        self.scn, self.ctx, self.nb = scn, ctx, ctx.nb
        self.names = {}  # lower name or alias -> class name key
        self.cls = {}  # class name -> class
        self.display = {}  # lower -> spelling
        self.groups = {}  # lower group -> [class names]
        self.gname = {}
        self.feat = {}
        nb = self.nb
        for g, members in GROUPS.items():
            self.groups[g.lower()] = list(members)
            self.gname[g.lower()] = g
            for m in members:
                self.names[m.lower()] = m
                self.display[m.lower()] = m
                self.feat[m] = dict(
                    implicit=m in models.IMPLICIT, fixed_step=m not in models.ADAPTIVE,
                    runge_kutta=m in models.RK or m in models.ADAPTIVE, multistep=m in models.LM)
                st, v = guarded(nb.get_solver, m)
                if st != "ok" or v.__name__ != m:
                    raise Viol("lookup", f"get_solver({m!r}) -> {v!r}")
                self.cls[m] = v
        self.names["euler"] = "ForwardEuler"
        self.display["euler"] = "Euler"
        self.made = {}  # class name -> (kind, coefficients)
        self.failed = None
        self.refused = set()  # lower names of definitions that failed

    def go(self):
        self.audit("at import")
        for n, op in enumerate(self.scn["ops"]):
            if op["op"] == "define":
                self.define(op, n)
            elif op["op"] == "retry" and self.failed:
                op = {k: v for k, v in self.failed.items() if k not in ("bad",)}
                self.failed = None
                self.define(op, n)
            elif op["op"] == "query":
                self.query(random.Random(op["seed"]))
            elif op["op"] == "use":
                self.use(random.Random(op["seed"]))

    # -- definitions --------------------------------------------------------------------
    def define(self, d, n):
        nb, bad = self.nb, d.get("bad")
        name, aliases = d["name"], tuple(d.get("aliases", ()))
        rng = random.Random(d.get("seed", 0))
        if bad == "dup_name":
            name = case(rng, rng.choice(sorted(self.names)))
        elif bad == "dup_alias":
            aliases += (case(rng, rng.choice(sorted(self.names))),)
        elif bad == "dup_self":
            aliases += (case(rng, name),)
        elif bad == "dup_new":
            aliases += ("Neu", "nEU")
        base, ns, spec = body(nb, d, self)
        ns = dict(ns, __module__="client")
        bases = (base,)
        if aliases or d["kind"] == "sub":
            if d.get("mixin"):  # the names come from another base class
                bases = (type("Names", (), {"ALIASES": aliases}), base)
            else:
                ns["ALIASES"] = aliases
        if d.get("group") is not None:
            ns["GROUP"] = d["group"]
        fault = None
        if bad in ("len1", "len0", "lenstr", "lenfloat"):
            ns["LEN_HISTORY"] = {"len1": 1, "len0": 0, "lenstr": "2", "lenfloat": 2.5}[bad]
        if bad in ("fixed_raises", "step_raises"):
            fault = world.EXCS[d["exc"]]("injected while building")

            def broken(cls, _e=fault):
                raise _e

            ns["_fixed_step_builder" if bad == "fixed_raises" else "_step_builder"] = classmethod(broken)
        keys = [x.lower() for x in (name, *aliases)]
        dup = len(set(keys)) < len(keys) or any(k in self.names for k in keys)
        kw = {"abstract": True} if d.get("abstract") else {}
        expect_ok = not dup and bad not in ("len1", "len0", "lenstr", "lenfloat", "fixed_raises", "step_raises")
        what = f"definition {n} of {name} ({d['kind']}, aliases {aliases}, group {d.get('group')}, {bad or 'good'})"
        if bad == "alloc":
            fault = MemoryError("simulated allocation failure")
            boot.ALLOC.fired, boot.ALLOC.exc, boot.ALLOC.armed = 0, fault, d["at"]
        st, cls = guarded(types.new_class, name, bases, kw, lambda x: x.update(ns))
        boot.ALLOC.armed = None
        if bad == "alloc" and boot.ALLOC.fired:
            expect_ok = False
        self.ctx.log.count("op:define")
        self.ctx.log.count("define:" + (bad or "good"))
        self.ctx.log.mark(d["kind"], bad, bool(aliases), d.get("group"), st, len(self.made))
        self.ctx.log.add("define", name, st, type(cls).__name__ if st != "ok" else "")
        self.ctx.nontrivial = True
        if d.get("abstract"):
            if st == "ok":
                self.audit(what + " (abstract)")
            return
        if expect_ok:
            if st != "ok":
                raise Viol("define", f"{what}: {cls!r}")
            self.cls[name] = cls
            g = d.get("group") or spec["group"]
            self.groups.setdefault(g.lower(), []).append(name)
            self.gname.setdefault(g.lower(), g)
            for k in (name, *aliases):
                self.names[k.lower()] = name
                self.display[k.lower()] = k
            self.feat[name] = spec["feat"]
            self.made[name] = (d["kind"], spec)
        else:
            self.failed = d
            self.refused |= set(keys)
            if st == "ok":
                raise Viol("define", f"{what}: accepted")
            if fault is not None and not dup and not world.is_injected(cls, fault):
                raise Viol("define", f"{what}: raised {cls!r} instead of the injected {fault!r}")
            if bad in ("fixed_raises", "step_raises", "alloc"):
                self.ctx.log.count(f"fault:{bad}:{type(fault).__name__}")
            else:
                self.ctx.log.count("fault:definition refused")
        self.audit(what)

    # -- the whole registry against the model --------------------------------------------
    def audit(self, what):
        nb = self.nb
        for k, cname in self.names.items():
            st, v = guarded(nb.get_solver, k)
            if st != "ok" or v is not self.cls[cname]:
                raise Viol("lookup", f"after {what}: get_solver({k!r}) -> {v!r} instead of {self.cls[cname]!r}")
        st, groups = guarded(nb.get_groups)
        want = sorted(self.gname.values())
        if st != "ok" or sorted(groups) != want:
            raise Viol("group", f"after {what}: get_groups() -> {groups!r} instead of {want}")
        seen = []
        for g, members in self.groups.items():
            st, v = guarded(nb.get_solvers, g)
            if st != "ok":
                raise Viol("group", f"after {what}: get_solvers({g!r}) -> {v!r}")
            got = [c for c in v]
            exp = [self.cls[m] for m in members]
            if sorted(map(id, got)) != sorted(map(id, exp)):
                raise Viol("group", f"after {what}: group {g!r} holds {got} instead of {exp}")
            seen += got
        st, v = guarded(nb.get_solvers)
        if st != "ok" or sorted(map(id, v)) != sorted(map(id, self.cls.values())):
            raise Viol("group", f"after {what}: get_solvers() -> {v!r} instead of {list(self.cls.values())}")
        st, v = guarded(nb.list_solvers)
        exp = sorted(self.display[k] if self.display[k] == c else f"{self.display[k]} (alias of {c})" for k, c in self.names.items())
        if st != "ok" or sorted(v) != exp:
            odd = sorted(set(v) ^ set(exp)) if st == "ok" else v
            raise Viol("trace", f"after {what}: list_solvers() differs in {odd!r}")

    # -- queries ---------------------------------------------------------------------------
    def query(self, rng):
        nb = self.nb
        self.ctx.log.count("op:query")
        for _ in range(6):
            x = rng.random()
            if x < 0.3:
                k = rng.choice(sorted(self.names))
                q = case(rng, k)
                st, v = guarded(nb.get_solver, q)
                if st != "ok" or v is not self.cls[self.names[k]]:
                    raise Viol("lookup", f"get_solver({q!r}) -> {v!r} instead of {self.cls[self.names[k]]!r}")
            elif x < 0.4:
                q = rng.choice(["nope", "", "foo_bar", "Heun33", "Adams"]) + rng.choice(["", "x"])
                if q.lower() in self.names:
                    continue
                st, v = guarded(nb.get_solver, q)
                if st == "ok" or not isinstance(v, ValueError):
                    raise Viol("lookup", f"get_solver({q!r}) -> {v!r} instead of ValueError")
                self.offered(f"the message of get_solver({q!r})", re.findall(r"\w+", str(v)), q, self.display.values())
            elif x < 0.45:
                st, v = guarded(dir, nb)
                if st != "ok":
                    raise Viol("trace", f"dir(nbkode) -> {v!r}")
                self.offered("dir(nbkode)", v, "", self.cls)
            elif x < 0.55:
                k = rng.choice(sorted(self.names))
                if hasattr(type(nb), k):
                    continue
                q = self.display[k]
                st, v = guarded(nb.__getattr__, q)
                if st != "ok" or v is not self.cls[self.names[k]]:
                    raise Viol("lookup", f"nbkode.{q} -> {v!r}")
                q = "no_such_solver"
                st, v = guarded(getattr, nb, q)
                if st == "ok" or not isinstance(v, AttributeError):
                    raise Viol("lookup", f"nbkode.{q} -> {v!r}")
            else:
                gs = [case(rng, rng.choice(sorted(self.groups))) for _ in range(rng.choice([0, 0, 1, 2]))]
                gs = list({g.lower(): g for g in gs}.values())
                kw = {k: rng.choice([True, False]) for k in ("implicit", "fixed_step", "runge_kutta", "multistep") if rng.random() < 0.4}
                st, v = guarded(nb.get_solvers, *gs, **kw)
                members = [m for g in (gs or self.groups) for m in self.groups[g.lower()]]
                exp = [self.cls[m] for m in members if all(self.feat[m][k] == b for k, b in kw.items())]
                if st != "ok" or sorted(map(id, v)) != sorted(map(id, exp)):
                    raise Viol("filter", f"get_solvers({gs}, {kw}) -> {v!r} instead of {exp}")
            self.ctx.log.count("queries")
        q = "no such group"
        st, v = guarded(nb.get_solvers, q)
        if st == "ok" or not isinstance(v, KeyError):
            raise Viol("group", f"get_solvers({q!r}) -> {v!r} instead of KeyError")

    def offered(self, where, words, asked, names):
        """A listing of the valid names has every solver defined so far and none whose definition failed."""
        words = set(words)
        gone = sorted(n for n in names if not set(re.findall(r"\w+", n)) <= words)
        extra = sorted(w for w in words if w.lower() in self.refused and w.lower() not in self.names and w != asked)
        if gone or extra:
            raise Viol("trace", f"{where} lacks {gone} and has {extra}")

    # -- the new solvers integrate by their own formula ----------------------------------------
    def use(self, rng):
        if not self.made:
            return
        name = rng.choice(sorted(self.made))
        kind, spec = self.made[name]
        cls = self.cls[name]
        k = rng.uniform(0.3, 1.5)
        dim = rng.choice([1, 2])
        w = np.array([1.0, -0.6][:dim])

        def f(t, y):
            return -k * y + w * np.cos(t)

        y0 = np.array([0.7, 1.3][:dim])
        h = 0.1
        what = f"{name} ({kind})"
        self.ctx.log.count("op:use")
        kw = {"h": h} if spec["feat"]["fixed_step"] else {"rtol": 1e-4, "atol": 1e-6, "first_step": 0.05}
        if spec["feat"]["multistep"]:
            kw["first_stepper_cls"] = None
        st, sol = guarded(cls, f, 0.3, list(y0), **kw)
        if st != "ok":
            raise Viol("use", f"{what}: constructor: {sol!r}")
        past = [(0.3, y0, f(0.3, y0))] * 8
        for _ in range(4):
            st, v = guarded(sol.step)
            if st != "ok":
                raise Viol("use", f"{what}: step: {v!r}")
            t, y, fy = world.state(sol)
            if not t > past[0][0]:
                raise Viol("use", f"{what}: step from {past[0][0]!r} ends at {t!r}")
            hh = t - past[0][0] if not spec["feat"]["fixed_step"] else h
            exp = spec["step"](f, past, hh)
            if abs(t - past[0][0] - hh) > 1e-12 or not close(y, exp, 1e-9, 1e-6 if spec["feat"]["implicit"] else 1e-9):
                raise Viol("use", f"{what}: step from {past[0][0]!r} to ({t!r}, {y.tolist()}), its formula gives {np.asarray(exp).tolist()}")
            if not close(fy, f(t, y), 1e-12, 1e-12):
                raise Viol("use", f"{what}: derivative {fy.tolist()} at t={t!r}")
            past.insert(0, (t, y, fy))
            self.ctx.steps += 1
        self.ctx.sim += 0.4


def body(nb, d, session):
    """-> base class, namespace, spec of a definition of kind d["kind"]."""
    import importlib

    kind = d["kind"]
    ex = importlib.import_module("nbkode.runge_kutta.explicit")
    ms = importlib.import_module("nbkode.multistep.core")
    core = importlib.import_module("nbkode.core")
    feat = dict(implicit=False, fixed_step=True, runge_kutta=False, multistep=False)
    a = 0.25 + 0.5 * (len(session.made) % 3) / 3

    def rk(A, B, C):
        def step(f, past, h):
            t, y, fy = past[0]
            K = [fy]
            for i in range(1, len(C)):
                K.append(f(t + C[i] * h, y + h * sum(A[i][j] * K[j] for j in range(i))))
            return y + h * sum(b * q for b, q in zip(B, K))

        return step

    if kind in ("erk", "pair", "fsal"):
        feat["runge_kutta"] = True
        A = [[0.0, 0.0], [a, 0.0]]
        B = [1 - 1 / (2 * a), 1 / (2 * a)]
        C = [0.0, a]
        ns = dict(A=np.array(A), B=np.array(B), C=np.array(C))
        if kind == "erk":
            base = ex.ERK
        else:
            feat["fixed_step"] = False
            ns["error_estimator_order"] = 1
            ns["B2"] = np.array([1.0, 0.0]) if kind == "pair" else np.array([0.8, 0.1, 0.1])
            base = ex.FSAL if kind == "fsal" else types.new_class("PairBase", (core_adaptive(), ex.ERK), {"abstract": True})
        return base, ns, dict(feat=feat, group="Runge-Kutta", step=rk(A, B, C))
    if kind == "ab":
        feat["multistep"] = True
        ns = dict(A=np.array([0.0, -1.0]), B=np.array([-0.5 - a + 0.25, 1.5 + a - 0.25]))
        b0, b1 = ns["B"][1], ns["B"][0]
        return ms.ExplicitMultistep, ns, dict(
            feat=feat, group="Multistep",
            step=lambda f, past, h: past[0][1] + h * (b0 * past[0][2] + b1 * past[1][2]))
    if kind == "am":
        feat.update(multistep=True, implicit=True)
        ns = dict(A=np.array([-1.0]), B=np.array([1 - a]), Bn=np.float64(a) if d.get("npbn") else a)

        def step(f, past, h):
            t, y, fy = past[0]
            K = y + h * (1 - a) * fy
            y1 = y + h * fy
            for _ in range(200):
                y1 = K + h * a * f(t + h, y1)
            return y1

        return ms.ImplicitMultistep, ns, dict(feat=feat, group="Multistep", step=step)
    if kind == "sub":
        base = session.nb.get_solver("AdamsBashforth2")
        feat["multistep"] = True
        return base, {}, dict(feat=feat, group="Adams-Bashforth",
                              step=lambda f, past, h: past[0][1] + h * (1.5 * past[0][2] - 0.5 * past[1][2]))
    # from scratch: midpoint rule on the Solver base class

    def _fixed_step_builder(cls):
        def _fixed_step(rhs, cache, h):
            m = cache.y + 0.5 * h * cache.f
            return cache.t + h, cache.y + h * rhs(cache.t + 0.5 * h, m)

        return boot.njit(_fixed_step)

    def _step_builder(cls):
        fixed = cls._fixed_step

        def _step(rhs, cache, h):
            t, y = fixed(rhs, cache, h)
            cache.push(t, y, rhs(t, y))

        return boot.njit(_step)

    ns = dict(IMPLICIT=False, FIXED_STEP=True, GROUP="Scratch", _fixed_step_builder=classmethod(_fixed_step_builder),
              _step_builder=classmethod(_step_builder))

    def step(f, past, h):
        t, y, fy = past[0]
        return y + h * f(t + 0.5 * h, y + 0.5 * h * fy)

    return core.Solver, ns, dict(feat=feat, group="Scratch", step=step)


def core_adaptive():
    from nbkode.runge_kutta.core import AdaptiveRungeKutta

    return AdaptiveRungeKutta
