"""Oracle for run_events: which crossings are due, where, and when integration stops."""

import numpy as np

from . import world
from .ref import Skip, event_fn, ref_value
from .world import close

EVENT_CATS = {"events", "tevents", "tstop", "trows", "tout"}


def _sgn(x):
    return (x > 0) - (x < 0)


class Track:
    """One event function along the reference trajectory, nodes k0..."""

    def __init__(self, ref, spec, k0):
        self.ref, self.spec, self.k0 = ref, spec, k0
        self.g = event_fn(spec)
        self.dir = _sgn(spec.get("direction", 0))
        self.terminal = bool(spec.get("terminal"))
        self._v = {}
        self.unc = {}  # step -> uncertainty of its root

    def at(self, k):
        if k not in self._v:
            t, y, _ = self.ref.node(k)
            self._v[k] = float(self.g(t, y))
        return self._v[k]

    def along(self, j, t):
        """g on the dense output of step j -> j+1."""
        return float(self.g(t, self.ref.dense(j + 1, t)))

    def crossing(self, j):
        a, b = self.at(j), self.at(j + 1)
        if a < 0 < b:
            return self.dir >= 0
        if b < 0 < a:
            return self.dir <= 0
        return False

    def node_zero(self, j, last):
        """Zero exactly at node j -> None | "may" | "must"."""
        if self.at(j) != 0:
            return None
        if j == self.k0 or j == last:
            return "may"
        a, b = _sgn(self.at(j - 1)), _sgn(self.at(j + 1))
        if a * b < 0:
            ok = self.dir == 0 or self.dir == b
            return "must" if ok else None
        return "may"

    def root(self, j):
        """Single root within step j; Skip if there may be several."""
        a, b = self.ref.t(j), self.ref.t(j + 1)
        xs = [a + (b - a) * i / 12 for i in range(13)]
        xs[-1] = b
        gs = [self.along(j, x) for x in xs]
        changes = sum(1 for i in range(12) if _sgn(gs[i]) * _sgn(gs[i + 1]) < 0)
        if changes != 1 or any(g == 0 for g in gs[1:-1]):
            raise Skip("several roots in a step")
        s = _sgn(gs[0])
        for _ in range(80):
            m = 0.5 * (a + b)
            if _sgn(self.along(j, m)) == s:
                a = m
            else:
                b = m
        r = 0.5 * (a + b)
        if self.spec["kind"] not in ("time", "cubic", "pair", "steep"):
            # how far rounding of the state can move this root
            a, b = self.ref.t(j), self.ref.t(j + 1)
            big = 1 + max(np.max(np.abs(self.ref.node(j)[1])), np.max(np.abs(self.ref.node(j + 1)[1])))
            noise = (4e-15 + world.NOISE) * 10.0 ** self.spec.get("scale", 0) * big
            win = 1e-2 if world.NOISE else 1e-4
            lo, hi = max(a, r - win * (b - a)), min(b, r + win * (b - a))
            dg = abs(self.along(j, hi) - self.along(j, lo))
            if dg <= 20 * noise:
                raise Skip("ill-conditioned root")
            self.unc[j] = noise * (hi - lo) / dg
        return r

    def tol(self, j):
        a, b = self.ref.t(j), self.ref.t(j + 1)
        return 1e-9 * (b - a) + 8 * np.spacing(max(abs(a), abs(b))) + self.unc.get(j, 0.0)

    def is_root(self, j, te):
        a, b = self.ref.t(j), self.ref.t(j + 1)
        d = self.tol(j)
        lo, hi = max(a, te - d), min(b, te + d)
        if self.spec["kind"] in ("time", "cubic", "steep") and not close(te, self.spec["c"], 1e-9, d):
            return False
        g0, g1 = self.along(j, lo), self.along(j, hi)
        if g0 == 0 or g1 == 0 or _sgn(g0) != _sgn(g1):
            return True
        # nearly tangential root: only rounding of the dense output separates them
        s = 10.0 ** self.spec.get("scale", 0)
        return abs(self.along(j, te)) <= (1e-12 + 4 * self.ref.noise()) * s and self.spec["kind"] not in ("time", "pair", "steep")


def check(fo, a, st, v, what):
    ref, k0 = fo.ref, fo.k
    if not (EVENT_CATS & fo.cats):
        k = fo.locate(what)
        fo.k = k
        return
    want = sorted(a["ts"])
    n, lim = fo._target("run_events", a)
    tracks = [Track(ref, e, k0) for e in a["events"]]
    lo, hi = ref.reach(k0, n, lim)
    if lo != hi and any(t.terminal for t in tracks):
        raise Skip("bound in reach of rejected step")

    # -- earliest terminal crossing ------------------------------------------------
    stop = None  # (step j, time, event index)
    for j in range(k0, k0 + hi):
        cands = []
        for i, tr in enumerate(tracks):
            if not tr.terminal:
                continue
            if tr.at(j) == 0 and j == k0:
                raise Skip("terminal event starts at zero")
            if tr.crossing(j):
                cands.append((tr.root(j), i))
            elif tr.at(j + 1) == 0:
                z = tr.node_zero(j + 1, -1)
                if z == "must":
                    cands.append((ref.t(j + 1), i))
                elif z == "may":
                    raise Skip("terminal event touches zero")
        if cands:
            cands.sort()
            tol = 4 * max(tr.tol(j) for tr in tracks)
            if len(cands) > 1 and cands[1][0] - cands[0][0] <= tol:
                raise Skip("terminal tie")
            stop = (j, cands[0][0], cands[0][1])
            break

    P = "t" if stop else ""
    last = stop[0] + 1 if stop else None
    if stop:
        fo.expect_at(last, last, what, "tstop")
    else:
        fo.expect_at(k0 + lo, k0 + hi, what, "tstop" if any(t.terminal for t in tracks) else "stop")
        last = fo.k
    if st != "ok":
        fo.fail("exc", f"{what}: {v!r}")
        fo.fail(P + "events", f"{what}: {v!r}")
        return
    try:
        ts, ys, te, ye = v
        te = [[float(x) for x in lst] for lst in te]
        ye = [[np.array(x, dtype=float) for x in lst] for lst in ye]
    except Exception:
        fo.fail(P + "events", f"{what}: returned {v!r}")
        return
    if len(te) != len(tracks) or len(ye) != len(tracks):
        fo.fail(P + "events", f"{what}: {len(te)} event lists for {len(tracks)} event functions")
        return

    # -- event lists -----------------------------------------------------------------
    for i, tr in enumerate(tracks):
        _check_list(fo, tr, i, te[i], ye[i], k0, last, stop, P, what, tracks)
    fo.log.count("event entries", sum(len(x) for x in te))
    fo.log.count("event slots checked", (last - k0) * len(tracks))
    if stop:
        fo.log.count("terminal stops")

    # -- rows ---------------------------------------------------------------------------
    if not stop:
        fo._run_rows((ts, ys), a["ts"], k0, what)
        return
    j, t_end, i_end = stop
    tol = tracks[i_end].tol(j)
    if te[i_end]:
        t_end = te[i_end][-1]  # checked above: a crossing of that event in this step
        fo.log.count("requests at the terminal event", sum(x == t_end for x in want))
    elif any(abs(x - t_end) <= 2 * tol for x in want):
        return
    kept = [x for x in want if x < t_end]
    values = {}
    if len(kept) < len(want):
        values[len(kept)] = (ref.dense(j + 1, min(max(t_end, ref.t(j)), ref.t(j + 1))), 1e-7 + ref.noise())
        kept = kept + [t_end]
    # requested order: the k-th smallest row sits where the k-th smallest request was
    order = sorted(range(len(a["ts"])), key=lambda q: a["ts"][q])[: len(kept)]
    if len(set(want)) == len(want):
        place = sorted(range(len(kept)), key=lambda r: order[r])
    else:
        # equal requested times are interchangeable: compare the rows in time order
        place = list(range(len(kept)))
        try:
            ts, ys = np.asarray(ts, float), np.asarray(ys, float)
            ndx = np.argsort(ts, kind="stable")
            ts, ys = ts[ndx], ys[ndx]
        except Exception:
            pass
    kept2 = [kept[r] for r in place]
    values2 = {pos: values[r] for pos, r in enumerate(place) if r in values}
    _rows_cat(fo, (ts, ys), kept2, k0, what, len(want), values2)


def _rows_cat(fo, v, kept, k0, what, nwant, values):
    keep = fo.cats
    try:
        cats = set(keep) - {"rows", "out"}
        if "trows" in keep:
            cats |= {"rows", "out"}
        fo.cats = frozenset(cats)
        fo._rows_at(v, kept, k0, what, nwant, values)
    finally:
        fo.cats = keep


def _check_list(fo, tr, i, te, ye, k0, last, stop, P, what, tracks):
    ref = fo.ref
    name = f"{what}: event {i} ({tr.spec})"
    cat = P + "events"
    if len(te) != len(ye):
        fo.fail(cat, f"{name}: {len(te)} times, {len(ye)} states")
        return
    slots = []  # (lo, hi, must, step)
    for j in range(k0, last):
        z = tr.node_zero(j, last if not stop else -1)
        if z:
            slots.append((ref.t(j), ref.t(j), z == "must", j))
        if tr.crossing(j):
            slots.append((ref.t(j), ref.t(j + 1), True, j))
    z = tr.node_zero(last, last)
    if z:
        slots.append((ref.t(last), ref.t(last), False, last - 1))
    if stop:
        js, t_end, i_end = stop
        tend_tol = tracks[i_end].tol(js)
        cut = []
        for lo, hi, must, j in slots:
            if j < js or i == i_end:
                if hi == lo and lo > t_end + tend_tol:
                    continue
                cut.append((lo, hi, must, j))
                continue
            r = lo if lo == hi else tr.root(j)
            d = 4 * (tr.tol(js) + tend_tol)
            if r > t_end + d:
                continue
            cut.append((lo, hi, must and r < t_end - d, j))
        slots = cut
        if i == i_end and slots and slots[-1][0] == slots[-1][1] == ref.t(js + 1):
            slots[-1] = (*slots[-1][:2], True, slots[-1][3])
    p = 0
    for lo, hi, must, j in slots:
        eps = 4 * np.spacing(max(abs(lo), abs(hi)))
        if p < len(te) and lo - eps <= te[p] <= hi + eps:
            if lo != hi and not tr.is_root(j, min(max(te[p], lo), hi)):
                fo.fail(cat, f"{name}: entry {te[p]!r} is not a zero crossing of the event "
                             f"along the solution in the step {lo!r}..{hi!r}")
                return
            x = min(max(te[p], lo), hi)
            exp = ref_value(ref, j, x)
            if not close(ye[p], exp, rtol=1e-8, atol=1e-9 + ref.noise()):
                fo.fail(cat, f"{name}: state {ye[p].tolist()} at {te[p]!r}, solution there is {exp.tolist()}")
                return
            p += 1
        elif must:
            fo.fail(cat, f"{name}: crossing in {lo!r}..{hi!r} missing; entries {te}")
            return
    if p < len(te):
        fo.fail(cat, f"{name}: entry {te[p]!r} without a crossing (or a duplicate); entries {te}")
