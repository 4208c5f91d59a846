"""Reference models: the textbook methods, written independently of nbkode.

Coefficients come from the literature (Hairer/Norsett/Wanner; Butcher) and, for the
embedded pairs, from scipy.  Nothing here imports nbkode.
"""

from fractions import Fraction as Fr

import numpy as np
from scipy.integrate._ivp import dop853_coefficients as D8
from scipy.integrate._ivp import rk as sprk


def _t(rows, b, c):
    n = len(b)
    a = np.zeros((n, n))
    for i, row in enumerate(rows):
        for j, v in enumerate(row):
            a[i, j] = float(v)
    return a, np.array([float(v) for v in b]), np.array([float(v) for v in c])


# -- explicit one-step methods ------------------------------------------------------
RK = {
    "Runge2": _t([[], [Fr(1, 2)]], [0, 1], [0, Fr(1, 2)]),
    "Runge3": _t(
        [[], [Fr(1, 2)], [0, 1], [0, 0, 1]],
        [Fr(1, 6), Fr(4, 6), 0, Fr(1, 6)],
        [0, Fr(1, 2), 1, 1],
    ),
    "Heun3": _t(
        [[], [Fr(1, 3)], [0, Fr(2, 3)]],
        [Fr(1, 4), 0, Fr(3, 4)],
        [0, Fr(1, 3), Fr(2, 3)],
    ),
    "RungeKutta4": _t(
        [[], [Fr(1, 2)], [0, Fr(1, 2)], [0, 0, 1]],
        [Fr(1, 6), Fr(1, 3), Fr(1, 3), Fr(1, 6)],
        [0, Fr(1, 2), Fr(1, 2), 1],
    ),
    "RungeKutta3_8": _t(
        [[], [Fr(1, 3)], [Fr(-1, 3), 1], [1, -1, 1]],
        [Fr(1, 8), Fr(3, 8), Fr(3, 8), Fr(1, 8)],
        [0, Fr(1, 3), Fr(2, 3), 1],
    ),
    # defined by the simulated client (sim/clients.py): Ralston's method
    "ClientRK2": _t([[], [Fr(2, 3)]], [Fr(1, 4), Fr(3, 4)], [0, Fr(2, 3)]),
}

# -- linear multistep: y_{n+1} = sum a_j y_{n-j} + h (b_{-1} f_{n+1} + sum b_j f_{n-j})
# listed newest first: (a_0, a_1, ...), b_{-1}, (b_0, b_1, ...)
LM = {
    "AdamsBashforth1": ((1,), 0, (1,)),
    "AdamsBashforth2": ((1,), 0, (Fr(3, 2), Fr(-1, 2))),
    "AdamsBashforth3": ((1,), 0, (Fr(23, 12), Fr(-16, 12), Fr(5, 12))),
    "AdamsBashforth4": ((1,), 0, (Fr(55, 24), Fr(-59, 24), Fr(37, 24), Fr(-9, 24))),
    "AdamsBashforth5": (
        (1,),
        0,
        (Fr(1901, 720), Fr(-2774, 720), Fr(2616, 720), Fr(-1274, 720), Fr(251, 720)),
    ),
    "AdamsMoulton1": ((1,), 1, ()),
    "AdamsMoulton2": ((1,), Fr(1, 2), (Fr(1, 2),)),
    "AdamsMoulton3": ((1,), Fr(5, 12), (Fr(8, 12), Fr(-1, 12))),
    "AdamsMoulton4": ((1,), Fr(9, 24), (Fr(19, 24), Fr(-5, 24), Fr(1, 24))),
    "AdamsMoulton5": (
        (1,),
        Fr(251, 720),
        (Fr(646, 720), Fr(-264, 720), Fr(106, 720), Fr(-19, 720)),
    ),
    "BDF1": ((1,), 1, ()),
    "BDF2": ((Fr(4, 3), Fr(-1, 3)), Fr(2, 3), ()),
    "BDF3": ((Fr(18, 11), Fr(-9, 11), Fr(2, 11)), Fr(6, 11), ()),
    "BDF4": ((Fr(48, 25), Fr(-36, 25), Fr(16, 25), Fr(-3, 25)), Fr(12, 25), ()),
    "BDF5": (
        (Fr(300, 137), Fr(-300, 137), Fr(200, 137), Fr(-75, 137), Fr(12, 137)),
        Fr(60, 137),
        (),
    ),
    "BDF6": (
        (
            Fr(360, 147),
            Fr(-450, 147),
            Fr(400, 147),
            Fr(-225, 147),
            Fr(72, 147),
            Fr(-10, 147),
        ),
        Fr(60, 147),
        (),
    ),
}
# defined by the simulated client (sim/clients.py): unlike the Adams and BDF methods they
# use several past states and several past derivatives at once
LM["ClientLM3"] = ((Fr(1, 2), Fr(1, 4), Fr(1, 4)), 0, (Fr(13, 8), Fr(1, 8)))
LM["ClientIM2"] = ((Fr(2, 3), Fr(1, 3)), Fr(7, 18), (Fr(8, 9), Fr(1, 18)))
LM["ForwardEuler"] = LM["AdamsBashforth1"]
LM["BackwardEuler"] = LM["AdamsMoulton1"]
LM = {
    k: (
        np.array([float(x) for x in a]),
        float(bn),
        np.array([float(x) for x in b]),
    )
    for k, (a, bn, b) in LM.items()
}

CLIENT = ("ClientRK2", "ClientLM3", "ClientIM2", "ClientPair23")  # not nbkode's own
ADAPTIVE = ("RungeKutta23", "RungeKutta45", "DOP853", "ClientPair23")
FIXED_RK = tuple(RK)
MULTISTEP = tuple(LM)
IMPLICIT = tuple(k for k, v in LM.items() if v[1] != 0)
ALL = MULTISTEP + FIXED_RK + ADAPTIVE
FIXED = MULTISTEP + FIXED_RK


def steps_used(name):
    """k of a k-step method: how many previous nodes a step reads."""
    if name in LM:
        a, _, b = LM[name]
        return max(len(a), len(b))
    return 1


def history_len(name):
    """How many accepted nodes stay available for dense output."""
    return max(steps_used(name), 2)


def rk_step(name, f, t, y, fy, h):
    A, B, C = RK[name]
    K = [fy]
    for i in range(1, len(C)):
        dy = sum(A[i, j] * K[j] for j in range(i))
        K.append(f(t + C[i] * h, y + h * dy))
    return y + h * sum(b * k for b, k in zip(B, K))


def lm_rhs(name, ys, fs, h):
    """Explicit part: y_{n+1} = lm_rhs + h*bn*f(t_{n+1}, y_{n+1}); newest first."""
    a, bn, b = LM[name]
    out = 0.0
    for c, y in zip(a, ys):
        out = out + c * y
    for c, f in zip(b, fs):
        out = out + h * c * f
    return out, bn


class Pair:
    """One attempt of an embedded explicit pair."""

    def __init__(self, name):
        self.name = name
        if name == "DOP853":
            self.A = D8.A[: D8.N_STAGES, : D8.N_STAGES]
            self.B = D8.B
            self.C = D8.C[: D8.N_STAGES]
            self.q = 7
        else:
            cls = {"RungeKutta23": sprk.RK23, "ClientPair23": sprk.RK23, "RungeKutta45": sprk.RK45}[name]
            self.A, self.B, self.C, self.E, self.P = cls.A, cls.B, cls.C, cls.E, cls.P
            self.q = cls.error_estimator_order

    def attempt(self, f, t, y, fy, h):
        K = np.zeros((len(self.C) + 1, y.size))
        K[0] = fy
        for s in range(1, len(self.C)):
            K[s] = f(t + self.C[s] * h, y + h * (self.A[s, :s] @ K[:s]))
        y1 = y + h * (self.B @ K[:-1])
        K[-1] = f(t + h, y1)
        return y1, K

    def err(self, K, h, y, y1, rtol, atol):
        scale = atol + rtol * np.maximum(np.abs(y), np.abs(y1))

        def nrm(e):
            return float(np.sqrt(np.mean((h * e / scale) ** 2)))

        if self.name != "DOP853":
            return nrm(self.E @ K)
        e5, e3 = nrm(D8.E5 @ K), nrm(D8.E3 @ K)
        if e5 == 0.0:
            return 0.0
        return e5 * e5 / float(np.sqrt(e5 * e5 + 0.01 * e3 * e3))

    def dense(self, f, t, y, h, y1, K, te):
        x = (te - t) / h
        if self.name != "DOP853":
            Q = K.T @ self.P
            p = x ** np.arange(1, Q.shape[1] + 1)
            return y + h * (Q @ p)
        KE = np.zeros((D8.N_STAGES_EXTENDED, y.size))
        n = D8.N_STAGES + 1
        KE[:n] = K
        for s in range(n, D8.N_STAGES_EXTENDED):
            KE[s] = f(t + D8.C[s] * h, y + h * (D8.A[s, :s] @ KE[:s]))
        dy = y1 - y
        F = [dy, h * K[0] - dy, 2 * dy - h * (K[-1] + K[0])]
        F += list(h * (D8.D @ KE))
        out = np.zeros_like(y)
        for i, fi in enumerate(reversed(F)):
            out = out + fi
            out = out * (x if i % 2 == 0 else 1 - x)
        return y + out


PAIRS = {n: Pair(n) for n in ADAPTIVE}

OPT_DEFAULTS = dict(
    atol=1e-6,
    rtol=1e-3,
    min_step=0.0,
    max_step=float("inf"),
    min_factor=0.2,
    max_factor=10.0,
    safety_factor=0.9,
)


class Giveup(Exception):
    """The model's controller cannot find an acceptable step."""


def controller(name, opts, err, h):
    """-> (accepted, next h)."""
    o = {**OPT_DEFAULTS, **opts}
    if err == 0.0:
        fac = o["max_factor"]
    elif not np.isfinite(err):
        fac = o["min_factor"]
    else:
        fac = o["safety_factor"] * err ** (-1.0 / (PAIRS[name].q + 1))
        fac = min(o["max_factor"], max(o["min_factor"], fac))
    ok = err < 1.0
    if not ok and h <= o["min_step"]:
        raise Giveup
    return ok, min(max(h * fac, o["min_step"]), o["max_step"])


def adaptive_step(name, opts, f, t, y, fy, h, max_rejects=200):
    """-> dict(t, y, f, h_taken, h_next, err, rejects, margin)

    margin: distance of the closest error norm to the accept/reject threshold.
    """
    o = {**OPT_DEFAULTS, **opts}
    pair = PAIRS[name]
    margin = float("inf")
    for rejects in range(max_rejects):
        y1, K = pair.attempt(f, t, y, fy, h)
        err = pair.err(K, h, y, y1, o["rtol"], o["atol"])
        margin = min(margin, abs(err - 1.0)) if np.isfinite(err) else margin
        ok, h_next = controller(name, opts, err, h)
        if ok:
            return dict(
                t=t + h, y=y1, f=K[-1], K=K, h_taken=h, h_next=h_next, err=err,
                rejects=rejects, margin=margin,
            )
        h = h_next
    raise Giveup


def hermite(t0, y0, f0, t1, y1, f1, t):
    h = t1 - t0
    x = (t - t0) / h
    h00 = (1 + 2 * x) * (1 - x) ** 2
    h10 = x * (1 - x) ** 2
    h01 = x * x * (3 - 2 * x)
    h11 = x * x * (x - 1)
    return h00 * y0 + h10 * h * f0 + h01 * y1 + h11 * h * f1


def dense_between(name, f, n0, n1, te):
    """Dense output of method `name` between accepted nodes n0=(t,y,f), n1."""
    t0, y0, f0 = n0
    t1, y1, f1 = n1
    if te == t0:
        return np.array(y0)
    if te == t1:
        return np.array(y1)
    if name in PAIRS:
        h = t1 - t0
        ym, K = PAIRS[name].attempt(f, t0, y0, f0, h)
        return PAIRS[name].dense(f, t0, y0, h, y1, K, te)
    return hermite(t0, y0, f0, t1, y1, f1, te)
