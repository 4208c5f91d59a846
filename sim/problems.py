"""ODE systems used as workload: smooth, non-chaotic, O(1) states and rates."""

import math

import numpy as np


def _lin(p, dim):
    k = np.asarray(p["k"][:dim])
    a, w = p["a"], p["w"]

    def f(t, y):
        return -k * y + a * math.cos(w * t)

    return f


def _osc(p, dim):
    w2, c, a, w = p["w2"], p["c"], p["a"], p["w"]

    def f(t, y):
        out = np.empty(dim)
        out[0] = y[1]
        out[1] = -w2 * y[0] - c * y[1] + a * math.sin(w * t)
        for i in range(2, dim):
            out[i] = y[i - 1] - 0.7 * y[i]
        return out

    return f


def _logistic(p, dim):
    r = np.asarray(p["k"][:dim])

    def f(t, y):
        return r * y * (1.0 - y / 3.0)

    return f


def _pend(p, dim):
    c = p["c"]

    def f(t, y):
        out = np.empty(dim)
        out[0] = y[1]
        out[1] = -math.sin(y[0]) - c * y[1]
        for i in range(2, dim):
            out[i] = math.cos(y[i - 1]) - y[i]
        return out

    return f


def _const(p, dim):
    k = np.asarray(p["slope"][:dim], dtype=float)

    def f(t, y):
        return k + 0.0 * y

    return f


def _poly(p, dim):
    k = np.asarray(p["k"][:dim])
    a, w = p["a"], p["w"]

    def f(t, y):
        return k + a * t - 0.05 * w * t * t + 0.0 * y

    return f


def _ring(p, dim):
    k = np.asarray(p["k"][:dim])
    prev = [(i - 1) % dim for i in range(dim)]

    def f(t, y):
        return np.sin(y[prev]) - 0.5 * k * y + 0.3 * math.cos(t)

    return f


def _pulse(p, dim):
    k = np.asarray(p["k"][:dim])
    a, c, w = p["amp"], p["at"], p["width"]

    def f(t, y):
        return -k * y + a * math.exp(-(((t - c) / w) ** 2))

    return f


def _vdp(p, dim):
    mu = p["mu"]

    def f(t, y):
        out = np.empty(dim)
        out[0] = y[1]
        out[1] = mu * (1.0 - y[0] * y[0]) * y[1] - y[0]
        for i in range(2, dim):
            out[i] = y[0] - y[i]
        return out

    return f


def _rest(p, dim):
    k = np.asarray(p["k"][:dim])
    y0 = np.asarray(p["rest"][:dim])

    def f(t, y):
        return -k * (y - y0)

    return f


def _stiff(p, dim):
    k = np.asarray(p["k"][:dim]) * p["stiff"]
    w = p["w"]

    def f(t, y):
        return -k * (y - math.cos(w * t))

    return f


def _quad(p, dim):
    k = np.asarray(p["k"][:dim]) * p["quad"]

    def f(t, y):
        return k * (1.0 + y * y)

    return f


def _flat(p, dim):
    """With step size h and coefficient bn the implicit residual does not depend on y."""
    c, g = p["flat"], p["gain"]

    def f(t, y):
        return (y - c) * g

    return f


def _blow(p, dim):
    k = np.asarray(p["k"][:dim])
    if p.get("exp"):

        def f(t, y):
            return k * np.exp(y)

    else:

        def f(t, y):
            return k * y * y

    return f


def _grow(p, dim):
    """f = y; see Callbacks.share == "same"."""

    def f(t, y):
        return y + 0.0

    return f


KINDS = {
    "grow": (_grow, 1),
    "blow": (_blow, 1),
    "pulse": (_pulse, 1),
    "vdp": (_vdp, 2),
    "rest": (_rest, 1),
    "stiff": (_stiff, 1),
    "quad": (_quad, 1),
    "flat": (_flat, 1),
    "lin": (_lin, 1),
    "osc": (_osc, 2),
    "logistic": (_logistic, 1),
    "pend": (_pend, 2),
    "const": (_const, 1),
    "poly": (_poly, 1),
    "ring": (_ring, 1),
}


def rnd(x, nd=4):
    return round(x, nd)


def gen(rng, kinds=None, dims=(1, 1, 2, 2, 3, 4)):
    kind = rng.choice(kinds or ["lin", "lin", "osc", "logistic", "pend", "poly", "ring"])
    dim = max(rng.choice(dims), KINDS[kind][1])
    if len(dims) > 1 and rng.random() < 0.03:
        dim = rng.choice([33, 65, 100]) if rng.random() < 0.08 else rng.choice([5, 7, 16])
    p = {
        "k": [rnd(rng.uniform(0.2, 1.5)) for _ in range(dim)],
        "a": rnd(rng.uniform(-1, 1)),
        "w": rnd(rng.uniform(0.3, 2.0)),
        "w2": rnd(rng.uniform(0.5, 3.0)),
        "c": rnd(rng.uniform(0.0, 0.5)),
        "slope": [rng.choice([-1.0, -0.5, 0.5, 1.0, 2.0]) for _ in range(dim)],
    }
    y0 = [rnd(rng.uniform(0.2, 2.0) * rng.choice([1, 1, 1, -1])) for _ in range(dim)]
    if kind == "pulse":
        p.update(amp=rnd(10 ** rng.uniform(-1, 2)), at=rnd(rng.uniform(0, 6)), width=rnd(10 ** rng.uniform(-2, 0)))
    elif kind == "vdp":
        p["mu"] = rnd(10 ** rng.uniform(-1, 1.5))
    elif kind == "rest":
        p["rest"] = list(y0) if rng.random() < 0.7 else [v + 1e-9 for v in y0]
    elif kind == "stiff":
        p["stiff"] = rnd(10 ** rng.uniform(0, 3))
    elif kind == "quad":
        p["quad"] = rnd(10 ** rng.uniform(-1, 1.3))
    if kind == "logistic":
        y0 = [abs(v) for v in y0]
    return {"kind": kind, "dim": dim, "p": p, "y0": y0}


def make(prob):
    """-> f(t, y) -> ndarray (a pure function)."""
    if prob["kind"] not in KINDS:
        raise KeyError(prob["kind"])
    f = KINDS[prob["kind"]][0](prob["p"], prob["dim"])
    d = prob.get("domain")
    if d:
        f = _domain(f, d)
    s = prob.get("tscale", 1.0)
    off = prob.get("toff", 0.0)
    if s == 1.0 and off == 0.0:
        return f

    def g(t, y):
        return f((t - off) / s, y) / s

    return g


def _domain(f, d):
    """Non-finite outside a domain: beyond a time or a value of the first component."""
    val = float(d["val"])

    def g(t, y):
        out = f(t, y)
        if ("t" in d and t > d["t"]) or ("y" in d and not (y[0] - d["y"]) * d["side"] <= 0):
            out = np.full_like(np.asarray(out, dtype=float), val)
        return out

    return g
