"""Methods the simulated client adds to nbkode, the way a user would: by deriving from its base classes.

They take paths through nbkode that none of its own methods takes: the generic adaptive step (without reuse
of the last stage), and multistep recurrences with several past states and several past derivatives.
"""

import types

import numpy as np

DEFS = {
    "ClientRK2": ("RungeKutta4", ("ERK",), dict(
        A=np.array([[0, 0], [2 / 3, 0]]), B=np.array([1 / 4, 3 / 4]), C=np.array([0, 2 / 3]))),
    "ClientLM3": ("AdamsBashforth2", ("ExplicitMultistep",), dict(
        A=np.array([-1 / 4, -1 / 4, -1 / 2]), B=np.array([1 / 8, 13 / 8]))),
    "ClientIM2": ("BDF2", ("ImplicitMultistep",), dict(
        A=np.array([-1 / 3, -2 / 3]), B=np.array([1 / 18, 8 / 9]), Bn=7 / 18)),
    # Bogacki and Shampine's pair
    "ClientPair23": ("RungeKutta45", ("AdaptiveRungeKutta", "ERK"), dict(
        A=np.array([[0, 0, 0, 0], [1 / 2, 0, 0, 0], [0, 3 / 4, 0, 0], [2 / 9, 1 / 3, 4 / 9, 0]]),
        B=np.array([2 / 9, 1 / 3, 4 / 9, 0]), B2=np.array([7 / 24, 1 / 4, 1 / 3, 1 / 8]),
        C=np.array([0, 1 / 2, 3 / 4, 1]), error_estimator_order=2)),
}

UNDERIVABLE = set()  # this tree has no base classes of the known names


def define(nb):
    """Define the client's methods in the copy nb of nbkode (a failure shows when they are used)."""
    for name, (like, bases, ns) in DEFS.items():
        try:
            known = {c.__name__: c for c in nb.get_solver(like).__mro__}
            if all(b in known for b in bases):
                types.new_class(name, tuple(known[b] for b in bases), {}, lambda d: d.update(ns, GROUP="Client"))
            else:
                UNDERIVABLE.add(name)
        except Exception:  # noqa: BLE001
            pass


def usable(scn):
    """Every method the scenario uses could be defined."""
    return not any(name in repr(scn) for name in UNDERIVABLE)
