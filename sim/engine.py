"""Run scenarios: execution of one run, seeded search, minimisation, replay."""

import copy
import importlib
import json
import os
import random
import signal
import time
import traceback

from . import boot, clients, world
from .ref import Skip, Viol
from .world import Budget, Log

POISONS = ["nan", "inf", "1e300", "-3.75", "0.0", "1e-300"]


MODES = [None, None, None, "sim", "jit"]  # how client functions reach nbkode (boot.activate)


class Hang(BaseException):
    pass


class Ctx:
    def __init__(self, nb, keep=False):
        self.nb = nb
        self.log = Log(keep)
        self.sim = 0.0  # simulated time covered
        self.steps = 0  # accepted steps
        self.nontrivial = False
        self.known = []

    def finding(self, key, detail):
        """A violation that may be listed in known_findings.jsonl."""
        self.known.append((key, detail))


def prop(pid):
    return importlib.import_module("sim.props." + pid.lower())


def rng_for(pid, seed, index):
    return random.Random(f"{pid}/{seed}/{index}")


def gen_scenario(mod, pid, seed, index, tier):
    rng = rng_for(pid, seed, index)
    scn = mod.gen(rng, tier)
    scn.setdefault("poison", rng.choice(POISONS))
    if getattr(mod, "MODES", True):
        mode = random.Random(f"mode/{pid}/{seed}/{index}").choice(MODES)
        if mode:
            scn["client"] = mode
    # scenarios are data: what a replay file can hold
    return json.loads(json.dumps(scn))


def execute(mod, nb, scn, keep=False, timeout=30.0):
    """-> dict(status, cat, detail, digest, sig, ...)"""
    ctx = Ctx(boot.activate(scn.get("client")), keep)
    if scn.get("client"):
        ctx.log.count("nbkode:" + scn["client"])
    scn = copy.deepcopy(scn)
    boot.ALLOC.reset(float(scn.get("poison", "nan")))
    world.set_scale(scn.get("cfg"))

    def on_alarm(sig, frame):
        raise Hang(f"no result after {timeout} s")

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    status, cat, detail = "ok", None, None
    try:
        if not clients.usable(scn):
            raise Skip("client-defined method")
        mod.run(scn, ctx)
    except Viol as e:
        status, cat, detail = "viol", e.cat, e.detail
        if e.cat == "ref" and not getattr(mod, "REF_IS_MINE", False):
            status = "skip"
    except Skip as e:
        status, detail = "skip", str(e)
    except Budget as e:
        status, cat, detail = "viol", "hang", f"evaluation budget exhausted: {e}"
    except Hang as e:
        status, cat, detail = "viol", "hang", str(e)
    except (boot.HarnessError, boot.ImportBroken):
        raise
    except Exception as e:  # noqa: BLE001
        # results of a shape no caller could use
        tb = traceback.extract_tb(e.__traceback__)[-1]
        status, cat = "viol", "crash"
        detail = f"{e!r} at {os.path.basename(tb.filename)}:{tb.name} while using the results"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        boot.ALLOC.armed = None
        boot.activate(None)
    if status == "viol" and cat == "hang" and "hang" not in mod.CATS:
        status = "skip"
    ctx.log.add("end", status, cat)
    return dict(
        status=status, cat=cat, detail=detail, digest=ctx.log.digest(),
        sig=ctx.log.signature(), counts=ctx.log.counts, sim=ctx.sim, steps=ctx.steps,
        nontrivial=ctx.nontrivial, known=ctx.known, lines=ctx.log.lines,
    )


# -- chunks of runs (executed in a worker process) ----------------------------------
def run_chunk(args):
    pid, seed, tier, indices, deadline = args
    mod = prop(pid)
    nb = boot.load()
    out = dict(n=0, counts={}, sigs=[], viols=[], known={}, sim=0.0, steps=0,
               skipped=0, nontrivial=0, samples=[], late=0, err=None, digests=[])
    for i in indices:
        if time.monotonic() > deadline:
            out["late"] += 1
            continue
        try:
            scn = gen_scenario(mod, pid, seed, i, tier)
            r = execute(mod, nb, scn)
            if r["cat"] == "hang" and r["status"] == "viol" and "no result" in r["detail"]:
                r = execute(mod, nb, scn, timeout=90.0)
            if r["cat"] == "crash" and execute(mod, nb, scn)["detail"] != r["detail"]:
                out["err"] = f"run {i}: {r['detail']} (not repeatable)"
                return out
        except Exception:
            out["err"] = f"run {i}: {traceback.format_exc()}"
            return out
        out["n"] += 1
        for k, v in r["counts"].items():
            out["counts"][k] = out["counts"].get(k, 0) + v
        out["sim"] += r["sim"]
        out["steps"] += r["steps"]
        out["skipped"] += r["status"] == "skip"
        if r["status"] == "skip":
            k = "skip:" + str(r["detail"])[:40]
            out["counts"][k] = out["counts"].get(k, 0) + 1
        if r["nontrivial"]:
            out["nontrivial"] += 1
            out["sigs"].append(r["sig"])
        out["digests"].append(r["digest"])
        for key, detail in r["known"]:
            out["known"].setdefault(key, [0, i, detail])[0] += 1
        if r["status"] == "viol":
            out["viols"].append((i, r["cat"], r["detail"]))
            if len(out["viols"]) >= 3:
                return out
        elif len(out["samples"]) < 1 and r["nontrivial"]:
            out["samples"].append(dict(index=i, scenario=scn, digest=r["digest"]))
    return out


# -- minimisation ----------------------------------------------------------------------
LISTS = ("ops", "ts", "events", "clients", "sched", "defs", "bursts")
DROP = ("client", "fault", "t_bound", "bound_at", "params", "opts", "starter", "form", "sorted", "n",
        "forms", "evform", "num", "direction", "scale", "tscale", "toff", "share", "len", "terminal", "mutate")
SIMPLE = {"t0": 0.0, "poison": "nan", "n": 1, "at": 1, "h": 0.1}


def _walk(node, path=()):
    if isinstance(node, dict):
        for k in node:
            yield path, k, node
            yield from _walk(node[k], path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            yield from _walk(v, path + (i,))


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def candidates(scn):
    # delete list chunks
    for path, key, node in list(_walk(scn)):
        if key in LISTS and isinstance(node[key], list) and len(node[key]) > 0:
            n = len(node[key])
            size = n
            while size >= 1:
                for lo in range(0, n, size):
                    c = copy.deepcopy(scn)
                    del _get(c, path)[key][lo:lo + size]
                    yield c
                size //= 2
    for path, key, node in list(_walk(scn)):
        if key in DROP:
            c = copy.deepcopy(scn)
            del _get(c, path)[key]
            yield c
        if isinstance(node[key], dict) and key == "opts":
            for o in list(node[key]):
                c = copy.deepcopy(scn)
                del _get(c, path)[key][o]
                yield c
    for path, key, node in list(_walk(scn)):
        v = node[key]
        if key in SIMPLE and v != SIMPLE[key] and isinstance(v, (int, float, str)):
            c = copy.deepcopy(scn)
            _get(c, path)[key] = SIMPLE[key]
            yield c
        if isinstance(v, int) and not isinstance(v, bool) and v > 1 and key in ("n", "at", "len"):
            for w in (v // 2, v - 1):
                c = copy.deepcopy(scn)
                _get(c, path)[key] = w
                yield c
        if key == "prob" and v.get("kind") != "lin":
            c = copy.deepcopy(scn)
            _get(c, path)[key] = {"kind": "lin", "dim": v["dim"], "p": v["p"], "y0": v["y0"]}
            yield c
        if key == "prob" and v.get("dim", 1) > 1 and v.get("kind") in ("lin", "logistic", "poly", "const", "ring"):
            c = copy.deepcopy(scn)
            pr = _get(c, path)[key]
            pr["dim"] = 1
            pr["y0"] = pr["y0"][:1]
            yield c


def minimise(mod, nb, scn, cat, seconds=25.0):
    end = time.monotonic() + seconds
    best, tried = scn, 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for c in candidates(best):
            if time.monotonic() > end:
                break
            tried += 1
            try:
                r = execute(mod, nb, c, timeout=10.0)
            except Exception:
                continue
            if r["status"] == "viol" and r["cat"] == cat:
                if len(json.dumps(c)) < len(json.dumps(best)) or c != best:
                    if _size(c) < _size(best):
                        best = c
                        progress = True
                        break
    return best, tried


def _size(s):
    t = json.dumps(s)
    return (len(t), t)


# -- known findings ---------------------------------------------------------------------
def known_findings(root, pid):
    """{key: text} of the lines "known: property=<id> key=<key> <what fails>"."""
    path = os.path.join(root, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == "known:" and w[1] == f"property={pid}":
                    out[w[2].removeprefix("key=")] = w[3].strip()
    return out
