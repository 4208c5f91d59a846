"""Command line of the simulator.

  python -m sim.runner check C01            seeded search (VERIF_SEED, VERIF_TIER)
  python -m sim.runner replay FILE          re-execute a replay file exactly
  python -m sim.runner digest C01 N         digests of the first N runs (determinism)
"""

import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from . import boot, engine  # noqa: E402

REAL = [
    "nbkode.core (Solver, stepping, run, run_events)", "nbkode.buffer", "nbkode.event_handler",
    "nbkode.multistep.*", "nbkode.runge_kutta.{core,explicit,dop853_coefficients}",
    "nbkode.euler", "nbkode.nbcompat.zeros", "nbkode.util", "scipy.select_initial_step",
]
STUB = [
    "numba: absent (nbkode's own NBKODE_NONUMBA switch) or simulated, so that nbkode's compiled-mode branches run as "
    "Python (40% of the runs: nbkode:sim, nbkode:jit); real numba in C13",
    "4 methods defined by the simulated client on nbkode's base classes (Client*)",
    "client callbacks: right-hand side, event functions (simulated, fault points)",
    "numpy allocation functions (seam: seeded poison for empty memory, allocation failure)",
    "thread scheduling (C11: line-level baton scheduler)",
]


def procs():
    return max(1, min(8, int(os.environ.get("VERIF_PROCS", os.cpu_count() or 1))))


def search(pid, seed, tier):
    mod = engine.prop(pid)
    n = mod.RUNS[tier]
    n = int(os.environ.get("VERIF_RUNS", n))
    cap = mod.WALL[tier]
    t0 = time.monotonic()
    deadline = t0 + cap
    chunk = max(1, min(getattr(mod, "CHUNK", 50), n // (4 * procs()) or 1))
    jobs = [(pid, seed, tier, list(range(i, min(i + chunk, n))), deadline) for i in range(0, n, chunk)]
    tot = dict(n=0, counts={}, sigs=set(), viols=[], known={}, sim=0.0, steps=0, skipped=0,
               nontrivial=0, samples=[], late=0)
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    boot.activate("sim")
    boot.activate(None)
    ctx = mp.get_context("fork")
    err = None
    with ctx.Pool(procs()) as pool:
        for r in pool.imap_unordered(engine.run_chunk, jobs):
            if r["err"]:
                err = r["err"]
                break
            for k in ("n", "sim", "steps", "skipped", "nontrivial", "late"):
                tot[k] += r[k]
            for k, v in r["counts"].items():
                tot["counts"][k] = tot["counts"].get(k, 0) + v
            tot["sigs"].update(r["sigs"])
            for k, v in r["known"].items():
                e = tot["known"].setdefault(k, [0, v[1], v[2]])
                e[0] += v[0]
                if v[1] < e[1]:
                    e[1:] = v[1:]
            if len(tot["samples"]) < 3:
                tot["samples"] += r["samples"]
            tot["viols"] += r["viols"]
            if len(tot["viols"]) >= 3 and not os.environ.get("VERIF_KEEP_GOING"):
                break
        pool.terminate()
    if err:
        raise boot.HarnessError(err)
    tot["wall"] = time.monotonic() - t0
    return mod, tot


def write_replay(pid, seed, tier, index, scn, orig, r, tried):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{seed}-{index}.json")
    with open(path, "w") as fh:
        json.dump(dict(property=pid, seed=seed, tier=tier, index=index, cat=r["cat"], detail=r["detail"],
                       digest=r["digest"], scenario=scn, original=orig, minimise_tried=tried,
                       trace=(r["lines"] or [])[-60:]), fh, indent=1)
    return os.path.relpath(path, ROOT)


def check(pid):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.monotonic()
    mod = engine.prop(pid)
    if hasattr(mod, "main"):
        return mod.main(seed, tier)
    mod, tot = search(pid, seed, tier)
    listed = engine.known_findings(ROOT, pid)
    bad = []
    for key, (n, i, detail) in tot["known"].items():
        if key not in listed:
            tot["viols"].append((i, "finding:" + key, detail))
    viols = sorted(tot["viols"])
    nb = boot.load()
    for i, cat, detail in viols[:1]:
        orig = engine.gen_scenario(mod, pid, seed, i, tier)
        scn, tried, r = orig, 0, None
        if not cat.startswith("finding:"):
            scn, tried = engine.minimise(mod, nb, orig, cat)
            r = engine.execute(mod, nb, scn, keep=True, timeout=60.0)
        if r is None or r["status"] != "viol":
            scn = orig
            r = engine.execute(mod, nb, scn, keep=True, timeout=60.0)
            r.update(status="viol", cat=cat, detail=detail)
        path = write_replay(pid, seed, tier, i, scn, orig, r, tried)
        ok = replay_ok(path, r)
        bad.append((path, r, ok))
    for key in listed:
        n, i, detail = tot["known"].get(key, (0, None, ""))
        print(f"KNOWN-FINDING: property={pid} {listed[key]} [key={key}, seen {n} times]")
    evidence(pid, seed, tier, mod, tot, time.monotonic() - t0, len(viols))
    c = tot["counts"]
    print(f"{pid}: {tot['n']} runs ({tot['nontrivial']} non-trivial, {len(tot['sigs'])} distinct, "
          f"{tot['skipped']} skipped, {tot['late']} not started), {tot['steps']} steps, "
          f"{sum(v for k, v in c.items() if k.startswith('fault:'))} faults, wall {tot['wall']:.1f} s")
    if bad:
        for path, r, ok in bad:
            print(f"  [{r['cat']}] {r['detail']}")
            print(f"  replays exactly in a fresh process: {ok}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if tot["n"] == 0:
        raise boot.HarnessError("no run was executed")
    return 0


def replay_ok(path, r):
    p = subprocess.run([sys.executable, "-B", "-m", "sim.runner", "replay", path], cwd=ROOT,
                       capture_output=True, text=True, timeout=200)
    return p.returncode == 1 and f"digest={r['digest']}" in p.stdout


def replay(path):
    with open(os.path.join(ROOT, path) if not os.path.isabs(path) else path) as fh:
        d = json.load(fh)
    mod = engine.prop(d["property"])
    if hasattr(mod, "replay"):
        return mod.replay(d)
    nb = boot.load()
    r = engine.execute(mod, nb, d["scenario"], keep=True, timeout=120.0)
    for line in r["lines"][-40:]:
        print("   ", line[:200])
    listed = {k for k, _ in r["known"]}
    if r["status"] == "viol" or (d["cat"] or "").removeprefix("finding:") in listed:
        print(f"  [{r['cat'] or d['cat']}] {r['detail'] or d['detail']}")
        print(f"VIOLATION property={d['property']} replay={path} digest={r['digest']}")
        return 1
    print(f"no violation: {r['status']} {r['detail'] or ''} digest={r['digest']}")
    return 0


def evidence(pid, seed, tier, mod, tot, wall, nviol):
    c = tot["counts"]

    def part(prefix):
        return {k[len(prefix):]: v for k, v in sorted(c.items()) if k.startswith(prefix)}

    hours = max(tot["wall"], 1e-9) / 3600
    cov = dict(
        evaluations=tot["n"],
        distinct_nontrivial=len(tot["sigs"]),
        rule=mod.RULE,
        samples=_trim(tot["samples"][:2]),
        nontrivial_runs=tot["nontrivial"],
        skipped_runs=tot["skipped"],
        skipped_why=part("skip:"),
        runs_not_started_before_wall_cap=tot["late"],
        seeds=dict(base=seed, runs="seed string '<property>/<VERIF_SEED>/<index>'"),
        runs_per_hour=round(tot["n"] / hours),
        distinct_interleavings_measure="hash of the run's call/fault/outcome/steps-advanced sequence and configuration shape",
        simulated_time=round(tot["sim"], 3),
        simulated_steps=tot["steps"],
        operations=part("op:"),
        faults_fired=part("fault:"),
        solvers=part("solver:"),
        other={k: v for k, v in sorted(c.items())
               if not k.startswith(("op:", "fault:", "solver:", "skip:"))},
        components_real=getattr(mod, "REAL", REAL),
        components_stub=getattr(mod, "STUB", STUB),
        known_findings_seen={k: v[0] for k, v in tot["known"].items()},
    )
    out = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
               assumptions=getattr(mod, "ASSUMES", []), wall_s=round(wall, 2), violations=nviol)
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as fh:
        json.dump(out, fh, indent=1)


def _trim(samples):
    return [s for s in samples if len(json.dumps(s)) < 12000] or [str(samples)[:4000]]


def digests(pid, n):
    mod = engine.prop(pid)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    nb = boot.load()
    for i in range(n):
        scn = engine.gen_scenario(mod, pid, seed, i, "quick")
        r = engine.execute(mod, nb, scn)
        print(i, r["status"], r["digest"], r["sig"])
    return 0


def main(argv):
    try:
        if argv[0] == "check":
            return check(argv[1])
        if argv[0] == "replay":
            return replay(argv[1])
        if argv[0] == "digest":
            return digests(argv[1], int(argv[2]))
    except boot.ImportBroken as e:
        print(f"ERROR: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
