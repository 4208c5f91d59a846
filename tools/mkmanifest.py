"""Write /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with seeded fault injection: "
C = {
 "C01": ("seeded call histories, refinement against a one-step-at-a-time reference run of the same code; seeded contents of uninitialised memory",
         "Seeded exploration of call histories over all solvers. Trusts that stepping one step at a time is the reference trajectory (its steps are checked against the method formulas in C03/C04)."),
 "C02": ("exceptions and allocation failures injected at the n-th evaluation/allocation of any call of a history, refinement against the undisturbed run",
         "Seeded exploration of histories and fault points. Allocation failures are injected at numpy allocations made by nbkode's own code; compiled code is covered by C13 only."),
 "C03": ("seeded systems, histories and failed attempts; every accepted step checked against an independent model of the method",
         "Seeded exploration. Coefficients of the model are written down independently (scipy tables for the embedded pairs, exact derivation for the linear multistep families)."),
 "C04": ("seeded problems and options that force rejections and growth, failed attempts in between; executable model of the controller compared attempt by attempt",
         "Seeded exploration. Runs where the error estimate is within rounding of the threshold are skipped."),
 "C05": ("bursts and permanent NaN/inf/raising right-hand sides at seeded evaluation indices; bounded-progress (evaluation budget) and recovery after the faults stop",
         "Seeded exploration; the bound on evaluations without an accepted step is 60000, far above what the controller needs to exhaust the exponent range."),
 "C06": ("seeded histories with stop conditions and bounds on, just below and just above the step grid; reference model of the stopping rule",
         "Seeded exploration. One genuine deviation is recorded as a known finding."),
 "C07": ("seeded request vectors and histories; reference model of run over the reference trajectory",
         "Seeded exploration."),
 "C08": ("seeded query orders interleaved with steps and injected failed attempts; independent interpolant models",
         "Seeded exploration; interpolants of the embedded pairs re-implemented from scipy's tables."),
 "C09": ("seeded event sets, scales, grids, histories and failing event functions; independent crossing search along the dense output",
         "Seeded exploration. Steps in which an event has several roots are excluded; roots compared to 1e-9 of the step or their conditioning."),
 "C10": ("seeded mixes of terminal and other events and request grids; executable model of the stopping rule",
         "Seeded exploration. Ties of terminal events within the root tolerance are skipped."),
 "C11": ("seeded interleaving of calls, re-entrant calls and line- or bytecode-level thread schedules under a baton scheduler, with injected failures; each solver compared with itself alone in a process of its own",
         "Seeded exploration of schedules at Python-line granularity in the uncompiled mode; races inside compiled code are out of reach."),
 "C12": ("seeded mutation of results and inputs at seeded points of call histories; refinement against the unmutated run",
         "Seeded exploration."),
 "C13": ("the same seeded histories, faults included, executed in compiled and plain mode and compared outcome by outcome",
         "Seeded exploration with a fixed family of problems compiled once per solver; adaptive runs whose error estimate is within rounding of the threshold are cut there."),
 "C14": ("seeded starters, start times and bounds, constructor failing at seeded evaluations/allocations; independent model of the startup",
         "Seeded exploration."),
 "C15": ("seeded sequences of succeeding and failing class definitions and lookups against a model of the registry",
         "Seeded exploration; runs in forked children, since the registry is global."),
 "C18": ("seeded crashes (exceptions and allocation failures inside a call, or between calls) and restarts in which only the client's saved checkpoint (t, y, step size) survives; refinement against the uninterrupted run",
         "Seeded exploration over one-step methods and embedded pairs. Multistep methods of more than one step are outside: their past cannot be handed to the constructor."),
 "C19": ("seeded histories with bounds, refusals and failures in which the simulator records when every callback is evaluated; compared with the attempted steps, the reference run's cost and the model's number of stages and rejections",
         "Seeded exploration. One genuine deviation is recorded as a known finding. For implicit methods only positions and a generous upper bound on the number of evaluations are checked."),
 "C20": ("seeded patterns of calls, failing and refused ones included, repeated hundreds of times while solvers and functions are made and dropped; conservation of held memory across windows, weak references to everything dropped",
         "Seeded exploration in the uncompiled and the simulated compiled mode. Accumulation slower than one object per repetition of the pattern, and inside real numba, is out of reach."),
}
NA = [
 {"property": "C16", "reason": "pure functions of their arguments: no concurrency, time, I/O, history or other party, so there is no schedule or fault for a simulation to decide; their use inside the solvers (a raising or NaN callback, unsolvable equations) is covered by C03, C05 and C09"},
 {"property": "C17", "reason": "a sequential in-memory data structure without concurrency, time, I/O or faults; its use as the solver registry is covered by C15"},
]
def main():
    have = sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "sim/props")) if f.startswith("c") and f.endswith(".py"))
    titles = {}
    with open(os.path.join(ROOT, "properties.jsonl")) as fh:
        for line in fh:
            d = json.loads(line); titles[d["id"]] = d["title"]
    na = [x for x in NA if x["property"] in titles]
    for pid in titles:
        if pid not in have and pid not in [x["property"] for x in na]:
            na.append({"property": pid, "reason": "check not built yet"})
    checks = [dict(property=p, quick_cmd=f"./check.sh {p}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p}",
                   technique=T + C[p][0], level="exploration", level_note=C[p][1]) for p in have]
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="No hooks in /repo: nbkode's own NBKODE_NONUMBA switch is the seam that makes the shipped source run as plain "
                   "Python under the simulator; numpy allocation is wrapped in the harness process. VERIF_REPO selects another tree, "
                   "VERIF_RUNS another number of runs. Replay: /opt/venv/bin/python -B -m sim.runner replay FILE.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1); fh.write("\n")
main()
