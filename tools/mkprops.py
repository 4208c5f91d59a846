import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
C="nbkode/core.py"; B="nbkode/buffer.py"; E="nbkode/event_handler.py"; MS="nbkode/multistep/core.py"; RK="nbkode/runge_kutta/core.py"; EX="nbkode/runge_kutta/explicit.py"; Z="nbkode/nbcompat/zeros.py"
p("C01","The trajectory does not depend on how the solver is driven",
 "For every solver and problem, the sequence of accepted steps (time, state, derivative and next step size) is the same whatever mix of step, skip, run, run_events and interpolate calls, with whatever n, upto_t, time lists or event lists, drives the solver. Queries of the recorded history (interpolate, run at past times, events evaluated on the way) never change where the solver is or what it does next.",
 ["histories","configurations","inputs"],"All call histories over {step, skip, run, run_events, interpolate} with all argument forms, for all 26 solvers, problems, step sizes and options.",
 "Tests drive each solver with one fixed call pattern from a fresh instance (step, then one run); the property quantifies over every mixed history.",
 [C,B,EX],[("step/skip/run dispatch","Solver.step, Solver.skip, Solver.run_events in nbkode/core.py"),("bounded loops","_steps/_nsteps/_skip/_nskip/_run_eval in nbkode/core.py"),("history ring","AlignedBuffer.push in nbkode/buffer.py")],
 [("cache","last accepted times, states, derivatives","nbkode/buffer.py"),("h","current step size, updated in place by adaptive methods","nbkode/core.py"),("K","stage derivatives of the last attempt","nbkode/runge_kutta/core.py")],["t, y, f, h","interpolate()"])
p("C02","A failing callback or allocation never corrupts a solver",
 "If the right-hand side, an event function or a memory allocation raises at any point of any call, that exception reaches the caller and the solver is left exactly on one of the accepted steps of its undisturbed trajectory, no further than the undisturbed call would have gone, with the state, derivative, step size and dense output that the undisturbed run has there. Whatever calls follow, the solver continues on that same trajectory as if nothing had happened.",
 ["fault_sequences","crash_points","histories"],"Every evaluation index of every call as fault point, every exception type (including KeyboardInterrupt and MemoryError), several faults per history, all solvers.",
 "No test injects a failure; the crash point ranges over every evaluation inside every step, retry, interpolation and root search.",
 [C,B,RK,EX,MS,E],[("compute then push","_step functions push only after the new point is complete"),("step size and stages committed with the step","AdaptiveRungeKutta/FSAL/DOP853 _step_builder")],
 [("h","next step size","nbkode/core.py"),("K","stages behind the dense output","nbkode/runge_kutta/core.py")],["t, y, f, h, interpolate() after the exception","all later results"])
p("C03","Every accepted step is a step of the method the solver is named after",
 "Each accepted step equals the published formula of the method (Runge-Kutta stages and weights, embedded pair, Adams-Bashforth, Adams-Moulton or BDF recurrence over the preceding recorded points, forward/backward Euler) applied to the recorded points with the step size used, and the solver's derivative at the new point is the right-hand side there. For implicit methods the new state satisfies the implicit equation to solver tolerance, or the step raises and is not taken.",
 ["configurations","inputs","histories"],"All 26 solvers, all systems and dimensions, step sizes, start times and any point of any call history, also after failed attempts.",
 "Tests compare a handful of solvers with scipy on one problem and never check multistep recurrences step by step against an independent model.",
 [MS,"nbkode/multistep/adams_bashforth.py","nbkode/multistep/adams_moulton.py","nbkode/multistep/bdf.py",RK,EX,"nbkode/euler.py",Z],
 [("fixed-step builders","_fixed_step_builder in nbkode/multistep/core.py and nbkode/runge_kutta/explicit.py"),("implicit solve","j_newton, newton_hd in nbkode/nbcompat/zeros.py")],
 [("A, B, C, Bn","method coefficients","solver classes")],["consecutive (t, y, f)"])
p("C04","Adaptive step control honours tolerances and options",
 "An adaptive solver accepts an attempted step exactly when its error estimate, weighted by atol + rtol*max(|y_old|,|y_new|) in the RMS norm, is below one; after each attempt the step size is multiplied by safety_factor*err**(-1/(q+1)) limited to [min_factor, max_factor] (max_factor when the estimate is zero). The first attempt uses first_step when given and otherwise the standard automatic choice, and no attempted step is ever larger than max_step.",
 ["configurations","inputs","histories"],"All three embedded pairs, all option settings, problems that force rejections and growth, any history of calls and failed attempts.",
 "Tests run default tolerances on one smooth problem where rejections hardly occur; options other than rtol/atol are never exercised.",
 [C,RK,EX],[("error norm and controller","_scaled_error_norm, _step_update in nbkode/runge_kutta/core.py"),("options","VariableStepOptions, VariableStep in nbkode/core.py")],
 [("options","atol, rtol, min/max_step, min/max/safety factor","nbkode/core.py"),("h","next attempt's size","nbkode/core.py")],["h before and after each step","rhs evaluation times"])
p("C05","Every call makes progress or raises: no hang, no non-finite result accepted",
 "With a right-hand side that returns NaN or infinities for a while or for ever, blows up, sits at an equilibrium, or whose implicit equation cannot be solved, or with a step too small to change the time, a solver never evaluates the right-hand side more than a bounded number of times without accepting a step: every single step either advances the time or raises, and an adaptive solver never accepts a non-finite state. A step that raised leaves the solver on its last accepted step, and once the right-hand side behaves again (and, for implicit solvers, the recorded derivatives are finite) the next calls advance from there.",
 ["fault_sequences","inputs","histories"],"Bursts of NaN/inf of every length at every evaluation, persistent failures, finite-time blow-up, equilibria, unsolvable implicit equations; all adaptive and implicit solvers; all ways of driving.",
 "Liveness under faults: tests contain no failing right-hand side, and a hang cannot be seen in a sampled run that happens not to hang.",
 [RK,EX,MS,Z,C],[("retry loops","while True in _step of AdaptiveRungeKutta, FSAL, DOP853"),("Newton iteration limits","_newton, newton_hd in nbkode/nbcompat/zeros.py")],
 [("h","shrinks on every rejection","nbkode/core.py")],["number of rhs evaluations per call","t, y after an error"])
p("C06","Stop conditions are exact and t_bound is never crossed",
 "step and skip with n take exactly n steps, with upto_t exactly the steps whose end (for an adaptive solver, the end proposed by its step size) does not exceed upto_t, with both whichever comes first; step returns one row per step taken and skip ends in the same place. No call and no multistep startup moves a solver past t_bound: when t_bound prevents the steps asked for by n the call raises RuntimeError, a time beyond t_bound (or one that is not a number) raises ValueError and leaves the solver where it was, and a past upto_t does nothing. Driven to the end, a fixed-step solver stops at its last step before t_bound and an adaptive one at t_bound.",
 ["histories","inputs","configurations"],"All n, upto_t at, just below and just above step ends, all t_bound positions relative to the step grid, all histories, all solvers.",
 "Tests use one t_bound and one step pattern; boundary coincidences (upto_t exactly on a node, bound inside startup, bound hit in the middle of a history) are not reached.",
 [C,MS],[("wrapper _step bound test","Solver.__init_subclass__ in nbkode/core.py"),("_check_time","nbkode/core.py"),("startup","Multistep.__init__ in nbkode/multistep/core.py")],
 [("t_bound","hard limit of integration","nbkode/core.py")],["t after each call","rows returned","exceptions"])
p("C07","run returns exactly the requested times, in order, with the solution there",
 "run and run_events return the requested times in the order requested (scalar, list or array; none at all, unsorted, repeated, on step ends, in the recorded past or in the future), each with the value of the dense output at that time, and advance the solver no further than the first accepted step at or past the largest time. When t_bound cuts integration short, the reachable requested times are returned in requested order; a request before the recorded history, beyond t_bound or not a number raises ValueError and leaves the solver where it was.",
 ["inputs","histories"],"All request vectors relative to the step grid and history, from any solver state, all solvers.",
 "Tests request one sorted and one unsorted grid from a fresh solver; truncation, duplicates, past/future mixes and truncated unsorted requests are not covered.",
 [C],[("sorting and past/future split","Solver.run_events in nbkode/core.py"),("evaluation loops","_run_eval, _run_eval_events in nbkode/core.py")],
 [],["returned t, y","solver t after the call"])
p("C08","Dense output is the documented interpolant of the accepted points",
 "Anywhere in the recorded history, dense output equals the method's continuous extension on the step containing the time (the pair's own interpolant for RungeKutta23, RungeKutta45 and DOP853, cubic Hermite through the two neighbouring accepted points for all others) and equals the accepted state at an accepted point; outside it raises ValueError. It is a function of the accepted points only: earlier queries, rejected or failed attempts and the way the value is asked for (interpolate, run, events) make no difference.",
 ["histories","inputs","configurations"],"All query times and query orders interleaved with stepping and failed attempts, all solvers and history depths.",
 "Tests interpolate between two points of a few solvers; query order, cached interpolator state and long multistep histories are not sampled.",
 [C,EX,B],[("Hermite","Solver._interpolate in nbkode/core.py"),("cached interpolators","RkInterpolator, DOP853Interpolator in nbkode/runge_kutta/explicit.py")],
 [("Q / F / updated_t","interpolator coefficients and the step they belong to","nbkode/runge_kutta/explicit.py")],["interpolate()","run()"])
p("C09","Each event crossing is reported exactly once, at the right time and state",
 "For every tracked event function, every accepted step (up to the stopping event, if one is terminal) over which it changes sign strictly in the tracked direction yields exactly one entry (a change of sign through an exact zero at an accepted point counts once), at a time inside that step where the event function along the dense output changes sign (accurate to a tiny fraction of the step, whatever the event's scale), with the dense output there as state. Steps without a change of sign or zero yield no entry, entries are in time order, and each event list belongs to the event function at the same position, independent of the other events.",
 ["inputs","histories","configurations"],"All sets of event functions, scales, directions, step grids and call histories, all solvers.",
 "One test checks one event on one solver; number, order, scale, direction and coincidence of events with step ends are unbounded.",
 [E,Z,C],[("sign test and bisection","Event.evaluate in nbkode/event_handler.py"),("root finder","bisect in nbkode/nbcompat/zeros.py")],
 [("last_t, last_value","event value at the previous accepted step","nbkode/event_handler.py")],["t_events, y_events"])
p("C10","Terminal events stop integration at the earliest one, losing nothing before it",
 "When terminal events occur, integration stops in the step of the earliest terminal crossing: the result holds every requested time before it, then (if requested times remain) one final row with the time and state of that event in place of the next requested time, and nothing after it. No event later than the stopping one is reported, every earlier one is, and the solver takes no step beyond that one.",
 ["inputs","histories","configurations"],"All mixes of terminal and non-terminal events, several in one step, any request grid, all solvers.",
 "The single terminal-event test has one event and a coarse grid; several events within one step and requests inside the terminal step are not sampled.",
 [E,C],[("termination","EventHandler.evaluate in nbkode/event_handler.py and _run_eval_events in nbkode/core.py")],
 [("last_event","stopping event","nbkode/event_handler.py")],["t, y, t_events, y_events","solver t"])
p("C11","Solver instances are independent under every interleaving",
 "Any number of solvers (of the same or different classes, on shared or separate functions) give the same trajectory and results as each would alone when their calls are interleaved, when one is driven from inside another's right-hand side or event function, and when they run in concurrent threads under any schedule, also if some of them fail on the way.",
 ["schedules","histories","fault_sequences"],"All interleavings of calls, nested calls and line-level thread schedules of several solvers.",
 "Tests use one solver at a time in one thread.",
 [C,B,RK,EX,MS,E],[("per-instance state","cache, h, K, options, interpolator created in __init__")],
 [("class-level tables","shared, must stay read-only","solver classes")],["results of each solver"])
p("C12","Returned arrays are snapshots and inputs are copied",
 "Arrays returned by step, run, run_events and interpolate never change afterwards and share no memory with the solver: whatever the caller writes into them, and whatever the solver does next, leaves the other untouched. A solver likewise uses the y0, params, step size, t_bound, option and time values given at the time of the call: later changes to those arrays by the caller, or a right-hand side that reuses one output buffer, do not affect it, and it never writes into them.",
 ["histories","inputs"],"All histories in which results and inputs are mutated at any point between calls, all solvers.",
 "Aliasing only shows when an old result is read or written after later calls; tests look at each result once.",
 [C,B,E,EX],[("copies at the API","Solver.step, run_events, interpolate; Event.evaluate; AlignedBuffer.push; Solver.__init__")],
 [],["results and inputs after later calls"])
p("C13","Compiled and uncompiled modes behave the same",
 "With NBKODE_NONUMBA set (plain Python) and without it (numba-compiled), the same sequence of calls on the same problem gives the same accepted steps, results, events and step sizes to rounding, and the same kind of outcome (value, refusal or error) for each call, also when the right-hand side returns non-finite values.",
 ["histories","configurations","fault_sequences"],"All seeded call histories, all solvers, both modes.",
 "Tests run in one mode; there is no test comparing the two.",
 [C,B,E,RK,EX,MS,"nbkode/nbcompat/nb_to_import.py","nbkode/nbcompat/numbasub.py",Z],[("mode switch","nbkode/nbcompat/nb_to_import.py"),("jitclass specs","nbkode/buffer.py, nbkode/event_handler.py, nbkode/runge_kutta/explicit.py")],
 [],["all public results in both modes"])
p("C14","Multistep startup produces the right history from any start",
 "A k-step solver starts with k equally spaced points t0, t0+h, ..., t0+(k-1)h, the first being the given initial state and the others the solution obtained by the chosen starter (RungeKutta45 by default, any one-step solver by class, name or alias) from that initial state, with the right-hand side evaluated at each; its t is then t0+(k-1)h, and with no starter it starts at t0 itself with the initial state as its past. This holds for every t0, and startup that fails because of the right-hand side or t_bound raises and leaves nothing behind.",
 ["configurations","inputs","fault_sequences"],"All multistep solvers, starters, t0, h, problems (also explicitly time-dependent) and failing startup evaluations.",
 "All tests start at t0=0 with one starter.",
 [MS,C],[("startup","Multistep.__init__ in nbkode/multistep/core.py")],
 [("cache","filled oldest to newest","nbkode/buffer.py")],["t, y, f and interpolate() over the initial history"])
p("C15","The solver registry stays consistent under every sequence of definitions",
 "After any sequence of solver definitions, including ones that fail (duplicate names or aliases in any letter case, bad history length, broken builders), every registered solver is found under its name and aliases regardless of case and appears exactly once in its group, while failed definitions leave no trace and displace nothing. The listings (list_solvers, dir of the package, the valid names given by a failed lookup) offer every solver defined so far. Group and keyword filters (implicit, fixed_step, runge_kutta, multistep) return exactly the solvers that have those features.",
 ["programs","histories","fault_sequences"],"All sequences of successful and failing class definitions and lookups.",
 "Tests check the built-in table once, before any user definition and without a failing one.",
 [C,"nbkode/__init__.py","nbkode/util.py",MS],[("registration","Solver.__init_subclass__ in nbkode/core.py"),("lookup","get_solver, get_solvers, list_solvers in nbkode/core.py, __getattr__ in nbkode/__init__.py")],
 [("SOLVERS, SOLVERS_BY_GROUP","global tables","nbkode/core.py")],["get_solver, get_solvers, get_groups, list_solvers, dir"])
p("C16","Standalone numerical helpers return correct roots",
 "The standalone root finders (newton in its secant, derivative and second-derivative variants, j_newton, newton_hd, bisect) return a value at which the function vanishes to the requested tolerance, or report failure.",
 ["inputs"],"All functions and starting values.","Tests sample a few functions.",
 [Z],[("root finders","nbkode/nbcompat/zeros.py")])
p("C17","Case-insensitive mapping obeys the mapping laws",
 "The case-insensitive dictionary behaves as a mapping in which keys that differ only in case are the same key and iteration shows the last spelling set.",
 ["inputs","histories"],"All key sequences.","Tests sample a few keys.",["nbkode/util.py"],[("CaseInsensitiveDict","nbkode/util.py")])
p("C18","An integration can be resumed from its last recorded point",
 "For one-step methods and the adaptive pairs, the current time and state (and, for an adaptive solver, its step size) are all there is: a new solver of the same class constructed at any moment from the t and y of another one, with the other's h as first_step if adaptive and the same remaining arguments, goes on exactly as the other would have done - same accepted steps, step sizes, refusals, rows and events - whatever happened before, including failed calls, rejected steps and a crash in the middle of a call, and without affecting the other one if that is still in use.",
 ["crash_points","histories","configurations"],"All crash and checkpoint moments in all call histories, all one-step and adaptive solvers, all configurations; several successive crashes and several live successors.",
 "No test restarts anything; hidden state (carried stages, error history, interpolants, counters) shows only when a solver that has lived through something is compared with one that has not.",
 [C,RK,EX,B],[("constructors","Solver.__init__, VariableStep.__init__ in nbkode/core.py"),("what a step carries over","AdaptiveRungeKutta and FSAL _step_builder in nbkode/runge_kutta/core.py")],
 [("h","current step size","nbkode/core.py"),("K","stages carried over by FSAL methods","nbkode/runge_kutta/core.py")],["t, y, f, h and results of both solvers"])
p("C19","Callbacks are evaluated only where, and only as often as, the integration needs",
 "The right-hand side is never evaluated beyond t_bound ('use it when the equation has problems after this point'), before t0, or outside the step being attempted; queries of the recorded history and refused calls do not evaluate it (except for the three extra stages of DOP853's dense output, inside the recorded step). A step evaluates the right-hand side no more often than its method's stages times the attempts its step control needs (embedded pairs reuse the last stage of the accepted step, explicit multistep methods evaluate once), however the solver is driven, and the startup of a multistep method no more often than its starter used by itself. Event functions are evaluated only at times between the start of the call and the solver's time, once per accepted step plus a bounded number of times per crossing.",
 ["histories","configurations","fault_sequences"],"All call histories with bounds, refusals, terminal events and failures on the way, all solvers and options.",
 "Tests never look at when or how often callbacks are evaluated; overruns happen only at particular positions of t_bound, and repeated evaluations only in particular histories.",
 [C,RK,EX,MS,E],[("bound test before a step","Solver.__init_subclass__ in nbkode/core.py"),("first step","VariableStep.__init__ in nbkode/core.py"),("stage reuse","FSAL in nbkode/runge_kutta/explicit.py")],
 [("K","last stage reused as the first of the next step","nbkode/runge_kutta/core.py")],["times and number of callback evaluations"])
p("C20","What a solver retains is bounded, and nothing of it outlives it",
 "However long a solver is driven and whatever happens on the way, what it and the library hold does not grow with the number of steps, calls, requested times, events, refusals, failing callbacks or other solvers made and dropped: its recorded history has a fixed length. Returned arrays and the functions of a finished call belong to the client alone, and once the client drops a solver nothing refers to it, its callbacks or their data any more, also when its construction was refused or cut short by a failure.",
 ["histories","fault_sequences","configurations"],"All patterns of calls repeated for as long as one likes, with failures and refusals among them, in one process that makes and drops solvers.",
 "Tests make few steps in short-lived processes and drop everything at the end; a slow accumulation breaks nothing they look at.",
 [B,C,E,EX,MS],[("fixed-length record","AlignedBuffer in nbkode/buffer.py"),("event trackers of one call","build_handler in nbkode/event_handler.py"),("starter","Multistep.__init__ in nbkode/multistep/core.py")],
 [("cache","last LEN_HISTORY points","nbkode/core.py")],["memory held by the process, lifetime of the client's objects"])
with open("/verif/properties.jsonl","w") as fh:
    for x in P: fh.write(json.dumps(x,ensure_ascii=False)+"\n")
