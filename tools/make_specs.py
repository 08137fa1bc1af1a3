#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run from /verif)."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, level="exploration", state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        prop=dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                           "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                           "observe_at": observe, "hook_needed": None}),
        check=dict(property=id, quick_cmd=f"python3 run.py {id}", thorough_cmd=f"python3 run.py {id} --tier thorough",
                   evidence_file=f"evidence/{id}.json", technique=technique, level=level, level_note=note)))


CORE, BUF, EV = "nbkode/core.py", "nbkode/buffer.py", "nbkode/event_handler.py"
EUL, RKC, RKE, D853 = "nbkode/euler.py", "nbkode/runge_kutta/core.py", "nbkode/runge_kutta/explicit.py", "nbkode/runge_kutta/dop853_coefficients.py"
MSC, AB, AM, BDF = "nbkode/multistep/core.py", "nbkode/multistep/adams_bashforth.py", "nbkode/multistep/adams_moulton.py", "nbkode/multistep/bdf.py"
ZER, COM, SUB, UTIL, INIT = "nbkode/nbcompat/zeros.py", "nbkode/nbcompat/common.py", "nbkode/nbcompat/numbasub.py", "nbkode/util.py", "nbkode/__init__.py"
TRUST = " Says nothing about executions outside the generated workload; trusts NumPy, SciPy and numba."
RUN = ["step", "skip", "run", "run_events", "interpolate", "t, y, f, h"]

prop("C01", "Every step of a fixed step solver is one step of its published formula",
     "Every step of a fixed step solver advances time by exactly h and gives the state that the published method of that name "
     "and order (Euler, Runge, Heun, Kutta, Adams-Bashforth 1-5, Adams-Moulton 1-5, BDF 1-6) gives from the recorded past. "
     "Implicit methods return a solution of the published implicit equation, to the tolerance of the nonlinear solver. "
     "The reported derivative f is the equation evaluated at the reported time and state.",
     ["inputs", "histories", "configurations"], "every class, equation, dimension, t0, h, start mode, and every step of the run, both execution modes",
     "The suite compares a few steps with SciPy or with the exact solution at loose tolerances on two problems; swapped or mistyped coefficients of higher methods stay below them (several did).",
     [EUL, RKE, MSC, AB, AM, BDF, BUF], [("published coefficients", AB), ("step formula", MSC), ("stage loop", RKE), ("nonlinear solve", MSC)],
     ["step", "t, y, f"], "online reference-model monitor on every step",
     "Every observed step is recomputed from the observed past with coefficients derived from first principles in exact arithmetic; rounding-level tolerances." + TRUST)

prop("C02", "Multistep solvers start on their own grid from the chosen one step solver",
     "A multistep solver of k steps starts from the k values at t0, t0 + h, ..., t0 + (k-1)h that the chosen (default, named or "
     "given) one step starter produces there, or from k copies of the initial value when no starter is wanted, and its first own "
     "step is the published formula on exactly that past. A start that would pass t_bound is refused with ValueError.",
     ["inputs", "configurations"], "every multistep class, starter, equation, t0, h and t_bound",
     "The suite builds multistep solvers with one starter and tests later values loosely; a starting grid shifted by one step passes.",
     [MSC, CORE], [("starting history", MSC + " __init__"), ("time validation", CORE + " _check_time")], ["construction", "interpolate", "step"],
     "reference-model monitor on the recorded past after construction",
     "Starting values are compared with the starter run alone through the public API, the first step with the published formula." + TRUST)

prop("C03", "Embedded pairs accept exactly the steps that pass the documented error test",
     "Every step an embedded pair (RungeKutta23, RungeKutta45, DOP853) accepts is the published pair's step, from the observed "
     "state, of the first proposal whose scaled error estimate is below one. The next proposal is the used step times "
     "safety_factor/error^(1/order) limited by min_factor, max_factor and max_step. The first proposal is first_step, or the "
     "documented automatic choice. A rejected step that would need less than min_step raises RuntimeError.",
     ["inputs", "configurations", "histories"], "every equation, tolerance, controller option, first step and every step of the run",
     "The suite compares final values with SciPy at default options; options were silently ignored and no test noticed.",
     [RKC, RKE, D853, CORE], [("error norm and update of h", RKC + " _step_update"), ("error estimate", RKE), ("first step", CORE + " VariableStep")],
     ["step", "h, t, y"], "online replay monitor of the step size controller",
     "Each accepted step is replayed with SciPy's tableaux including all rejected attempts; error norms within 1e-6 of one may go either way." + TRUST)

prop("C04", "Results converge to the true solution at the order of the method",
     "The error of a fixed step solver against the true solution falls with h at least at the order of its method, at steps and at "
     "any requested time (up to the order of the interpolation). The error of an embedded pair is bounded by a moderate multiple of "
     "the requested tolerance and falls with it.",
     ["inputs", "configurations"], "every smooth equation, step size and tolerance in the asymptotic range",
     "The suite checks single step sizes; a method that silently loses an order still satisfies its tolerances.",
     [EUL, RKE, MSC, AB, AM, BDF, CORE, D853], [("whole integration path", CORE + " run")], ["run", "step"],
     "convergence monitor against an independent reference solution",
     "Orders are estimated from three step sizes against SciPy's DOP853 at rtol 2.3e-14; only clear losses (half an order) are reported." + TRUST)

prop("C05", "The trajectory does not depend on how the calls are grouped",
     "Whatever mixture of step, skip, run and interpolate calls is made, the solver visits the same sequence of (t, y, f, h) as one "
     "advanced by single steps, and after each call it stands at the position its documentation defines: n steps further, at the last "
     "step not beyond upto_t, or at the first step that reaches the last requested time. step returns exactly the states it passed and skip returns nothing.",
     ["histories", "inputs", "configurations"], "every finite sequence of calls on every class, limits on, between and next to steps included",
     "The suite makes one kind of call per test; the property is about all mixtures and exact coincidences of limits with steps.",
     [CORE, BUF, RKE], [("_steps, _nsteps, _skip, _nskip", CORE), ("history buffer", BUF)], RUN, "online twin monitor over random call histories",
     "Positions, rows and states are compared bit for bit (interpreted) with a twin that makes single steps." + TRUST,
     state=[("position", "index in the sequence of natural steps", CORE)])

prop("C06", "Time limits are hard: nothing beyond t_bound is evaluated, stored or returned",
     "No call leaves the solver, returns a row, or (after construction) completes a step at a time beyond t_bound, nor beyond upto_t. "
     "A request beyond t_bound raises ValueError, a step that does not fit raises RuntimeError, and both leave the solver unchanged "
     "at its last good step and usable. A limit in the past returns nothing and changes nothing.",
     ["inputs", "histories", "configurations"], "every class, t_bound and limit relative to the steps, every sequence of calls",
     "The suite tests two bounds; the property concerns every position of the limit relative to the steps, equality included.",
     [CORE, RKC, MSC], [("_check_time", CORE), ("t + h > t_bound", CORE + " _step"), ("n-step loops", CORE)], RUN,
     "online monitor of limits, evaluation times and outcomes against a twin",
     "Interpreted workers also watch every time at which the equation is evaluated. Known finding: adaptive solvers stop short of t_bound." + TRUST)

prop("C07", "run returns one row per requested time, in request order, at that time's value",
     "run returns exactly one row per requested time, in the order of the request (scalars, repeated, unsorted and already passed times "
     "included), and the times returned are the times requested. The value at a time is the interpolated trajectory there and does not "
     "depend on the order or number of the other requested times, nor on how requests are split into calls. Times before the recorded past raise ValueError and change nothing.",
     ["inputs", "histories"], "every list of times, its order, repetitions and splits into calls, for every class",
     "The suite requests sorted times once; permutations, duplicates, splits and partly past requests are a product space.",
     [CORE], [("sorting and unsorting", CORE + " run_events"), ("_run_eval", CORE), ("interpolate", CORE)], ["run", "interpolate"],
     "twin monitor on every returned row",
     "Each row is compared with a twin stepped past the time and interpolated there." + TRUST)

prop("C08", "interpolate is the published dense output of the step that contains the time",
     "interpolate(t) inside the recorded past returns the published continuous extension (cubic Hermite for fixed step methods, "
     "the pair's own interpolant for the embedded pairs where the last step is concerned) of the step that contains t, and exactly the "
     "recorded state at recorded times. Any other time raises ValueError. Interpolating never changes the solver.",
     ["inputs", "histories"], "every time inside, at the ends of and outside every recorded step, in any order of requests",
     "The suite interpolates at a few points in the last step; wrong older steps, stale caches and end points need specific histories.",
     [CORE, RKE, BUF, D853], [("_interpolate", CORE), ("RkInterpolator, DOP853Interpolator", RKE)], ["interpolate"],
     "reference-model monitor on every interpolated value",
     "Values are recomputed from the recorded end points and the equation with SciPy's dense output coefficients." + TRUST)

prop("C09", "Every crossing over a step is reported once, in the right direction, on time",
     "For every event, run_events reports exactly one zero for each step it makes over which the event function changes sign in the "
     "requested direction, in time order, and nothing else. The reported time is a zero of the event along the interpolated solution "
     "to the precision of time and the reported state is the solution there. Consecutive "
     "calls lose no event, and repeat none except one exactly at the time where the next call starts.",
     ["inputs", "histories", "configurations"], "every event function, direction, amplitude and trajectory, and every split into calls",
     "The suite checks one event per direction on one trajectory; zeros on steps, tiny amplitudes and call boundaries are not reached.",
     [EV, ZER, CORE], [("Event.evaluate", EV), ("bisect", ZER), ("_run_eval_events", CORE)], ["run_events"],
     "offline matching of reported events with sign changes along a twin",
     "Events are matched one to one with the sign changes over the twin's steps, the time bracketed within rounding." + TRUST)

prop("C10", "A terminal event ends the run at its first occurrence, keeping everything before",
     "When terminal events occur, the run ends at the earliest of them: all requested times before it are returned, in request order, "
     "then the time and state of the event itself as the last row, and no event after it is reported. Without an occurrence the result is that of the "
     "same events not being terminal. The solver can be used afterwards.",
     ["inputs", "histories", "configurations"], "every number of events due in the same step, every placement of requested times around the event",
     "The suite stops on one event with one requested time; rows in the last step and simultaneous events are needed.",
     [EV, CORE], [("EventHandler.evaluate", EV), ("_run_eval_events", CORE)], ["run_events"],
     "reference-model monitor on rows, events and the resumed solver",
     "Rows and events are compared with the twin's steps up to the first terminal zero." + TRUST)

prop("C11", "Results are snapshots and inputs belong to the caller",
     "An array once returned never changes because of later calls, and the caller may overwrite it without disturbing the solver. "
     "The solver never writes to the caller's inputs (initial state, parameters, times), and changing them after construction has no effect. "
     "Equations that reuse one output buffer give the same results as equations that return new arrays.",
     ["histories", "inputs"], "every array crossing the interface and every later sequence of calls and overwrites",
     "No test keeps a result across calls or overwrites an input; aliasing shows only in such histories.",
     [CORE, BUF, EV, RKE], [("copies of the state", CORE), ("history buffer", BUF), ("event states", EV)], RUN,
     "aliasing monitor: private copies of all data crossing the interface",
     "All arrays returned or passed are shadowed and compared after each call, and the solver with an undisturbed twin. .y and .f are documented as current (live)." + TRUST)

prop("C12", "Solver instances do not influence each other",
     "Any number of solvers, of the same or different classes and sharing equations, events and arrays, can be built and used "
     "interleaved or in different threads, and each gives exactly what it gives alone.",
     ["schedules", "histories", "configurations"], "every interleaving of the calls of several solvers, thread switches included",
     "Tests use one solver at a time; shared class-level state needs interleavings.",
     [CORE, BUF, RKC, RKE, EV, MSC], [("per-instance buffers", RKC), ("class-level step functions", CORE + " __init_subclass__")], RUN,
     "differential monitor over interleaved and threaded histories",
     "Each operation's result and state is compared with the same script run alone; threads switch every 10 microseconds." + TRUST)

prop("C13", "Compiled and interpreted execution give the same results",
     "With and without numba, the same calls give the same values up to rounding, the same numbers of rows and events, and "
     "the same kinds of exceptions, for solvers and root finders alike.",
     ["configurations", "inputs", "histories"], "every class and every script of calls, in both execution modes",
     "The suite runs in one mode; code that is typed differently by numba diverges only there.",
     [CORE, BUF, EV, RKE, MSC, SUB, ZER, COM], [("numba substitute", SUB), ("njit functions", CORE)], RUN + ["newton, bisect"],
     "offline comparison of event logs of both modes",
     "The same scripts are logged in both modes and compared by the parent." + TRUST)

prop("C14", "params behaves like constants written into the equation",
     "A solver given params=p behaves exactly like one whose equation has the numbers of p, as they were at construction, written into it; "
     "scalars, lists, tuples and arrays are all accepted, and the equation always receives an array.",
     ["inputs", "histories"], "every equation, parameter value, representation and later change of the caller's object",
     "The suite passes parameters once; later changes and representations are not tested.",
     [CORE], [("params binding", CORE + " __init__")], ["construction", "step", "run"],
     "differential monitor against the written-in equation",
     "Results are compared operation by operation with a closure over the same numbers." + TRUST)

prop("C15", "Lookup and classification of solvers tell the truth",
     "Solvers are found by name and alias in any casing, unknown names raise with the known ones, and get_solvers returns exactly "
     "the classes that satisfy the filters. What a class declares (implicit, fixed step, Runge-Kutta, multistep) is how it behaves. Two classes cannot claim the same name.",
     ["inputs", "configurations"], "every name, casing and combination of filters and groups; newly derived classes",
     "The suite tests two filters; combinations and agreement of declaration with behaviour are not tested.",
     [CORE, UTIL, INIT, MSC], [("registry", CORE + " __init_subclass__"), ("filters", CORE + " check, get_solvers")], ["get_solver, get_solvers, get_groups", "IMPLICIT, FIXED_STEP"],
     "model monitor on lookups and behavioural classification",
     "Lookups are compared with the published classification, declarations with observed stiff behaviour and step lengths." + TRUST)

prop("C16", "Root finders: what they report converged is a root, otherwise they say so",
     "newton gives the root, iterations, evaluations and convergence flag SciPy's newton gives; its compiled and multidimensional "
     "variants return a root of the function or raise. bisect returns a point of a sign change within the requested precision or refuses a bracket "
     "without one.",
     ["inputs", "configurations"], "every function, start, bracket and option",
     "The suite has a handful of functions; flat, rootless, huge and tiny functions and option combinations are not reached.",
     [ZER, COM], [("newton", ZER), ("newton_hd", ZER), ("bisect", ZER)], ["newton, j_newton, newton_hd", "bisect", "isclose, clip"],
     "differential monitor against SciPy and residual monitor",
     "Disagreements with SciPy count only when SciPy itself is stable under rounding-level perturbations of the function." + TRUST)

prop("C17", "The case insensitive dictionary is a dictionary",
     "Under any sequence of mapping operations the case insensitive dictionary equals a plain mapping over lower-cased keys that "
     "remembers the casing last set, in iteration order, length, membership, equality and copies.",
     ["histories", "inputs"], "every sequence of mapping operations and key casing",
     "The suite makes a few operations; sequences with deletions, copies and equality are not reached.",
     [UTIL], [("CaseInsensitiveDict", UTIL)], ["mapping operations"], "model-based monitor over operation histories",
     "The complete observable state is compared with a model after each operation." + TRUST)

prop("C18", "A failure inside the user's functions leaves the solver at its last good step",
     "When the equation or an event function raises, at any evaluation, the exception reaches the caller unchanged and the solver stands, "
     "with unchanged recorded past, at a step of the undisturbed trajectory. Calls made afterwards continue exactly on that trajectory. The same holds when a step cannot be solved or accepted.",
     ["crash_points", "fault_sequences", "histories"], "every evaluation at which a failure may happen in every script of calls, repeated failures included",
     "No test lets the equation fail; the property quantifies over every evaluation of every call.",
     [CORE, BUF, RKC, RKE, MSC, EV], [("push after the step is complete", BUF), ("step loops", CORE)], RUN,
     "exhaustive fault injection at every evaluation with a twin monitor",
     "Each script is repeated with a failure at each of its evaluations (60 drawn when there are more). Known finding: dense output after a failed step." + TRUST,
     level="fault_enumeration")

prop("C19", "Solutions follow the symmetries of the equation",
     "Permuting components, shifting time, scaling time or state (tolerances scaled too), reflecting, mapping affinely (fixed step), duplicating or "
     "stacking independent components transforms every result accordingly: no component, time origin or unit is special.",
     ["inputs", "configurations", "histories"], "every equation, transformation and script of calls",
     "The suite has no metamorphic tests; an index, offset or scale hidden in a step or event shows only under a transformation.",
     [CORE, RKC, RKE, MSC, EV, BUF], [("norms and scales", RKC), ("step formulas", MSC)], RUN, "metamorphic monitor: paired executions",
     "Transformations by powers of two and exact shifts are compared bit-tight, others with rounding controls." + TRUST)

prop("C20", "Every call ends, whatever the equation does",
     "For any equation (not finite, blowing up, discontinuous, noisy, extremely stiff or scaled) every call ends after a bounded number "
     "of evaluations per step, with the promised progress or an exception. Embedded pairs never accept a state that is not finite and never pass a time beyond which the equation "
     "is not finite; step sizes that are not positive and times that are not numbers are refused.",
     ["inputs", "histories", "fault_sequences"], "every hostile equation, event and argument, and continued use after failures",
     "The suite uses benign equations only; endless loops appear only on hostile ones (several did).",
     [CORE, RKC, EV, ZER, MSC], [("step acceptance", RKC + " _step_update"), ("argument checks", CORE), ("iteration limits", ZER)], RUN,
     "logical-step watchdog and progress monitor under hostile workloads",
     "Liveness is restated as bounded progress: a budget of evaluations per step above any correct execution." + TRUST)

prop("C21", "Results depend on the inputs only, never on memory contents",
     "Repeating the same calls gives bit for bit the same results, whatever freshly allocated memory contains and whatever ran before in the process. "
     "No access is out of bounds.",
     ["inputs", "configurations", "histories"], "every script of calls on every class, any content of fresh memory",
     "Fresh memory usually happens to be zero or stale but plausible; tests do not poison it.",
     [BUF, CORE, RKC, RKE, EV], [("empty arrays filled before use", BUF), ("stage arrays", RKC), ("output arrays", CORE)], RUN,
     "memory poisoning, heap checking, bounds checks; log comparison",
     "numpy.empty poisoned (interpreted), MALLOC_PERTURB_ and glibc's checking allocator and numba bounds checks (compiled). Wrapping negative indices are not trapped." + TRUST)

prop("C22", "The same numbers in another representation give the same results",
     "Numbers may be passed as Python or NumPy scalars of any exact type, 0-d arrays, lists, tuples, ranges or arrays of any layout, "
     "byte order or exact dtype, events as one function, list or tuple, and equations may return arrays of any layout; the results are identical, float64 arrays.",
     ["inputs", "configurations"], "every argument of every call and every equivalent representation of it",
     "Each test uses one representation; the product over arguments and calls is not covered.",
     [CORE, EV, MSC, BUF], [("conversion of arguments", CORE + " __init__"), ("atleast_1d", CORE + " run_events"), ("build_handler", EV)], RUN,
     "differential monitor over input representations",
     "Results, dtypes and states are compared bit for bit with the plain representation." + TRUST)

prop("C23", "Calls cost what the method costs",
     "A step evaluates the equation as often as the published method per attempt (explicit multistep once, implicit a bounded number of "
     "Newton iterations). Requesting more output, interpolating or tracking events costs no evaluations beyond the steps themselves, except the published three per "
     "step for DOP853's dense output; an event function is called once per step plus a bounded search per crossing.",
     ["inputs", "configurations", "histories"], "every class, equation, number of requested times and events",
     "No test counts evaluations.",
     [CORE, RKC, RKE, MSC, EV, ZER], [("first same as last", RKE), ("f kept with the state", BUF), ("interpolators", RKE)], RUN,
     "evaluation counting monitor with a twin",
     "Interpreted mode only (compiled equations cannot count); upper bounds, so that cheaper implementations stay silent." + TRUST)

prop("C24", "Memory stays bounded and is released",
     "Advancing a solver keeps no memory that grows with the number of steps, and skip and run need none that depends on the steps they pass. Dropping a "
     "solver releases it, its equation and its events, also after failures.",
     ["histories", "inputs"], "every kind of call repeated any number of times on every class",
     "Tests are short and do not measure memory.",
     [BUF, CORE, EV, RKE], [("fixed length buffer", BUF), ("skip loops", CORE)], RUN, "allocation monitor (tracemalloc, weak references, numba runtime statistics)",
     "What a call keeps is measured repeatedly until caches settle; a leak of one word per step is seen." + TRUST)

prop("C25", "What a method must get exactly right comes out exact",
     "Solutions that are polynomials of degree at most the order of the method come out exact to rounding, at steps and, up to the degree "
     "of the interpolation, at every requested time and event. Every linear first integral of the equation stays constant in everything any "
     "method returns, a solver started at an equilibrium stays there with steps that do not shrink, and the results of fixed step methods for a linear "
     "equation add up.",
     ["inputs", "histories", "configurations"], "every class, every polynomial, invariant, equilibrium and linear equation, any keywords, any mixture of calls",
     "Tests compare a handful of equations with SciPy at loose tolerances; exactness is a statement about whole families of equations.",
     [RKE, RKC, AB, AM, BDF, MSC, EUL, CORE, EV], [("coefficients and step formulas", RKE), ("multistep formulas", MSC), ("dense output", CORE + " _interpolate"), ("error control", RKC)], RUN,
     "online monitors of exact answers (polynomial solutions, first integrals, equilibria, superposition)",
     "Needs no model of the methods. Implicit methods are judged up to the tolerance of the nonlinear solver." + TRUST)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p["prop"], ensure_ascii=False) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": [p["check"] for p in P],
        "not_applicable": [],
        "notes": "No hooks in /repo: all monitors observe the public interface and the user's functions. "
                 "run.py re-executes itself with the interpreter that has nbkode's dependencies and imports nbkode from /repo's working tree.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")


main()
