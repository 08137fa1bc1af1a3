"""What the parent needs to know about each check."""

_Q = {"py": 4, "jit": 4}

META = {
    "C01": {
        "modes": {"py": 3, "jit": 5},
        "rule": "A case is one solver class, one random problem (linear, nonlinear, quadrature, oscillator; 1-6 "
        "components), t0, h and start mode, advanced 3-13 steps; every step is compared with the published formula "
        "evaluated from the observed past. Non-trivial: at least one step was checked; distinct by solver, problem, "
        "size, start mode, t0 and h.",
        "require": {"rk_steps_checked": 500, "explicit_multistep_steps_checked": 500, "implicit_steps_checked": 1000},
    },
}

META["C02"] = {
    "modes": {"py": 4, "jit": 3},
    "rule": "A case builds one multistep solver of 2-6 steps with a random starter (default, by name, by class, adaptive "
    "or fixed one-step), problem, t0, h and t_bound; each starting value is compared with the starter run alone on the "
    "same problem, and the first own step with the published formula on that history.",
    "require": {"start_values_checked": 2000, "first_steps_checked": 300, "start_beyond_bound": 100},
}

META["C03"] = {
    "modes": {"py": 5, "jit": 3},
    "rule": "A case is one embedded pair, one random problem and random tolerances, factors, max_step and first step; "
    "every accepted step is replayed with the published pair from the observed state and proposal. Non-trivial: the "
    "step, state and next proposal were compared.",
    "require": {"steps_checked": 10000, "rejections_seen": 500, "max_step_active": 100, "max_factor_active": 100,
                "min_factor_active": 20, "proposals_checked": 8000},
}

META["C04"] = {
    "modes": {"py": 5, "jit": 3},
    "rule": "A case integrates one random problem with three step sizes (fixed step) or three tolerances (embedded "
    "pairs) and compares steps on a common grid and run() at arbitrary times with a reference solution (SciPy DOP853, "
    "rtol 2.3e-14). Non-trivial: the errors of at least two runs were compared.",
    "require": {"order_checks": 400, "tolerance_checks": 500, "orders_resolved": 100},
    "assumptions": ["SciPy's DOP853 at rtol 2.3e-14 is taken as the true solution."],
}

META["C05"] = {
    "modes": {"py": 4, "jit": 4},
    "rule": "A case is one solver class on one random problem and a random history of up to 14 step/skip/run/interpolate "
    "calls (limits on, between, just before and behind step times); position, step size and every returned row are "
    "compared with a twin that makes single steps. Distinct by solver, problem and sequence of calls.",
    "require": {"positions_checked": 20000, "rows_checked": 10000, "op_stepu": 1000, "op_skipnu": 1000, "op_runs": 1000},
}

META["C06"] = {
    "modes": {"py": 4, "jit": 4},
    "rule": "A case is one solver with a t_bound placed on, between or next to its natural step times and up to 12 calls "
    "with attainable and unattainable limits; the outcome, the state after it and (interpreted) the times at which the "
    "equation is evaluated are compared with an unbounded twin.",
    "require": {"runtime_errors": 500, "value_errors": 2000, "limits_met": 1000, "past_limits": 500, "run_op_run_end": 500},
}

META["C07"] = {
    "modes": {"py": 4, "jit": 4},
    "rule": "A case asks one solver for a random set of times (scalars, lists, arrays; sorted, reversed, shuffled, "
    "repeated, on step times, inside the recorded history) split into random groups; each row is compared with a twin "
    "that is stepped past the time and interpolated there.",
    "require": {"values_checked": 20000, "grid_values_checked": 3000, "history_requests": 300, "duplicates": 1000,
                "style_shuffled": 1000, "style_reversed": 1000},
}

META["C08"] = {
    "modes": {"py": 4, "jit": 4},
    "rule": "A case advances one solver in random bursts and, after each, interpolates in random order inside the last "
    "and older steps, at their ends and outside the range; values are compared with the published dense output built "
    "from the recorded end points and the equation.",
    "require": {"dense_checked": 10000, "older_steps_checked": 1000, "recorded_points_checked": 5000, "range_checks": 2000},
}

META["C09"] = {
    "modes": {"py": 3, "jit": 5},
    "rule": "A case runs one solver with 1-3 events (thresholds inside the visited range, periodic, mixed, linear, zero "
    "exactly at a step time, touching; amplitudes 1e-5 to 1e5; directions) over 1-3 consecutive run_events calls; the "
    "reported lists are matched one to one with the sign changes over the twin's steps.",
    "require": {"events_checked": 5000, "grid_zeros_checked": 300, "direction_1": 500, "direction_-1": 500,
                "steps_without_event": 10000},
}

META["C10"] = {
    "modes": {"py": 3, "jit": 5},
    "rule": "A case runs one solver with 1-3 events, most of them terminal, several often due in the same step, and 1-12 "
    "requested times; rows, reported events and the resumed solver are compared with the twin's steps up to the first "
    "terminal zero.",
    "require": {"terminal_checked": 1500, "rows_before_checked": 3000, "rows_inside_last_step": 200,
                "simultaneous_checked": 20, "no_terminal": 100},
}

META["C11"] = {
    "modes": {"py": 4, "jit": 4},
    "rule": "A case drives one solver through up to 12 calls while the caller overwrites its own inputs and the arrays it "
    "was given; every array returned before is compared with a private copy after every call, and results and state "
    "with an undisturbed twin. Some right hand sides reuse one output buffer.",
    "require": {"snapshots_checked": 50000, "results_scribbled": 5000, "inputs_scribbled": 2000, "buffered_rhs": 200,
                "event_states_kept": 100, "derived_solvers": 500},
}

META["C12"] = {
    "modes": {"py": 4, "jit": 3},
    "rule": "A case builds 2-5 solvers that share the equation and arrays and runs a random script on each, interleaved "
    "(construction included) or in four threads with a 10 microsecond switch interval; every operation's result and "
    "state is compared with the same script run alone. Distinct by classes and interleaving.",
    "require": {"operations_compared": 20000, "interleavings": 1000, "thread_switches_seen": 1000, "threaded_pools": 200},
    "assumptions": ["compiled functions hold the interpreter lock, so compiled threads interleave between calls only"],
}

META["C13"] = {
    "modes": {"py": 1, "jit": 7},
    "modes_thorough": {"py": 2, "jit": 4, "jit+o3": 4},
    "finish": "modes_agree",
    "rule": "A case is one solver class and a deterministic script of up to 12 calls (and, once, the root finders on "
    "random inputs), run in interpreted and compiled workers; the logs of values, states and exception types are "
    "compared. Distinct by solver, problem and script.",
    "require": {"logs_compared": 100, "operations_compared": 800, "raised_compared": 20},
}

META["C14"] = {
    "modes": {"py": 4, "jit": 4},
    "rule": "A case builds the same solver twice, with params passed as scalar, list, tuple, array or strided array, and "
    "with the numbers written into the equation, and compares up to 10 operations; the caller changes its params object "
    "in between.",
    "require": {"operations_compared": 20000, "params_changed_later": 500, "how_scalar": 100, "how_strided": 100},
}

META["C15"] = {
    "modes": {"py": 2, "jit": 1},
    "rule": "A case looks up names and aliases in random casing, unknown names, random combinations of groups and "
    "filters against the published classification; derives new classes and refuses duplicates; and compares IMPLICIT "
    "and FIXED_STEP with the observed stiff amplification and step lengths.",
    "require": {"lookups": 1000, "unknown_names": 800, "filters_checked": 1000, "nonempty_filters": 500,
                "behaviour_checked": 400, "custom_steps": 60, "duplicates_refused": 15},
}

META["C16"] = {
    "modes": {"py": 5, "jit": 2},
    "rule": "A case calls one root finder on random functions (with and without a root, flat, double roots, real, "
    "complex, arrays; random options, good and bad brackets, amplitudes down to 1e-200) and compares result, report and "
    "exception with SciPy's newton, or the residual and the sign change at the result with the contract.",
    "require": {"newton_compared": 5000, "newton_raised": 500, "reports_compared": 1000, "reports_not_converged": 50,
                "j_newton_compared": 3000, "systems_solved": 2000, "systems_refused": 300, "bisections": 3000, "refused": 500},
    "assumptions": ["scipy.optimize.newton of the installed SciPy is the reference the module documents."],
}

META["C17"] = {
    "modes": {"py": 4},
    "rule": "A case applies 40 random mapping operations (set, get, delete, pop, popitem, setdefault, update, copy, "
    "comparison, clear) with randomly cased keys and compares the complete observable state with a model after each; "
    "copies are compared again at the end.",
    "require": {"operations_compared": 50000, "copies_kept": 2000, "op_eq": 2000, "op_update": 2000},
}

META["C18"] = {
    "modes": {"py": 5, "jit": 3},
    "level": "fault_enumeration",
    "rule": "A case is one solver, one random problem and a script of three calls; the script is repeated once for every "
    "evaluation of the user's functions (at most 60 of them, drawn at random when there are more), that evaluation "
    "raising, with 30 % followed by a second failure; exception, position, state, recorded past and the resumed steps are compared with the "
    "undisturbed twin. Natural failures (no solution, no acceptable step) are added.",
    "require": {"faults_checked": 10000, "faults_in_construction": 1000, "second_faults": 1000, "faults_events": 500,
                "natural_failures": 150, "places_checked": 20000},
}

META["C19"] = {
    "modes": {"py": 5, "jit": 3},
    "rule": "A case is one solver class, one random problem and one transformation (permutation, time shift, time and "
    "state scaling, reflection, affine map, duplication, stacking with an independent system); the same script of up to "
    "8 calls runs on both and every result and state is compared through the transformation.",
    "require": {"comparisons": 20000, "kind_permute": 200, "kind_shift": 200, "kind_stretch": 200, "kind_affine": 200,
                "kind_double": 200, "kind_stack": 150, "kind_scale": 200, "events_compared": 500},
}

META["C20"] = {
    "modes": {"py": 3, "jit": 3, "jit+o3": 3},
    "rule": "A case is one solver class on one hostile equation (nan or inf after a time, blow up, pole, lost domain, "
    "jump, sliding, noise, extreme stiffness and scale) and up to 12 calls, each with a budget of evaluations above any "
    "correct execution; or hostile events; or arguments that must be refused.",
    "require": {"calls_ended": 5000, "calls_failed": 500, "singularities_kept": 300, "nan_refused": 500, "event_runs": 300,
                "arguments_refused": 100},
    "assumptions": ["step sizes above the resolution of the time; y'=-1/y-like chattering, which shortens steps without "
                    "bound but makes progress, is not among the equations"],
}

META["C21"] = {
    "modes": {"py": 1, "py+perturb85": 1, "py+perturb170": 1, "jit": 2, "jit+perturb85+heap": 2, "jit+bounds": 2},
    "modes_thorough": {"py": 1, "py+perturb85": 1, "py+perturb170": 1, "jit": 2, "jit+perturb85+heap": 2, "jit+perturb170": 2,
                       "jit+bounds": 2},
    "finish": "memory_independent",
    "rule": "A case is one solver class and a deterministic script of 12 calls, run twice per process with the heap churned "
    "in between, in processes whose fresh memory is untouched, filled with one of two patterns, or bounds checked; all "
    "logs are compared bit by bit (bounds checked ones within rounding).",
    "require": {"logs_compared": 400, "operations_repeated": 5000, "sanitizer_workers": 5, "logs_compared_jit+bounds": 30,
                "logs_compared_jit+perturb85+heap": 30},
    "assumptions": ["negative indices wrap around in Python and numba alike; they are seen only through wrong results"],
}

META["C22"] = {
    "modes": {"py": 4, "jit": 4},
    "rule": "A case builds one solver from plain floats and one from equivalent representations of the same numbers "
    "(scalars, containers, dtypes, memory layouts, keyword or positional) and applies up to 7 calls, each with another "
    "representation of its arguments; results, their types and the state are compared bit by bit.",
    "require": {"operations_compared": 10000, "as_int": 500, "as_list": 500, "as_strided": 500, "as_readonly": 500,
                "as_range": 100, "as_zerod": 500, "events_as_single": 200, "events_as_tuple": 200},
}

META["C23"] = {
    "modes": {"py": 6},
    "rule": "A case is one solver on one random problem and up to 7 calls (steps, runs with 1-300 output times, events, "
    "interpolations); the evaluations of the user's functions during each call are counted and compared with the published "
    "cost of the steps made, found by a twin that only skips.",
    "require": {"operations_priced": 10000, "op_run": 3000, "op_events": 1500, "interpolations": 5000},
}

META["C24"] = {
    "modes": {"py": 4, "jit": 4},
    "rule": "A case repeats one kind of call with few and with many steps and compares the memory that stays allocated "
    "(tracemalloc, numba runtime statistics) or is needed meanwhile; or drops a used solver and checks by weak references "
    "and allocation counts that it, the equation and the events are gone.",
    "require": {"growth_checked": 400, "peaks_checked": 150, "releases_checked": 250},
    "assumptions": ["numba keeps compiled code for every equation by design; compiled cases share one equation"],
}

META["C25"] = {
    "modes": {"py": 4, "jit": 4},
    "rule": "A case is one solver class and one random equation with a known exact answer: a polynomial solution of at "
    "most the order of the method, linear first integrals hidden in a nonlinear system, an equilibrium, or a linear "
    "equation solved from two states and their combination. Everything a random mixture of calls returns is compared "
    "with the exact answer. Distinct by solver, equation and keywords.",
    "require": {"polynomial_cases": 500, "invariant_points": 5000, "rest_points": 2000, "superposed": 1000, "top_degree": 100},
}
