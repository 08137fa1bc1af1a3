"""C02: a multistep solver starts from k values on the grid t0, t0+h, ... that
the chosen one step solver produces."""

import warnings

import numpy as np

from .. import drive, ref
from ..problems import cls_of, random_h, random_problem, random_t0
from .c15 import recase

MULTI = [n for n in ref.MULTISTEP if ref.START[n] > 1]
ONE_STEP_FIXED = list(ref.RK_FIXED) + ["ForwardEuler", "BackwardEuler", "AdamsBashforth1", "AdamsMoulton1",
                                       "AdamsMoulton2", "BDF1"]


def starter(ctx, rng):
    """(argument for first_stepper_cls or absent, name of the class it means)"""
    if ctx.jit:
        return ("RungeKutta45", "RungeKutta45") if rng.random() < 0.5 else ({}, "RungeKutta45")
    u = rng.random()
    if u < 0.35:
        return {}, "RungeKutta45"
    if u < 0.45:
        return "auto", "RungeKutta45"
    name = str(rng.choice(list(ref.ADAPTIVE) + ONE_STEP_FIXED))
    u = rng.random()
    if u < 0.3:
        return name, name
    if u < 0.5:  # names are found in any casing, and aliases too
        if name == "ForwardEuler" and rng.random() < 0.5:
            return recase(rng, "Euler"), name
        return recase(rng, name), name
    return cls_of(name), name


def case(name):
    def fn(ctx, rng):
        prob = random_problem(ctx, rng)
        t0, h = random_t0(rng), random_h(rng)
        k = ref.START[name]
        arg, sname = starter(ctx, rng)
        kw = {} if arg == {} else {"first_stepper_cls": arg}
        bound = rng.random()
        span = (k - 1) * h
        if bound < 0.2:
            # t_bound before the last starting point: cannot be built.
            kw["t_bound"] = t0 + span * float(rng.uniform(0.0, 0.97))
            out = ctx.call(f"new {name}", cls_of(name), prob.rhs, t0, prob.y0, h=h, **kw)
            ctx.check(out.raised(ValueError), "start-beyond-bound",
                      lambda: f"{name} h={h!r} t0={t0!r} t_bound={kw['t_bound']!r}: starting values reach {t0 + span!r}; got {out!r}")
            ctx.seen("start_beyond_bound")
            ctx.distinct(name, sname, "bound", round(t0, 6), round(h, 9))
            return
        if bound < 0.4:
            kw["t_bound"] = t0 + span * float(rng.uniform(1.03, 1.4)) + 1e-9 * abs(t0)
        sol = drive.make(ctx, name, prob, t0, h, **kw)
        eps_t = 1e-14 * (abs(t0) + k * h) * 4
        ctx.check(abs(float(sol.t) - (t0 + span)) <= eps_t, "start-time",
                  lambda: f"{name} h={h!r} t0={t0!r} ({sname}): starts at {float(sol.t)!r}, not t0 + {k - 1} h = {t0 + span!r}")
        # What the one step solver does alone, from the same initial state.
        grid = [t0 + j * h for j in range(1, k)]
        if sname in ref.ADAPTIVE:
            twin = drive.make(ctx, sname, prob, t0)
            tt, ty = ctx.must("run", twin.run, np.array(grid))
            ctx.check(len(tt) == len(grid), "starter-run", "the starter did not reach the starting points")
        else:
            twin = drive.make(ctx, sname, prob, t0, h)
            tt, ty = drive.steps(ctx, twin, k - 1)
        want = [np.array(prob.y0)] + [np.array(v) for v in ty]
        times = [t0] + [float(x) for x in tt]
        for j in range(k):
            t = float(sol.t) if j == k - 1 else times[j]
            got = np.array(sol.y) if j == k - 1 else np.array(ctx.must("interpolate", sol.interpolate, t))
            tol = 1e-10 * (1 + np.abs(want[j]))
            ctx.check(drive.close(got, want[j], tol), "start-value",
                      lambda: f"{name} {prob} h={h!r} t0={t0!r}: starting value {j} of {k} at t={t!r} is {got}, "
                      f"{sname} gives {want[j]}")
            ctx.seen("start_values_checked")
        # Nothing before t0 is on record.
        before = ctx.call("interpolate", sol.interpolate, t0 - 0.5 * h)
        ctx.check(before.raised(ValueError), "before-start", lambda: f"{name}: interpolate before t0: {before!r}")
        # The first own step uses exactly that history.
        if kw.get("t_bound") is None and rng.random() < 0.7:
            from .c01 import check_step

            fs = [np.array(prob.f(a, b), dtype=float) for a, b in zip(times, want)]
            t1, y1 = ctx.must("step", sol.step)
            check_step(ctx, name, prob, h, times, want, fs, float(np.ravel(t1)[0]), np.ravel(np.array(y1)))
            ctx.seen("first_steps_checked")
        ctx.distinct(name, sname, prob.name, prob.n, round(t0, 6), round(h, 9))
        ctx.sample(solver=name, starter=sname, t0=t0, h=h, start_t=float(sol.t), start_y=np.array(sol.y))

    return fn


def run(ctx):
    if ctx.jit:
        for name in ctx.mine(MULTI):
            ctx.cases("jit-" + name, ctx.n(6, 40), case(name))
    else:
        per = ctx.n(420, 16000)
        for name in MULTI:
            ctx.cases("py-" + name, per // ctx.nshards, case(name), start=ctx.shard * 100000)
