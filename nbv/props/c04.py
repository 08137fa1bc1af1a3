"""C04: the numbers are right end to end: convergence at the order of the method
and errors that follow the tolerances, at grid points and at arbitrary times."""

import numpy as np
from scipy.integrate import solve_ivp

from .. import drive, ref
from ..problems import random_problem

ORDER = {**{n: m.order for n, m in ref.RK_FIXED.items()}, **{n: m.order for n, m in ref.MULTISTEP.items()}}
KINDS = ("ring", "forced", "osc", "logistic", "linear", "tanh", "quad")


def truth(prob, t0, times):
    """Solution at sorted times (SciPy, tolerances far below those tested)."""
    times = np.asarray(times)
    r = solve_ivp(prob.f, (t0, times[-1]), prob.y0, method="DOP853", rtol=2.3e-14, atol=1e-14, t_eval=times)
    return r.y.T if r.success and r.y.shape[1] == times.size else None


def fixed_case(name):
    p = ORDER[name]

    def fn(ctx, rng):
        prob = random_problem(ctx, rng, kinds=KINDS)
        t0 = float(rng.choice([0.0, 1.0, -2.5, 30.0]))
        L = max(prob.lip, 1.0) if prob.name != "logistic" else 2.0
        span = float(rng.uniform(1.5, 3.0)) / min(L, 2.0)
        # Base step: small enough for the asymptotic regime, big enough that
        # the errors stay above rounding and the Newton tolerance.
        h0 = (2.0 if name in ref.IMPLICIT else 1.0) * {1: 0.04, 2: 0.06, 3: 0.08, 4: 0.1, 5: 0.12, 6: 0.12}[p] / L
        kw = {}
        if name in ref.MULTISTEP and ref.START[name] > 1:
            kw["first_stepper_cls"] = "RungeKutta4" if rng.random() < 0.5 else "Heun3"
        p_start = {"RungeKutta4": 5, "Heun3": 4}.get(kw.get("first_stepper_cls"), 9)
        k = ref.START.get(name, 1)
        n0 = max(int(span / h0), k + 8)
        span = n0 * h0
        # times common to all grids, after the start, and arbitrary times
        gj = np.unique(rng.integers(k, n0, size=6))
        grid_t = t0 + gj * h0
        free_t = np.sort(rng.uniform(t0 + k * h0, t0 + span * 0.98, size=8))
        tg, tf = truth(prob, t0, grid_t), truth(prob, t0, free_t)
        if tg is None or tf is None:
            ctx.seen("no_reference")
            return
        # The Newton iteration leaves up to 1.48e-8 per step.
        floor_ = 3e-8 * 4 * n0 if name in ref.IMPLICIT else 1e-12
        errs = []
        for r in (1, 2, 4):
            h = h0 / r
            sol = drive.make(ctx, name, prob, t0, h, **kw)
            ts, ys = ctx.must("step", sol.step, upto_t=t0 + span)
            idx = [int(np.argmin(np.abs(ts - t))) for t in grid_t]
            ctx.check(np.max(np.abs(ts[idx] - grid_t)) < 1e-9 * (1 + abs(t0)), "grid",
                      lambda: f"{name} h={h!r}: steps {ts[:4]} do not cover the grid {grid_t[:4]}")
            eg = float(np.max(np.abs(ys[idx] - tg)))
            sol2 = drive.make(ctx, name, prob, t0, h, **kw)
            _, yf = ctx.must("run", sol2.run, free_t)
            ef = float(np.max(np.abs(yf - tf)))
            errs.append((eg, ef))
        for which, q in ((0, min(p, p_start)), (1, min(p, p_start, 4))):
            e1, e2, e4 = (e[which] for e in errs)
            size = 1 + float(np.max(np.abs(tg)))
            # Two halvings of h: at least 2^(q-0.7) each, down to the floor.
            # (At arbitrary times the position within the step changes with h
            # and the errors of method and interpolant may cancel.)
            slack = 3 if which == 0 else 12
            bound = slack * max(e1, e2 * 2 ** (q - 0.7)) * 2 ** (-2 * (q - 0.7)) + floor_ * size
            ctx.check(e4 <= bound, "order",
                      lambda: f"{name} (order {p}) {prob} t0={t0} h={h0:.4g}, /2, /4 ({'grid' if which == 0 else 'run'}): "
                      f"errors {e1:.3g} {e2:.3g} {e4:.3g} do not fall like h^{q}", start=kw)
            ctx.check(e1 <= 2.0 * size, "size", lambda: f"{name} {prob}: error {e1:.3g}")
            if e4 > 10 * floor_ * size:
                ctx.seen("orders_resolved")
        ctx.seen("order_checks", 2)
        ctx.distinct(name, prob.name, prob.n, t0, str(prob.y0))
        ctx.sample(solver=name, problem=repr(prob), h=h0, errors_grid=[e[0] for e in errs], errors_run=[e[1] for e in errs])

    return fn


def default_start_case(name):
    """A multistep method left to find its own starting points, with steps
    so big that a starter of low order would show."""

    def fn(ctx, rng):
        prob = random_problem(ctx, rng, kinds=KINDS)
        t0 = float(rng.choice([0.0, 1.0, -2.5, 30.0]))
        L = max(prob.lip, 1.0) if prob.name != "logistic" else 2.0
        h = float(rng.uniform(0.15, 0.45)) / L
        sol = drive.make(ctx, name, prob, t0, h)
        ts, ys, _ = drive.start_points(ctx, sol, name, t0, h, prob.f)
        tr = truth(prob, t0, ts[1:])
        if tr is None:
            ctx.seen("no_reference")
            return
        size = max(1.0, float(np.max(np.abs(tr))), float(np.max(np.abs(prob.y0))))
        err = float(np.max(np.abs(np.array(ys[1:]) - tr)))
        # The default starter controls its error to 1e-3 relative per step.
        ctx.check(err <= 3e-2 * size, "starting-points",
                  lambda: f"{name} {prob} t0={t0} h={h:.4g}: the starting points are off by {err:.3g}")
        ctx.seen("starting_points_checked", len(ts) - 1)
        ctx.distinct("start", name, prob.name, prob.n, t0, str(prob.y0))
        ctx.sample(solver=name, problem=repr(prob), h=h, starting_error=err)

    return fn


def adaptive_case(name):
    def fn(ctx, rng):
        prob = random_problem(ctx, rng, kinds=KINDS)
        t0 = float(rng.choice([0.0, 1.0, -2.5, 30.0]))
        L = max(prob.lip, 0.5) if prob.name != "logistic" else 2.0
        span = float(rng.uniform(1.0, 4.0)) / min(L, 2.0)
        times = np.sort(rng.uniform(t0, t0 + span, size=10))
        tr = truth(prob, t0, times)
        if tr is None:
            ctx.seen("no_reference")
            return
        size = float(np.max(np.abs(tr))) + float(np.max(np.abs(prob.y0)))
        errs = []
        for rtol in (1e-3, 1e-5, 1e-7):
            atol = rtol * 1e-2
            sol = drive.make(ctx, name, prob, t0, rtol=rtol, atol=atol)
            _, ys = ctx.must("run", sol.run, times)
            ctx.check(ys.shape == tr.shape, "shape", lambda: f"{name}: run returned {ys.shape}")
            e = float(np.max(np.abs(ys - tr)))
            errs.append(e)
            amp = np.exp(min(prob.lip if prob.name != "logistic" else 1.5, 3) * span)
            # dense output of DOP853 (order 7) and RK45 (order 4) steps with few, large steps
            bound = 60 * (atol + rtol * size) * amp
            ctx.check(e <= bound, "tolerance",
                      lambda: f"{name} {prob} t0={t0} rtol={rtol}: error {e:.3g} > {bound:.3g} at arbitrary times")
            ctx.seen("tolerance_checks")
        ctx.distinct(name, prob.name, prob.n, t0, str(prob.y0))
        ctx.sample(solver=name, problem=repr(prob), rtols=[1e-3, 1e-5, 1e-7], errors=errs)

    return fn


def run(ctx):
    if ctx.jit:
        for name in ctx.mine(["RungeKutta45", "BDF3", "AdamsBashforth4", "DOP853", "RungeKutta23", "Heun3"]):
            f = adaptive_case(name) if name in ref.ADAPTIVE else fixed_case(name)
            ctx.cases("jit-" + name, ctx.n(4, 60), f)
        return
    per = ctx.n(20, 1000)
    for name in ref.FIXED:
        ctx.cases("py-" + name, per // ctx.nshards, fixed_case(name), start=ctx.shard * 100000)
    per = ctx.n(48, 2000)
    for name in ref.MULTISTEP:
        if ref.START[name] > 1:
            ctx.cases("py-start-" + name, per // ctx.nshards, default_start_case(name), start=ctx.shard * 100000)
    per = ctx.n(200, 8000)
    for name in ref.ADAPTIVE:
        ctx.cases("py-" + name, per // ctx.nshards, adaptive_case(name), start=ctx.shard * 100000)
