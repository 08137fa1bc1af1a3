"""C01: every step of a fixed step solver is one step of its published formula."""

import numpy as np

from .. import drive, ref
from ..problems import Problem, random_h, random_problem, random_t0

JIT_ROTATION = ref.FIXED


def check_step(ctx, name, prob, h, hist_t, hist_y, hist_f, t1, y1):
    t, y, f = hist_t[-1], hist_y[-1], hist_f[-1]
    ctx.check(abs(t1 - (t + h)) <= 4e-16 * (abs(t) + abs(t1)) + 1e-14 * h, "time-advance",
              lambda: f"{name}: step from t={t!r} with h={h!r} ended at {t1!r}")
    if name in ref.RK_FIXED:
        want, K = ref.RK_FIXED[name].step(prob.f, t, y, f, h)
        scale = np.abs(y) + h * np.max(np.abs(K), axis=0)
        tol = 3e-12 * (1 + scale)
        ctx.check(drive.close(y1, want, tol), "explicit-step",
                  lambda: f"{name} {prob} h={h!r} t={t!r}: step differs from the published formula by {drive.maxdiff(y1, want):.3g}",
                  observed=y1, expected=want)
        ctx.seen("rk_steps_checked")
        return
    m = ref.MULTISTEP[name]
    known, scale = m.known(h, hist_y, hist_f), m.scale(h, hist_y, hist_f)
    if not m.implicit:
        tol = 3e-12 * (1 + scale)
        ctx.check(drive.close(y1, known, tol), "explicit-multistep",
                  lambda: f"{name} {prob} h={h!r} t={t!r}: step differs from the published formula by {drive.maxdiff(y1, known):.3g}",
                  observed=y1, expected=known)
        ctx.seen("explicit_multistep_steps_checked")
    else:
        res = y1 - h * m.beta_new * prob.f(t1, y1) - known
        norm = float(np.linalg.norm(res))
        L = 1 + h * m.beta_new * prob.lip * max(1.0, float(np.max(np.abs(y1))))
        tol = 3e-8 * L + 1e-10 * float(np.linalg.norm(scale))
        ctx.check(norm <= tol, "implicit-residual",
                  lambda: f"{name} {prob} h={h!r} t={t!r}: the new point leaves a residual {norm:.3g} > {tol:.3g} in the published equation",
                  observed=y1, residual=res)
        ctx.seen("implicit_steps_checked")


def case(name):
    def fn(ctx, rng):
        prob = random_problem(ctx, rng, kinds=None)
        t0, h = random_t0(rng), random_h(rng)
        if prob.name == "stiff":
            h = min(h, 0.05)
        nsteps = int(rng.integers(3, 14))
        kw = {}
        start = True
        if name in ref.MULTISTEP and rng.random() < 0.3:
            kw["first_stepper_cls"] = None
            start = False
        if ctx.jit and name in ref.MULTISTEP:
            # Compiling the starter costs more than everything else.
            kw["first_stepper_cls"] = None
            start = False
        sol = drive.make(ctx, name, prob, t0, h, **kw)
        if name in ref.MULTISTEP:
            k = ref.START[name]
            want_t = t0 + (k - 1) * h if start else t0
            ctx.check(abs(float(sol.t) - want_t) <= 1e-14 * (abs(t0) + k * h) * 4, "start-time",
                      lambda: f"{name}: starts at {sol.t!r}, not {want_t!r}")
            ht, hy, hf = drive.start_points(ctx, sol, name, t0, h, prob.f, start)
        else:
            ctx.check(float(sol.t) == t0, "start-time", lambda: f"{name}: starts at {sol.t!r}, not {t0!r}")
            ht, hy, hf = [t0], [np.array(sol.y)], [np.array(prob.f(t0, sol.y))]
        ctx.check(start and name in ref.MULTISTEP and ref.START[name] > 1 or drive.same(sol.y, prob.y0),
                  "start-state", lambda: f"{name}: y={sol.y} instead of y0={prob.y0}")
        if rng.random() < 0.5 or ctx.jit:
            ts, ys = drive.steps(ctx, sol, nsteps)
        else:
            ts, ys = [], []
            for _ in range(nsteps):
                t, y = ctx.must("step", sol.step)
                ts.append(float(np.ravel(t)[0]))
                ys.append(np.ravel(np.array(y)))
            ctx.seen("steps", nsteps)
        for t1, y1 in zip(ts, ys):
            t1, y1 = float(t1), np.array(y1)
            if not np.all(np.isfinite(y1)) or np.max(np.abs(y1)) > 1e6:
                ctx.check(np.max(np.abs(hy[-1])) > 1e3, "blow-up",
                          lambda: f"{name} {prob} h={h!r}: {hy[-1]} -> {y1}")
                ctx.seen("unstable_cases")
                break
            check_step(ctx, name, prob, h, ht, hy, hf, t1, y1)
            ht.append(t1)
            hy.append(y1)
            hf.append(np.array(prob.f(t1, y1), dtype=float))
        ctx.distinct(name, prob.name, prob.n, start, round(t0, 6), round(h, 9))
        ctx.sample(solver=name, problem=repr(prob), t0=t0, h=h, nsteps=nsteps, start=start,
                   t_end=float(sol.t), y_end=np.array(sol.y))

    return fn


def moving_case(name):
    """Fast motion of some components, from nothing: metres per second of light."""

    def fn(ctx, rng):
        n = int(rng.integers(1, 6))
        v = 10.0 ** rng.uniform(0, 9 if n == 1 else 11) * rng.normal(size=n) * (rng.random(n) < 0.7)
        M = rng.normal(size=(n, n)) * 0.5 * (rng.random((n, n)) < 0.6)
        y0 = rng.normal(size=n) * (rng.random(n) < 0.5) * 10.0 ** rng.integers(-3, 6)
        f = lambda t, y: v + M @ y + 0.3 * np.sin(y + t)
        prob = Problem("moving", n, f, float(np.linalg.norm(M, 2)) + 0.3, y0)
        t0, h = random_t0(rng), random_h(rng)
        kw = {"first_stepper_cls": None} if name in ref.MULTISTEP else {}
        sol = drive.make(ctx, name, prob, t0, h, **kw)
        if name in ref.MULTISTEP:
            ht, hy, hf = drive.start_points(ctx, sol, name, t0, h, prob.f, False)
        else:
            ht, hy, hf = [t0], [np.array(sol.y)], [np.array(prob.f(t0, sol.y))]
        for _ in range(4):
            ctx.must(f"step {v} {M.tolist()} {y0}", sol.step)
            t1, y1 = float(sol.t), np.array(sol.y)
            check_step(ctx, name, prob, h, ht, hy, hf, t1, y1)
            ht.append(t1)
            hy.append(y1)
            hf.append(np.array(prob.f(t1, y1)))
        ctx.seen("moving_cases")
        ctx.distinct("moving", name, str(v))

    return fn


def run(ctx):
    names = ref.FIXED
    if ctx.jit:
        for name in ctx.mine(names):
            ctx.cases("jit-" + name, ctx.n(4, 30), case(name))
    else:
        per = ctx.n(480, 24000)
        for i, name in enumerate(names):
            ctx.cases("py-" + name, per // ctx.nshards, case(name), start=ctx.shard * 100000)
            ctx.cases("moving-" + name, ctx.n(48, 2400) // ctx.nshards, moving_case(name), start=ctx.shard * 100000)
