"""C08: interpolate is the published dense output of the step that contains the
time: cubic Hermite for fixed step methods, the pair's own interpolant for the
embedded pairs; exact at recorded points, no effect on the solver."""

import numpy as np

from .. import drive, ref
from ..problems import random_h, random_problem, random_t0
from .c05 import REPR


def case(name):
    def fn(ctx, rng):
        prob = random_problem(ctx, rng)
        t0, h = random_t0(rng), random_h(rng)
        kw = {}
        if name in ref.ADAPTIVE:
            kw = {"rtol": float(10 ** rng.uniform(-6, -2)), "atol": float(10 ** rng.uniform(-7, -3))}
            h = None if rng.random() < 0.5 else h
        elif name in ref.MULTISTEP and (ctx.jit or rng.random() < 0.4):
            kw["first_stepper_cls"] = None
        sol = drive.make(ctx, name, prob, t0, h, **kw)
        # Recorded path (t, y): starting values of a multistep solver and steps.
        if name in ref.MULTISTEP and "first_stepper_cls" not in kw and ref.START[name] > 1:
            T, Y, _ = drive.start_points(ctx, sol, name, t0, h, prob.f, True)
        else:
            T, Y = [t0], [np.array(sol.y)]
        what = lambda: f"{name} {prob} t0={t0!r} h={h!r} {kw} t={float(sol.t)!r}"

        def bad_times():
            now, lo = float(sol.t), t0
            for t in (now + 1e-9 * (1 + abs(now)), now + 1.0, lo - 1e-9 * (1 + abs(lo)), lo - 3.0, float("nan"), float("inf")):
                out = ctx.call("interpolate", sol.interpolate, t)
                ctx.check(out.raised(ValueError), "range", lambda: f"{what()}: interpolate({t!r}) gave {out!r}")
                ctx.seen("range_checks")

        for _ in range(int(rng.integers(1, 7))):
            before_steps = len(T)
            for _ in range(int(rng.integers(1, 4))):
                if rng.random() < 0.6:
                    ctx.must("step", sol.step)
                    T.append(float(sol.t))
                    Y.append(np.array(sol.y))
                else:
                    # several steps without any interpolation in between
                    ts, ys = drive.steps(ctx, sol, int(rng.integers(1, 4)))
                    T += [float(t) for t in ts]
                    Y += [np.array(y) for y in ys]
            if not np.max(np.abs(Y[-1])) <= 1e4:
                return
            before = drive.state(sol)
            # queries in the last step, at its ends, and in older recorded steps
            q = []
            for j in {len(T) - 2, max(len(T) - 3, 0), int(rng.integers(0, len(T) - 1))}:
                a, b = T[j], T[j + 1]
                q += [(j, a + x * (b - a)) for x in rng.uniform(0, 1, size=3)]
                q += [(j, b), (j, a), (j, a + 1e-3 * (b - a)), (j, b - 1e-3 * (b - a))]
            order = rng.permutation(len(q))
            dense = {}
            for k in order:
                j, t = q[k]
                t = float(t)
                out = ctx.call("interpolate", sol.interpolate, t)
                if not out.ok:
                    # Only older steps may have left the recorded history.
                    ctx.check(j < len(T) - 2 and out.raised(ValueError) and t < T[-2], "in-history",
                              lambda: f"{what()}: interpolate({t!r}) in step {j} of {len(T) - 1} gave {out!r}")
                    ctx.seen("left_history")
                    continue
                got = np.array(out.value)
                ctx.check(got.shape == (prob.n,), "shape", lambda: f"{what()}: interpolate returned shape {got.shape}")
                if t in T:
                    y = Y[T.index(t)]
                    ctx.check(drive.close(got, y, 1e-12 * (1 + np.abs(y))), "recorded-point",
                              lambda: f"{what()}: interpolate({t!r}) = {got}, the recorded state is {y}")
                    ctx.seen("recorded_points_checked")
                    continue
                if j not in dense:
                    a, ya, b, yb = T[j], Y[j], T[j + 1], Y[j + 1]
                    fa, fb = np.array(prob.f(a, ya)), np.array(prob.f(b, yb))
                    if name in ref.ADAPTIVE:
                        dense[j] = ref.ADAPTIVE[name].dense(prob.f, a, ya, fa, b, yb, fb)
                    else:
                        dense[j] = ref.hermite(a, ya, fa, b, yb, fb)
                want = dense[j](t)
                size = np.abs(Y[j]) + np.abs(Y[j + 1]) + (T[j + 1] - T[j]) * (1 + prob.lip * np.abs(Y[j]))
                tol = 1e-10 * (1 + size) + 1e-13 * abs(t0)
                ctx.check(drive.close(got, want, tol), "dense-output",
                          lambda: f"{what()}: interpolate({t!r}) in step {j} ([{T[j]!r}, {T[j + 1]!r}]) differs from the "
                          f"published dense output by {drive.maxdiff(got, want):.3g}", observed=got, expected=want)
                ctx.seen("dense_checked" if j == len(T) - 2 else "older_steps_checked")
            ctx.check(drive.same(before, drive.state(sol)), "side-effect", lambda: f"{what()}: interpolate changed the state")
            if rng.random() < 0.3:
                bad_times()
        ctx.distinct(name, prob.name, prob.n, round(t0, 6), len(T), str(prob.y0))
        ctx.sample(solver=name, problem=repr(prob), t0=t0, h=h, steps=len(T) - 1)

    return fn


def run(ctx):
    if ctx.jit:
        names = REPR if not ctx.thorough else REPR + [n for n in ref.ALL if n not in REPR]
        for name in ctx.mine(names):
            ctx.cases("jit-" + name, ctx.n(12, 150), case(name))
        return
    per = ctx.n(120, 6000)
    for name in ref.FIXED:
        ctx.cases("py-" + name, per // ctx.nshards, case(name), start=ctx.shard * 100000)
    for name in ref.ADAPTIVE:
        ctx.cases("py-" + name, 4 * per // ctx.nshards, case(name), start=ctx.shard * 100000)
