"""C23: what a call costs.

Counters in the user's functions (interpreted mode) are compared with the
published cost of the method: stages per attempt, one evaluation per explicit
multistep step, a bounded number of Newton iterations, nothing for requesting
more output."""

import numpy as np

from .. import drive, evmodel, ref
from ..problems import Counted, cls_of, random_problem, random_t0
from .c03 import DEFAULTS, replay

# Evaluations per attempted step, the new f included (first same as last).
STAGES = {"ForwardEuler": 1, "Runge2": 2, "Runge3": 4, "Heun3": 3, "RungeKutta4": 4, "RungeKutta3_8": 4,
          "RungeKutta23": 3, "RungeKutta45": 6, "DOP853": 12}
DENSE = {"DOP853": 3}


def price(name, n):
    """Largest cost of one accepted fixed step."""
    if name in STAGES:
        return STAGES[name]
    if name in ref.IMPLICIT:
        # Finite difference Jacobian (n + 1) per iteration; quadratic
        # convergence from the last state needs 2-5 iterations here.
        return 9 * (n + 2) + 2
    return 1


def build(ctx, rng, name, prob, c, t0):
    kw = {}
    if name in ref.ADAPTIVE:
        kw = {"rtol": float(10 ** rng.uniform(-7, -2)), "atol": float(10 ** rng.uniform(-8, -3))}
        if rng.random() < 0.5:
            kw["first_step"] = float(10 ** rng.uniform(-3, 0.3))
    else:
        h = float(np.exp(rng.uniform(np.log(0.005), np.log(0.2))))
        kw["h"] = min(h, 0.3 / (1 + prob.lip)) if name in ref.IMPLICIT else h
        if name in ref.MULTISTEP:
            kw["first_stepper_cls"] = [None, "RungeKutta4", "ForwardEuler"][int(rng.integers(0, 3))]
    return ctx.must(f"new {name}", cls_of(name), c, t0, prob.y0, **kw), kw


def case(name):
    def fn(ctx, rng):
        prob = random_problem(ctx, rng)
        t0 = random_t0(rng)
        c = Counted(prob.f)
        state0 = rng.bit_generator.state
        sol, kw = build(ctx, rng, name, prob, c, t0)
        made = c.n
        most = {None: 1, "RungeKutta4": 1 + ref_start(name) * 5 + 1, "ForwardEuler": 1 + ref_start(name) * 2 + 1}[
            kw.get("first_stepper_cls")] + (1 + DENSE.get(name, 0) if name in ref.ADAPTIVE else 0)
        what = lambda: f"{name} {prob} t0={t0!r} {kw}"
        ctx.check(made <= most, "construction-cost", lambda: f"{what()}: {made} evaluations to build, at most {most} expected")
        # A second solver, in the same state, that only skips.
        rng2 = np.random.default_rng(0)
        rng2.bit_generator.state = state0
        c2 = Counted(prob.f)
        twin, _ = build(ctx, rng2, name, prob, c2, t0)
        full = {**DEFAULTS, **kw}
        last = 0.0  # length of the last step
        for _ in range(int(rng.integers(3, 8))):
            if not np.max(np.abs(sol.y)) < 100:
                break
            t, y, f, h = drive.state(sol)
            op = str(rng.choice(["step", "stepn", "run", "run", "events", "interp"]))
            c.n = c2.n = 0
            count = g = None
            if op == "interp":
                ts = float(sol.t) - rng.uniform(0, 1, size=int(rng.integers(1, 30))) * last
                for x in ts:
                    ctx.must(op, sol.interpolate, float(min(max(x, t - last), t)))
                ctx.check(c.n <= DENSE.get(name, 0), "interpolation-cost",
                          lambda: f"{what()}: {c.n} evaluations for {len(ts)} interpolations in one step")
                ctx.seen("interpolations", len(ts))
                continue
            if op == "step":
                ctx.must(op, sol.step)
                count = 1
            elif op == "stepn":
                count = int(rng.integers(1, 8))
                ctx.must(op, sol.step, n=count)
            else:
                m = int(rng.choice([1, 3, 30, 300]))
                ts = np.sort(t + rng.uniform(0.01, 6.0, size=m) * h)
                if op == "run":
                    ctx.must(op, sol.run, ts)
                else:
                    g = Counted(lambda t, y: np.sin(4.0 * t + 0.4) + 0.3 * y[0])
                    r = ctx.must(op, sol.run_events, ts, [g])
            # How many steps that was, and what they cost at least.
            steps = attempts = 0
            crossings = 0
            prev = None
            while float(twin.t) < float(sol.t) - 1e-12 * (1 + abs(t)):
                tt, ty, tf, th = drive.state(twin)
                if name in ref.ADAPTIVE:
                    cands = list(replay(ref.ADAPTIVE[name], prob.f, tt, ty, np.array(prob.f(tt, ty), dtype=float), th, full, [], prob.lip))
                    attempts += 1 + max([x[3] for x in cands], default=60)
                if g is not None:
                    v0 = g.f(tt, ty)
                ctx.must("twin", twin.skip)
                if g is not None and v0 * g.f(float(twin.t), np.array(twin.y)) <= 0:
                    crossings += 1
                steps += 1
                ctx.check(steps < 100000, "twin", "the twin does not reach the solver")
            last = float(twin.t) - tt if steps else last
            if count is not None:
                ctx.check(steps == count, "twin", lambda: f"{what()}: {steps} steps instead of {count}")
            if name in ref.ADAPTIVE:
                limit = attempts * STAGES[name]
            else:
                limit = steps * price(name, prob.n)
            n, n2 = c.n, c2.n
            ctx.check(n2 <= limit, "step-cost",
                      lambda: f"{what()} from t={t!r}: {n2} evaluations for {steps} steps ({attempts} attempts), at most {limit} expected")
            dense = DENSE.get(name, 0) * steps if op in ("run", "events") else 0
            ctx.check(n <= n2 + dense, "output-cost",
                      lambda: f"{what()} from t={t!r}: {op} needs {n} evaluations for {steps} steps, skip {n2}")
            if g is not None:
                # one per step, and a root search (to rounding: below 60 halvings) per sign change
                most = steps + 2 + 70 * crossings
                ctx.check(g.n <= most, "event-cost",
                          lambda: f"{what()} from t={t!r}: event called {g.n} times in {steps} steps with {crossings} sign changes")
                ctx.seen("event_calls", g.n)
            ctx.seen("operations_priced")
            ctx.seen("steps_priced", steps)
            ctx.seen("evaluations_counted", n)
            ctx.seen("op_" + op)
        ctx.distinct(name, prob.name, prob.n, round(t0, 6), sorted(map(str, kw.items())))
        ctx.sample(solver=name, problem=repr(prob), options=str(kw), evaluations_to_build=made)

    return fn


def ref_start(name):
    return ref.START.get(name, 1) - 1


def run(ctx):
    per = ctx.n(300, 10000)
    for name in ref.ALL:
        ctx.cases("py-" + name, per // ctx.nshards, case(name), start=ctx.shard * 100000)
