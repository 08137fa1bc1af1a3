"""C09: each zero crossing over a step is reported exactly once, in the asked
direction, at an accurate time, with the solution there."""

import numpy as np

from .. import drive, evmodel, ref
from .c05 import REPR


def check_event_rows(ctx, what, m, g, amp, expected, t_e, y_e):
    """Match reported events of one kind with the expected steps, in order."""
    tw = m.tw
    T, C = 1 / m.prob.w, m.prob.c
    ctx.check(len(t_e) == len(y_e), "lengths", lambda: f"{what()}: {len(t_e)} times, {len(y_e)} states")
    ctx.check(len(t_e) == len(expected), "count",
              lambda: f"{what()}: reported at {list(map(float, t_e))}; the sign changes over the steps "
              f"{[(tw.t[i], tw.t[i + 1]) for i, _ in expected]}")
    for (i, exact), t, y in zip(expected, t_e, y_e):
        t, y = float(t), np.array(y)
        a, b = tw.t[i], tw.t[i + 1]
        slack = 1e-12 * (T + abs(a))
        ctx.check(a - slack <= t <= b + slack, "outside-step", lambda: f"{what()}: event at {t!r}, expected in [{a!r}, {b!r}]")
        if exact is not None:
            ctx.check(abs(t - exact) <= slack, "exact-zero", lambda: f"{what()}: event at {t!r}, zero at the step time {exact!r}")
            ctx.seen("grid_zeros_checked")
        u = m.dense(i)(min(max(t, a), b))
        ctx.check(drive.close(y, u, 1e-9 * (C + np.abs(u) + np.abs(tw.y[i]) + np.abs(tw.y[i + 1])) + 1e-12 * abs(a) / T * C), "event-state",
                  lambda: f"{what()}: state {y} at the event t={t!r}; the solution there is {u}")
        ga, gb = abs(g(a, tw.y[i])), abs(g(b, tw.y[i + 1]))
        tol = 1e-9 * max(ga, gb) + amp * 1e-11 * (1 + abs(t) / T)
        ctx.check(abs(g(t, y)) <= tol, "root-accuracy",
                  lambda: f"{what()}: |event| = {abs(g(t, y)):.3g} at the reported root t={t!r} (allowed {tol:.3g}, "
                  f"step [{a!r}, {b!r}] with values {ga:.3g}, {gb:.3g})")
        ctx.seen("events_checked")
    ctx.check(all(float(x) < float(y) for x, y in zip(t_e, t_e[1:])), "order", lambda: f"{what()}: {t_e}")


def case(name, uncompiled=0.0):
    def fn(ctx, rng):
        many = rng.random() < (0.05 if ctx.jit else 0.015)
        prob, t0, h, kw, sol, tw, nat = evmodel.setup(ctx, rng, name, many=many)
        if not np.max(np.abs(tw.y)) <= 1e4 * prob.c:
            return
        m = evmodel.Model(ctx, name, prob, tw)
        k = int(rng.integers(1, 4)) if ctx.jit or rng.random() < 0.96 else int(rng.integers(4, 13))
        i = 0
        calls = int(rng.integers(1, 4))
        plain = drive.make(ctx, name, prob, t0, h, **kw)
        for c in range(calls):
            evs = evmodel.make_events(ctx, rng, prob, k, tw, nat, plain=uncompiled, often=many)
            hi = tw.t[nat] if c == calls - 1 else float(rng.uniform(tw.t[i], tw.t[nat]))
            if hi <= tw.t[i]:
                continue
            times = np.sort(np.append(rng.uniform(tw.t[i], hi, size=int(rng.integers(0, 5))), hi))
            if rng.random() < 0.3:
                times = rng.permutation(times)
            j = tw.reach(i, hi)
            calls_before = [getattr(e[0], "calls", 0) for e in evs]
            ts, ys, te, ye = evmodel.call_events(ctx, sol, times, evs, rng)
            what = lambda: f"{name} {prob} t0={t0!r} h={h!r} {kw} call {c}: run_events({times}) from t={tw.t[i]!r}"
            ctx.check(len(te) == len(ye) == k, "per-event-lists", lambda: f"{what()}: {len(te)} lists for {k} events")
            # The output rows are those of run.
            pt, py = ctx.must("run", plain.run, times)
            ctx.check(drive.same(ts, times) and drive.close(ys, py, 1e-9 * (prob.c + np.abs(py))), "rows",
                      lambda: f"{what()}: rows differ from run: {ts}, {drive.maxdiff(ys, py)}")
            ctx.check(abs(float(sol.t) - tw.t[j]) <= 1e-11 * (1 / prob.w + abs(tw.t[j])), "stop",
                      lambda: f"{what()}: stopped at {float(sol.t)!r}, expected {tw.t[j]!r}")
            for e, (obj, g, amp, d, term) in enumerate(evs):
                exp = m.expected(g, d, i, j)
                if any(np.isnan(g(tw.t[q], tw.y[q])) for q in range(i, j + 1)):
                    continue
                w = lambda: what() + f" event {e} direction {d}"
                check_event_rows(ctx, w, m, g, amp, exp, te[e], ye[e])
                if len(exp) >= 60:
                    ctx.seen("lists_of_60_events_and_more")
                ctx.seen(f"direction_{int(d)}")
                ctx.seen("steps_without_event", (j - i) - len(exp))
            i = j
        ctx.distinct(name, prob.name, prob.n, k, calls, str(prob.y0))
        ctx.sample(solver=name, problem=repr(prob), t0=t0, h=h, events=k, t_events=[[float(x) for x in q] for q in te] if c or calls == 1 else [])

    return fn


def none_case(name):
    def fn(ctx, rng):
        prob, t0, h, kw, sol, tw, nat = evmodel.setup(ctx, rng, name)
        plain = drive.make(ctx, name, prob, t0, h, **kw)
        times = np.sort(rng.uniform(t0, tw.t[nat], size=4))
        ts, ys, te, ye = ctx.must("run_events", sol.run_events, times, None if rng.random() < 0.5 else [])
        pt, py = ctx.must("run", plain.run, times)
        ctx.check(list(te) == [] and list(ye) == [], "no-events", lambda: f"{name}: {te} {ye}")
        ctx.check(drive.same(ts, pt) and drive.same(ys, py), "rows", lambda: f"{name}: run_events without events differs from run")

    return fn


def run(ctx):
    if ctx.jit:
        names = ["RungeKutta45", "RungeKutta4", "DOP853", "AdamsMoulton3", "RungeKutta23", "AdamsBashforth3", "BDF2"]
        names = names[:5] if not ctx.thorough else names + [n for n in ref.ALL if n not in names]
        for name in ctx.mine(names):
            ctx.cases("jit-" + name, ctx.n(20, 200), case(name))
            if name in ("RungeKutta4", "RungeKutta45"):
                ctx.cases("jit-plain-" + name, ctx.n(4, 40), case(name, uncompiled=1.0))
        return
    per = ctx.n(200, 10000)
    for name in ref.ALL:
        ctx.cases("py-" + name, per // ctx.nshards, case(name), start=ctx.shard * 100000)
        ctx.cases("none-" + name, ctx.n(4, 40) // ctx.nshards, none_case(name), start=ctx.shard * 100000)
