"""C07: run returns one row per requested time, in the requested order, with a
value that depends on the time only (not on order, grouping or history)."""

import numpy as np

from .. import drive, ref
from ..problems import change_units, random_h, random_problem, random_t0
from .c05 import REPR, Track


def case(name):
    def fn(ctx, rng):
        prob = random_problem(ctx, rng)
        t0, h = random_t0(rng), random_h(rng)
        kw = {}
        if name in ref.ADAPTIVE:
            kw = {"rtol": float(10 ** rng.uniform(-7, -2)), "atol": float(10 ** rng.uniform(-8, -3))}
            h = None if rng.random() < 0.5 else h
        elif name in ref.MULTISTEP and (ctx.jit or rng.random() < 0.4):
            kw["first_stepper_cls"] = None
        prob, t0, h, kw = change_units(ctx, rng, name, prob, t0, h, kw)
        w, c = prob.w, prob.c
        if w != 1.0 or c != 1.0:
            ctx.seen("other_units")
        sol = drive.make(ctx, name, prob, t0, h, **kw)
        twin = drive.make(ctx, name, prob, t0, h, **kw)
        tw = Track(ctx, drive.make(ctx, name, prob, t0, h, **kw))
        nat = int(rng.integers(2, 14))
        tw.upto(nat)
        if not np.max(np.abs(tw.y)) <= 1e4 * c:
            return
        t_end = tw.t[nat]
        start = float(sol.t)
        # Value by time, from a twin that is asked once per step, in order.
        pool = list(rng.uniform(t0, t_end, size=int(rng.integers(1, 12))))
        if rng.random() < 0.02:
            pool += list(rng.uniform(t0, t_end, size=int(rng.choice([130, 300, 1100]))))
            ctx.seen("long_requests")
        pool += [tw.t[j] for j in rng.integers(0, nat + 1, size=2)]
        if rng.random() < 0.4:
            pool.append(t0)
        if rng.random() < 0.4:
            pool.append(start)
        pool = sorted(set(float(x) for x in pool if x >= t0))
        value = {}
        for t in pool:
            while float(twin.t) < t:
                ctx.must("twin step", twin.step)
            value[t] = np.array(ctx.must("twin interpolate", twin.interpolate, t))
        # Ask in groups: each group may go back as far as the history allows.
        later = list(pool)
        groups = []
        while later:
            k = int(rng.integers(1, len(later) + 1))
            g, later = later[:k], later[k:]
            groups.append(list(g))
        oldest = t0
        done = []
        for g in groups:
            # Repetitions, earlier times that are still within the recorded
            # history (one step back is always recorded), any order.
            t_now = float(sol.t)
            back = [t for t in done if t >= oldest_recorded(tw, t_now, w)]
            if back and rng.random() < 0.5:
                g = g + [float(x) for x in rng.choice(back, size=min(2, len(back)))]
                ctx.seen("history_requests")
            if rng.random() < 0.4:
                g = g + [float(rng.choice(g))]
                ctx.seen("duplicates")
            style = str(rng.choice(["sorted", "reversed", "shuffled"]))
            g = sorted(g)
            if style == "reversed":
                g = g[::-1]
            elif style == "shuffled":
                g = [float(x) for x in rng.permutation(g)]
            arg = np.array(g)
            u = rng.random()
            if len(g) == 1 and u < 0.5:
                arg = g[0]
            elif u < 0.3:
                arg = list(g)
            elif u < 0.4:
                arg = tuple(g)
            elif u < 0.5:
                arg = np.repeat(np.array(g), 2)[::2]  # not contiguous
            ts, ys = ctx.must("run", sol.run, arg)
            what = lambda: f"{name} {prob} t0={t0!r} h={h!r} {kw} groups={groups}: run({arg!r})"
            ctx.check(np.shape(ts) == (len(g),) and np.shape(ys) == (len(g), prob.n), "rows",
                      lambda: f"{what()} returned shapes {np.shape(ts)}, {np.shape(ys)}")
            ctx.check(drive.same(ts, np.array(g)), "times", lambda: f"{what()} returned times {ts}")
            for t, y in zip(g, ys):
                tol = 1e-9 * (c + np.abs(value[t]))
                ctx.check(drive.close(y, value[t], tol), "value",
                          lambda: f"{what()}: at t={t!r} got {y}, stepping and interpolating there gives {value[t]}")
                ctx.seen("values_checked")
                if t in tw.t and t >= start:
                    ctx.check(drive.close(y, tw.y[tw.t.index(t)], 1e-9 * (c + np.abs(y))), "grid-value",
                              lambda: f"{what()}: at the step time t={t!r} got {y}, the step is {tw.y[tw.t.index(t)]}")
                    ctx.seen("grid_values_checked")
            ctx.seen("style_" + style)
            done += g
        ctx.distinct(name, prob.name, prob.n, round(t0, 6), len(pool), len(groups), str(prob.y0))
        ctx.sample(solver=name, problem=repr(prob), t0=t0, h=h, groups=groups, t_end=float(sol.t))

    return fn


def oldest_recorded(tw, t_now, w=1.0):
    """One step back from the position at time t_now is on record."""
    j = max(i for i, t in enumerate(tw.t) if t <= t_now + 1e-12 * (1 / w + abs(t_now)))
    if j == 0:
        return tw.t[0]
    return tw.t[j - 1] + 1e-9 * (tw.t[j] - tw.t[j - 1])


def run(ctx):
    if ctx.jit:
        names = REPR if not ctx.thorough else REPR + [n for n in ref.ALL if n not in REPR]
        for name in ctx.mine(names):
            ctx.cases("jit-" + name, ctx.n(15, 200), case(name))
        return
    per = ctx.n(400, 16000)
    for name in ref.ALL:
        ctx.cases("py-" + name, per // ctx.nshards, case(name), start=ctx.shard * 100000)
