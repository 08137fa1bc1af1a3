"""C10: a terminal event ends the run at its first occurrence: rows up to it are
kept, it is the last row, nothing later is reported."""

import collections

import numpy as np

from .. import drive, evmodel, ref
from .c05 import REPR
from .c09 import check_event_rows


def roots_in(g, u, a, b, n=33):
    """Number of sign changes of g along the dense output of a step."""
    x = np.linspace(a, b, n)
    v = np.sign([g(t, u(t)) for t in x])
    v = v[v != 0]
    return int(np.sum(v[1:] != v[:-1]))


def case(name):
    def fn(ctx, rng):
        prob, t0, h, kw, sol, tw, nat = evmodel.setup(ctx, rng, name)
        if not np.max(np.abs(tw.y)) <= 1e4 * prob.c:
            return
        T, C = 1 / prob.w, prob.c
        m = evmodel.Model(ctx, name, prob, tw)
        plain = drive.make(ctx, name, prob, t0, h, **kw)
        k = int(rng.integers(1, 4)) if ctx.jit or rng.random() < 0.96 else int(rng.integers(4, 13))
        evs = evmodel.make_events(ctx, rng, prob, k, tw, nat, terminal=0.75)
        i = 0
        if rng.random() < 0.3:
            ctx.must("step", sol.step)
            i = 1
        hi = tw.t[nat]
        if hi <= tw.t[i]:
            return
        times = np.append(rng.uniform(tw.t[i], hi, size=int(rng.integers(0, 12))), hi)
        if rng.random() < 0.5:
            # requests at step times, where "grid" events have their zeros
            times = np.append(times, [tw.t[q] for q in rng.integers(i, nat + 1, size=3)])
        times = np.sort(times)
        j = tw.reach(i, hi)
        # The first step in which a terminal event is due.
        exp = [m.expected(g, d, i, j) for _, g, _, d, _ in evs]
        due = [x[0][0] for x, e in zip(exp, evs) if e[4] and x]
        what = lambda: (f"{name} {prob} t0={t0!r} h={h!r} {kw} run_events({times}) from t={tw.t[i]!r} events "
                        f"{[(int(e[3]), 'terminal' if e[4] else '') for e in evs]}")
        shuffled = rng.random() < 0.25
        arg = rng.permutation(times) if shuffled else times.copy()
        ts, ys, te, ye = evmodel.call_events(ctx, sol, arg, evs, rng)
        ctx.check(len(te) == len(ye) == k and len(ts) == len(ys), "lists", lambda: f"{what()}: {len(te)} lists")
        if not due:
            ctx.check(drive.same(ts, arg), "rows", lambda: f"{what()}: no terminal event is due, but rows end at {ts}")
            for (obj, g, amp, d, term), x, a, b in zip(evs, exp, te, ye):
                check_event_rows(ctx, what, m, g, amp, x, a, b)
            ctx.seen("no_terminal")
            return
        s = min(due)
        a, b = tw.t[s], tw.t[s + 1]
        u = m.dense(s)
        late = [e for e, x in zip(range(k), exp) if evs[e][4] and x and x[0][0] == s]
        ctx.check(abs(float(sol.t) - b) <= 1e-11 * (T + abs(b)), "stop",
                  lambda: f"{what()}: solver at t={float(sol.t)!r}; the terminal event is in the step [{a!r}, {b!r}]")
        # One of the due terminal events is reported, at the earliest time.
        last = [float(te[e][-1]) for e in late if len(te[e]) and te[e][-1] >= a - 1e-12 * (T + abs(a))]
        ctx.check(bool(last), "terminal-missing", lambda: f"{what()}: terminal event due in [{a!r}, {b!r}], reported {te}")
        t_star = min(last)
        everything = [float(t) for x in te for t in x]
        ctx.check(max(everything) <= t_star, "later-event",
                  lambda: f"{what()}: ended at {t_star!r}, but an event at {max(everything)!r} is reported", events=str(te))
        # Every event of the earlier steps, and those of this step up to the
        # end, are kept.
        for e, ((obj, g, amp, d, term), x) in enumerate(zip(evs, exp)):
            keep = [q for q in x if q[0] < s]
            mine = [q for q in x if q[0] == s]
            n = len(te[e])
            if mine:
                exact = mine[0][1]
                ga, gb = g(a, tw.y[s]), g(b, tw.y[s + 1])
                if exact is not None:
                    before = exact <= t_star
                    sure = abs(exact - t_star) > 1e-9 * (T + abs(a))
                else:
                    # where is its zero relative to the end?
                    gs = g(t_star, u(min(max(t_star, a), b)))
                    sure = roots_in(g, u, a, b) == 1 and abs(gs) > 1e-7 * max(abs(ga), abs(gb))
                    before = np.sign(gs) == np.sign(gb)
                if n == len(keep) + 1:
                    if sure:
                        ctx.check(before, "kept-late", lambda: f"{what()}: event {e} is kept though its zero is after the end {t_star!r}")
                    keep.append(mine[0])
                elif sure:
                    ctx.check(not before or n != len(keep), "dropped-early",
                              lambda: f"{what()}: event {e} crossed zero before the end {t_star!r}, but is not reported: {te[e]}")
                if e in late and sure and exact is None:
                    ctx.seen("simultaneous_checked", 1 if len(late) > 1 else 0)
            check_event_rows(ctx, lambda: what() + f" event {e}", m, g, amp, keep, te[e], ye[e])
        # Rows: the requested times before the end, then the end itself.
        # A request for the very time at which the last step starts is answered
        # before that step, whose event may be found at its start.
        first = (times < t_star) | (times <= tw.t[i])
        if abs(t_star - a) <= 1e-9 * (T + abs(a)):
            n = len(ts) - bool(np.any(times > a + 1e-9 * (T + abs(a))))
            done = np.arange(len(times)) < n
            if np.all(np.abs(times[done != first] - t_star) <= 1e-9 * (T + abs(a))):
                first = done
                ctx.seen("event_at_step_start")
        before, rest = times[first], times[~first]
        y_star = None
        for e in late:
            if len(te[e]) and te[e][-1] == t_star:
                y_star = np.array(ye[e][-1])
        # In the order of the request, the end last.
        left = collections.Counter(before.tolist())
        want = []
        for x in arg.tolist():
            if left[x] > 0:
                left[x] -= 1
                want.append(x)
        want += [t_star] if len(rest) else []
        got = np.array(ts)
        ctx.check(drive.same(got, np.array(want)), "rows",
                  lambda: f"{what()}: rows at {got}; expected {want}")
        oy = np.array(ys)
        oy[: len(before)] = oy[: len(before)][np.argsort(ts[: len(before)], kind="stable")]
        ctx.seen("unsorted_with_event", int(shuffled and len(before) > 0 and len(rest) > 0))
        if len(before):
            _, py = ctx.must("run", plain.run, before)
            ctx.check(drive.close(oy[: len(before)], py, 1e-9 * (C + np.abs(py))), "row-values",
                      lambda: f"{what()}: rows before the event differ from run by {drive.maxdiff(oy[:len(before)], py)}")
        if len(rest):
            ctx.check(drive.close(oy[-1], y_star, 1e-12 * (C + np.abs(y_star))), "last-row",
                      lambda: f"{what()}: last row {oy[-1]}, state of the event {y_star}")
        ctx.seen("terminal_checked")
        ctx.seen("rows_before_checked", len(before))
        inside = int(np.sum((before > a)))
        ctx.seen("rows_inside_last_step", inside)
        # The solver can go on.
        if rng.random() < 0.4:
            nxt = ctx.must("step", sol.step)
            tw.upto(s + 2)
            ctx.check(abs(float(sol.t) - tw.t[s + 2]) <= 1e-9 * (T + abs(tw.t[s + 2])), "resume", lambda: f"{what()}: next step at {float(sol.t)!r}")
            ctx.seen("resumed")
        ctx.distinct(name, prob.name, prob.n, k, s, str(prob.y0))
        ctx.sample(solver=name, problem=repr(prob), t0=t0, h=h, terminal_at=t_star, step=[a, b], rows=len(ts))

    return fn


def run(ctx):
    if ctx.jit:
        names = ["RungeKutta45", "RungeKutta4", "DOP853", "AdamsMoulton3", "RungeKutta23", "AdamsBashforth3", "BDF2"]
        names = names[:5] if not ctx.thorough else names + [n for n in ref.ALL if n not in names]
        for name in ctx.mine(names):
            ctx.cases("jit-" + name, ctx.n(20, 200), case(name))
        return
    per = ctx.n(240, 12000)
    for name in ref.ALL:
        ctx.cases("py-" + name, per // ctx.nshards, case(name), start=ctx.shard * 100000)
