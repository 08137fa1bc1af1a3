"""C20: every call ends, whatever the equation does.

Hostile equations (nan, inf, blow up, discontinuities, noise, lost domains,
extreme scales) and hostile arguments; a logical-step watchdog counts the
evaluations of every call, and the state is checked after each."""

import numpy as np

from .. import drive, ref
from ..harness import Budget
from ..problems import Counted, cls_of, compiled

PER_STEP = 9000  # 2.5 times the longest possible chain of shrinking attempts of DOP853
NKIND = 12
RUNNABLE = (0, 1, 2, 3, 4, 5, 9)


def hostile(t, y):
    """The last two components (constant) choose what happens and when."""
    kind = int(y[-2])
    tc = y[-1]
    out = np.zeros_like(y)
    for i in range(y.size - 2):
        v = -0.5 * y[i] + np.cos(t)
        if kind == 0:  # nan after tc
            if t > tc:
                v = np.nan
        elif kind == 1:  # inf after tc
            if t > tc:
                v = np.inf
        elif kind == 2:  # blow up
            v = y[i] * y[i] + 1.0
        elif kind == 3:  # leaves the domain of the square root
            v = -1.0 / tc + 0.0 * np.sqrt(y[i])
        elif kind == 4:  # jump in time
            if t > tc:
                v = -1000.0
        elif kind == 5:  # one component only
            if i == 0 and t > tc:
                v = np.nan
        elif kind == 6:  # sliding
            v = -np.sign(y[i]) * 3.0
        elif kind == 7:  # wild
            v = 1e3 * np.sin(1e9 * t + 1e7 * y[i])
        elif kind == 8:  # violently stiff
            v = -1e9 * (y[i] - np.cos(t))
        elif kind == 9:  # blow up with a pole in t
            v = 1.0 / (tc - t) if t != tc else np.inf
        elif kind == 10:  # huge
            v = 1e200 * np.cos(t)
        else:  # tiny
            v = 1e-300 * y[i]
        out[i] = v
    return out


def case(name):
    adaptive = name in ref.ADAPTIVE

    def fn(ctx, rng):
        kind = int(rng.integers(0, NKIND))
        n = int(rng.integers(1, 4))
        t0 = float(rng.choice([0.0, 0.0, 5.0, 1e6]))
        tc = t0 + float(rng.uniform(0.05, 1.5))
        if kind == 3:
            tc = float(rng.uniform(0.05, 1.5))
        y0 = np.concatenate((rng.uniform(0.5, 1.5, size=n), [float(kind), tc]))
        kw = {}
        if adaptive:
            kw = {"rtol": float(10 ** rng.uniform(-6, -2)), "atol": float(10 ** rng.uniform(-8, -3))}
            if rng.random() < 0.7:
                kw["first_step"] = float(10 ** rng.uniform(-3, 0.5))
            if rng.random() < 0.4:
                kw["min_step"] = float(10 ** rng.uniform(-14, -4))
        else:
            kw["h"] = float(10 ** rng.uniform(-2, -0.5))
            if name in ref.MULTISTEP and (ctx.jit or kind not in RUNNABLE or rng.random() < 0.6):
                kw["first_stepper_cls"] = None
        c = Counted(hostile, 200000)
        what = lambda: f"{name} kind={kind} t0={t0!r} tc={tc!r} n={n} {kw} after {ops}"
        ops = []
        rhs = c if ctx.py else compiled(ctx, hostile)
        # Construction evaluates the equation beyond t0 and may fail, but must end.
        out = ctx.call(f"new {name}", cls_of(name), rhs, t0, y0, **kw)
        if not out.ok:
            ctx.seen("refused_construction")
            return
        sol = out.value
        failed = 0
        for _ in range(int(rng.integers(3, 12))):
            t, y, f, h = drive.state(sol)
            op = str(rng.choice(["step", "stepn", "skipn", "run", "nan"] if ctx.py else ["stepn", "stepn", "run", "nan"]))
            m = int(rng.integers(1, 12))
            if op == "run" and (kind not in RUNNABLE or t0 > 10):
                op = "stepn"
            ops.append(op)
            c.n = 0
            c.budget = PER_STEP * (1 if op == "step" else m) if op != "run" else 200000
            if name in ref.IMPLICIT:
                c.budget *= 4
            try:
                if op == "nan":
                    # Arguments that are not a time never start the solver.
                    which = int(rng.integers(0, 4))
                    bad = float("nan")
                    out = ctx.call(op, *((sol.run, bad), (sol.run, [t + 1.0, bad]), (sol.step,), (sol.skip,))[which],
                                   **({"upto_t": bad} if which >= 2 else {}), **({"n": 3} if which == 3 else {}))
                    ctx.check(out.raised(ValueError), "nan-accepted", lambda: f"{what()}: {out!r}, expected ValueError")
                    ctx.check(drive.same((t, y, f, h), drive.state(sol)), "nan-moved", what)
                    ctx.seen("nan_refused")
                    continue
                if op == "run":
                    span = float(rng.uniform(0.01, 3.0))
                    out = ctx.call(op, sol.run, t + span * np.linspace(0.1, 1, 4))
                elif op == "step":
                    out = ctx.call(op, sol.step)
                else:
                    out = ctx.call(op, sol.step if op == "stepn" else sol.skip, n=m)
            except Budget:
                ctx.fail("no-progress", f"{what()}: {op} (n={m}) needs more than {c.budget} evaluations at t={float(sol.t)!r}, h={float(sol.h)!r}")
            ctx.seen("calls_ended")
            ctx.seen("evaluations", c.n)
            t1, y1, f1, h1 = drive.state(sol)
            ctx.check(t1 >= t, "time-backwards", lambda: f"{what()}: {t!r} -> {t1!r}")
            # (Halving until it underflows is how a hopeless step from t = 0 fails.)
            ctx.check(h1 > 0 or (h1 == 0 and (failed or not out.ok)), "step-size", lambda: f"{what()}: h={h1!r}, {out!r}")
            if out.ok and failed == 0:
                ctx.check(t1 > t or (op == "run"), "no-advance", lambda: f"{what()}: t={t1!r} stays")
            if adaptive:
                ok = np.all(np.isfinite(y1)) and np.all(np.isfinite(f1))
                ctx.check(ok or kind == 10, "accepted-not-finite", lambda: f"{what()}: t={t1!r} y={y1} f={f1} was accepted")
                if kind in (0, 1, 5):
                    ctx.check(t1 <= tc, "passed-singularity", lambda: f"{what()}: t={t1!r}")
                    ctx.seen("singularities_kept")
            if not out.ok:
                ctx.check(isinstance(out.exc, (RuntimeError, np.linalg.LinAlgError, ValueError, ZeroDivisionError, FloatingPointError)),
                          "exception", lambda: f"{what()}: {out!r}")
                ctx.check(not adaptive or out.raised(RuntimeError), "exception", lambda: f"{what()}: {out!r}")
                failed += 1
                ctx.seen("calls_failed")
                if failed > 2:
                    break
            if not np.all(np.isfinite(y1)):
                break
        ctx.seen(f"kind_{kind}")
        ctx.distinct(name, kind, n, round(tc, 6), ops)
        ctx.sample(solver=name, kind=kind, operations=ops, t_end=float(sol.t), failed=failed)

    return fn


def arguments(name):
    """Step sizes that cannot work are refused."""

    def fn(ctx, rng):
        bad = float(rng.choice([0.0, -0.0, -1.0, -1e-9, np.nan, -np.inf]))
        key = "first_step" if name in ref.ADAPTIVE else "h"
        out = ctx.call(f"new {name}", cls_of(name), lambda t, y: -y, 0.0, [1.0], **{key: bad})
        ctx.check(out.raised(ValueError), "bad-step-accepted", lambda: f"{name}({key}={bad!r}): {out!r}, expected ValueError")
        if name in ref.ADAPTIVE:
            for key, bad in (("max_step", 0.0), ("max_step", -1.0), ("max_step", np.nan)):
                out = ctx.call(f"new {name}", cls_of(name), lambda t, y: -y, 0.0, [1.0], **{key: bad})
                ctx.check(out.raised(ValueError), "bad-step-accepted", lambda: f"{name}({key}={bad!r}): {out!r}, expected ValueError")
        nan = float("nan") if rng.random() < 0.5 else np.float64("nan")
        for what, args, kw in (("t0", (nan, [1.0]), {}), ("t_bound", (0.0, [1.0]), {"t_bound": nan})):
            if name not in ref.ADAPTIVE:
                kw["h"] = 0.1
            out = ctx.call(f"new {name}", cls_of(name), decay, *args, **kw)
            ctx.check(out.raised(ValueError), "nan-accepted", lambda: f"{name} with {what}=nan: {out!r}, expected ValueError")
        ctx.seen("arguments_refused")

    return fn


def decay(t, y):
    return -y


def resolution(name):
    """Times so large that a step may not change them: progress or an exception."""
    adaptive = name in ref.ADAPTIVE

    def fn(ctx, rng):
        t0 = float(rng.choice([-1, 1])) * float(2.0 ** rng.uniform(44, 58))
        ulp = float(np.spacing(abs(t0)))
        y0 = rng.uniform(0.5, 1.5, size=int(rng.integers(1, 3)))
        if rng.random() < 0.2:
            y0 = y0 * 0.0
        kw = {}
        h = float(2.0 ** rng.uniform(-6, 3)) * ulp
        if adaptive:
            if rng.random() < 0.5:
                kw["first_step"] = h
        else:
            kw["h"] = h
            if name in ref.MULTISTEP:
                kw["first_stepper_cls"] = None if ctx.jit or rng.random() < 0.5 else "RungeKutta4"
        # (Implicit equations and starts are solvable when h is small.)
        scale = 1.0 if adaptive else 0.1 / h
        rhs0 = decay if scale == 1.0 else (lambda t, y: -scale * y)
        c = Counted(rhs0, 200000)
        rhs = c if ctx.py else compiled(ctx, decay)
        if not ctx.py and not adaptive and name in ref.IMPLICIT and h > 0.5:
            return
        what = lambda: f"{name} t0={t0!r} (resolution {ulp!r}) y0={y0} {kw}"
        out = ctx.call(f"new {name}", cls_of(name), rhs, t0, y0, **kw)
        if not out.ok:
            ctx.check(out.raised(RuntimeError, ValueError), "exception", lambda: f"{what()}: {out!r}")
            ctx.seen("refused_construction")
            return
        sol = out.value
        for _ in range(4):
            t = float(sol.t)
            op = str(rng.choice(["step", "skip", "stepn", "run", "upto"]))
            span = float(rng.integers(2, 40)) * max(ulp, h if "h" in kw else ulp)
            c.n, c.budget = 0, 40000
            try:
                if op == "step":
                    out = ctx.call(op, sol.step)
                elif op == "skip":
                    out = ctx.call(op, sol.skip, upto_t=t + span)
                elif op == "upto":
                    out = ctx.call(op, sol.step, upto_t=t + span)
                elif op == "stepn":
                    out = ctx.call(op, sol.step, n=3)
                else:
                    out = ctx.call(op, sol.run, [t, t + span])
            except Budget:
                ctx.fail("no-progress", f"{what()}: {op} over {span!r} from t={t!r} needs more than {c.budget} evaluations; "
                         f"at t={float(sol.t)!r}, h={float(sol.h)!r}")
            t1 = float(sol.t)
            ctx.check(t1 >= t, "time-backwards", lambda: f"{what()}: {t!r} -> {t1!r}")
            if not out.ok:
                ctx.check(out.raised(RuntimeError), "exception", lambda: f"{what()}: {out!r}")
                ctx.seen("unresolved_steps_refused")
                break
            if op in ("step", "stepn"):
                ctx.check(t1 > t, "no-advance", lambda: f"{what()}: t={t1!r} stays after {op}")
            elif op == "run":
                ctx.check(t1 >= t + span, "no-advance", lambda: f"{what()}: run up to {t + span!r} ended at {t1!r}")
            ctx.seen("resolved_calls")
        ctx.distinct("resolution", name, t0, h)

    return fn


def event_case(name):
    """Events that are nan, constant, discontinuous or always zero."""

    def fn(ctx, rng):
        which = [int(x) for x in rng.integers(0, 5, size=int(rng.integers(1, 4)))]
        tc = float(rng.uniform(0.1, 2.0))

        def g(k):
            def e(t, y):
                c.n += 1
                if c.n > c.budget:
                    raise Budget("event evaluations")
                if k == 0:
                    return np.nan if t > tc else -1.0
                if k == 1:
                    return 0.0
                if k == 2:
                    return -1.0 if t < tc else 2.0
                if k == 3:
                    return np.sin(200.0 * t)
                return 1e-200 * (t - tc)
            return e

        c = Counted(lambda t, y: -0.5 * y + np.cos(t), 20000)
        kw = {"first_step": 0.1} if name in ref.ADAPTIVE else {"h": float(rng.uniform(0.02, 0.2))}
        sol = ctx.must(f"new {name}", cls_of(name), c, 0.0, rng.normal(size=2), **kw)
        start = float(sol.t)  # multistep solvers start beyond t0
        c.n, c.budget = 0, 60000
        ts = np.sort(rng.uniform(0.1, 3.0, size=4))
        ev = [g(k) for k in which]
        for e in ev:
            e.direction = float(rng.choice([-1, 0, 1]))
        out = ctx.must("run_events", sol.run_events, ts, ev)
        ctx.check(drive.same(out[0], ts) and np.all(np.isfinite(out[1])), "event-rows", lambda: f"{name} {which}: {out[:2]}")
        for k, e, tl in zip(which, ev, out[2]):
            ctx.check(all(0.0 <= x <= float(sol.t) for x in tl) and list(tl) == sorted(tl), "event-times", lambda: f"{name} {which}: {tl}")
            if k in (2, 4) and start < tc <= ts[-1]:
                want = 1 if e.direction >= 0 else 0
                ctx.check(len(tl) == want, "event-count", lambda: f"{name} event {k} tc={tc!r} direction={e.direction}: {tl}")
                if want:
                    ctx.check(abs(tl[0] - tc) <= 1e-12, "event-place", lambda: f"{name} event {k} tc={tc!r}: {tl}")
        ctx.seen("event_runs")
        ctx.distinct("events", name, which, round(tc, 6))

    return fn


def run(ctx):
    if ctx.jit:
        names = ["RungeKutta23", "RungeKutta45", "DOP853", "BDF2", "AdamsMoulton3"] if not ctx.thorough else ref.ALL
        if "o3" in ctx.mode and not ctx.thorough:
            # What an optimising compiler is allowed to do shows at full optimisation only.
            names = ["RungeKutta45", "BDF2", "RungeKutta23"]
        for name in ctx.mine(names):
            ctx.cases("jit-" + name, ctx.n(60, 1200), case(name))
            if "o3" in ctx.mode and not ctx.thorough:
                continue
            ctx.cases("jit-resolution-" + name, ctx.n(6, 60), resolution(name))
        return
    start, n = ctx.shard * 100000, ctx.nshards
    for name in ref.ALL:
        k = ctx.n(40, 1500) * (4 if name in ref.ADAPTIVE else 1)
        ctx.cases("py-" + name, k // n, case(name), start=start)
        ctx.cases("args-" + name, ctx.n(8, 24) // n, arguments(name), start=start)
        ctx.cases("resolution-" + name, ctx.n(24, 600) * (2 if name in ref.ADAPTIVE else 1) // n, resolution(name), start=start)
        ctx.cases("events-" + name, ctx.n(16, 800) // n, event_case(name), start=start)
