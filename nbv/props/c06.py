"""C06: time limits.  No call moves the solver, evaluates the equation, or
returns a row beyond t_bound (or upto_t); limits that cannot be met raise the
documented exception and leave a usable solver."""

import numpy as np

from .. import drive, ref
from ..problems import Counted, cls_of, random_h, random_problem, random_t0
from .c05 import REPR, Track, eq_t, eq_y

KF = "variable-step-stops-short-of-t_bound"


class Timed(Counted):
    """Records the largest time at which the equation is evaluated."""

    def __init__(self, f):
        super().__init__(f)
        self.tmax = -np.inf

    def __call__(self, t, y):
        if t > self.tmax:
            self.tmax = float(t)
        return super().__call__(t, y)


def case(name, nops):
    def fn(ctx, rng):
        prob = random_problem(ctx, rng)
        t0, h = random_t0(rng), random_h(rng)
        kw = {}
        if name in ref.ADAPTIVE:
            kw = {"rtol": float(10 ** rng.uniform(-6, -2))}
            h = None if rng.random() < 0.4 else h
        elif name in ref.MULTISTEP and (ctx.jit or rng.random() < 0.5):
            kw["first_stepper_cls"] = None
        tw = Track(ctx, drive.make(ctx, name, prob, t0, h, **kw))
        total = int(rng.integers(0, 12))
        tw.upto(total + 1)
        a, b = tw.t[total], tw.t[total + 1]
        # Bound: exactly a step time, or between two, or next to one.
        u = rng.random()
        if u < 0.3:
            B = a
        elif u < 0.4:
            B = float(np.nextafter(b, -np.inf))
        else:
            B = float(a + rng.uniform(0.03, 0.97) * (b - a))
        timed = Timed(prob.f) if ctx.py else prob.rhs
        sol = drive.make(ctx, name, prob, t0, h, rhs=timed, t_bound=B, **kw)
        if ctx.py:
            timed.tmax = -np.inf  # the choice of the first step is not claimed
        last = tw.stop(0, B)  # index of the last step that fits
        i = 0
        kinds = []
        what = lambda: f"{name} {prob} t0={t0!r} h={h!r} {kw} t_bound={B!r} after {kinds}"

        def position(j, exact=False):
            t, y, f, hh = drive.state(sol)
            ctx.check(t <= B, "beyond-bound", lambda: f"{what()}: t={t!r}")
            ctx.check(eq_t(t, tw.t[j]) and eq_y(y, tw.y[j]), "position",
                      lambda: f"{what()}: at t={t!r} y={y}; expected step {j} at t={tw.t[j]!r} y={tw.y[j]}")
            ctx.check(abs(hh - tw.h[j]) <= 1e-6 * abs(hh), "proposal", lambda: f"{what()}: h={hh!r}, expected {tw.h[j]!r}")
            if ctx.py:
                ctx.check(timed.tmax <= B, "evaluated-beyond-bound",
                          lambda: f"{what()}: the equation was evaluated at t={timed.tmax!r}")
            ctx.seen("positions_checked")

        for _ in range(nops):
            left = last - i
            op = str(rng.choice(["step", "skip", "stepn", "skipn", "upto_bad", "upto_ok", "upto_past", "nupto",
                                 "run_bad", "run_old", "run_ok", "run_end"]))
            before = drive.state(sol)
            if op in ("step", "skip"):
                kinds.append(op + "()")
                out = ctx.call(op, getattr(sol, op))
                if left > 0:
                    ctx.check(out.ok, "spurious-stop", lambda: f"{what()}: {out!r}, but {left} more steps fit")
                    i += 1
                else:
                    ctx.check(out.raised(RuntimeError), "missing-stop", lambda: f"{what()}: {out!r}, expected RuntimeError")
                    ctx.check(drive.same(before, drive.state(sol)), "state-after-stop", lambda: f"{what()}: state changed")
                    ctx.seen("runtime_errors")
            elif op in ("stepn", "skipn"):
                n = int(rng.integers(1, left + 4))
                kinds.append(f"{op[:4]}(n={n})")
                out = ctx.call(op, getattr(sol, op[:4]), n=n)
                if n <= left:
                    ctx.check(out.ok, "spurious-stop", lambda: f"{what()}: {out!r}, but {left} more steps fit")
                    i += n
                else:
                    ctx.check(out.raised(RuntimeError), "missing-stop",
                              lambda: f"{what()}: {out!r}, only {left} of {n} steps fit")
                    i = last
                    ctx.seen("runtime_errors")
            elif op == "upto_bad":
                u = B + float(rng.choice([1e-9 * (1 + abs(B)), 0.1, 50.0]))
                v = {"upto_t": u}
                if rng.random() < 0.5:
                    v["n"] = int(rng.integers(1, 4))
                m = str(rng.choice(["step", "skip"]))
                kinds.append(f"{m}({v})")
                out = ctx.call(m, getattr(sol, m), **v)
                ctx.check(out.raised(ValueError), "bound-not-enforced", lambda: f"{what()}: {out!r}, expected ValueError")
                ctx.check(drive.same(before, drive.state(sol)), "state-after-error", lambda: f"{what()}: state changed")
                ctx.seen("value_errors")
            elif op in ("upto_ok", "nupto"):
                u = float(B if rng.random() < 0.2 else rng.uniform(tw.t[i], B))
                n = int(rng.integers(1, 5)) if op == "nupto" else None
                j = tw.stop(i, u, n)
                m = str(rng.choice(["step", "skip"]))
                v = {"upto_t": u} if n is None else {"upto_t": u, "n": n}
                kinds.append(f"{m}({v})")
                out = ctx.must(m, getattr(sol, m), **v)
                ctx.check(float(sol.t) <= u, "beyond-limit", lambda: f"{what()}: t={float(sol.t)!r}")
                if m == "step":
                    ctx.check(len(out[0]) == len(out[1]) == j - i, "rows", lambda: f"{what()}: {len(out[0])} rows, expected {j - i}")
                    ctx.check(all(x <= u for x in out[0]), "row-beyond-limit", lambda: f"{what()}: {out[0]}")
                i = j
                ctx.seen("limits_met")
            elif op == "upto_past":
                u = float(tw.t[i] - rng.uniform(1e-9, 2.0) - 1e-12 * abs(t0))
                m = str(rng.choice(["step", "skip"]))
                v = {"upto_t": u}
                if rng.random() < 0.5:
                    v["n"] = 2
                kinds.append(f"{m}({v})")
                out = ctx.must(m, getattr(sol, m), **v)
                if m == "step":
                    ctx.check(len(out[0]) == 0 and len(out[1]) == 0, "rows", lambda: f"{what()}: {out!r}")
                ctx.check(drive.same(before, drive.state(sol)), "state-after-past", lambda: f"{what()}: state changed")
                ctx.seen("past_limits")
            elif op in ("run_bad", "run_old"):
                good = float(rng.uniform(tw.t[i], B))
                if op == "run_bad":
                    bad = B + float(rng.choice([1e-9 * (1 + abs(B)), 0.3, 1e4]))
                else:
                    bad = t0 - float(rng.uniform(0.01, 3))
                arg = bad if rng.random() < 0.3 else ([good, bad] if rng.random() < 0.5 else [bad, good])
                kinds.append(f"run({arg!r})")
                out = ctx.call("run", sol.run, arg)
                ctx.check(out.raised(ValueError), "range-not-enforced", lambda: f"{what()}: {out!r}, expected ValueError")
                ctx.check(drive.same(before, drive.state(sol)), "state-after-error", lambda: f"{what()}: state changed")
                ctx.seen("value_errors")
            else:
                hi = tw.t[last] if op == "run_ok" else B
                if hi < tw.t[i]:
                    hi = tw.t[i]
                arg = np.sort(rng.uniform(tw.t[i], hi, size=int(rng.integers(1, 5))))
                if rng.random() < 0.3:
                    arg[-1] = hi
                kinds.append(f"run({arg!r})")
                ts, ys = ctx.must("run", sol.run, arg)
                fit = int(np.sum(arg <= tw.t[last]))
                if fit == len(arg) or name not in ref.ADAPTIVE:
                    ctx.check(len(ts) == fit and drive.same(ts, arg[:fit]), "run-rows",
                              lambda: f"{what()}: returned times {ts}; the last reachable step is at {tw.t[last]!r}")
                else:
                    full = len(ts) == len(arg)
                    ctx.check(full or len(ts) == fit, "run-rows", lambda: f"{what()}: returned times {ts}")
                    if not full:
                        ctx.known_finding(KF, f"{name}.run({arg[-1]:.6g}) with t_bound={B:.6g} returned {len(ts)} of {len(arg)} rows")
                ctx.check(len(ys) == len(ts) and np.all(np.isfinite(ys)), "run-values", lambda: f"{what()}: {ys}")
                i = tw.reach(i, arg[-1]) if fit == len(arg) else last
                ctx.seen("run_op_" + op)
            position(i)
        ctx.distinct(name, prob.name, prob.n, total, round(B - a, 9), [k.split("(")[0] for k in kinds])
        ctx.sample(solver=name, problem=repr(prob), t0=t0, h=h, t_bound=B, history=kinds)

    return fn


def known_probe(ctx, rng):
    """The listed finding, on fixed inputs."""
    for name in ("RungeKutta23", "RungeKutta45", "DOP853"):
        sol = ctx.must(f"new {name}", cls_of(name), lambda t, y: -y, 0.0, [1.0], t_bound=1.0, first_step=0.8)
        ts, ys = ctx.must("run", sol.run, [0.5, 1.0])
        if len(ts) < 2:
            ctx.known_finding(KF, f"{name}: run([0.5, 1.0]) with t_bound=1.0 returned only t={ts}")
        else:
            ctx.check(abs(ys[1][0] - np.exp(-1)) < 5e-3, "at-bound", lambda: f"{name}: {ys}")


def run(ctx):
    if ctx.jit:
        names = REPR if not ctx.thorough else REPR + [n for n in ref.ALL if n not in REPR]
        for name in ctx.mine(names):
            ctx.cases("jit-" + name, ctx.n(12, 150), case(name, 10))
        return
    if ctx.shard == 0:
        ctx.cases("probe", 1, known_probe)
    per = ctx.n(240, 10000)
    for name in ref.ALL:
        ctx.cases("py-" + name, per // ctx.nshards, case(name, 12), start=ctx.shard * 100000)
