"""C18: a call that fails leaves the solver at its last completed step.

Fault enumeration: a script is run undisturbed to count the evaluations of the
user's functions, then once per evaluation with that evaluation raising.  The
exception has to reach the caller, the solver has to be exactly at a natural
step of the undisturbed twin, and going on has to give the twin's steps."""

import ctypes

import numpy as np

from .. import drive, ref
from ..problems import MODULE, Problem, cls_of, compiled, random_h, random_problem, random_t0
from .c05 import Track, eq_t, eq_y

KF = "interpolation-after-failed-step"
KINDS = (RuntimeError, ValueError, ZeroDivisionError, KeyError, AttributeError, FloatingPointError, StopIteration, OSError)


class Switch:
    """Counts evaluations; the armed ones raise."""

    def __init__(self):
        self.n, self.at, self.exc = 0, (), None

    def hit(self):
        self.n += 1
        if self.n in self.at:
            raise self.exc

    def wrap(self, f):
        def g(t, y):
            self.hit()
            return f(t, y)

        return g


# In compiled mode the switch is a C callback made from Python.
_jit = {}


def jit_parts(ctx):
    if not _jit:
        import numba

        sw = Switch()

        def tick(t):
            sw.n += 1
            return 1.0 if sw.n in sw.at else 0.0

        cb = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_double)(tick)

        def rhs(t, y):
            if cb(t) > 0.5:
                raise ValueError("injected")
            out = np.empty_like(y)
            for i in range(y.size):
                out[i] = np.sin(y[i - 1] + 0.3 * t + i) - 0.4 * y[i]
            return out

        def event(t, y):
            if cb(t) > 0.5:
                raise ValueError("injected")
            return np.sin(3.0 * t + 0.4) + 0.3 * y[0]

        _jit.update(sw=sw, rhs=numba.njit(rhs), event=numba.njit(event), keep=cb)
    return _jit["sw"], _jit["rhs"], _jit["event"]


def ev(t, y):
    return np.sin(3.0 * t + 0.4) + 0.3 * y[0]


def chain(e):
    out = []
    while e is not None and len(out) < 10:
        out.append(e)
        e = e.__cause__ or e.__context__
    return out


def case(name, limit):
    def fn(ctx, rng):
        if ctx.jit:
            f, lip = MODULE["ring"]
            n = int(rng.integers(2, 5))
            prob = Problem("ring", n, f, lip, rng.normal(size=n), compiled(ctx, f))
        else:
            prob = random_problem(ctx, rng)
        t0, h = random_t0(rng), random_h(rng, lo=0.01, hi=0.2)
        kw = {}
        if name in ref.ADAPTIVE:
            kw = {"rtol": float(10 ** rng.uniform(-7, -3)), "first_step": float(h * rng.choice([1, 1, 30]))}
        else:
            kw["h"] = h
            if name in ref.MULTISTEP and ref.START[name] > 1 and (ctx.jit or rng.random() < 0.5):
                kw["first_stepper_cls"] = None
        if ctx.jit:
            sw, rhs, event = jit_parts(ctx)
        else:
            sw = Switch()
            rhs, event = sw.wrap(prob.f), sw.wrap(ev)
        sw.n, sw.at = 0, ()
        cls = cls_of(name)

        def build():
            sw.n, sw.at = 0, ()
            return ctx.must(f"new {name}", cls, rhs, t0, prob.y0, **kw)

        twin_rhs = prob.rhs if ctx.jit else prob.f
        tw = Track(ctx, ctx.must(f"new {name}", cls, twin_rhs, t0, prob.y0, **kw))
        # The script; times are those of the undisturbed twin.
        i, script = 0, []
        for op in rng.choice(["step", "stepn", "skipn", "stepu", "run", "events"] if ctx.py else ["stepn", "run", "events"], size=3):
            op = str(op)
            m = int(rng.integers(1, 4))
            if op in ("step",):
                script.append((op, {}))
                i += 1
            elif op in ("stepn", "skipn"):
                script.append((op, {"n": m}))
                i += m
            elif op == "stepu":
                u = 0.5 * (tw.upto(i + m + 1).t[i + m] + tw.t[i + m + 1])
                script.append((op, {"upto_t": u}))
                i = tw.stop(i, u)
            else:
                b, a = tw.upto(i + m).t[i + m], tw.t[i]
                ts = np.sort(rng.uniform(a, b, size=3))
                script.append((op, {"t": ts}))
                i = tw.reach(i, ts[-1])
        tw.upto(i + 8)

        def play(sol, op, v):
            if op == "events":
                return sol.run_events(v["t"], [event])
            if op == "run":
                return sol.run(v["t"])
            return getattr(sol, "skip" if op == "skipn" else "step")(**v)

        sol = build()
        built = sw.n
        ends = []
        for op, v in script:
            ctx.must(op, play, sol, op, v)
            ends.append(sw.n)
        total = sw.n
        i_end = next(k for k in range(len(tw.t)) if eq_t(tw.t[k], float(sol.t)))
        ctx.seen("evaluations_in_scripts", total - built)
        # ---- one run per evaluation ----
        points = list(range(1, total + 1))
        if len(points) > limit:
            points = sorted(int(x) for x in rng.choice(points, size=limit, replace=False))
        for k in points:
            what = lambda: f"{name} {prob} t0={t0!r} {kw} script={script}, evaluation {k} of {total} raises {type(exc).__name__}"
            exc = KINDS[int(rng.integers(0, len(KINDS)))]("injected") if ctx.py else ValueError("injected")
            sw.exc = exc
            twice = rng.random() < 0.3
            sw.n, sw.at = 0, ({k, k + 1} if twice else {k})
            out = ctx.call(f"new {name}", cls, rhs, t0, prob.y0, **kw)
            if k <= built:
                ctx.check(reaches(out, exc, ctx), "exception-lost", lambda: f"{what()}: construction gave {out!r}")
                ctx.seen("faults_in_construction")
                continue
            ctx.check(out.ok, "construction", lambda: f"{what()}: {out!r}")
            sol = out.value
            done = 0
            for op, v in script:
                out = ctx.call(op, play, sol, op, v)
                if not out.ok:
                    break
                done += 1
            ctx.check(reaches(out, exc, ctx), "exception-lost", lambda: f"{what()}: the call {done} gave {out!r}")
            ctx.seen("faults_" + script[done][0])
            place(ctx, sol, tw, name, prob, i_end, what)
            if twice and sw.n < k + 1:
                # The next evaluation fails as well.
                out = ctx.call("step again", sol.step)
                ctx.check(reaches(out, exc, ctx), "exception-lost", lambda: f"{what()}: the second call gave {out!r}")
                place(ctx, sol, tw, name, prob, i_end, what)
                ctx.seen("second_faults")
            sw.at = ()
            j = place(ctx, sol, tw, name, prob, i_end, what)
            m = int(rng.integers(1, 4))
            ts, ys = ctx.must("resume", sol.step, n=m)
            tw.upto(j + m + 4)
            ctx.check(all(eq_t(a, b) for a, b in zip(ts, tw.t[j + 1: j + m + 1])) and eq_y(ys, np.array(tw.y[j + 1: j + m + 1])),
                      "resumed-steps", lambda: f"{what()}: resumed from step {j}: {ts}, {ys}; expected {tw.t[j + 1: j + m + 1]}, {tw.y[j + 1: j + m + 1]}")
            if ctx.py:
                # Values inside the steps made after the failure.
                a, b = tw.t[j + m], tw.t[j + m + 1]
                u = float(rng.uniform(a, b))
                _, y = ctx.must("run", sol.run, u)
                f = prob.f
                if name in ref.ADAPTIVE:
                    want = ref.ADAPTIVE[name].dense(f, a, tw.y[j + m], np.array(f(a, tw.y[j + m])), b, tw.y[j + m + 1], np.array(f(b, tw.y[j + m + 1])))(u)
                else:
                    want = ref.hermite(a, tw.y[j + m], np.array(f(a, tw.y[j + m])), b, tw.y[j + m + 1], np.array(f(b, tw.y[j + m + 1])))(u)
                ctx.check(eq_y(y[0], want), "resumed-run", lambda: f"{what()}: run({u!r}) after the failure gives {y[0]}, expected {want}")
            ctx.seen("faults_checked")
            ctx.distinct(name, prob.name, prob.n, [s[0] for s in script], k, twice)
        ctx.sample(solver=name, problem=repr(prob), script=[s[0] for s in script], evaluations=total, faults=len(points))

    return fn


def reaches(out, exc, ctx):
    if out.ok:
        return False
    if ctx.jit:
        return isinstance(out.exc, ValueError) and "injected" in str(out.exc)
    return any(e is exc for e in chain(out.exc))


def place(ctx, sol, tw, name, prob, i_end, what):
    """The solver is at a natural step, with its recorded past intact."""
    t, y, f, h = drive.state(sol)
    js = [j for j in range(i_end + 1) if eq_t(tw.t[j], t)]
    ctx.check(len(js) == 1, "not-at-a-step", lambda: f"{what()}: t={t!r} is not one of {tw.t[: i_end + 1]}")
    j = js[0]
    ctx.check(eq_y(y, tw.y[j]), "torn-state", lambda: f"{what()}: at t={t!r} y={y}, expected {tw.y[j]}")
    ctx.check(drive.close(f, prob.f(t, y), 1e-9 * (1 + np.abs(f))), "torn-derivative",
              lambda: f"{what()}: at t={t!r} f={f}, expected {prob.f(t, y)}")
    got = ctx.must("interpolate", sol.interpolate, t)
    ctx.check(eq_y(got, tw.y[j]), "torn-history", lambda: f"{what()}: interpolate({t!r}) = {got}")
    if j > 0 and (ref.START.get(name, 1) <= 1 or j >= ref.START[name]):
        a = tw.t[j - 1]
        got = ctx.call("interpolate", sol.interpolate, a)
        if not got.ok:  # rounding of the twin's time
            a = float(np.nextafter(a, np.inf))
            got = ctx.call("interpolate", sol.interpolate, a)
        if got.ok and name not in ref.ADAPTIVE:
            ctx.check(drive.close(got.value, tw.y[j - 1], 1e-6 * (1 + np.abs(tw.y[j - 1]))), "torn-history",
                      lambda: f"{what()}: interpolate({a!r}) = {got!r}, expected {tw.y[j - 1]}")
        if name not in ref.ADAPTIVE:
            u = 0.5 * (a + t)
            want = ref.hermite(a, tw.y[j - 1], np.array(prob.f(a, tw.y[j - 1])), t, y, np.array(prob.f(t, y)))(u)
            got = ctx.must("interpolate", sol.interpolate, u)
            ctx.check(eq_y(got, want), "torn-history", lambda: f"{what()}: interpolate({u!r}) = {got}, expected {want}")
    ctx.seen("places_checked")
    return j


def natural(name):
    """Failures of the method itself: no solution of the implicit equation, no
    acceptable step.  The same failure comes again; nothing moved."""

    def fn(ctx, rng):
        c = float(rng.uniform(0.5, 2))
        tc = float(rng.uniform(0.2, 1.0))
        n = int(rng.integers(1, 3))
        if name in ref.ADAPTIVE:
            def f(t, y):
                return np.where(t < tc, -y, np.nan + 0 * y)
            kw = {"first_step": 0.3 * tc}
        else:
            def f(t, y):
                return c * y * y + (0.0 if t < tc else 1e6)
            kw = {"h": float(rng.uniform(0.05, 0.1)), "first_stepper_cls": None}
        sol = ctx.must(f"new {name}", cls_of(name), f, 0.0, np.full(n, 0.4), **kw)
        before, out = None, None
        for _ in range(60):
            before = drive.state(sol)
            out = ctx.call("step", sol.step)
            if not out.ok or not np.all(np.isfinite(sol.y)) or abs(float(sol.y[0])) > 1e3:
                break
        what = lambda: f"{name} c={c!r} tc={tc!r} n={n} {kw}"
        if out.ok:
            return
        ctx.seen("natural_failures")
        for _ in range(3):
            after = drive.state(sol)
            ctx.check(drive.same(before[:3], after[:3]), "moved-by-failure", lambda: f"{what()}: {out!r}; before {before}, after {after}")
            got = ctx.must("interpolate", sol.interpolate, after[0])
            ctx.check(drive.same(got, before[1]), "history-after-failure", lambda: f"{what()}: {got}")
            op = str(rng.choice(["step", "skip", "stepn", "run"] if name not in ref.ADAPTIVE else ["step", "skip"]))
            if name in ref.ADAPTIVE:
                # A step of the size that is left may fit before the singularity.
                out = ctx.call(op, getattr(sol, op))
                if out.ok:
                    ctx.check(before[0] <= float(sol.t) < tc + 1e-12 and np.all(np.isfinite(sol.y)), "failure-passed",
                              lambda: f"{what()}: {op} moved to {drive.state(sol)}")
                    before = drive.state(sol)
                continue
            if op == "run":
                out = ctx.call(op, sol.run, after[0] + 1.0)
            else:
                out = ctx.call(op, getattr(sol, "skip" if op == "skip" else "step"), **({"n": 2} if op == "stepn" else {}))
            ctx.check(not out.ok, "failure-forgotten", lambda: f"{what()}: {op} gave {out!r}")
        ctx.distinct("natural", name, n, round(c, 6))

    return fn


def probe(ctx, rng):
    """The listed finding, on fixed inputs."""
    for name in ref.ADAPTIVE:
        sw = Switch()
        f = lambda t, y: np.cos(t) * y
        sol = ctx.must(f"new {name}", cls_of(name), sw.wrap(f), 0.0, [1.0], first_step=0.5)
        a, ya, fa, _ = drive.state(sol)
        ctx.must("step", sol.step)
        b, yb, fb, _ = drive.state(sol)
        sw.at, sw.exc = {sw.n + 2}, ValueError("injected")
        out = ctx.call("step", sol.step)
        ctx.check(not out.ok, "exception-lost", name)
        u = 0.5 * (a + b)
        got = ctx.must("interpolate", sol.interpolate, u)
        want = ref.ADAPTIVE[name].dense(f, a, ya, fa, b, yb, fb)(u)
        if not eq_y(got, want):
            ctx.known_finding(KF, f"{name}: interpolate({u:.6g}) in [{a:.6g}, {b:.6g}] after a failed step is {got[0]:.6g}, before it was {want[0]:.6g}")


def run(ctx):
    if ctx.jit:
        names = ["RungeKutta4", "AdamsBashforth3", "BDF2", "RungeKutta45", "DOP853"] if not ctx.thorough else ref.ALL
        for name in ctx.mine(names):
            ctx.cases("jit-" + name, ctx.n(4, 30), case(name, 25))
        return
    if ctx.shard == 0:
        ctx.cases("probe", 1, probe)
    per = ctx.n(20, 700)
    for name in ref.ALL:
        ctx.cases("py-" + name, per // ctx.nshards, case(name, 60), start=ctx.shard * 100000)
        if name in ref.ADAPTIVE or name in ref.IMPLICIT:
            ctx.cases("natural-" + name, ctx.n(20, 400) // ctx.nshards, natural(name), start=ctx.shard * 100000)
