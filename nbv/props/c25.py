"""C25: what a method must get exactly right comes out exact.

Monitors that need no model of the method: equations whose solutions every
method of an order has to reproduce (polynomials in time), quantities that
every method has to conserve (linear first integrals), states at which every
method has to rest (equilibria), and linear equations, whose results add up."""

import numpy as np

from .. import drive, ref
from ..problems import Problem, cls_of, compiled, random_h, random_problem, random_t0

ORDER = {**{n: m.order for n, m in ref.RK_FIXED.items()}, **{n: m.order for n, m in ref.MULTISTEP.items()},
         "RungeKutta23": 3, "RungeKutta45": 5, "DOP853": 8}
# Degree of solution the continuous extension reproduces.
DENSE = {"RungeKutta45": 4, "DOP853": 7}
NEWTON = 1.48e-8  # documented tolerance of the nonlinear solver, per step


# ---- compiled equations ---------------------------------------------------
def slopes(t, y):
    """Solution: straight lines."""
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = 0.75 - 0.5 * i
    return out


def parabolas(t, y):
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = (0.75 - 0.5 * i) + (1.25 * i - 1.0) * t
    return out


def closed_ring(t, y):
    """Exchange around a ring: the sum does not change."""
    out = np.zeros_like(y)
    for i in range(y.size):
        j = (i + 1) % y.size
        flow = 0.7 * np.sin(y[i] + 0.3 * t) - 0.4 * y[j] * (1.0 + 0.2 * i)
        out[i] -= flow
        out[j] += flow
    return out


def resting(t, y):
    """Rests exactly at y = (1, 2, 3, ...)."""
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = np.sin(y[i] - (i + 1.0)) * (1.5 + np.cos(t)) - 0.3 * (y[i - 1] - (i % y.size if i else y.size))
    return out


def kw_for(ctx, rng, name, h):
    kw = {}
    if name in ref.ADAPTIVE:
        kw["rtol"] = float(10.0 ** rng.uniform(-6, -2))
        kw["atol"] = float(10.0 ** rng.uniform(-7, -3))
        if rng.random() < 0.5:
            kw["first_step"] = h
        kw["max_step"] = float(rng.choice([np.inf, 1.0, 3 * h]))
    else:
        kw["h"] = h
        if name in ref.MULTISTEP and ctx.jit:
            kw["first_stepper_cls"] = None
        elif name in ref.MULTISTEP and rng.random() < 0.6:
            kw["first_stepper_cls"] = [None, "RungeKutta4", "Heun3", "Euler", "DOP853"][int(rng.integers(0, 5))]
    return kw


def unit(ctx, rng, name, kw):
    """A unit of the state: methods do not know it (nonlinear solvers do)."""
    if ctx.jit or name in ref.IMPLICIT or rng.random() < 0.6:
        return 1.0
    u = 2.0 ** int(rng.integers(-60, 61))
    if "atol" in kw:
        kw["atol"] *= u
    if str(kw.get("first_stepper_cls", "auto")) in ("auto", "DOP853") and ref.START.get(name, 1) > 1:
        kw["first_stepper_cls"] = "RungeKutta4"  # adaptive starters have tolerances of their own
    return u


def drive_all(ctx, rng, sol, name, h, label):
    """A mixture of calls; yields (kind, times, states) of everything seen.
    kind: 'step', 'past' (times may lie in older steps) or 'run'."""
    t = float(sol.t)
    yield "step", [t], [np.array(sol.y)]
    for _ in range(int(rng.integers(2, 6))):
        op = str(rng.choice(["stepn", "upto", "skip", "run", "runs", "events", "interp"]))
        t, hh = float(sol.t), float(sol.h)
        if not np.isfinite(hh) or hh > 20 or not abs(t) < 1e3:
            return
        ctx.seen("op_" + op)
        if op == "stepn":
            ts, ys = ctx.must(op, sol.step, n=int(rng.integers(1, 6)))
            yield "step", ts, ys
        elif op == "upto":
            ts, ys = ctx.must(op, sol.step, upto_t=t + float(rng.uniform(0, 5)) * hh)
            yield "step", ts, ys
        elif op == "skip":
            ctx.must(op, sol.skip, n=int(rng.integers(1, 6)))
        elif op == "interp":
            wide = name not in ref.ADAPTIVE or label.get("degree", 1) <= 3
            for x in rng.uniform(0, 1, size=2):
                # (fixed step: older steps too, as far as they are on record)
                a = t - x * min(hh, h) * (float(rng.choice([1, 5])) if name not in ref.ADAPTIVE else 1 if wide else 1e-3)
                out = ctx.call(op, sol.interpolate, a)
                if out.ok:
                    yield "run", [a], [out.value]
        else:
            ts = t + rng.uniform(0, 5, size=int(rng.integers(1, 7))) * hh
            if op == "run":
                ts = np.sort(ts)
            if op == "events":
                ev = label.get("event")
                if ev is None:
                    continue
                a, b, te, ye = ctx.must(op, sol.run_events, np.sort(ts), [ev])
                yield "run", a, b
                yield "event", te[0], ye[0]
            else:
                a, b = ctx.must(op, sol.run, ts)
                yield "run", a, b
        yield "step", [float(sol.t)], [np.array(sol.y)]


# ---- polynomials ----------------------------------------------------------
def polynomial(name):
    p = ORDER[name]
    implicit = name in ref.IMPLICIT

    def fn(ctx, rng):
        n = int(rng.integers(1, 5))
        t0, h = random_t0(rng), random_h(rng, lo=2e-2, hi=0.5)
        if ctx.jit:
            deg = 2 if p > 1 else 1
            f = {1: slopes, 2: parabolas}[deg]
            c = np.zeros((deg + 1, n))
            c[1] = 0.75 - 0.5 * np.arange(n)
            if deg == 2:
                # about time zero: c1 + c2 t
                c[2] = (1.25 * np.arange(n) - 1.0) / 2
            origin = 0.0
            t0 = float(rng.choice([0.0, 1.0, -2.5]))
        else:
            deg = int(rng.integers(1, p + 1))
            c = rng.normal(size=(deg + 1, n))
            origin = t0
            d = c[1:] * np.arange(1, deg + 1)[:, None]

            def f(t, y):
                s, out = t - origin, np.zeros(n)
                for row in d[::-1]:
                    out = out * s + row
                return out

        kw = kw_for(ctx, rng, name, h)
        c = c * unit(ctx, rng, name, kw)
        if not ctx.jit:
            d = c[1:] * np.arange(1, deg + 1)[:, None]
        exact = lambda t: np.array([np.polyval(c[::-1, i], t - origin) for i in range(n)])
        y0 = exact(t0)
        prob = Problem("polynomial", n, f, 0.0, y0, compiled(ctx, f))
        ev = None
        if not ctx.jit and not implicit:
            w, lv = rng.normal(size=n), 0.0
            lv = float(w @ exact(t0 + float(rng.uniform(0, 8)) * h))
            ev = lambda t, y: w @ y - lv
        what = lambda: f"{name} degree {deg} solution, t0={t0!r} {kw}"
        sol = ctx.must(f"new {name}", cls_of(name), prob.rhs, t0, y0, **kw)
        first, nsteps, base, moved = None, 0, None, 0.0
        if name in ref.MULTISTEP and ref.START[name] > 1:
            st = kw.get("first_stepper_cls", "auto")
            s_deg = {None: 0, "Euler": 1, "Heun3": 3, "RungeKutta4": 4, "DOP853": 7, "auto": 0}[st]
            if st is None or name.startswith("BDF") and s_deg < deg:
                # Constant past: no polynomial but a constant fits it.
                if name.startswith("BDF"):
                    return
                ctx.must("skip", sol.skip, n=ref.START[name])
            if s_deg < deg:
                # The starter is not exact: compare with where it led.
                first = float(sol.t)
                base = np.array(sol.y) - exact(first)
        base = np.zeros(n) if base is None else base
        begin = t0 if first is None else first
        for kind, ts, ys in drive_all(ctx, rng, sol, name, h, {"event": ev, "degree": deg}):
            ts = np.asarray(ts, dtype=float)
            if not len(ts):
                continue
            keep = ts >= begin
            ok = kind == "step" or deg <= DENSE.get(name, 3)
            if not ok:
                continue
            want = np.array([exact(t) + base for t in ts])
            span = float(np.max(np.abs(ts - t0))) + h
            nsteps = max(nsteps, int((max(float(sol.t), float(np.max(ts))) - t0) / h) + 2)
            size = sum(np.abs(c[q]) * max(span, abs(t0 - origin) + span) ** q for q in range(deg + 1))
            tol = (1e-11 * (1 + abs(t0)) * size) * (1 + span / h) ** 0.5
            if implicit:
                tol = tol + 2 * NEWTON * nsteps * (4 if name.startswith("BDF") else 1)
            if kind == "event":
                # Every reported crossing is a root of the known polynomial.
                g = np.array([w @ (exact(t) + base) - lv for t in ts])
                ctx.check(np.all(np.abs(g) <= 4 * np.sum(np.abs(w) * tol)), "event-root",
                          lambda: f"{what()}: events at {ts}, where the event function is {g}")
                ctx.seen("event_roots", len(ts))
            err = np.abs(np.asarray(ys, dtype=float) - want)[keep]
            ctx.check(np.all(err <= tol), "polynomial-" + kind,
                      lambda: f"{what()}: off by {np.max(err):.3g} (allowed {np.min(tol):.3g}) at {ts[keep][np.argmax(np.max(err, axis=1))]!r}")
            ctx.seen("points_" + kind, int(np.sum(keep)))
        ctx.seen("polynomial_cases")
        ctx.seen(f"top_degree", deg == p)
        ctx.distinct("poly", name, deg, n, str(c), str(kw))
        ctx.sample(solver=name, degree=deg, t0=t0, keywords=str(kw), t_end=float(sol.t))

    return fn


# ---- linear first integrals -----------------------------------------------
def invariant(name):
    implicit = name in ref.IMPLICIT

    def fn(ctx, rng):
        t0, h = random_t0(rng), random_h(rng, lo=2e-3, hi=0.2)
        if ctx.jit:
            n = int(rng.integers(2, 6))
            y0 = rng.normal(size=n)
            W = np.ones((1, n))
            f, lip = closed_ring, 3.0
        else:
            inner = random_problem(ctx, rng)
            m, k = inner.n, int(rng.integers(1, 3))
            V = rng.normal(size=(k, m))
            n = m + k
            P = rng.permutation(n)
            back = np.argsort(P)
            g = inner.f

            def f(t, z):
                d = g(t, z[back][:m])
                return np.concatenate((d, -V @ d))[P]

            W = np.concatenate((V, np.eye(k)), axis=1)[:, P]
            y0 = np.concatenate((inner.y0, rng.normal(size=k)))[P]
            lip = inner.lip * (1 + np.linalg.norm(V))
        prob = Problem("invariant", n, f, lip, y0, compiled(ctx, f))
        kw = kw_for(ctx, rng, name, h)
        u = unit(ctx, rng, name, kw)
        if u != 1.0:
            f0 = f
            y0 = y0 * u
            prob.rhs = lambda t, z: u * f0(t, z / u)
        I0 = W @ y0
        level = float(I0[0]) + u * float(rng.choice([-1, 1])) * float(rng.uniform(0.01, 0.5))
        ev = None if ctx.jit else (lambda t, z: W[0] @ z - level)
        sol = ctx.must(f"new {name}", cls_of(name), prob.rhs, t0, y0, **kw)
        big, total = 0.0, 0
        for kind, ts, ys in drive_all(ctx, rng, sol, name, h, {"event": ev}):
            ts, ys = np.asarray(ts, dtype=float), np.asarray(ys, dtype=float)
            if not len(ts):
                continue
            if kind == "event":
                ctx.check(False, "event-of-a-constant",
                          lambda: f"{name} n={n} {kw}: an event at {ts} for a quantity that stays {abs(level - I0[0]):.3g} away")
            big = max(big, float(np.max(np.abs(ys))))
            if not big < 1e4 * u:
                ctx.seen("grown")
                return
            total = max(total, (max(float(sol.t), float(np.max(ts))) - t0) / h + 2)
            tol = 1e-12 * (1 + abs(t0) * 1e-2) * (u + big) * np.sum(np.abs(W), axis=1) * (10 + total)
            if implicit:
                # The residual of the nonlinear solver, over all steps.
                tol = tol + 40 * NEWTON * (1 + h * lip) * np.linalg.norm(W, axis=1) * total
            err = np.abs(ys @ W.T - I0)
            ctx.check(np.all(err <= tol), "invariant-" + kind,
                      lambda: f"{name} n={n} t0={t0!r} {kw}: a linear first integral changed by {np.max(err):.3g} (allowed {np.min(tol):.3g})")
            ctx.seen("invariant_points", len(ts))
        ctx.seen("invariant_cases")
        ctx.distinct("inv", name, n, str(y0), str(kw))
        ctx.sample(solver=name, n=n, t0=t0, keywords=str(kw), integrals=I0, t_end=float(sol.t))

    return fn


# ---- equilibria -----------------------------------------------------------
def equilibrium(name):
    implicit = name in ref.IMPLICIT

    def fn(ctx, rng):
        t0, h = random_t0(rng), random_h(rng)
        if ctx.jit:
            n = int(rng.integers(1, 5))
            y0, f = np.arange(1.0, n + 1), resting
        else:
            inner = random_problem(ctx, rng)
            n, y0, g = inner.n, inner.y0, inner.f
            f = lambda t, y: g(t, y) - g(t, y0)
        prob = Problem("equilibrium", n, f, 1.0, y0, compiled(ctx, f))
        kw = kw_for(ctx, rng, name, h)
        ev = None if ctx.jit else (lambda t, y: y[0] - y0[0] - 0.01)
        sol = ctx.must(f"new {name}", cls_of(name), prob.rhs, t0, y0, **kw)
        seen_h = [float(sol.h)]
        total = 0
        for kind, ts, ys in drive_all(ctx, rng, sol, name, h, {"event": ev}):
            if not len(ts):
                continue
            ctx.check(kind != "event", "event-at-rest", lambda: f"{name} {kw}: an event at {ts} of a state at rest")
            total = max(total, (float(sol.t) - t0) / min(h, float(sol.h)) + 2)
            err = float(np.max(np.abs(np.asarray(ys, dtype=float) - y0)))
            # Steps of backward differences round; nothing else does anything.
            tol = 1e-13 * (1 + float(np.max(np.abs(y0)))) * (4 + total if name.startswith("BDF") else 4)
            ctx.check(err <= tol, "rest-" + kind, lambda: f"{name} n={n} t0={t0!r} {kw}: moved by {err:.3g} from an equilibrium")
            ctx.seen("rest_points", len(ts))
            seen_h.append(float(sol.h))
        ctx.check(all(b >= a for a, b in zip(seen_h, seen_h[1:])) or name not in ref.ADAPTIVE, "rest-step",
                  lambda: f"{name} {kw}: steps {seen_h} shrink where nothing happens")
        ctx.seen("equilibrium_cases")
        ctx.distinct("eq", name, n, str(y0), str(kw))
        ctx.sample(solver=name, n=n, keywords=str(kw), t_end=float(sol.t))

    return fn


# ---- superposition ---------------------------------------------------------
def superposition(name):
    implicit = name in ref.IMPLICIT

    def fn(ctx, rng):
        n = int(rng.integers(1, 5))
        A, B = rng.normal(size=(2, n, n)) * 0.5
        w = float(rng.uniform(0.2, 2))
        t0, h = random_t0(rng), random_h(rng, lo=5e-3, hi=0.2)
        u0, v0 = rng.normal(size=(2, n))
        p, q = rng.normal(size=2)
        b = rng.normal(size=(2, n))

        def eq(kind):
            force = {"u": b[0], "v": b[1], "s": p * b[0] + q * b[1]}[kind]
            return lambda t, y: A @ y + np.cos(w * t) * (B @ y) + np.sin(t) * force

        kw = kw_for(ctx, rng, name, h)
        if kw.get("first_stepper_cls", None if ref.START.get(name, 1) > 1 else "x") in ("DOP853", None) and "first_stepper_cls" not in kw \
                or kw.get("first_stepper_cls") == "DOP853":
            kw["first_stepper_cls"] = "RungeKutta4"  # adaptive starters are not linear
        sols = [ctx.must(f"new {name}", cls_of(name), eq(k), t0, y, **kw) for k, y in (("u", u0), ("v", v0), ("s", p * u0 + q * v0))]
        steps = 0
        for _ in range(int(rng.integers(2, 6))):
            op = str(rng.choice(["stepn", "run", "skip"]))
            m = int(rng.integers(1, 7))
            t = float(sols[0].t)
            if op == "stepn":
                out = [ctx.must(op, s.step, n=m) for s in sols]
            elif op == "run":
                ts = t + rng.uniform(0, 6, size=m) * h
                out = [ctx.must(op, s.run, ts) for s in sols]
            else:
                for s in sols:
                    ctx.must(op, s.skip, n=m)
                out = [(np.array([float(s.t)]), np.array([s.y])) for s in sols]
            steps = (float(sols[0].t) - t0) / h + 2
            (ta, ya), (tb, yb), (tc, yc) = out
            want = p * np.asarray(ya) + q * np.asarray(yb)
            size = float(max(np.max(np.abs(x)) for x in (1, ya, yb, yc)))
            if not size < 1e5:
                return
            L = np.linalg.norm(A, 2) + np.linalg.norm(B, 2)
            grow = np.exp(min(L * steps * h * 1.5, 25.0))
            tol = 1e-12 * size * (10 + steps) * (1 + abs(p) + abs(q))
            if implicit:
                tol += 10 * NEWTON * steps * (1 + abs(p) + abs(q)) * grow
            else:
                tol += 1e-14 * grow
            if tol > 1e-3 * size:
                return
            ctx.check(np.array_equal(ta, tc) and drive.close(yc, want, tol), "superposition",
                      lambda: f"{name} n={n} t0={t0!r} {kw} {op}: results do not add up, off by {drive.maxdiff(yc, want)} (allowed {tol:.3g})")
            ctx.seen("superposed", len(ta))
        ctx.seen("superposition_cases")
        ctx.distinct("sup", name, n, str(u0), str(kw))
        ctx.sample(solver=name, n=n, keywords=str(kw), p=p, q=q)

    return fn


def run(ctx):
    if ctx.jit:
        names = ["RungeKutta4", "Heun3", "AdamsBashforth3", "AdamsMoulton3", "BDF2", "RungeKutta45", "RungeKutta23", "DOP853"]
        if ctx.thorough:
            names = ref.ALL
        for name in ctx.mine(names):
            ctx.cases("jit-poly-" + name, ctx.n(12, 200), polynomial(name))
            ctx.cases("jit-inv-" + name, ctx.n(12, 200), invariant(name))
            if ctx.thorough:
                ctx.cases("jit-eq-" + name, 200, equilibrium(name))
        return
    for name in ref.ALL:
        per = ctx.n(240, 12000) // ctx.nshards
        ctx.cases("py-poly-" + name, per, polynomial(name), start=ctx.shard * 100000)
        ctx.cases("py-inv-" + name, per, invariant(name), start=ctx.shard * 100000)
        ctx.cases("py-eq-" + name, per // 2, equilibrium(name), start=ctx.shard * 100000)
        if name not in ref.ADAPTIVE:
            ctx.cases("py-sup-" + name, per // 2, superposition(name), start=ctx.shard * 100000)
