"""C19: results do not depend on how the problem is written down.

Metamorphic monitor: the same script is run on a problem and on a transformed
copy (components permuted, time shifted or scaled, state mapped by an affine
map, duplicated, stacked with an independent system); after every operation
the observable state of both is compared through the transformation."""

import numpy as np

from .. import drive, evmodel, ref
from ..problems import MODULE, Problem, cls_of, compiled, osc, random_h, random_problem, random_t0


def pair(ctx, rng, name):
    """(problem, twin rhs, T: y -> z, t map, keyword maps, label, tolerance factor)"""
    adaptive = name in ref.ADAPTIVE
    if ctx.jit:
        # Only transformations that keep the compiled function: autonomous, linear.
        n = 2 * int(rng.integers(1, 3))
        f = compiled(ctx, osc)
        prob = Problem("osc", n, osc, 4.0, rng.normal(size=n), f)
        kind = str(rng.choice(["shift", "scale", "reflect"]))
        s = float(rng.choice([1.0, -2.5, 16.0, 0.375]))
        c = float(2.0 ** rng.integers(-6, 7)) if kind == "scale" else -1.0
        if kind == "shift":
            return prob, f, (lambda y: y), (lambda t: t + s), 1.0, 1.0, kind
        return prob, f, (lambda y: c * y), (lambda t: t), abs(c), 1.0, kind
    prob = random_problem(ctx, rng)
    f, n = prob.f, prob.n
    kinds = ["permute", "shift", "stretch", "double", "reflect", "scale"]
    if not adaptive:
        kinds += ["affine", "affine", "stack"]
    kind = str(rng.choice(kinds))
    if kind == "permute":
        p = rng.permutation(n)
        q = np.argsort(p)
        return prob, (lambda t, z: f(t, z[q])[p]), (lambda y: y[p]), (lambda t: t), 1.0, 1.0, kind
    if kind == "shift":
        s = float(rng.choice([1.0, -2.5, 16.0, rng.uniform(-5, 5)]))
        return prob, (lambda t, z: f(t - s, z)), (lambda y: y), (lambda t: t + s), 1.0, 1.0, kind
    if kind == "stretch":
        c = float(2.0 ** rng.integers(-6, 7))
        return prob, (lambda t, z: f(t / c, z) / c), (lambda y: y), (lambda t: c * t), 1.0, c, kind
    if kind == "double":
        return prob, (lambda t, z: np.concatenate((f(t, z[:n]), f(t, z[n:])))), (lambda y: np.concatenate((y, y))), (lambda t: t), 1.0, 1.0, kind
    if kind == "stack":
        B = rng.normal(size=(2, 2)) * 0.5
        w0 = rng.normal(size=2)
        t_start = {}

        def T(y):
            return np.concatenate((y, w0)) if not t_start else y

        return prob, (lambda t, z: np.concatenate((f(t, z[:n]), B @ z[n:] + np.sin(t)))), T, (lambda t: t), 1.0, 1.0, kind
    if kind in ("reflect", "scale"):
        c = -1.0 if kind == "reflect" else float(2.0 ** rng.integers(-8, 9)) * float(rng.choice([-1, 1]))
        return prob, (lambda t, z: c * f(t, z / c)), (lambda y: c * y), (lambda t: t), abs(c), 1.0, kind
    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    M = Q * np.exp(rng.uniform(-1, 1, size=n))
    Mi = np.linalg.inv(M)
    b = rng.normal(size=n)
    return prob, (lambda t, z: M @ f(t, Mi @ (z - b))), (lambda y: M @ y + b), (lambda t: t), 1.0, 1.0, kind


def case(name):
    implicit = name in ref.IMPLICIT

    def fn(ctx, rng):
        prob, g, T, tm, c, ct, kind = pair(ctx, rng, name)
        t0, h = random_t0(rng), random_h(rng, lo=5e-3, hi=0.2)
        if kind == "shift" and abs(t0) > 20:
            t0 = 0.0
        kw, kz = {}, {}
        if name in ref.ADAPTIVE:
            kw = {"rtol": float(10 ** rng.uniform(-6, -2)), "atol": float(10 ** rng.uniform(-7, -3))}
            kz = dict(kw, atol=kw["atol"] * c)
            if rng.random() < 0.6:
                kw["first_step"], kz["first_step"] = h, h * ct
            if rng.random() < 0.3:
                m = float(rng.uniform(0.1, 1))
                kw["max_step"], kz["max_step"] = m, m * ct
            if ("first_step" not in kw) and (ct != 1.0 or kind == "scale"):
                # the automatic first step has absolute thresholds
                kw["first_step"], kz["first_step"] = h, h * ct
        else:
            kw["h"], kz["h"] = h, h * ct
            if name in ref.MULTISTEP:
                # the default starter is adaptive
                st = [None] if ctx.jit else [None, "RungeKutta4", "Heun3"]
                st = st[int(rng.integers(0, len(st)))]
                kw["first_stepper_cls"] = kz["first_stepper_cls"] = st
        cls = cls_of(name)
        a = ctx.must(f"new {name}", cls, prob.rhs, t0, prob.y0, **kw)
        z0 = T(prob.y0)
        b = ctx.must(f"new {name} transformed", cls, g, tm(t0), z0, **kz)
        n = prob.n
        control = None
        if name in ref.ADAPTIVE:
            # The original with rounding errors added: how far they carry.
            def noisy(t, y):
                eps = 4e-15 + 4e-16 * (abs(t) + abs(tm(t)) / ct) / h
                return prob.f(t, y) * (1 + eps * np.sin(1e5 * (t + np.arange(n)) + 1e6 * y[::-1]))

            yc = prob.y0 * (1 + 1e-14 * rng.normal(size=n))
            control = ctx.must(f"new {name} control", cls, prob.rhs if ctx.jit else noisy, t0, yc, **kw)
            quiet = ctx.must(f"new {name} quiet", cls, prob.rhs, t0, prob.y0, **kw)
        back = (lambda z: z[..., :n]) if kind == "stack" else None
        ops = []
        tol0 = 1e-9 if not implicit else 3e-6
        if implicit:
            tol0 *= max(1.0, c, 1 / c)
        what = lambda: f"{name} {prob} {kind} t0={t0!r} {kw} / {kz} after {ops}"

        part = [0.0]  # how far rounding has carried the control

        def cmp(label, ta, ya, tb, yb):
            if part[0] > 1e-7:
                ctx.seen("rounding_decides")
                return
            loose = 1 + 1e4 * part[0] / 1e-9
            ta, tb = np.asarray(ta, dtype=float), np.asarray(tb, dtype=float)
            ctx.check(ta.shape == tb.shape and drive.close(tm(ta) / ct, tb / ct, loose * 1e-10 * (1 + np.abs(ta)) + 1e-10 * np.abs(tb) / ct), "time-" + label,
                      lambda: f"{what()}: {ta} / {tb}")
            ya, yb = np.asarray(ya, dtype=float), np.asarray(yb, dtype=float)
            if back is not None:
                ctx.check(yb.shape[-1] == n + 2, "shape-" + label, lambda: f"{what()}: {yb.shape}")
                yb = back(yb)
                za = ya
            elif ya.ndim == 2:
                za = np.array([T(y) for y in ya]).reshape(-1, yb.shape[-1]) if len(ya) else yb[:0]
            else:
                za = T(ya)
            tol = loose * tol0 * (c + np.abs(za))
            ctx.check(drive.close(za, yb, tol), "state-" + label,
                      lambda: f"{what()}: {ya} maps to {za}, the transformed problem gives {yb}")
            ctx.seen("comparisons")

        def with_control(op, m, ts):
            """The operation on the control and on a fourth copy without noise."""
            for sol in (control, quiet):
                if op in ("step", "stepn", "skipn"):
                    ctx.must(op, sol.skip, n=1 if op == "step" else m)
                elif op in ("run", "events"):
                    ctx.must(op, sol.run, ts[ts > float(sol.t)] if np.any(ts > float(sol.t)) else float(sol.t))
            (tc, yc, _, hc), (tq, yq, _, hq) = drive.state(control), drive.state(quiet)
            part[0] = max(part[0], abs(tc - tq) / hq, float(np.max(np.abs(yc - yq) / (1 + np.abs(yq)))), abs(hc - hq) / hq)

        cmp("start", float(a.t), a.y, float(b.t), b.y)
        for _ in range(int(rng.integers(3, 9))):
            op = str(rng.choice(["stepn", "run", "interp"] if ctx.jit else ["step", "stepn", "skipn", "run", "interp", "events"]))
            m = int(rng.integers(1, 5))
            ops.append(op)
            t = float(a.t)
            if not np.max(np.abs(a.y)) < 1e4:
                break
            ts = np.sort(t + rng.uniform(0.0, 4.0, size=m) * h)
            if control is not None:
                with_control(op, m, ts)
            if op == "step":
                ra, rb = ctx.must(op, a.step), ctx.must(op, b.step)
                cmp(op, ra[0], ra[1], rb[0], rb[1])
            elif op == "stepn":
                ra, rb = ctx.must(op, a.step, n=m), ctx.must(op, b.step, n=m)
                cmp(op, ra[0], ra[1], rb[0], rb[1])
            elif op == "skipn":
                ctx.must(op, a.skip, n=m)
                ctx.must(op, b.skip, n=m)
            elif op in ("run", "events"):
                if op == "run":
                    ra, rb = ctx.must(op, a.run, ts), ctx.must(op, b.run, tm(ts))
                    cmp(op, ra[0], ra[1], rb[0], rb[1])
                else:
                    # An event of time alone means the same in both problems.
                    w, ph = float(rng.uniform(2, 9)), float(rng.uniform(0, 6))
                    ea = lambda t, y: np.sin(w * t + ph)
                    inv = {"shift": lambda t: t - (tm(0.0)), "stretch": lambda t: t / ct}.get(kind, lambda t: t)
                    eb = lambda t, y: np.sin(w * inv(t) + ph)
                    ra, rb = ctx.must(op, a.run_events, ts, [ea]), ctx.must(op, b.run_events, tm(ts), [eb])
                    cmp(op, ra[0], ra[1], rb[0], rb[1])
                    if len(ra[2][0]) == len(rb[2][0]):
                        cmp("event", ra[2][0], np.reshape(ra[3][0], (-1, n)), rb[2][0], np.reshape(rb[3][0], (-1, len(z0))))
                        ctx.seen("events_compared", len(ra[2][0]))
                    else:
                        # A zero within rounding of a step time may move over it.
                        odd = set(np.round(np.asarray(ra[2][0]), 7)) ^ set(np.round(inv(np.asarray(rb[2][0])), 7))
                        edge = [float(a.t), t]
                        ctx.check(all(min(abs(x - e) for e in edge) < 1e-6 * (1 + abs(x)) for x in odd), "events",
                                  lambda: f"{what()}: {ra[2]} / {rb[2]}")
            else:
                lo = t
                cmp(op, [lo], [ctx.must(op, a.interpolate, lo)], [float(b.t)], [ctx.must(op, b.interpolate, float(b.t))])
            cmp("after", float(a.t), a.y, float(b.t), b.y)
            ha, hb = float(a.h), float(b.h) / ct
            if name not in ref.ADAPTIVE:
                ctx.check(abs(ha - hb) <= 1e-12 * ha, "step-size", lambda: f"{what()}: h {ha!r} / {hb!r}")
            elif part[0] <= 1e-7:
                ctx.check(abs(ha - hb) <= (1e-7 + 1e4 * part[0]) * ha, "step-size", lambda: f"{what()}: h {ha!r} / {hb!r}; control {part[0]!r}")
                ctx.seen("proposals_compared")
            if part[0] > 1e-7:
                break
        ctx.seen("kind_" + kind)
        ctx.distinct(name, prob.name, n, kind, ops)
        ctx.sample(solver=name, problem=repr(prob), transformation=kind, operations=ops)

    return fn


def run(ctx):
    if ctx.jit:
        names = ["RungeKutta4", "AdamsBashforth3", "AdamsMoulton3", "BDF2", "RungeKutta45", "RungeKutta23"] if not ctx.thorough else ref.ALL
        for name in ctx.mine(names):
            ctx.cases("jit-" + name, ctx.n(40, 800), case(name))
        return
    per = ctx.n(200, 10000)
    for name in ref.ALL:
        ctx.cases("py-" + name, per // ctx.nshards, case(name), start=ctx.shard * 100000)
