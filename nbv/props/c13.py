"""C13: compiled and interpreted mode give the same results.

The same deterministic scripts run in compiled and interpreted workers; each
logs every returned value, state and exception type, and the parent compares
the logs (nbv/finish.py)."""

import numpy as np

from .. import drive, evmodel, ref
from ..problems import MODULE, Problem, cls_of, compiled

EXTRA = ["stepu", "skipu", "skipn", "events", "step", "skip", "stepnu"]


def case(name, index, seed):
    def fn(ctx, rng):
        which = ["ring"] if not ctx.thorough else list(MODULE)
        pname = str(rng.choice(which))
        f, lip = MODULE[pname]
        n = int(rng.integers(1, 5))
        prob = Problem(pname, n, f, lip, rng.uniform(0.1, 1.2, size=n), compiled(ctx, f))
        t0 = float(rng.choice([0.0, 1.0, -3.25, rng.uniform(-20, 20)]))
        far = (index + seed) % 3 == 0
        if far:
            # Far from zero, where single precision would not tell steps apart.
            t0 = float(rng.choice([-1, 1]) * rng.integers(2**16, 2**20))
        h = float(np.exp(rng.uniform(np.log(0.01), np.log(0.2))))
        if pname == "stiff":
            h = min(h, 0.04)
        kw = {}
        if name in ref.ADAPTIVE:
            # Steps of several time constants feed rounding back into the
            # step sizes: either steps are limited or tolerances are tight.
            if rng.random() < 0.5:
                kw = {"rtol": float(10 ** rng.uniform(-6, -2)), "atol": float(10 ** rng.uniform(-7, -3)),
                      "max_step": float(rng.uniform(0.1, 0.7))}
            else:
                kw = {"rtol": float(10 ** rng.uniform(-8, -5)), "atol": float(10 ** rng.uniform(-9, -6))}
            if rng.random() < 0.5:
                kw["first_step"] = h
        else:
            kw["h"] = h
            if name in ref.MULTISTEP:
                kw["first_stepper_cls"] = None
        if rng.random() < 0.3:
            kw["t_bound"] = t0 + h * float(rng.uniform(2, 30))
        sol = ctx.must(f"new {name}", cls_of(name), prob.rhs, t0, prob.y0, **kw)
        log = []

        def note(label, out=None):
            row = [label]
            if out is not None:
                if not out.ok:
                    row.append(["raised", type(out.exc).__name__])
                else:
                    v = out.value
                    v = v if isinstance(v, tuple) else (v,)
                    row.append([flat(x) for x in v])
            row.append([flat(float(sol.t)), flat(sol.y), flat(sol.f), flat(float(sol.h))])
            log.append(row)

        note("new")
        extra = EXTRA if ctx.thorough else [EXTRA[(index + seed) % len(EXTRA)]]
        if name in ref.ADAPTIVE or name in ("AdamsMoulton3", "RungeKutta4"):
            extra = sorted(set(extra) | {"events"})
        ops = ["stepn", "stepn", "run", "interp", "badrun"] + extra * 2
        if far:
            ops = ops + ["run", "run", "run"]
        ev = [compiled(ctx, evmodel.ev_a), compiled(ctx, evmodel.ev_c), compiled(ctx, evmodel.ev_tiny)]
        for e in ev:
            e.direction, e.terminal = float(rng.choice([-1, 0, 1])), bool(rng.random() < 0.3)
        for _ in range(12):
            if not np.max(np.abs(sol.y)) < 1e4:
                break
            op = str(rng.choice(ops))
            t, hh = float(sol.t), float(sol.h)
            # Limits from the script only: the proposal differs in the last digits.
            a = t + float(rng.uniform(0.3, 4.6)) * h
            k = int(rng.integers(1, 5))
            sub = np.sort(t + rng.uniform(0.0, 4.0, size=3) * h)
            if op in ("stepu", "skipu", "stepnu") and name in ref.ADAPTIVE:
                # stay away from the decision t + h > limit
                a = t + hh * float(rng.choice([0.5, 1.5]))
            v = {"stepn": {"n": k}, "skipn": {"n": k}, "stepu": {"upto_t": a}, "skipu": {"upto_t": a},
                 "stepnu": {"n": k, "upto_t": a}, "step": {}, "skip": {}}
            if op in v:
                if ("upto_t" in v[op]) and name not in ref.ADAPTIVE:
                    v[op]["upto_t"] = t + h * (k + 0.4)
                out = ctx.call(op, getattr(sol, "skip" if op.startswith("skip") else "step"), **v[op])
            elif op == "run":
                out = ctx.call(op, sol.run, sub)
            elif op == "events":
                out = ctx.call(op, sol.run_events, sub, ev)
                if out.ok:
                    r = out.value
                    out.value = (r[0], r[1]) + tuple(np.array(x, dtype=float) for x in r[2]) + tuple(
                        np.array([np.array(y) for y in x], dtype=float).ravel() for x in r[3])
            elif op == "badrun":
                out = ctx.call(op, sol.run, [t0 - 1.0])
            else:
                out = ctx.call(op, sol.interpolate, t)
            note(op, out)
            ctx.seen("op_" + op)
        if far:
            ctx.seen("far_from_zero")
        ctx.log[f"{ctx.case_id[0]}:{ctx.case_id[1]}"] = {"solver": name, "prob": repr(prob), "kw": str(kw), "log": log, "far": far,
                                                          "shard": [ctx.shard, ctx.nshards]}
        ctx.distinct(name, pname, n, [r[0] for r in log], round(t0, 6))
        ctx.sample(solver=name, problem=repr(prob), kw=str(kw), operations=[r[0] for r in log], t_end=float(sol.t))

    return fn


def flat(x):
    a = np.asarray(x, dtype=float)
    return [list(a.shape), [float(v) if np.isfinite(v) else str(v) for v in a.ravel()]]


def functions(ctx, rng):
    """Root finders and helpers, and params, in both modes."""
    from nbkode.nbcompat import clip, isclose, j_newton, newton_hd
    from nbkode.nbcompat.zeros import bisect

    log = []
    g, gp = compiled(ctx, cubic), compiled(ctx, cubic_p)
    for _ in range(30):
        c = float(rng.uniform(-3, 3))
        x0 = float(rng.uniform(-2, 2))
        for label, args in (("secant", (g, x0, None, (c,))), ("newton", (g, x0, gp, (c,)))):
            out = ctx.call(label, j_newton, *args)
            log.append([label, [flat(out.value)] if out.ok else ["raised", type(out.exc).__name__]])
        out = ctx.call("bisect", bisect, g, -5.0, 5.0, 0.0, 60, 0.0, (c,))
        log.append(["bisect", [flat(out.value)] if out.ok else ["raised", type(out.exc).__name__]])
        a, b = float(rng.normal()), float(rng.normal())
        log.append(["isclose", [flat(float(isclose(a, b, 0.5, 0.5)))]])
        log.append(["clip", [flat(float(clip(a, -0.5, 0.5)))]])
    m = compiled(ctx, vec)
    for _ in range(20):
        n = int(rng.integers(2, 5))
        y = rng.normal(size=n)
        c = rng.normal(size=n)
        out = ctx.call("newton_hd", newton_hd, m, y, (c,))
        log.append(["newton_hd", [flat(out.value)] if out.ok else ["raised", type(out.exc).__name__]])
    ctx.log["functions:0"] = {"solver": "functions", "prob": "", "kw": "", "log": log, "shard": [ctx.shard, ctx.nshards]}


def cubic(x, c):
    return x * x * x + x - c


def cubic_p(x, c):
    return 3 * x * x + 1


def vec(y, c):
    return y + 0.3 * np.sin(y) - c


def run(ctx):
    per = ctx.n(5, 60)
    todo = [(i, n) for i, n in enumerate(ref.ALL)]
    # Adaptive classes compile longest: spread the classes over the shards.
    order = [x for k in range(ctx.nshards) for x in todo[k::ctx.nshards]]
    mine = [x for j, x in enumerate(todo) if j % ctx.nshards == ctx.shard]
    for i, name in mine:
        ctx.cases(name, per, case(name, i, ctx.seed))
    if ctx.shard == 0:
        ctx.cases("functions", 1, functions)
