"""C21: results depend on the inputs only.

The same scripts run with untouched memory, with every fresh allocation
filled with two different patterns, and with bounds checks compiled in; each
script also runs twice in the same process with the heap churned in between.
The parent compares the logs (nbv/finish.py)."""

import numpy as np

from .. import evmodel, ref
from ..problems import MODULE, Problem, cls_of, compiled
from .c13 import flat

JIT = ["RungeKutta45", "AdamsMoulton3", "DOP853", "BDF6", "RungeKutta4"]


def script(ctx, rng, name):
    """One run; everything that the caller can see goes to the log."""
    pname = "ring" if ctx.jit else str(rng.choice(["ring", "forced", "osc", "logistic"]))
    f, lip = MODULE[pname]
    n = int(rng.integers(1, 6))
    prob = Problem(pname, n, f, lip, rng.uniform(0.1, 1.2, size=n), compiled(ctx, f))
    t0 = float(rng.choice([0.0, -3.25, rng.uniform(-20, 20)]))
    h = float(rng.uniform(0.02, 0.2))
    kw = {}
    if name in ref.ADAPTIVE:
        kw = {"rtol": float(10 ** rng.uniform(-6, -2)), "atol": float(10 ** rng.uniform(-7, -3)), "first_step": h}
    else:
        kw["h"] = h
        if name in ref.MULTISTEP and (ctx.jit or rng.random() < 0.5):
            kw["first_stepper_cls"] = None
    sol = ctx.must(f"new {name}", cls_of(name), prob.rhs, t0, prob.y0, **kw)
    log = []
    ev = [compiled(ctx, evmodel.ev_a), compiled(ctx, evmodel.ev_c)]
    for e in ev:
        e.direction, e.terminal = float(rng.choice([-1, 0, 1])), bool(rng.random() < 0.2)
    ops = ["stepn", "stepn", "run", "runs", "interp", "events", "skipn", "bad"]
    if ctx.py:
        ops += ["step", "stepu", "skipu"]
    start = float(sol.t)
    for _ in range(12):
        op = str(rng.choice(ops))
        t = float(sol.t)
        k = int(rng.integers(1, 7))
        sub = np.sort(rng.uniform(0.0, 6.0, size=int(rng.integers(1, 6)))) * h + t
        pick = float(rng.uniform())
        if op in ("stepn", "skipn"):
            out = ctx.call(op, sol.step if op == "stepn" else sol.skip, n=k)
        elif op == "step":
            out = ctx.call(op, sol.step)
        elif op in ("stepu", "skipu"):
            out = ctx.call(op, sol.step if op == "stepu" else sol.skip, upto_t=t + pick * 5 * h)
        elif op == "run":
            out = ctx.call(op, sol.run, sub)
        elif op == "runs":
            out = ctx.call(op, sol.run, rng.permutation(np.concatenate((sub, sub[:1]))))
        elif op == "events":
            out = ctx.call(op, sol.run_events, sub, ev)
            if out.ok:
                r = out.value
                out.value = (r[0], r[1]) + tuple(np.array(x, dtype=float) for x in r[2]) + tuple(
                    np.array([np.array(y) for y in x], dtype=float).ravel() for x in r[3])
        elif op == "bad":
            out = ctx.call(op, sol.run, [start - 50.0])
        else:
            out = ctx.call(op, sol.interpolate, t)
        row = [op]
        if out.ok:
            v = out.value if isinstance(out.value, tuple) else (out.value,)
            row.append([flat(x) for x in v if x is not None])
        else:
            row.append(["raised", type(out.exc).__name__])
            if out.raised(IndexError, MemoryError):
                ctx.fail("bounds", f"{name} {prob} {kw}: {op} -> {out!r}")
        row.append([flat(float(sol.t)), flat(sol.y), flat(sol.f), flat(float(sol.h))])
        log.append(row)
        ctx.seen("op_" + op)
    return repr(prob), str(kw), log


def case(name):
    def fn(ctx, rng):
        group, idx = ctx.case_id
        prob, kw, log = script(ctx, rng, name)
        # The same again in memory that was used for something else.
        churn = [np.full(int(m), 1e9 + i) for i, m in enumerate(rng.integers(1, 4000, size=60))]
        del churn[::2]
        _, _, again = script(ctx, ctx.rng(group, idx), name)
        for k, (a, b) in enumerate(zip(log, again)):
            ctx.check(a == b, "not-repeatable", lambda: f"{name} {prob} {kw}: operation {k}: {str(a)[:300]} / {str(b)[:300]}")
        ctx.check(len(log) == len(again), "not-repeatable", "different lengths")
        ctx.seen("operations_repeated", len(log))
        ctx.log[f"{group}:{idx}"] = {"solver": name, "prob": prob, "kw": kw, "log": log, "shard": [ctx.shard, ctx.nshards]}
        ctx.distinct(name, prob, kw, [r[0] for r in log])
        ctx.sample(solver=name, problem=prob, kw=kw, operations=[r[0] for r in log])

    return fn


def run(ctx):
    names = ref.ALL if ctx.py or ctx.thorough else [n for n in JIT if n in ref.ALL]
    if "bounds" in ctx.mode or "perturb" in ctx.mode:
        ctx.seen("sanitizer_workers")
    for name in ctx.mine(names):
        ctx.cases(("py-" if ctx.py else "jit-") + name, ctx.n(12, 150) if ctx.py else ctx.n(8, 60), case(name))
