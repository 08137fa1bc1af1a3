"""C11: results are snapshots and inputs belong to the caller.

The monitor keeps a private copy of everything that crosses the API.  The
caller then scribbles over every array it was given and every array it passed;
nothing recorded may change, the solver must go on exactly like an undisturbed
twin, and the library must never write to the caller's arrays."""

import numpy as np

from .. import drive, evmodel, ref
from ..problems import cls_of, random_h, random_problem, random_t0
from .c05 import REPR


class Buffered:
    """A right hand side that reuses one output array (interpreted mode)."""

    def __init__(self, f, n):
        self.f, self.buf = f, np.empty(n)

    def __call__(self, t, y):
        self.buf[:] = self.f(t, y)
        return self.buf


def case(name, nops):
    def fn(ctx, rng):
        prob = random_problem(ctx, rng)
        t0, h = random_t0(rng), random_h(rng)
        kw = {}
        if name in ref.ADAPTIVE:
            kw = {"rtol": float(10 ** rng.uniform(-6, -2))}
            h = None if rng.random() < 0.4 else h
        elif name in ref.MULTISTEP and (ctx.jit or rng.random() < 0.4):
            kw["first_stepper_cls"] = None
        y0 = np.array(prob.y0)
        y0_copy = y0.copy()
        hh = h
        if h is not None and rng.random() < 0.3 and name not in ref.ADAPTIVE:
            hh = np.array(h)  # a 0-d array of the caller
        rhs = prob.rhs
        params = None
        if ctx.py:
            u = rng.random()
            if u < 0.3:
                rhs = Buffered(prob.f, prob.n)
                ctx.seen("buffered_rhs")
            elif u < 0.6:
                params = rng.normal(size=3)
                rhs = lambda t, y, p, f=prob.f: f(t, y) * (1 + 0.1 * p[0]) + 0.05 * p[1] * np.sin(t + p[2])
        kw2 = dict(kw)
        p_copy = None
        if params is not None:
            p_copy = params.copy()
            kw2["params"] = params
            kw = {**kw, "params": p_copy.copy()}
        sol = drive.make(ctx, name, prob, t0, hh, rhs=rhs, y0=y0, **kw2)
        twin_rhs = rhs if params is not None or ctx.jit else prob.f
        twin = drive.make(ctx, name, prob, t0, h, rhs=twin_rhs, y0=y0_copy.copy(), **kw)
        what = lambda: f"{name} {prob} t0={t0!r} h={h!r} after {kinds}"
        kinds = ["new"]
        ctx.check(drive.same(y0, y0_copy), "input-written", lambda: f"{what()}: y0 changed to {y0}")
        y0[:] = np.nan
        if params is not None:
            ctx.check(drive.same(params, p_copy), "input-written", lambda: f"{what()}: params changed")
            params[:] = 1e3
        if isinstance(hh, np.ndarray):
            hh[()] = 7.0
        kept = []  # (array, private copy, what)

        def keep(label, *arrays):
            for a in arrays:
                if isinstance(a, np.ndarray):
                    kept.append((a, a.copy(), label))

        for _ in range(nops):
            op = str(rng.choice(["step", "stepn", "stepu", "skip", "run", "interp", "interp_end", "events", "ctor"]))
            kinds.append(op)
            t_now = float(sol.t)
            if not np.max(np.abs(sol.y)) < 1e4:
                break
            got = ref_out = ()
            if op == "step":
                got, ref_out = ctx.must(op, sol.step), ctx.must("twin", twin.step)
            elif op == "stepn":
                n = int(rng.integers(1, 4))
                got, ref_out = ctx.must(op, sol.step, n=n), ctx.must("twin", twin.step, n=n)
            elif op == "stepu":
                u = t_now + float(rng.uniform(0, 3)) * float(sol.h)
                got, ref_out = ctx.must(op, sol.step, upto_t=u), ctx.must("twin", twin.step, upto_t=u)
            elif op == "skip":
                ctx.must(op, sol.skip)
                ctx.must("twin", twin.skip)
            elif op in ("run", "events"):
                arr = t_now + float(sol.h) * np.sort(rng.uniform(0, 3, size=3))
                if rng.random() < 0.3:
                    arr = arr[::-1].copy()
                arr_copy = arr.copy()
                if op == "run":
                    got, ref_out = ctx.must(op, sol.run, arr), ctx.must("twin", twin.run, arr_copy.copy())
                else:
                    evs = [evmodel.ev_a, evmodel.ev_b] if ctx.py else [evmodel.compiled(ctx, evmodel.ev_a), evmodel.compiled(ctx, evmodel.ev_b)]
                    g1 = ctx.must(op, sol.run_events, arr, evs)
                    g2 = ctx.must("twin", twin.run_events, arr_copy.copy(), evs)
                    got = (g1[0], g1[1]) + tuple(x for e in g1[3] for x in e)
                    ref_out = (g2[0], g2[1]) + tuple(x for e in g2[3] for x in e)
                    ctx.check(str(g1[2]) == str(g2[2]), "disturbed", lambda: f"{what()}: event times {g1[2]} / {g2[2]}")
                    ctx.seen("event_states_kept", len(got) - 2)
                ctx.check(drive.same(arr, arr_copy), "input-written", lambda: f"{what()}: requested times changed from {arr_copy} to {arr}")
                arr[:] = -99.0
                ctx.seen("inputs_scribbled")
            elif op == "interp":
                u = t_now
                got, ref_out = (ctx.must(op, sol.interpolate, u),), (ctx.must("twin", twin.interpolate, u),)
            elif op == "interp_end":
                # a recorded point that is not the newest
                if len(kinds) < 3:
                    continue
                u = float(twin.t) - 0.25 * min(float(twin.h), 1e-3)
                a = ctx.call(op, sol.interpolate, u)
                b = ctx.call("twin", twin.interpolate, u)
                ctx.check(a.ok == b.ok, "disturbed", lambda: f"{what()}: {a!r} / {b!r}")
                if not a.ok:
                    continue
                got, ref_out = (a.value,), (b.value,)
            else:
                # A second solver built from this one's current state, then moved.
                kw3 = {} if ctx.py or name not in ref.MULTISTEP else {"first_stepper_cls": None}
                if params is not None:
                    kw3["params"] = p_copy.copy()
                hk = {} if h is None else {"first_step" if name in ref.ADAPTIVE else "h": h}
                build = lambda f, y: cls_of(name)(f, float(twin.t), y, **hk, **kw3).step()
                if not ctx.call("twin other", build, twin_rhs, np.array(twin.y)).ok:
                    # E.g. the method left the domain and the solution from there blows up.
                    ctx.seen("derived_cannot_start")
                    continue
                ctx.must("other step", build, rhs, sol.y)
                ctx.seen("derived_solvers")
            for x, y in zip(got, ref_out):
                ctx.check(np.shape(x) == np.shape(y) and drive.close(x, y, 1e-9 * (1 + np.abs(np.asarray(y, dtype=float)))), "disturbed",
                          lambda: f"{what()}: returned {x}, the undisturbed twin {y}")
            keep(op, *got)
            if rng.random() < 0.5 and got:
                for x in got:
                    if isinstance(x, np.ndarray) and x.flags.writeable:
                        # scribble over a result; it is the caller's
                        kept[:] = [q for q in kept if q[0] is not x]
                        x[...] = np.nan
                        ctx.seen("results_scribbled")
            st, tt = drive.state(sol), drive.state(twin)
            ctx.check(all(drive.close(p, q, 1e-9 * (1 + np.abs(np.asarray(q)))) for p, q in zip(st, tt)), "disturbed",
                      lambda: f"{what()}: state {st}, undisturbed twin {tt}")
            for a, c, label in kept:
                ctx.check(drive.same(a, c), "result-changed",
                          lambda: f"{what()}: an array returned earlier by {label} changed from {c} to {a}")
            ctx.seen("snapshots_checked", len(kept))
        ctx.distinct(name, prob.name, prob.n, kinds)
        ctx.sample(solver=name, problem=repr(prob), t0=t0, h=h, history=kinds, arrays_watched=len(kept))

    return fn


def run(ctx):
    if ctx.jit:
        names = [n for n in REPR if n not in ('ForwardEuler', 'AdamsMoulton3')] if not ctx.thorough else REPR + [n for n in ref.ALL if n not in REPR]
        for name in ctx.mine(names):
            ctx.cases("jit-" + name, ctx.n(8, 100), case(name, 9))
        return
    per = ctx.n(160, 8000)
    for name in ref.ALL:
        ctx.cases("py-" + name, per // ctx.nshards, case(name, 12), start=ctx.shard * 100000)
