"""C03: the step size controller of the embedded pairs.

The monitor watches every accepted step: from the state and the proposed h
seen before the step it replays the attempts with the published pair, and
requires the observed step, state and next proposal to be what the accepted
attempt gives."""

import numpy as np
from scipy.integrate._ivp.common import select_initial_step

from .. import drive, ref
from ..problems import Counted, cls_of, compiled, random_problem, random_t0

BORDER = 1e-6  # an error norm this close to 1 may go either way


def options(rng):
    o = {"rtol": float(10.0 ** rng.uniform(-8, -2)), "atol": float(10.0 ** rng.uniform(-9, -3))}
    if rng.random() < 0.25:
        o["max_step"] = float(10.0 ** rng.uniform(-2, 0.3))
    if rng.random() < 0.25:
        o["max_factor"] = float(rng.uniform(1.2, 12))
    if rng.random() < 0.25:
        o["min_factor"] = float(rng.uniform(0.05, 0.8))
    if rng.random() < 0.25:
        o["safety_factor"] = float(rng.uniform(0.5, 0.98))
    if rng.random() < 0.15:
        o["min_step"] = float(10.0 ** rng.uniform(-5, -0.5))
    for k in ("rtol", "atol"):
        if rng.random() < 0.15:
            del o[k]
    return o


DEFAULTS = {"atol": 1e-6, "rtol": 1e-3, "min_step": 1e-15, "max_step": np.inf,
            "min_factor": 0.2, "max_factor": 10.0, "safety_factor": 0.9}


def noise_of(t, y, fy, yn, h, o, lip):
    """Rounding errors of the error norm."""
    scale = o["atol"] + o["rtol"] * np.maximum(np.abs(y), np.abs(yn))
    r = 1e-14 * (np.abs(y) + h * np.abs(fy)) + 1e-15 * abs(t) * h * (1 + lip)
    return float(np.max(r / scale))


def replay(pair, f, t, y, fy, h, o, wild, lip):
    """Attempts from (t, y) with proposal h.  Yields the possible outcomes
    (h_used, y_new, h_next, rejections, err); more than one only when an error
    norm is within BORDER of 1."""
    rejected = 0
    while True:
        y_new, f_new, K, err = pair.attempt(f, t, y, fy, h, o["atol"], o["rtol"])
        if err == 0:
            factor = o["max_factor"]
        else:
            factor = o["safety_factor"] / err**pair.exponent
            factor = min(o["max_factor"], max(o["min_factor"], factor))
        h_next = min(h * factor, o["max_step"])
        border = BORDER + 10 * noise_of(t, y, fy, y_new, h, o, lip)
        if err < 1 + border:
            yield h, y_new, h_next, rejected, err
        if err < 1 - border:
            return
        rejected += 1
        if not np.isfinite(err):
            # Overflow: the proposal shrinks by min_factor.
            h_next = h * o["min_factor"]
            wild.append(h)
        if h_next < o["min_step"] or t + h_next == t or rejected > 60:
            return
        h = h_next


def case(name):
    pair = ref.ADAPTIVE[name]

    def fn(ctx, rng):
        prob = random_problem(ctx, rng)
        if rng.random() < 0.15:
            prob.y0 = prob.y0 * 0.0
        t0 = random_t0(rng)
        o = options(rng)
        full = {**DEFAULTS, **o}
        kw = dict(o)
        first = None
        if rng.random() < 0.6:
            first = float(10.0 ** rng.uniform(-5, 1.2))
            kw["first_step"] = first
        f0 = np.array(prob.f(t0, prob.y0), dtype=float)
        sol = drive.make(ctx, name, prob, t0, **kw)
        # initial step
        if first is None:
            want = select_initial_step(prob.f, t0, prob.y0, f0, 1, pair.err_order, full["rtol"], full["atol"])
        else:
            want = first
        want = min(want, full["max_step"])
        got = float(sol.h)
        ctx.check(abs(got - want) <= 1e-6 * want, "initial-step",
                  lambda: f"{name} {prob} {kw}: initial step {got!r}, expected {want!r}")
        nsteps = int(rng.integers(4, 18))
        for _ in range(nsteps):
            t, y, f, h = drive.state(sol)
            if np.max(np.abs(y)) > 1e5:
                break
            fref = np.array(prob.f(t, y), dtype=float)
            out = ctx.call("step", sol.step)
            ctx.seen("steps")
            wild = []
            cands = list(replay(pair, prob.f, t, y, fref, h, full, wild, prob.lip))
            if wild:
                ctx.seen("overflowing_attempts", len(wild))
            if not out.ok:
                # Only when no attempt of the published pair is acceptable.
                if "min_step" in o and not cands:
                    ctx.seen("min_step_refusals")
                ctx.check(not cands and out.raised(RuntimeError), "step-failed",
                          lambda: f"{name} {prob} {kw} t={t!r} h={h!r}: {out!r}, but step size "
                          f"{cands[0][0] if cands else None!r} is acceptable")
                break
            t1, y1, f1, h1 = drive.state(sol)
            used = t1 - t
            ctx.check(used <= full["max_step"] * (1 + 1e-12) + 4e-16 * abs(t1), "max-step",
                      lambda: f"{name} {prob} {kw}: step of {used!r} > max_step")
            ok = None
            for hu, yn, hn, rej, err in cands:
                if abs(used - hu) <= 1e-7 * hu + 4e-16 * (abs(t) + abs(t1)):
                    ok = (hu, yn, hn, rej, err)
                    break
            if ok is None and wild:
                break
            ctx.check(ok is not None, "step-size",
                      lambda: f"{name} {prob} {kw} t={t!r} proposal h={h!r}: accepted step {used!r}; the published pair "
                      f"accepts {[(c[0], c[4]) for c in cands]}")
            hu, yn, hn, rej, err = ok
            # Rounding in the error estimate is amplified when the norm is tiny.
            tol = 1e-10 * (1 + np.abs(yn) + hu * np.abs(fref)) * (1 if rej == 0 else 100)
            ctx.check(drive.close(y1, yn, tol), "step-state",
                      lambda: f"{name} {prob} {kw} t={t!r} h={hu!r}: state differs by {drive.maxdiff(y1, yn):.3g}",
                      observed=y1, expected=yn)
            noise = noise_of(t, y, fref, yn, hu, full, prob.lip)
            if err > 1e4 * noise and err > 0:
                rtol_h = 1e-6 + 2 * noise / err
                ctx.check(abs(h1 - hn) <= rtol_h * hn, "next-step",
                          lambda: f"{name} {prob} {kw} t={t!r} h={hu!r} error norm {err:.6g}: next proposal {h1!r}, expected {hn!r}",
                          rejections=rej)
                ctx.seen("proposals_checked")
            else:
                ctx.check(0 < h1 <= full["max_step"] and h1 <= hu * full["max_factor"] * (1 + 1e-9), "next-step-bound",
                          lambda: f"{name} {kw}: next proposal {h1!r} after {hu!r}")
            ctx.seen("steps_checked")
            ctx.seen("rejections_seen", rej)
            if hn == full["max_step"]:
                ctx.seen("max_step_active")
            if err > 0 and full["safety_factor"] / err**pair.exponent > full["max_factor"]:
                ctx.seen("max_factor_active")
            if rej and hu < h * 1.0001 * full["min_factor"]:
                ctx.seen("min_factor_active")
        ctx.distinct(name, prob.name, prob.n, round(t0, 6), sorted(kw.items()))
        ctx.sample(solver=name, problem=repr(prob), options=kw, t0=t0, t_end=float(sol.t), h_end=float(sol.h))

    return fn


def quiet(name):
    """No error at all: the derivative vanishes until tc, so every step before
    is accepted and the proposals grow by max_factor up to max_step."""

    def fn(ctx, rng):
        n = int(rng.integers(1, 5))
        t0 = random_t0(rng)
        hm = float(10.0 ** rng.uniform(-4, -1))
        tc = t0 + hm * float(10.0 ** rng.uniform(0, 4))
        y0 = rng.normal(size=n)

        def f(t, y):
            return np.zeros(n) if t < tc else -y

        o = options(rng)
        full = {**DEFAULTS, **o}
        sol = ctx.must(f"new {name}", cls_of(name), Counted(f), t0, y0, first_step=hm, **o)
        for _ in range(int(rng.integers(2, 9))):
            t, y, _, h = drive.state(sol)
            if t + h >= tc:
                break
            ctx.must("step", sol.step)
            t1, y1, f1, h1 = drive.state(sol)
            want = min(h * full["max_factor"], full["max_step"])
            ctx.check(t1 == t + h and drive.same(y1, y0) and np.all(f1 == 0), "quiet-step",
                      lambda: f"{name} {o} without error: from t={t!r} h={h!r} to t={t1!r} y={y1}, expected {t + h!r} {y0}")
            ctx.check(abs(h1 - want) <= 1e-12 * want, "quiet-growth",
                      lambda: f"{name} {o} without error: proposal {h!r} becomes {h1!r}, expected {want!r}")
            ctx.seen("steps_without_error")
        ctx.distinct("quiet", name, n, t0, hm)

    return fn


def run(ctx):
    names = list(ref.ADAPTIVE)
    if ctx.jit:
        for name in ctx.mine(names):
            ctx.cases("jit-" + name, ctx.n(60, 1500), case(name))
    else:
        per = ctx.n(2400, 80000)
        for name in names:
            ctx.cases("py-" + name, per // ctx.nshards, case(name), start=ctx.shard * 100000)
            ctx.cases("quiet-" + name, ctx.n(160, 4000) // ctx.nshards, quiet(name), start=ctx.shard * 100000)
