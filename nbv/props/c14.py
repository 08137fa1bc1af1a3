"""C14: params=p behaves exactly like an equation with p written into it, frozen
at the value p had when the solver was built."""

import numpy as np

from .. import drive, evmodel, ref
from ..problems import cls_of, compiled, random_h, random_t0

JIT = ["RungeKutta45", "AdamsBashforth3", "BDF2", "DOP853", "RungeKutta4", "RungeKutta23", "AdamsMoulton3", "ForwardEuler"]


# (equation with params, number of params, makes the equation without)
def f_mul(t, y, p):
    return p * y


def f_forced(t, y, p):
    return -p[0] * y + p[1] * np.sin(p[2] * t)


def f_osc(t, y, p):
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = -p[0] * y[i - 1] + p[1]
    return out


def closed(ctx, f, p):
    g = compiled(ctx, f)
    return lambda t, y: g(t, y, p)


def case(name):
    def fn(ctx, rng):
        which = int(rng.integers(0, 3))
        f = (f_mul, f_forced, f_osc)[which]
        n = int(rng.integers(1, 5))
        if rng.random() < 0.1:
            n = int(rng.integers(6, 70))
        if which == 0:
            k = 1 if rng.random() < 0.5 and n < 6 else n
            p = -rng.uniform(0.1, 1.2, size=k)
        else:
            p = rng.uniform(0.1, 1.5, size=3)
        frozen = np.array(p, dtype=float)
        # Ways of passing the same numbers.
        u = rng.random()
        if p.size == 1 and which == 0 and u < 0.5:
            arg, how = float(p[0]), "scalar"
        elif u < 0.65:
            arg, how = list(map(float, p)), "list"
        elif u < 0.8:
            arg, how = tuple(map(float, p)), "tuple"
        elif u < 0.9:
            arg, how = np.repeat(p, 2)[::2], "strided array"
        else:
            arg, how = p, "array"
        t0, h = random_t0(rng), random_h(rng, hi=0.2)
        kw = {}
        if name in ref.ADAPTIVE:
            kw = {"rtol": float(10 ** rng.uniform(-6, -2))}
            if rng.random() < 0.5:
                kw["first_step"] = h
        else:
            kw["h"] = h
            if name in ref.MULTISTEP and (ctx.jit or rng.random() < 0.5):
                kw["first_stepper_cls"] = None
        y0 = rng.normal(size=n)
        cls = cls_of(name)
        sol = ctx.must(f"new {name} params", cls, f, t0, y0, arg, **kw) if rng.random() < 0.3 else ctx.must(
            f"new {name} params", cls, f, t0, y0, params=arg, **kw)
        twin = ctx.must(f"new {name} closure", cls, closed(ctx, f, frozen), t0, y0, **kw)
        what = lambda: f"{name} {f.__name__} params={frozen} as {how} t0={t0!r} {kw} y0={y0}"
        ops = []
        for k in range(6 if ctx.jit else 10):
            op = str(rng.choice(["stepn", "run", "change"] if ctx.jit else ["step", "stepn", "skip", "run", "interp", "events", "change"]))
            ops.append(op)
            t = float(sol.t)
            if op == "change":
                # The caller's object changes after construction.
                if isinstance(arg, np.ndarray):
                    arg[...] = rng.normal(size=arg.shape)
                    ctx.seen("params_changed_later")
                elif isinstance(arg, list):
                    arg[:] = [9.0] * len(arg)
                    ctx.seen("params_changed_later")
                continue
            if op == "step":
                a, b = sol.step(), twin.step()
            elif op == "stepn":
                m = int(rng.integers(1, 4))
                a, b = ctx.must(op, sol.step, n=m), ctx.must("twin", twin.step, n=m)
            elif op == "skip":
                a = b = ()
                ctx.must(op, sol.skip, n=2)
                ctx.must("twin", twin.skip, n=2)
            elif op == "run":
                ts = t + np.sort(rng.uniform(0, 3, size=3)) * h
                a, b = ctx.must(op, sol.run, ts), ctx.must("twin", twin.run, ts)
            elif op == "events":
                ts = t + np.sort(rng.uniform(0, 5, size=2)) * h
                ev = [evmodel.ev_a, evmodel.ev_c]
                a, b = ctx.must(op, sol.run_events, ts, ev), ctx.must("twin", twin.run_events, ts, ev)
                ctx.check(str(a[2:]) == str(b[2:]), "events-differ", lambda: f"{what()} {ops}: {a[2:]} / {b[2:]}")
                a, b = a[:2], b[:2]
            else:
                a, b = (ctx.must(op, sol.interpolate, t),), (ctx.must("twin", twin.interpolate, t),)
            a = tuple(np.asarray(x) for x in a) + drive.state(sol)
            b = tuple(np.asarray(x) for x in b) + drive.state(twin)
            ok = all(np.shape(x) == np.shape(y) and drive.close(x, y, 1e-9 * (1 + np.abs(np.asarray(y, dtype=float)))) for x, y in zip(a, b))
            ctx.check(ok, "params-differ", lambda: f"{what()} {ops}: with params {a}, written in {b}")
            ctx.seen("operations_compared")
            if not np.max(np.abs(sol.y)) < 1e4:
                break
        ctx.check(not isinstance(arg, np.ndarray) or "change" in ops or drive.same(np.ravel(arg), frozen), "params-written",
                  lambda: f"{what()}: params changed to {arg}")
        ctx.seen("how_" + how.split()[0])
        ctx.distinct(name, f.__name__, n, how, ops)
        ctx.sample(solver=name, equation=f.__name__, params=frozen, given_as=how, operations=ops)

    return fn


def f_shape(t, y, p):
    k = 1.0
    for q in p.flat:
        k += 0.1 * q
    return -k * y / (1.0 + 0.5 * p.ndim + 0.1 * p.shape[0])


def shape_case(name):
    """No parameters, zero parameters, and parameters in tables."""

    def fn(ctx, rng):
        shape = [(0,), (1,), (2, 2), (3, 1), (0, 2), (1, 1, 2), (4,)][int(rng.integers(0, 7))]
        p = rng.uniform(0.0, 1.0, size=shape) * float(rng.choice([0.0, 1.0]))
        arg = p.copy() if rng.random() < 0.5 else p.tolist()
        if np.shape(arg) != shape:  # a list cannot tell (0, 2) from (0,)
            arg = p.copy()
        kw = {"first_step": 0.05} if name in ref.ADAPTIVE else {"h": 0.05}
        y0 = rng.normal(size=int(rng.integers(1, 4)))
        what = lambda: f"{name} params of shape {shape}: {arg!r}"
        a = ctx.must(what(), cls_of(name), f_shape, 0.0, y0, params=arg, **kw)
        b = ctx.must("new", cls_of(name), closed(ctx, f_shape, p), 0.0, y0, **kw)
        x, y = ctx.must("step " + what(), a.step, n=4), ctx.must("step", b.step, n=4)
        ctx.check(drive.close(x[0], y[0], 1e-12) and drive.close(x[1], y[1], 1e-9), "shaped-params", lambda: f"{what()}: {x} / {y}")
        ctx.seen("shapes_compared")
        ctx.distinct("shape", name, shape)

    return fn


def int_case(name):
    """Integer parameters (as in docs: params=(1, 2)) are numbers too."""

    def fn(ctx, rng):
        p = [int(x) for x in rng.integers(1, 3, size=3)]
        kw = {"first_step": 0.05} if name in ref.ADAPTIVE else {"h": 0.05}
        y0 = rng.normal(size=2)
        a = ctx.must("int params", cls_of(name), f_forced, 0.0, y0, params=p, **kw)
        b = ctx.must("float params", cls_of(name), f_forced, 0.0, y0, params=[float(x) for x in p], **kw)
        x, y = ctx.must("step", a.step, n=4), ctx.must("step", b.step, n=4)
        ctx.check(drive.close(x[0], y[0], 1e-12) and drive.close(x[1], y[1], 1e-9), "int-params", lambda: f"{name} {p}: {x} / {y}")
        ctx.seen("int_params")

    return fn


TABLE = np.array([0.3, -0.8, 0.5, -0.2, 0.9])


def f_pick(t, y, p):
    """The parameters say which entries to use."""
    return TABLE[p[0]] * y + TABLE[p[1]] * np.sin(t)


def f_large(t, y, p):
    """Integers beyond the precision of floating point numbers."""
    return -0.1 * float((p[0] - p[1]) % 7) * y + 0.2 * np.cos(t)


def f_mask(t, y, p):
    return np.where(p[: y.size], -y, 0.5 * y) + np.sin(t)


def f_complex(t, y, p):
    return p.real[0] * y + p.imag[-1] * np.cos(t)


def typed_case(name):
    """Numbers that are not floating point numbers stay what they are."""

    def fn(ctx, rng):
        kw = {"first_step": 0.05} if name in ref.ADAPTIVE else {"h": 0.05}
        if ctx.jit and name in ref.MULTISTEP:
            kw["first_stepper_cls"] = None
        y0 = rng.normal(size=2)
        which = 0 if ctx.jit else int(rng.integers(0, 4))
        if which == 0:
            f, p = f_pick, np.array(rng.integers(0, 5, size=2), dtype=rng.choice(["i8", "i4", "u1"] if ctx.py else ["i8"]))
        elif which == 1:
            big = int(rng.integers(2**60, 2**61))
            f, p = f_large, np.array([big + int(rng.integers(1, 7)), big])
        elif which == 2:
            f, p = f_mask, rng.random(size=2) < 0.5
        else:
            f, p = f_complex, rng.normal(size=2) + 1j * rng.normal(size=2)
        arg = p if rng.random() < 0.4 else [p.tolist(), tuple(p.tolist())][int(rng.integers(0, 2))]
        a = ctx.must(f"new {name} params={arg!r}", cls_of(name), compiled(ctx, f), 0.0, y0, params=arg, **kw)
        b = ctx.must("new", cls_of(name), closed(ctx, f, p.copy()), 0.0, y0, **kw)
        x, y = ctx.must(f"step with params {arg!r}", a.step, n=4), ctx.must("step", b.step, n=4)
        ctx.check(drive.close(x[0], y[0], 1e-12) and drive.close(x[1], y[1], 1e-9), "typed-params",
                  lambda: f"{name} {f.__name__} with params {arg!r}: {x}, written into the equation: {y}")
        ctx.seen("typed_params")
        ctx.distinct("typed", name, which, str(p))

    return fn


def run(ctx):
    if ctx.jit:
        for name in ctx.mine(JIT if ctx.thorough else JIT[:6]):
            ctx.cases("jit-" + name, ctx.n(3, 15), case(name))
        if ctx.shard == 0:
            ctx.cases("jit-typed", 1, typed_case("RungeKutta4"))
        return
    per = ctx.n(280, 12000)
    for name in ref.ALL:
        ctx.cases("py-" + name, per // ctx.nshards, case(name), start=ctx.shard * 100000)
        ctx.cases("int-" + name, ctx.n(4, 40) // ctx.nshards, int_case(name), start=ctx.shard * 100000)
        ctx.cases("shape-" + name, ctx.n(12, 120) // ctx.nshards, shape_case(name), start=ctx.shard * 100000)
        ctx.cases("typed-" + name, ctx.n(16, 160) // ctx.nshards, typed_case(name), start=ctx.shard * 100000)
