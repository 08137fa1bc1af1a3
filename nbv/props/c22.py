"""C22: the same numbers in another container or type give the same results.

Every input has several equivalent representations (int, float, numpy scalar,
0-d array, list, tuple, range, strided, Fortran-ordered, read-only, narrower
dtype); a solver driven with random representations is compared bit by bit
with one driven with plain floats and float64 arrays."""

import fractions

import numpy as np

from .. import drive, evmodel, ref
from ..problems import MODULE, cls_of, compiled

JIT = ["RungeKutta45", "AdamsMoulton2", "AdamsBashforth3", "DOP853"]


def scalar(ctx, rng, x, name=""):
    """x (dyadic, exactly representable as float32) in another type."""
    forms = ["float", "float64", "zerod"]
    if float(x) == int(x):
        forms += ["int", "int64", "int32"] * 2
    if ctx.py:
        forms += ["float32", "fraction"] if name in ("t0", "h") else ["float32"]
    k = str(rng.choice(forms))
    ctx.seen("as_" + k)
    return k, {"float": float, "float64": np.float64, "float32": np.float32, "zerod": lambda v: np.array(float(v)), "int": int,
               "int64": np.int64, "int32": np.int32, "fraction": fractions.Fraction}[k](x)


def vector(ctx, rng, v, flat=True):
    """A float64 vector of dyadic numbers in another container."""
    v = np.array(v, dtype=float)
    forms = ["list", "tuple", "strided", "reversed", "readonly", "column", "float32", "npscalars", "subclass", "big"]
    if v.size and np.all(v == np.round(v)):
        forms += ["ints", "int64", "int8", "range"] * 2
    if v.size == 1:
        forms += ["scalar", "scalar", "zerod"]
    k = str(rng.choice(forms))
    if k == "list":
        out = v.tolist()
    elif k == "tuple":
        out = tuple(v.tolist())
    elif k == "strided":
        out = np.repeat(v, 3)[::3]
    elif k == "reversed":
        out = v[::-1].copy()[::-1]
    elif k == "readonly":
        out = v.copy()
        out.setflags(write=False)
    elif k == "column":
        out = np.asfortranarray(np.stack([v, v + 1, v - 1], axis=1))[:, 0] if rng.random() < 0.5 else np.stack([v, v + 1], axis=1)[:, 0]
    elif k == "float32":
        out = v.astype(np.float32)
    elif k == "npscalars":
        out = [np.float64(x) for x in v]
    elif k == "subclass":
        out = np.ma.masked_array(v.copy()) if rng.random() < 0.5 else np.rec.array(v.copy())
    elif k == "big":
        out = v.astype(">f8")
    elif k == "ints":
        out = [int(x) for x in v]
    elif k == "int64":
        out = v.astype(np.int64)
    elif k == "int8":
        out = v.astype(np.int8)
    elif k == "range":
        d = int(v[1] - v[0]) if v.size > 1 else 1
        out = range(int(v[0]), int(v[0]) + max(v.size, 1) * d, d) if d and v.size and np.all(np.diff(v) == d) else [int(x) for x in v]
    elif k == "scalar":
        out = float(v[0])
    else:
        out = np.array(v[0])
    ctx.seen("as_" + k)
    return k, out


def returning(rng, f):
    """The equation, its result in another array."""
    k = str(rng.choice(["plain", "plain", "strided", "readonly", "fresh", "twod"]))

    def g(t, y):
        r = np.asarray(f(t, y))
        if k == "strided":
            return np.repeat(r, 2)[::2]
        if k == "readonly":
            r = r.copy()
            r.setflags(write=False)
            return r
        if k == "twod":
            return np.stack([r, r]).T[:, 1]
        return r if k == "plain" else r.copy()

    return k, g


_strided = {}


def compiled_strided(ctx, f):
    """Compiled, and returning a view that is not contiguous."""
    if f not in _strided:
        import numba

        fc = compiled(ctx, f)

        def g(t, y):
            r = fc(t, y)
            out = np.zeros((r.size, 2))
            out[:, 0] = r[::-1]
            return out[::-1, 0]

        _strided[f] = numba.njit(g)
    return _strided[f]


def dyadic(rng, lo, hi, bits=6, size=None):
    return np.round(rng.uniform(lo, hi, size=size) * 2 ** bits) / 2 ** bits


def case(name):
    def fn(ctx, rng):
        pname = "ring" if ctx.jit else str(rng.choice(["ring", "forced", "decay"]))
        f = MODULE[pname][0]
        n = int(rng.choice([1, 1, 2, 3, 5]))
        whole = rng.random() < 0.4
        y0 = np.array(rng.integers(-3, 4, size=n), dtype=float) if whole else dyadic(rng, -2, 2, size=n)
        t0 = float(rng.integers(-5, 6)) if rng.random() < 0.5 else float(dyadic(rng, -5, 5))
        h = 1.0 if rng.random() < 0.3 and pname == "decay" else float(2.0 ** -rng.integers(2, 6))
        tb = t0 + float(rng.integers(20, 60)) if rng.random() < 0.5 else None
        kw1, kw2, how = {}, {}, []

        def opt(key, x):
            k, kw2[key] = scalar(ctx, rng, x, key)
            kw1[key] = float(x)
            how.append((key, k))

        if name in ref.ADAPTIVE:
            opt("first_step", h)
            opt("rtol", float(2.0 ** -rng.integers(8, 20)))
            opt("atol", float(2.0 ** -rng.integers(8, 20)))
            if rng.random() < 0.5:
                opt("max_step", float(rng.choice([1.0, 0.5, 2.0])))
        else:
            opt("h", h)
            if name in ref.MULTISTEP:
                u = rng.random()
                if ctx.jit or u < 0.4:
                    kw1["first_stepper_cls"] = kw2["first_stepper_cls"] = None
                elif u < 0.8:
                    cls = cls_of("RungeKutta4")
                    kw1["first_stepper_cls"], kw2["first_stepper_cls"] = cls, "RungeKutta4"
                    how.append(("starter", "name"))
        if tb is not None:
            opt("t_bound", tb)
        kt, t0b = scalar(ctx, rng, t0, "t0")
        ky, y0b = vector(ctx, rng, y0)
        how += [("t0", kt), ("y0", ky)]
        if ctx.py:
            kr, rhs2 = returning(rng, f)
            how.append(("rhs", kr))
            rhs1 = f
        else:
            rhs1 = rhs2 = compiled(ctx, f)
            if ctx.case_id[1] % 2:
                rhs2 = compiled_strided(ctx, f)
                how.append(("rhs", "strided"))
                ctx.seen("compiled_strided")
        what = lambda: f"{name} {pname} t0={t0!r} y0={y0} {kw1} given as {how}: {ops}"
        ops = []
        cls = cls_of(name)
        sol = ctx.must(f"new {name} plain", cls, rhs1, t0, y0, **kw1)
        if rng.random() < 0.3:
            alt = ctx.must(f"new {name}", cls, rhs=rhs2, t0=t0b, y0=y0b, **kw2)
        else:
            alt = ctx.must(f"new {name}", cls, rhs2, t0b, y0b, **kw2)
        ctx.check(drive.same(drive.state(sol), drive.state(alt)), "construction", lambda: f"{what()} {drive.state(sol)} {drive.state(alt)}")
        for _ in range(int(rng.integers(2, 8))):
            if not np.max(np.abs(sol.y)) < 1e4:
                break
            op = str(rng.choice(["stepn", "run", "run", "stepu", "skipu", "events", "interp"] if ctx.py else ["stepn", "run", "run", "events"]))
            t = float(sol.t)
            base = float(np.ceil(t))
            k = None
            if op == "stepn":
                m = int(rng.integers(1, 5))
                k, a = str(rng.choice(["int64", "int32", "int"])), None
                a = {"int64": np.int64, "int32": np.int32, "int": int}[k](m)
                x, z = ctx.call(op, sol.step, n=m), ctx.call(op, alt.step, n=a)
                ctx.check(x.ok == z.ok and (x.ok or (tb is not None and type(x.exc) is type(z.exc))), "outcome", lambda: f"{what()}: {x!r} / {z!r}")
                x, z = x.value, z.value
            elif op in ("stepu", "skipu", "interp"):
                u = base + float(rng.integers(0, 2)) if op != "interp" else t
                if op == "interp" and np.float32(t) != t:
                    k, a = "float64", np.float64(t)
                else:
                    k, a = scalar(ctx, rng, u)
                call = {"stepu": lambda s, v: s.step(upto_t=v), "skipu": lambda s, v: s.skip(upto_t=v), "interp": lambda s, v: s.interpolate(v)}[op]
                x, z = ctx.must(op, call, sol, u), ctx.must(op, call, alt, a)
            else:
                m = int(rng.choice([1, 1, 2, 3]))
                if rng.random() < 0.5:
                    times = base + np.arange(m) * float(rng.integers(1, 3))
                else:
                    times = base + dyadic(rng, 0, 2, size=m)
                if tb is not None and np.max(times) > tb:
                    break
                k, a = vector(ctx, rng, times)
                if op == "run":
                    x = ctx.must(op, sol.run, times)
                    if rng.random() < 0.3:
                        none = [None, [], ()][int(rng.integers(0, 3))]
                        z = ctx.must("run_events", alt.run_events, a, none)
                        ctx.check(len(z) == 4 and list(z[2]) == [] and list(z[3]) == [], "no-events", lambda: f"{what()}: {z}")
                        z = tuple(z[:2])
                        ctx.seen("events_as_nothing")
                    else:
                        z = ctx.must(op, alt.run, a)
                else:
                    two = rng.random() < 0.5
                    tm, dr = bool(rng.random() < 0.3), int(rng.integers(-1, 2))
                    ev = evmodel.ev_a if ctx.py else compiled(ctx, evmodel.ev_a)
                    e2 = evmodel.ev_c if ctx.py else compiled(ctx, evmodel.ev_c)
                    for e in (ev, e2):
                        e.terminal, e.direction = tm, dr
                    x = ctx.must(op, sol.run_events, times, [ev, e2] if two else [ev])
                    form = str(rng.choice(["list", "tuple"] + ([] if two else ["single"])))
                    kd = str(rng.choice(["float", "big", "npint", "int"]))
                    for e in (ev, e2):
                        e.terminal = rng.choice([np.bool_(tm), int(tm)]) if rng.random() < 0.5 else tm
                        e.terminal = tm if not isinstance(e.terminal, (np.bool_, int, np.integer)) else e.terminal
                        e.direction = {"float": float(dr), "big": 7.5 * dr, "npint": np.int64(dr), "int": dr}[kd]
                        if dr == 0 and rng.random() < 0.3:
                            del e.direction
                        if not tm and rng.random() < 0.3:
                            del e.terminal
                    arg = {"list": [ev, e2], "tuple": (ev, e2), "single": ev}[form] if (two or form == "single") else {"list": [ev], "tuple": (ev,)}[form]
                    z = ctx.must(op, alt.run_events, a, arg)
                    k = (k, form, kd)
                    ctx.seen("events_as_" + form)
                    fl = lambda r: (r[0], r[1], [float(v) for q in r[2] for v in q], [float(v) for q in r[3] for w in q for v in w])
                    x, z = fl(x), fl(z)
            ops.append((op, k))
            if x is not None:
                xs, zs = (x, z) if isinstance(x, tuple) else ((x,), (z,))
                ctx.check(len(xs) == len(zs) and all(drive.same(p, q) for p, q in zip(xs, zs)), "result",
                          lambda: f"{what()}: {xs} / {zs}")
                for p, q in zip(xs, zs):
                    ctx.check(not isinstance(p, np.ndarray) or (isinstance(q, np.ndarray) and p.dtype == q.dtype and p.shape == q.shape),
                              "result-type", lambda: f"{what()}: {type(p)} {getattr(p, 'dtype', None)} / {type(q)} {getattr(q, 'dtype', None)}")
            ctx.check(drive.same(drive.state(sol), drive.state(alt)), "state", lambda: f"{what()} {drive.state(sol)} {drive.state(alt)}")
            ctx.seen("operations_compared")
        ctx.distinct(name, pname, n, how, ops)
        ctx.sample(solver=name, given_as=how, operations=ops)

    return fn


def run(ctx):
    if ctx.jit:
        for name in ctx.mine(JIT if not ctx.thorough else JIT + ["BDF3", "RungeKutta23", "BackwardEuler", "RungeKutta4"]):
            ctx.cases("jit-" + name, ctx.n(12, 150), case(name))
        return
    per = ctx.n(160, 6000)
    for name in ref.ALL:
        ctx.cases("py-" + name, per // ctx.nshards, case(name), start=ctx.shard * 100000)
