"""C16: the root finders return roots or say that they did not.

newton agrees with scipy.optimize.newton on every input; j_newton, newton_hd
and bisect satisfy their contracts."""

import warnings

import numpy as np
from scipy import optimize

from .. import drive
from ..harness import Budget
from ..problems import compiled


# ---- functions of one variable; each with derivatives --------------------
def make_1d(rng):
    kind = str(rng.choice(["cubic", "expo", "trig", "flat", "double", "quintic", "noroot"]))
    a, b, c = rng.uniform(0.2, 2), rng.uniform(-1.5, 1.5), rng.uniform(-3, 3)
    if kind == "cubic":
        f = (lambda x: a * x**3 + b * x - c, lambda x: 3 * a * x**2 + b, lambda x: 6 * a * x)
    elif kind == "expo":
        f = (lambda x: np.exp(a * x) - 2 + b * x, lambda x: a * np.exp(a * x) + b, lambda x: a * a * np.exp(a * x))
    elif kind == "trig":
        f = (lambda x: np.sin(a * x + b) - 0.3, lambda x: a * np.cos(a * x + b), lambda x: -a * a * np.sin(a * x + b))
    elif kind == "flat":
        f = (lambda x: 1.0 + 0 * x, lambda x: 0 * x, lambda x: 0 * x)
    elif kind == "double":
        f = (lambda x: (x - c) ** 2, lambda x: 2 * (x - c), lambda x: 2 + 0 * x)
    elif kind == "noroot":
        f = (lambda x: x**2 + a, lambda x: 2 * x, lambda x: 2 + 0 * x)
    else:
        f = (lambda x: x**5 + b * x**2 - c, lambda x: 5 * x**4 + 2 * b * x, lambda x: 20 * x**3 + 2 * b)
    return kind, f


def outcome(fn, *args, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", fn(*args, **kw)
        except Exception as e:  # noqa: BLE001
            return "raised", e


def scipy_case(ctx, rng):
    """newton(...) against scipy.optimize.newton(...)."""
    from nbkode.nbcompat import j_newton, newton

    for _ in range(25):
        kind, (f, fp, fpp) = make_1d(rng)
        shape = str(rng.choice(["float", "float", "float", "int", "complex", "array", "intarray"]))
        if shape == "float":
            x0 = np.float64(rng.uniform(-3, 3) if rng.random() < 0.9 else 0.0)
        elif shape == "int":
            x0 = int(rng.integers(-3, 4))
        elif shape == "complex":
            x0 = np.complex128(complex(rng.uniform(-2, 2), rng.uniform(-1, 1)))
        elif shape == "intarray":
            x0 = rng.integers(-3, 4, size=int(rng.integers(2, 8)))
        else:
            x0 = rng.uniform(-3, 3, size=int(rng.integers(2, 8)))
        kw = {}
        deriv = str(rng.choice(["secant", "newton", "halley"]))
        if shape == "complex" and deriv == "secant":
            deriv = "newton"  # the secant start needs an order of the numbers
        if deriv != "secant":
            kw["fprime"] = fp
        if deriv == "halley":
            kw["fprime2"] = fpp
        if rng.random() < 0.4:
            kw["tol"] = float(10.0 ** rng.uniform(-13, -2))
        if rng.random() < 0.3:
            kw["rtol"] = float(10.0 ** rng.uniform(-12, 0))
        if rng.random() < 0.4:
            kw["maxiter"] = int(rng.integers(1, 12))
        if deriv == "secant" and shape in ("float", "int") and rng.random() < 0.5:
            kw["x1"] = np.float64(rng.uniform(-3, 3)) if rng.random() < 0.9 else x0
        if rng.random() < 0.6:
            kw["full_output"] = True
        if rng.random() < 0.4:
            kw["disp"] = False
        bad = rng.random()
        if bad < 0.03:
            kw["maxiter"] = 0
        elif bad < 0.06:
            kw["tol"] = 0.0
        if rng.random() < 0.3:
            shift = float(rng.uniform(-0.5, 0.5))
            g, kw["args"] = (lambda x, s: f(x + s)), (shift,)
            for k, d in (("fprime", fp), ("fprime2", fpp)):
                if k in kw:
                    kw[k] = (lambda d: lambda x, s: d(x + s))(d)
        else:
            g = f
        keep = np.array(x0)
        a = outcome(newton, g, x0, **kw)
        same_x = np.array(keep) if shape.endswith("array") else x0
        b = outcome(optimize.newton, g, same_x, **kw)
        info = {k: v for k, v in kw.items() if not callable(v)}
        what = lambda: f"newton({kind}, x0={x0!r}, {deriv}, {info})"
        judge(ctx, what, "newton", a, b, lambda e: outcome(optimize.newton, g, same_x * (1 + e), **kw))
        if b[0] == "raised":
            ctx.seen("newton_raised")
        elif kw.get("full_output") and not shape.endswith("array"):
            ctx.seen("reports_compared")
            ctx.seen("reports_not_converged", not b[1][1].converged)
        ctx.check(np.array_equal(keep, x0), "newton-input", lambda: f"{what()}: x0 was changed")
        ctx.seen("newton_" + deriv)
        ctx.seen("newton_compared")
        if shape in ("float",) and bad >= 0.06:
            jk = {k: v for k, v in kw.items() if k not in ("full_output", "disp")}
            ref_ = outcome(optimize.newton, g, x0, **jk)
            got = outcome(j_newton, g, x0, **jk)
            judge(ctx, lambda: "j_" + what(), "j_newton", got, ref_, lambda e: outcome(optimize.newton, g, x0 * (1 + e), **jk))
            ctx.seen("j_newton_compared")
        ctx.distinct("newton", kind, deriv, shape, sorted(info.items(), key=str))


def agree(a, b):
    """None, or what differs between two outcomes."""
    if a[0] != b[0]:
        return "outcome"
    if a[0] == "raised":
        return None if type(a[1]) is type(b[1]) else "exception"
    x, y = a[1], b[1]
    if isinstance(y, tuple) and len(y) == 2:  # (root, report)
        if not isinstance(x, tuple) or len(x) != 2:
            return "shape"
        (x, r), (y, s) = x, y
        for k in ("iterations", "function_calls", "converged", "flag"):
            if getattr(r, k) != getattr(s, k):
                return "report-" + k
        if not near(r.root, s.root):
            return "report-root"
        return None if near(x, y) else "root"
    if isinstance(y, tuple):  # arrays: root, converged, zero_der
        if not isinstance(x, tuple) or len(x) != len(y):
            return "shape"
        return None if near(x[0], y[0]) and all(np.array_equal(p, q) for p, q in zip(x[1:], y[1:])) else "array"
    return None if near(x, y) else "root"


def near(x, y):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    return bool(np.all((x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= 1e-9 * (1 + np.abs(y)))))


def judge(ctx, what, label, a, b, perturbed):
    """a has to agree with b, unless b itself changes when x0 changes in the
    last digits (then rounding decides and nothing can be said)."""
    bad = agree(a, b)
    if bad is not None:
        for e in (1e-15, -1e-15, 1e-14, -1e-14, 1e-13, -1e-13):
            p = perturbed(e)
            if agree(p, b) is not None or agree(a, p) is None:
                ctx.seen("rounding_decides")
                return
    ctx.seen(label + "_agrees")
    ctx.check(bad is None, f"{label}-{bad}", lambda: f"{what()}: {a!r}; scipy {b!r}")


# ---- module level functions (compiled workers) ---------------------------
def c_cubic(x, a, b, c):
    return a * x * x * x + b * x - c


def c_cubic_p(x, a, b, c):
    return 3 * a * x * x + b


def c_expo(x, a, b, c):
    return np.exp(a * x) - 2.0 + b * x


def c_expo_p(x, a, b, c):
    return a * np.exp(a * x) + b


def j_case(ctx, rng):
    """j_newton in either mode against scipy's outcome."""
    from nbkode.nbcompat import j_newton

    for _ in range(40):
        f, fp = ((c_cubic, c_cubic_p), (c_expo, c_expo_p))[int(rng.integers(0, 1 if ctx.jit else 2))]
        args = (float(rng.uniform(0.2, 2)), float(rng.uniform(-1.5, 1.5)), float(rng.uniform(-3, 3)))
        x0 = float(rng.uniform(-3, 3))
        der = fp if rng.random() < 0.5 else None
        tol = float(10.0 ** rng.uniform(-12, -3))
        maxiter = int(rng.integers(1, 30))
        got = outcome(j_newton, compiled(ctx, f), x0, compiled(ctx, der) if der else None, args, tol, maxiter)
        want = outcome(optimize.newton, f, np.float64(x0), der, args, tol, maxiter)
        what = lambda: f"j_newton({f.__name__}, {x0!r}, {der}, {args}, tol={tol!r}, maxiter={maxiter})"
        judge(ctx, what, "j_newton", got, want, lambda e: outcome(optimize.newton, f, np.float64(x0 * (1 + e)), der, args, tol, maxiter))
        if got[0] == "ok":
            ctx.seen("j_newton_converged")
        ctx.seen("j_newton_compared")
        ctx.distinct("j_newton", f.__name__, x0, maxiter)


def v_sin(y, hb, c, w):
    """The equation of an implicit step of y' = sin(w y) coupled in a ring."""
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = y[i] - hb * np.sin(w * y[i - 1] + y[i]) - c[i]
    return out


def v_lin(y, hb, c, w):
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = y[i] - hb * (w * y[i - 1] - 2.0 * y[i]) - c[i]
    return out


def v_none(y, hb, c, w):
    """No root."""
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = y[i] * y[i] + 1.0 + hb + 0.0 * c[i] * w
    return out


def hd_case(ctx, rng):
    from nbkode.nbcompat import newton_hd

    for _ in range(25):
        n = int(rng.integers(1, 7))
        f = (v_sin, v_lin, v_none)[int(rng.choice([0, 0, 1, 2]))]
        scale = float(10.0 ** rng.integers(-3, 7)) if f is not v_none else 1.0
        hb = float(10.0 ** rng.uniform(-4, -1)) if f is v_sin else float(10.0 ** rng.uniform(-4, 2))
        c = rng.normal(size=n) * scale
        w = float(rng.uniform(0.5, 1.5))
        y0 = c + rng.normal(size=n) * min(hb, 1.0) * scale if rng.random() < 0.7 else rng.normal(size=n) * scale
        if f is not v_none and rng.random() < 0.25:
            # Far to go from nothing.
            y0 = np.where(rng.random(n) < 0.6, 0.0, y0)
            c = c * float(10.0 ** rng.integers(0, 5))
        atol = 1.48e-8 if rng.random() < 0.5 else float(10.0 ** rng.uniform(-10, -3))
        keep = y0.copy(), c.copy()
        calls = [0]

        def counted(*a):
            calls[0] += 1
            if calls[0] > 60 * (2 * n + 2):
                raise Budget("newton_hd")
            return f(*a)

        got = ctx.call("newton_hd", newton_hd, counted if ctx.py else compiled(ctx, f), y0, (hb, c, w), atol, 0.0, 50)
        what = lambda: f"newton_hd({f.__name__}, y0={keep[0]}, hb={hb!r}, c={c}, w={w!r}, atol={atol!r})"
        bound = atol + 1e-12 * float(np.linalg.norm(y0) + np.linalg.norm(f(y0, hb, c, w)))
        if got.ok:
            res = float(np.linalg.norm(f(np.asarray(got.value), hb, c, w)))
            rnd = 1e-15 * n * (1 + hb) * float(np.linalg.norm(got.value) + np.linalg.norm(c)) * 4
            ctx.check(got.value.shape == y0.shape and res <= bound * (1 + 1e-9) + rnd, "not-a-root",
                      lambda: f"{what()}: returned {got.value} where the norm is {res!r}, allowed {bound!r}")
            ctx.seen("systems_solved")
            if f is v_lin and ctx.py:
                ctx.check(calls[0] <= 1 + 5 * (2 * n + 1), "slow-linear",
                          lambda: f"{what()}: {calls[0]} evaluations for a linear system of size {n}")
        else:
            singular = isinstance(got.exc, (RuntimeError, np.linalg.LinAlgError, ValueError))
            ctx.check(singular, "hd-exception", lambda: f"{what()}: {got!r}")
            reach = 1e-14 * float(np.linalg.norm(c)) * (1 + hb) < bound
            ctx.check(f is v_none or not reach, "gave-up", lambda: f"{what()}: {got!r}, although the iteration contracts")
            ctx.seen("systems_refused")
        ctx.check(drive.same(keep[0], y0) and drive.same(keep[1], c), "hd-input", lambda: f"{what()}: inputs changed")
        ctx.distinct("hd", f.__name__, n, round(np.log10(scale)), round(np.log10(hb), 2))


def b_cubic(x, a, c, amp):
    u = x - c
    return amp * (u * u * u + a * u)


def b_step(x, a, c, amp):
    """Not continuous: the sign change is still located."""
    if x < c:
        return -amp * a
    return amp * a


def b_sin(x, a, c, amp):
    return amp * np.sin(a * (x - c))


def bisect_case(ctx, rng):
    from nbkode.nbcompat.zeros import bisect

    for _ in range(40):
        g = (b_cubic, b_step, b_sin)[int(rng.integers(0, 3))]
        a = float(rng.uniform(0.3, 3)) if rng.random() < 0.7 else 1.0
        c = float(rng.choice([0.0, rng.uniform(-5, 5), rng.uniform(900, 1000)]))
        amp = float(rng.choice([1.0, -1.0, 1e-4, 1e5, -1e-170, 1e-200]))
        L = c - float(rng.uniform(1e-3, 2.0))
        R = c + float(rng.uniform(1e-3, 2.0))
        u = rng.random()
        if u < 0.1:
            L, R = R, L
        elif u < 0.15:
            R = L
        elif u < 0.25:
            L, R = c + 0.01, c + 0.02
        elif u < 0.35:
            L = c
        elif u < 0.45:
            R = c
        tol = 0.0 if rng.random() < 0.5 else float(10.0 ** rng.uniform(-12, 0))
        maxiter = int(rng.choice([50, 50, 10, 100]))
        seen = []

        def rec(x, *r):
            seen.append(float(x))
            return g(x, *r)

        out = ctx.call("bisect", bisect, rec if ctx.py else compiled(ctx, g), L, R, tol, maxiter, 0.0, (a, c, amp))
        what = lambda: f"bisect({g.__name__}, {L!r}, {R!r}, tol={tol!r}, maxiter={maxiter}, args={(a, c, amp)})"
        if not L < R:
            ctx.check(out.raised(ValueError), "bracket-order", lambda: f"{what()}: {out!r}, expected ValueError")
            ctx.seen("refused")
            continue
        fl, fr = g(L, a, c, amp), g(R, a, c, amp)
        if fl != 0 and fr != 0 and (fl < 0) == (fr < 0):
            ctx.check(out.raised(ValueError), "bracket-sign", lambda: f"{what()}: {out!r}, expected ValueError")
            ctx.seen("refused")
            continue
        ctx.check(out.ok, "bisect-raised", lambda: f"{what()} with end values {fl!r}, {fr!r}: {out!r}")
        x = float(out.value)
        ctx.check(L <= x <= R, "outside", lambda: f"{what()} = {x!r}")
        if fl == 0:
            ctx.check(x == L, "end-zero", lambda: f"{what()} = {x!r}")
        elif fr == 0:
            ctx.check(x == R, "end-zero", lambda: f"{what()} = {x!r}")
        elif abs(g(x, a, c, amp)) <= tol:
            ctx.seen("within_tolerance")
        else:
            w = (R - L) / 2.0**maxiter + 2 * np.spacing(max(abs(L), abs(R)))
            lo, hi = g(max(L, x - w), a, c, amp), g(min(R, x + w), a, c, amp)
            ctx.check(lo == 0 or hi == 0 or (lo < 0) != (hi < 0), "no-sign-change",
                      lambda: f"{what()} = {x!r}: value {g(x, a, c, amp)!r}, and no sign change within {w!r}")
            ctx.seen("located_to_width")
        if ctx.py:
            ctx.check(len(seen) <= maxiter + 2 and all(L <= s <= R for s in seen), "evaluations",
                      lambda: f"{what()}: {len(seen)} evaluations in [{min(seen)!r}, {max(seen)!r}]")
        ctx.seen("bisections")
        ctx.distinct("bisect", g.__name__, amp, tol, maxiter, round(u, 2))


def helpers_case(ctx, rng):
    from nbkode.nbcompat import clip, isclose

    for _ in range(200):
        a = float(rng.normal() * 10.0 ** rng.integers(-8, 8))
        b = a * (1 + float(rng.choice([0, 1e-9, -1e-9, 1e-4, 1.0]))) + float(rng.choice([0, 1e-9, 1e-3, -1e-3]))
        atol, rtol = float(rng.choice([0, 1e-8, 1e-3])), float(rng.choice([0, 1e-9, 1e-5, 0.3]))
        ctx.check(bool(isclose(a, b, atol, rtol)) == bool(np.isclose(a, b, atol=atol, rtol=rtol)), "isclose",
                  lambda: f"isclose({a!r}, {b!r}, {atol!r}, {rtol!r})")
        lo = float(rng.normal())
        hi = lo + float(rng.exponential())
        x = float(rng.choice([lo, hi, rng.normal() * 2]))
        ctx.check(float(clip(x, lo, hi)) == float(np.clip(x, lo, hi)), "clip", lambda: f"clip({x!r}, {lo!r}, {hi!r})")
        ctx.seen("helpers_compared")


def run(ctx):
    n, start = ctx.nshards, ctx.shard * 100000
    if ctx.py:
        ctx.cases("scipy", ctx.n(400, 20000) // n, scipy_case, start=start)
    k = ctx.n(160, 4000) // n
    ctx.cases("j_newton", k, j_case, start=start)
    ctx.cases("newton_hd", k, hd_case, start=start)
    ctx.cases("bisect", k, bisect_case, start=start)
    ctx.cases("helpers", max(1, k // 8), helpers_case, start=start)
