"""Construction and observation helpers (public API of the solvers only)."""

import numpy as np

from . import ref
from .problems import cls_of


def make(ctx, name, prob, t0, h=None, rhs=None, y0=None, **kw):
    """Build a solver; an exception is a violation."""
    cls = cls_of(name)
    if name in ref.ADAPTIVE:
        if h is not None:
            kw.setdefault("first_step", h)
    else:
        kw["h"] = h
    y0 = prob.y0 if y0 is None else y0
    return ctx.must(f"new {name}", cls, prob.rhs if rhs is None else rhs, t0, y0, **kw)


def state(sol):
    """A snapshot of the observable state."""
    return float(sol.t), np.array(sol.y, dtype=float), np.array(sol.f, dtype=float), float(sol.h)


def same(a, b):
    """Bitwise equal snapshots or arrays (nan equals nan)."""
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def close(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= tol))


def maxdiff(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    return float(np.max(np.abs(a - b))) if a.size else 0.0


def steps(ctx, sol, n):
    """n steps, one call; checked shapes."""
    ts, ys = ctx.must("step", sol.step, n=n)
    ctx.check(ts.shape == (n,) and ys.shape == (n, sol.y.size), "shape",
              lambda: f"step(n={n}) returned shapes {ts.shape} {ys.shape}")
    ctx.seen("steps", n)
    return ts, ys


def start_points(ctx, sol, name, t0, h, f, start=True):
    """The recorded past of a multistep solver after construction,
    oldest first, read through interpolate at the grid points."""
    k = ref.START[name]
    if not start or k == 1:
        k0 = max(k, 1)
        y = np.array(sol.y)
        return [t0] * k0, [y] * k0, [np.array(f(t0, y))] * k0
    ts, ys, fs = [], [], []
    for j in range(k):
        if j == k - 1:
            t, y = float(sol.t), np.array(sol.y)
        else:
            t = t0 + j * h
            y = np.array(ctx.must("interpolate", sol.interpolate, t))
        ts.append(t)
        ys.append(y)
        fs.append(np.array(f(t, y), dtype=float))
    return ts, ys, fs
