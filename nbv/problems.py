"""Right hand sides and generators shared by the workloads.

Interpreted workers use closures over random data (any callable works there);
compiled workers use a handful of module level functions, each compiled once
per process, with random initial states, sizes, times and steps.
"""

import numpy as np

from . import ref
from .harness import Budget


# ---- module level right hand sides (both modes) --------------------------
def ring(t, y):
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = np.sin(y[i - 1] + 0.3 * t + i) - 0.4 * y[i]
    return out


def decay(t, y):
    return -0.5 * y


def forced(t, y):
    """y' = -0.7 (y - cos t) - sin t; y = cos t + c exp(-0.7 (t - t0))."""
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = -0.7 * (y[i] - np.cos(t)) - np.sin(t)
    return out


def osc(t, y):
    """Harmonic pairs, angular frequency 1, 2, ..."""
    out = np.empty_like(y)
    for i in range(y.size // 2):
        w = 1.0 + i % 3
        out[2 * i] = w * y[2 * i + 1]
        out[2 * i + 1] = -w * y[2 * i]
    if y.size % 2 == 1:
        out[-1] = np.cos(t)
    return out


def stiff(t, y):
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = -(8.0 + 3.0 * (i % 6)) * (y[i] - np.sin(t))
    return out


def logistic(t, y):
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = (1.0 + 0.2 * (i % 6)) * y[i] * (1.0 - y[i])
    return out


MODULE = {"ring": (ring, 1.4), "decay": (decay, 0.5), "forced": (forced, 0.7),
          "osc": (osc, 4.0), "stiff": (stiff, 25.0), "logistic": (logistic, 6.0)}
_compiled = {}


def compiled(ctx, fn):
    """The callable to give to nbkode in this worker's mode."""
    if ctx.py:
        return fn
    if fn not in _compiled:
        import numba

        _compiled[fn] = numba.njit(fn)
    return _compiled[fn]


class Problem:
    """rhs: for nbkode; f: the same function in plain Python; lip: Lipschitz bound."""

    def __init__(self, name, n, f, lip, y0, rhs=None):
        self.name, self.n, self.f, self.lip, self.y0 = name, n, f, lip, y0
        self.rhs = rhs if rhs is not None else f
        # Units: 1/w of time and c of the state are "of order one".
        self.w = self.c = 1.0

    def __repr__(self):
        unit = "" if self.w == self.c == 1.0 else f", unit of time {1 / self.w:.3g}, of state {self.c:.3g}"
        return f"{self.name}(n={self.n}, y0={np.array2string(self.y0, precision=6)}{unit})"


def _linear(rng, n):
    A = rng.normal(size=(n, n))
    A = A / max(np.linalg.norm(A, 2), 1e-3) * rng.uniform(0.2, 1.5) - rng.uniform(0, 0.8) * np.eye(n)
    b, w, ph = rng.normal(size=n), rng.uniform(0.2, 2, size=n), rng.uniform(0, 6, size=n)

    def f(t, y):
        return A @ y + b * np.sin(w * t + ph)

    return f, np.linalg.norm(A, 2)


def _tanh(rng, n):
    m = int(rng.integers(1, 5))
    W1, W2 = rng.normal(size=(m, n)), rng.normal(size=(n, m)) / m
    b, c, d = rng.normal(size=m), rng.normal(size=m), rng.uniform(0, 1.0)
    if n > 11:  # no stiffer than the small ones: Newton must be able to solve a step
        W1, W2 = W1 * np.sqrt(8 / n), W2 * np.sqrt(8 / n)

    def f(t, y):
        return W2 @ np.tanh(W1 @ y + b + c * t) - d * y

    return f, np.linalg.norm(W1, 2) * np.linalg.norm(W2, 2) + d


def _poly_t(rng, n):
    """Does not depend on y: a quadrature problem."""
    c = rng.normal(size=(4, n))

    def f(t, y):
        s = np.sin(0.7 * t)
        return c[0] + c[1] * s + c[2] * s * s + c[3] * np.cos(1.3 * t)

    return f, 0.0


def _vdp(rng, n):
    mu = rng.uniform(0.2, 1.5)

    def f(t, y):
        out = np.zeros(n)
        for i in range(0, n - 1, 2):
            out[i] = y[i + 1]
            out[i + 1] = mu * (1 - y[i] ** 2) * y[i + 1] - y[i]
        if n % 2:
            out[-1] = -0.3 * y[-1] + 0.2 * np.sin(t)
        return out

    return f, 8.0 * max(mu, 1)


RANDOM = {"linear": _linear, "tanh": _tanh, "quad": _poly_t, "vdp": _vdp}


def random_problem(ctx, rng, n=None, kinds=None, module=("ring", "forced", "osc", "logistic"), scale=None):
    """A smooth problem without blow up on the spans used here."""
    if n is None:
        n = int(rng.choice([1, 1, 2, 2, 3, 4, 6, 11]))
        if rng.random() < 0.02:
            n = int(rng.choice([16, 17, 33, 48]))
    if scale is None:
        scale = float(rng.choice([0.3, 1.0, 1.0, 2.0]))
    y0 = rng.normal(size=n) * scale
    if rng.random() < 0.15:
        # Exact values, as people write them.
        y0 = np.where(rng.random(n) < 0.6, rng.choice([0.0, 0.0, 0.0, -0.0, 1.0, -1.0, 0.5], size=n), y0)
    names = list(module) + ([] if ctx.jit else list(RANDOM))
    if kinds is not None:
        names = [k for k in names if k in kinds]
    if ctx.jit:
        # Compilation per problem dominates: mostly one function.
        name = "ring" if "ring" in names and rng.random() < 0.8 or len(names) == 0 else str(rng.choice(names))
        name = "ring" if "ring" in names else names[0]
    else:
        name = str(rng.choice(names))
    if name in MODULE:
        f, lip = MODULE[name]
        if name == "logistic":
            y0 = rng.uniform(0.05, 1.5, size=n)
        return Problem(name, n, f, lip, y0, compiled(ctx, f))
    f, lip = RANDOM[name](rng, n)
    if name == "vdp":
        y0 = np.clip(y0, -2, 2)
    return Problem(name, n, f, lip, y0)


def change_units(ctx, rng, name, prob, t0, h, kw, p=0.2):
    """The same problem in other units of time and state (powers of two):
    nothing a method does depends on them."""
    if ctx.jit or rng.random() >= p:
        return prob, t0, h, kw
    kw = dict(kw)
    adaptive = name in ref.ADAPTIVE
    implicit = name in ref.IMPLICIT
    w = c = 1.0
    if rng.random() < 0.7:
        w = 2.0 ** int(rng.integers(-20, 21) if adaptive else rng.integers(-45, 46))
    if not implicit and rng.random() < 0.6:
        c = 2.0 ** int(rng.integers(-60, 61))
    f = prob.f
    out = Problem(prob.name, prob.n, lambda t, y: (w * c) * f(w * t, y / c), prob.lip * w, prob.y0 * c)
    out.w, out.c = w, c
    for key in ("max_step", "first_step", "min_step"):
        if kw.get(key) is not None:
            kw[key] = kw[key] / w
    if adaptive:
        kw["rtol"] = kw.get("rtol", 1e-3)
        kw["atol"] = kw.get("atol", 1e-6) * c
    return out, t0 / w, (None if h is None else h / w), kw


def random_t0(rng):
    return float(rng.choice([0.0, 0.0, 1.0, -3.25, rng.uniform(-10, 10), rng.uniform(50, 400)]))


def random_h(rng, lo=2e-3, hi=0.3):
    if rng.random() < 0.3:
        return float(2.0 ** -rng.integers(2, 9))
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))


class Counted:
    """Counts evaluations (interpreted mode) and stops a call that needs more
    than any correct execution could (logical-step watchdog)."""

    def __init__(self, f, budget=None):
        self.f, self.n, self.budget = f, 0, budget

    def __call__(self, t, y):
        self.n += 1
        if self.budget is not None and self.n > self.budget:
            raise Budget(f"more than {self.budget} right hand side evaluations")
        return self.f(t, y)


# Solver classes by name, looked up once per worker.
def cls_of(name):
    import nbkode

    return nbkode.get_solver(name)


def is_multistep(name):
    from .ref import MULTISTEP

    return name in MULTISTEP
