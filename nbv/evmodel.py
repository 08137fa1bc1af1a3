"""Event workloads and their reference model (SciPy's sign change semantics
evaluated on the natural steps of a twin and the published dense output)."""

import numpy as np

from . import drive, ref
from .problems import change_units, compiled, random_h, random_problem, random_t0
from .props.c05 import Track


# Compiled once per worker in jit mode.
def ev_a(t, y):
    return np.sin(3.0 * t + 0.4) + 0.3 * y[0]


def ev_b(t, y):
    return y[0] - 0.1


def ev_c(t, y):
    return np.cos(2.3 * t + 1.0)


def ev_d(t, y):
    return y[-1] + 0.2 * np.sin(5.0 * t)


def ev_tiny(t, y):
    return 1e-60 * np.sin(2.7 * t - 0.2)


def ev_huge(t, y):
    return 1e60 * np.cos(1.9 * t + 0.7)


JIT_EVENTS = (ev_a, ev_b, ev_c, ev_d, ev_tiny, ev_huge)
JIT_AMP = {ev_tiny: 1e-60, ev_huge: 1e60}


def at_time(a, s):
    """Closures of one code: not compiled by the user."""

    def ev(t, y):
        return s * (t - a)

    return ev


class Ev:
    """g(t, y) with attributes; callable itself (interpreted mode)."""

    def __init__(self, kind, fn, amp):
        self.kind, self.fn, self.amp = kind, fn, amp
        self.calls = 0

    def __call__(self, t, y):
        self.calls += 1
        return self.fn(t, y)


def make_events(ctx, rng, prob, k, tw, nat, terminal=0.0, plain=0.0, often=False):
    """k events as (object to pass, python g, amplitude, direction, terminal)."""
    out = []
    W, C = prob.w, prob.c
    picks = rng.permutation(len(JIT_EVENTS))
    for e in range(k):
        d = float(rng.choice([0, 0, 1, -1, 2.5, -0.5, 0.02, -1e-6, np.inf, -1e30]))
        term = bool(rng.random() < terminal)
        if ctx.jit:
            if rng.random() < plain:
                g = at_time(float(rng.uniform(tw.t[0], tw.t[nat])), float(rng.choice([-1, 1])))
                obj = at_time(*(c.cell_contents for c in g.__closure__))
                ctx.seen("uncompiled_events")
                amp = 1.0
            else:
                g = JIT_EVENTS[picks[e % len(picks)]]
                obj = compiled(ctx, g)
                amp = JIT_AMP.get(g, 1.0)
        else:
            amp = float(10.0 ** rng.integers(-5, 6)) if rng.random() < 0.4 else 1.0
            if rng.random() < 0.15:
                amp = float(10.0 ** rng.integers(-290, 250))
            kind = "time" if often else str(rng.choice(["state", "state", "time", "mix", "lin", "grid"]))
            c = int(rng.integers(0, prob.n))
            if kind == "state":
                # threshold inside the range the component visits
                lo, hi = min(y[c] for y in tw.y[: nat + 1]), max(y[c] for y in tw.y[: nat + 1])
                thr = float(rng.uniform(lo, hi))
                g = lambda t, y, c=c, thr=thr, amp=amp: amp * ((y[c] - thr) / C)
            elif kind == "time":
                w, p = rng.uniform(0.5, 5), rng.uniform(0, 6)
                if often:
                    w = rng.uniform(0.3, 1.5) * nat / (W * (tw.t[nat] - tw.t[0]))
                g = lambda t, y, w=w, p=p, amp=amp: amp * np.sin(w * (W * t) + p)
            elif kind == "mix":
                w, p, m = rng.uniform(0.5, 4), rng.uniform(0, 6), rng.normal()
                g = lambda t, y, w=w, p=p, m=m, c=c, amp=amp: amp * (np.sin(w * (W * t) + p) + m * y[c] / C)
            elif kind == "lin":
                a = float(rng.uniform(tw.t[0], tw.t[nat]))
                s = float(rng.choice([-1, 1]))
                g = lambda t, y, a=a, s=s, amp=amp: amp * s * (W * (t - a))
            else:
                # zero exactly at a step time
                a = tw.t[int(rng.integers(1, nat + 1))]
                s = float(rng.choice([-1, 1]))
                if rng.random() < 0.3:
                    g = lambda t, y, a=a, s=s, amp=amp: amp * s * (W * (t - a)) ** 2  # touches
                else:
                    g = lambda t, y, a=a, s=s, amp=amp: amp * s * (W * (t - a))
            obj = Ev(kind, g, amp)
        for attr in ("terminal", "direction"):
            if hasattr(obj, attr):
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
        if d != 0 or rng.random() < 0.3:
            obj.direction = d if rng.random() < 0.7 or abs(d) > 100 else [np.float64, np.float32, np.int64][int(rng.integers(0, 3))](np.ceil(d) if d > 0 else np.floor(d))
        else:
            d = 0.0
        if term or rng.random() < 0.3:
            # A bool, or what a comparison of arrays or a table of options gives.
            obj.terminal = [bool, bool, np.bool_, int][int(rng.integers(0, 4))](term)
        out.append((obj, g, amp, np.sign(d), term))
    return out


def triggers(ga, gb, d):
    up = ga <= 0 and gb >= 0
    down = ga >= 0 and gb <= 0
    return (up and d > 0) or (down and d < 0) or ((up or down) and d == 0)


class Model:
    """Natural steps and the dense output of each, on demand."""

    def __init__(self, ctx, name, prob, tw):
        self.name, self.prob, self.tw = name, prob, tw
        self._dense = {}

    def dense(self, i):
        if i not in self._dense:
            tw, f = self.tw, self.prob.f
            a, ya, b, yb = tw.t[i], tw.y[i], tw.t[i + 1], tw.y[i + 1]
            fa, fb = np.array(f(a, ya)), np.array(f(b, yb))
            if self.name in ref.ADAPTIVE:
                self._dense[i] = ref.ADAPTIVE[self.name].dense(f, a, ya, fa, b, yb, fb)
            else:
                self._dense[i] = ref.hermite(a, ya, fa, b, yb, fb)
        return self._dense[i]

    def expected(self, g, d, i0, i1):
        """Steps (i, i+1) in [i0, i1) in which the event is reported, once per
        zero: a zero at a step time belongs to the step that ends there."""
        out = []
        tw = self.tw
        zero_end = None
        for i in range(i0, i1):
            ga, gb = g(tw.t[i], tw.y[i]), g(tw.t[i + 1], tw.y[i + 1])
            if not triggers(ga, gb, d):
                continue
            if gb == 0:
                out.append((i, tw.t[i + 1]))
            elif ga == 0:
                if not (out and out[-1][1] == tw.t[i]):
                    out.append((i, tw.t[i]))
            else:
                out.append((i, None))
        return out


def setup(ctx, rng, name, many=False):
    prob = random_problem(ctx, rng)
    t0, h = random_t0(rng), random_h(rng, lo=2e-2)
    kw = {}
    if name in ref.ADAPTIVE:
        kw = {"rtol": float(10 ** rng.uniform(-6, -2)), "atol": float(10 ** rng.uniform(-7, -3)),
              "max_step": float(rng.uniform(0.1, 0.6))}
        h = None if rng.random() < 0.5 else h
    elif name in ref.MULTISTEP and (ctx.jit or rng.random() < 0.4):
        kw["first_stepper_cls"] = None
    prob, t0, h, kw = change_units(ctx, rng, name, prob, t0, h, kw)
    if prob.w != 1.0 or prob.c != 1.0:
        ctx.seen("other_units")
    sol = drive.make(ctx, name, prob, t0, h, **kw)
    tw = Track(ctx, drive.make(ctx, name, prob, t0, h, **kw))
    nat = int(rng.integers(3, 14))
    if many:
        # A long run in which events occur many times.
        want = int(rng.integers(100, 400))
        while nat < want and np.max(np.abs(tw.upto(nat + 1).y[nat + 1])) <= 1e4 * prob.c:
            nat = min(nat + 40, want)
    tw.upto(nat + 1)
    return prob, t0, h, kw, sol, tw, nat


def call_events(ctx, sol, t, evs, rng):
    objs = [e[0] for e in evs]
    if len(objs) == 1 and rng.random() < 0.5:
        objs = objs[0]
    elif rng.random() < 0.3:
        objs = tuple(objs)
    return ctx.must("run_events", sol.run_events, t, objs)
