"""C24: memory.  skip keeps nothing, the recorded past does not grow, results
are released with their last reference, and so is the solver.

Interpreted: tracemalloc and weak references.  Compiled: the allocation
statistics of numba's runtime."""

import gc
import tracemalloc
import weakref

import numpy as np

from .. import evmodel, ref
from ..problems import MODULE, cls_of, compiled, random_h

JIT = ["RungeKutta45", "AdamsBashforth4", "BDF3", "DOP853", "RungeKutta23"]


class Meter:
    """Bytes (interpreted) or live runtime allocations (compiled)."""

    def __init__(self, ctx):
        self.py = ctx.py
        if self.py:
            tracemalloc.start()
        else:
            from numba.core.runtime import _nrt_python, rtsys

            _nrt_python.memsys_enable_stats()
            self.stats = rtsys.get_allocation_stats

    def __call__(self):
        gc.collect()
        if self.py:
            return tracemalloc.get_traced_memory()[0]
        s = self.stats()
        return s.alloc - s.free

    def close(self):
        if self.py:
            tracemalloc.stop()


def build(ctx, rng, name, f, n, h):
    kw = {}
    if name in ref.ADAPTIVE:
        kw = {"first_step": h, "max_step": h, "rtol": 1e-2, "atol": 1e-2}
    else:
        kw = {"h": h}
        if name in ref.MULTISTEP:
            kw["first_stepper_cls"] = None
    return ctx.must(f"new {name}", cls_of(name), f, 0.0, rng.uniform(0.1, 1.0, size=n), **kw)


def use(ctx, sol, op, k, h, ev):
    """An operation of size k; its result is dropped by the caller."""
    t = float(sol.t)
    if op == "skipn":
        sol.skip(n=k)
    elif op == "skipu":
        sol.skip(upto_t=t + (k + 0.5) * h)
    elif op == "stepn":
        sol.step(n=k)
    elif op == "stepu":
        sol.step(upto_t=t + (k + 0.5) * h)
    elif op == "step":
        for _ in range(k):
            sol.step()
    elif op == "run":
        sol.run(t + np.arange(1, k + 1) * h * 0.9)
    elif op == "runfar":
        sol.run(t + k * h * 0.9)
    elif op == "events":
        sol.run_events(t + k * h * 0.9, ev)
    elif op == "interp":
        for _ in range(k):
            sol.interpolate(t)
    elif op == "bad":
        for _ in range(k):
            for fn, a in ((sol.run, t - 1e6), (sol.interpolate, t + 1e6)):
                try:
                    fn(a)
                except ValueError:
                    pass


def growth(name, ops):
    def fn(ctx, rng):
        f = compiled(ctx, MODULE["ring"][0])
        n, h = int(rng.integers(1, 5)), random_h(rng, hi=0.1)
        sol = build(ctx, rng, name, f, n, h)
        ev = [compiled(ctx, evmodel.ev_a)]
        ev[0].terminal, ev[0].direction = False, 0
        op = str(rng.choice(ops))
        small, big = (4, 80) if ctx.py else (4, 800)
        use(ctx, sol, op, small, h, ev)  # warm
        use(ctx, sol, op, small, h, ev)
        m = Meter(ctx)
        kept = []
        # Nothing of 80 x n steps may stay: eight bytes per step would be 640.
        allow = 400 if ctx.py else 2
        try:
            # Caches fill now and then; what a step keeps, it keeps every time.
            for _ in range(40):
                m0 = m()
                use(ctx, sol, op, big, h, ev)
                kept.append(m() - m0)
                if kept[-1] <= allow:
                    break
        finally:
            m.close()
        ctx.check(min(kept) <= allow, "memory-grows",
                  lambda: f"{name} n={n} {op}: {big} steps keep {kept}" + (" bytes" if ctx.py else " allocations"))
        ctx.seen("growth_checked")
        ctx.seen("op_" + op)
        ctx.distinct("growth", name, op, n, round(h, 9))
        ctx.sample(solver=name, operation=op, kept=kept)

    return fn


def peak(name):
    """skip(n) needs no memory that depends on n, not even for a while."""

    def fn(ctx, rng):
        f = MODULE["ring"][0]
        n, h = int(rng.integers(1, 4)), random_h(rng, hi=0.05)
        sol = build(ctx, rng, name, f, n, h)
        op = str(rng.choice(["skipn", "skipu", "runfar"]))
        got = []
        use(ctx, sol, op, 30, h, None)
        for k in (10, 600):
            tracemalloc.start()
            base = tracemalloc.get_traced_memory()[0]
            use(ctx, sol, op, k, h, None)
            got.append(tracemalloc.get_traced_memory()[1] - base)
            tracemalloc.stop()
        ctx.check(got[1] <= got[0] + 8000, "memory-peak", lambda: f"{name} n={n} {op}: peak {got[0]} bytes for 10 steps, {got[1]} for 600")
        ctx.seen("peaks_checked")
        ctx.distinct("peak", name, op, n, round(h, 9))

    return fn


def released(name):
    """The solver and the user's functions go when the last reference goes."""

    def fn(ctx, rng):
        class Rhs:
            def __call__(self, t, y):
                return -0.5 * y + np.cos(t)

        class Event:
            terminal = False

            def __call__(self, t, y):
                return np.sin(3 * t)

        f, e, y0, p = Rhs(), Event(), rng.normal(size=2), None
        sol = build(ctx, rng, name, f, 2, 0.05)
        refs = {"equation": weakref.ref(f), "event": weakref.ref(e), "solver": weakref.ref(sol)}
        ops = [str(rng.choice(["stepn", "run", "events", "interp", "bad", "fail", "skipn"])) for _ in range(5)]
        out = []
        for op in ops:
            if op == "fail":
                def boom(t, y):
                    raise KeyError("user")
                try:
                    sol.run_events(float(sol.t) + 1.0, boom)
                except KeyError:
                    pass
            elif op == "events":
                out.append(sol.run_events(float(sol.t) + 0.7, [e]))
            else:
                use(ctx, sol, op, 3, 0.05, [e])
        del sol, f, e
        gc.collect()
        for what, r in refs.items():
            ctx.check(r() is None, "kept-alive", lambda: f"{name}: the {what} is still referenced after {ops}: "
                      f"{[type(x).__name__ for x in gc.get_referrers(r())][:5]}")
        ctx.seen("releases_checked")
        ctx.distinct("released", name, ops)

    return fn


def released_jit(name):
    def fn(ctx, rng):
        f = compiled(ctx, MODULE["ring"][0])
        ev = [compiled(ctx, evmodel.ev_a)]
        ev[0].terminal, ev[0].direction = False, 0
        ops = [str(x) for x in rng.permutation(["stepn", "run", "events", "skipn", "interp", "bad"])]

        def once(n):
            sol = build(ctx, rng, name, f, n, 0.05)
            for op in ops:
                use(ctx, sol, op, 5, 0.05, ev)

        once(2)
        m = Meter(ctx)
        once(3)
        m0 = m()
        for _ in range(5):
            once(int(rng.integers(1, 5)))
        m1 = m()
        ctx.check(m1 <= m0, "leak", lambda: f"{name} {ops}: {m1 - m0} allocations stay after five solvers are gone")
        ctx.seen("releases_checked")
        ctx.distinct("released", name, ops)

    return fn


def run(ctx):
    ops = ["skipn", "skipu", "stepn", "stepu", "step", "run", "runfar", "events", "interp", "bad"]
    if ctx.jit:
        for name in ctx.mine(JIT if not ctx.thorough else ref.ALL):
            ctx.cases("jit-leak-" + name, ctx.n(4, 20), released_jit(name))
            ctx.cases("jit-" + name, ctx.n(10, 40), growth(name, ["skipn", "stepn", "run", "events", "interp", "bad"]))
        return
    start = ctx.shard * 100000
    for name in ref.ALL:
        ctx.cases("py-" + name, ctx.n(20, 600) // ctx.nshards, growth(name, ops), start=start)
        ctx.cases("peak-" + name, ctx.n(8, 200) // ctx.nshards, peak(name), start=start)
        ctx.cases("gone-" + name, ctx.n(12, 400) // ctx.nshards, released(name), start=start)
