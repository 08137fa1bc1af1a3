"""C05: the sequence of steps does not depend on how the calls are grouped.

A natural twin advances by single steps and records (t, y, h).  The solver
under observation gets a random history of step/skip/run/interpolate calls; an
online monitor tracks its position in the twin's sequence and predicts what
every call returns and where it stops."""

import numpy as np

from .. import drive, ref
from ..problems import change_units, random_h, random_problem, random_t0

REPR = ["RungeKutta4", "AdamsBashforth3", "AdamsMoulton3", "BDF2", "ForwardEuler", "RungeKutta23", "RungeKutta45", "DOP853"]


class Track:
    """The twin's natural sequence, extended on demand."""

    def __init__(self, ctx, sol):
        self.ctx, self.sol = ctx, sol
        self.t, self.y, self.h = [], [], []
        self._rec()

    def _rec(self):
        t, y, _, h = drive.state(self.sol)
        self.t.append(t)
        self.y.append(y)
        self.h.append(h)

    def upto(self, j):
        while len(self.t) <= j:
            self.ctx.must("twin step", self.sol.step)
            self._rec()
        return self

    def stop(self, i, upto, n=None):
        """Index where a walk from i ends that may not go beyond upto."""
        j = i
        while n is None or j < i + n:
            self.upto(j)
            if self.t[j] + self.h[j] > upto:
                break
            j += 1
        self.upto(j)
        return j

    def reach(self, i, t):
        """First index >= i with time >= t."""
        j = i
        while self.upto(j).t[j] < t:
            j += 1
        return j


def eq_t(a, b, w=1.0):
    return abs(a - b) <= 1e-11 * (1 / w + abs(b))


def eq_y(a, b, c=1.0):
    return drive.close(a, b, 1e-8 * (c + np.abs(b)))


def case(name, nops):
    def fn(ctx, rng):
        prob = random_problem(ctx, rng)
        t0, h = random_t0(rng), random_h(rng)
        kw = {}
        if name in ref.ADAPTIVE:
            if rng.random() < 0.5:
                kw = {"rtol": float(10 ** rng.uniform(-7, -2)), "atol": float(10 ** rng.uniform(-8, -3))}
            if rng.random() < 0.3:
                kw["max_step"] = float(rng.uniform(0.05, 0.6))
            h = None if rng.random() < 0.4 else h
        elif ctx.jit and name in ref.MULTISTEP:
            kw["first_stepper_cls"] = None
        elif name in ref.MULTISTEP and rng.random() < 0.3:
            kw["first_stepper_cls"] = None
        prob, t0, h, kw = change_units(ctx, rng, name, prob, t0, h, kw)
        w, c = prob.w, prob.c
        if w != 1.0 or c != 1.0:
            ctx.seen("other_units")
        sol = drive.make(ctx, name, prob, t0, h, **kw)
        tw = Track(ctx, drive.make(ctx, name, prob, t0, h, **kw))
        i = 0
        many = False
        kinds = []

        def where(op):
            t, y, f, hh = drive.state(sol)
            ctx.check(eq_t(t, tw.upto(i).t[i], w) and eq_y(y, tw.y[i], c), "position",
                      lambda: f"{name} {prob} t0={t0!r} h={h!r} {kw}: after {kinds} the solver is at t={t!r}, y={y}; "
                      f"{i} single steps give t={tw.t[i]!r}, y={tw.y[i]}")
            ctx.check(abs(hh - tw.h[i]) <= 1e-6 * abs(tw.h[i]), "proposal",
                      lambda: f"{name} {prob}: after {kinds} the step size is {hh!r}, after single steps {tw.h[i]!r}")
            fr = np.array(prob.f(t, y), dtype=float)
            ctx.check(f.shape == y.shape == (prob.n,) and drive.close(f, fr, 1e-10 * (w * c + np.abs(fr)) + 1e-12 * abs(t) * w * w * c), "derivative",
                      lambda: f"{name} {prob}: after {kinds} f={f}, the equation gives {fr} at t={t!r}, y={y}")
            ctx.seen("positions_checked")

        where("new")

        def outputs(op, out, a, b):
            ts, ys = out
            ctx.check(type(ts) is type(ys) is np.ndarray and ts.dtype == ys.dtype == float, "output-type",
                      lambda: f"{name} {kinds}: {op} returned {type(ts)}, {type(ys)}")
            ok = np.shape(ts) == (b - a,) and (b == a or np.shape(ys) == (b - a, prob.n))
            ctx.check(ok, "output-shape", lambda: f"{name} {prob} t0={t0!r} h={h!r} {kw} {kinds}: {op} returned shapes "
                      f"{np.shape(ts)}, {np.shape(ys)}; expected {b - a} steps")
            for k in range(b - a):
                ctx.check(eq_t(ts[k], tw.t[a + 1 + k], w) and eq_y(ys[k], tw.y[a + 1 + k], c), "output",
                          lambda: f"{name} {prob} {kinds}: {op} row {k} is ({ts[k]!r}, {ys[k]}), single steps give "
                          f"({tw.t[a + 1 + k]!r}, {tw.y[a + 1 + k]})")
            ctx.seen("rows_checked", b - a)

        def target(far=0):
            """A time: exactly on, or between, or barely off step times, or before now."""
            j = i + (far or int(rng.integers(0, 5)))
            tw.upto(j + 1)
            u = rng.random()
            if u < 0.35:
                return tw.t[j]
            if u < 0.85:
                return float(tw.t[j] + rng.uniform(0.02, 0.98) * (tw.t[j + 1] - tw.t[j]))
            if u < 0.95:
                return float(np.nextafter(tw.t[j], -np.inf))
            return float(tw.t[i] - rng.uniform(0, 1) / w)

        for _ in range(nops):
            if not np.max(np.abs(tw.upto(i).y[i])) <= 1e4 * c:
                break
            op = str(rng.choice(["step", "step", "stepn", "stepu", "stepnu", "skip", "skipn", "skipu", "skipnu", "run", "runs", "interp"]))
            n = int(rng.integers(0, 6)) if rng.random() < 0.2 else int(rng.integers(1, 6))
            far = 0
            if not many and rng.random() < 0.004:
                # Once in a while, far more steps than any internal block size.
                want, n, many = int(rng.integers(100, 1200)), 0, True
                while n < want and np.max(np.abs(tw.upto(i + n).y[i + n])) <= 1e4 * c:
                    n += 1
                far = n
                if op.endswith("nu") and rng.random() < 0.5:
                    n = int(rng.integers(0, n + 1))
                ctx.seen("long_walks", 1 if op[-1] in "nus" and n > 100 else 0)
            if op in ("step", "skip"):
                out = ctx.must(op, getattr(sol, op))
                kinds.append(op + "()")
                tw.upto(i + 1)
                if op == "step":
                    t, y = out
                    ctx.check(np.shape(t) == (1,), "output-shape", lambda: f"step() returned time {t!r}")
                    ctx.check(eq_t(np.ravel(t)[0], tw.t[i + 1], w) and eq_y(np.ravel(y), tw.y[i + 1], c), "output",
                              lambda: f"{name} {prob} {kinds}: step() returned {t!r}, {y!r}; twin {tw.t[i + 1]!r} {tw.y[i + 1]}")
                i += 1
            elif op in ("stepn", "skipn"):
                out = ctx.must(op, getattr(sol, op[:4]), n=n)
                kinds.append(f"{op[:4]}(n={n})")
                tw.upto(i + n)
                if op == "stepn":
                    outputs(f"step(n={n})", out, i, i + n)
                i += n
            elif op in ("stepu", "skipu"):
                u = target(far)
                j = i if u < tw.t[i] else tw.stop(i, u)
                out = ctx.must(op, getattr(sol, op[:4]), upto_t=u)
                kinds.append(f"{op[:4]}(upto_t={u!r})")
                if op == "stepu":
                    outputs(f"step(upto_t={u!r})", out, i, j)
                i = j
            elif op in ("stepnu", "skipnu"):
                u = target(far)
                j = i if u < tw.t[i] else tw.stop(i, u, n)
                out = ctx.must(op, getattr(sol, op[:4]), n=n, upto_t=u)
                kinds.append(f"{op[:4]}(n={n}, upto_t={u!r})")
                if op == "stepnu":
                    outputs(f"step(n={n}, upto_t={u!r})", out, i, j)
                i = j
            elif op in ("run", "runs"):
                u = target(far)
                u = max(u, tw.t[i])
                if op == "run":
                    arg = u
                else:
                    arg = np.sort(np.append(rng.uniform(tw.t[i], max(u, tw.t[i]), size=int(rng.integers(1, 4))), u))
                j = tw.reach(i, u)
                out = ctx.must("run", sol.run, arg)
                kinds.append(f"run({arg!r})")
                ctx.check(len(out[0]) == np.size(arg), "output-shape", lambda: f"{name} {kinds}: {len(out[0])} outputs")
                i = j
            else:
                u = float(rng.uniform(tw.t[max(i - 1, 0)], tw.t[i]))
                ctx.must("interpolate", sol.interpolate, u)
                kinds.append(f"interpolate({u!r})")
            if op.startswith("skip"):
                ctx.check(out is None, "skip-returns", lambda: f"{name} {kinds}: returned {out!r}")
            where(op)
            ctx.seen("op_" + op)
        ctx.distinct(name, prob.name, prob.n, [k.split("(")[0] for k in kinds])
        ctx.sample(solver=name, problem=repr(prob), t0=t0, h=h, history=kinds, t_end=float(sol.t))

    return fn


def run(ctx):
    if ctx.jit:
        names = REPR if not ctx.thorough else REPR + [n for n in ref.ALL if n not in REPR]
        for name in ctx.mine(names):
            ctx.cases("jit-" + name, ctx.n(12, 150), case(name, 14))
        return
    per = ctx.n(200, 8000)
    for name in ref.ALL:
        ctx.cases("py-" + name, per // ctx.nshards, case(name, 14), start=ctx.shard * 100000)
