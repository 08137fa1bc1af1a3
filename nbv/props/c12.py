"""C12: solver instances do not influence each other.

A pool of solvers (same and different classes, sharing the equation, initial
state and parameter arrays) is driven interleaved, or from several threads;
every solver must produce what it produces alone."""

import json
import os
import pickle
import struct
import sys
import threading

import numpy as np

from .. import drive, evmodel, ref
from ..problems import random_h, random_problem, random_t0
from .c05 import REPR


def script(rng, n):
    """A deterministic list of operations for one solver."""
    out = []
    for _ in range(n):
        op = str(rng.choice(["step", "stepn", "skipn", "run", "interp", "events"]))
        out.append((op, int(rng.integers(1, 4)), sorted(float(x) for x in rng.uniform(0, 2.5, size=3))))
    return out


def perform(sol, op, n, fr, events):
    """One operation -> comparable result (arrays), no ctx: runs in threads."""
    t, h = float(sol.t), float(sol.h)
    if op == "step":
        r = sol.step()
    elif op == "stepn":
        r = sol.step(n=n)
    elif op == "skipn":
        sol.skip(n=n)
        r = ()
    elif op == "run":
        r = sol.run(np.array([t + x * h for x in fr]))
    elif op == "events":
        a = sol.run_events(np.array([t + x * h for x in fr]), events)
        r = (a[0], a[1]) + tuple(np.array(x) for x in a[2])
    else:
        r = (sol.interpolate(t),)
    return tuple(np.array(x) for x in r) + (float(sol.t), np.array(sol.y), np.array(sol.f), float(sol.h))


def build(ctx, name, prob, t0, h, kw):
    return drive.make(ctx, name, prob, t0, h, **kw)


class Pristine:
    """A process in which no solver was ever built, forked before the first
    case; it forks a child for every answer and stays as it is."""

    def __init__(self, answer):
        q_r, self.q = os.pipe()
        self.a, a_w = os.pipe()
        if os.fork():
            os.close(q_r)
            os.close(a_w)
            return
        try:
            os.close(self.q)
            os.close(self.a)
            for line in os.fdopen(q_r):
                pid = os.fork()
                if pid == 0:
                    data = pickle.dumps(answer(json.loads(line)))
                    data = struct.pack("<q", len(data)) + data
                    while data:
                        data = data[os.write(a_w, data):]
                    os._exit(0)
                if os.waitpid(pid, 0)[1]:
                    os.write(a_w, struct.pack("<q", 0))
        finally:
            os._exit(0)

    def _read(self, n):
        out = b""
        while len(out) < n:
            part = os.read(self.a, n - len(out))
            if not part:
                raise RuntimeError("the pristine process ended")
            out += part
        return out

    def ask(self, question):
        os.write(self.q, (json.dumps(question) + "\n").encode())
        n = struct.unpack("<q", self._read(8))[0]
        return pickle.loads(self._read(n)) if n else None


def pool(ctx, rng, size, names):
    base = random_problem(ctx, rng)
    out = []
    for _ in range(size):
        u = rng.random()
        name = str(rng.choice(names))
        prob = base if u < 0.7 else random_problem(ctx, rng)
        t0, h = random_t0(rng), random_h(rng)
        kw = {}
        if name in ref.ADAPTIVE:
            kw = {"rtol": float(10 ** rng.uniform(-6, -2))}
            h = None if rng.random() < 0.4 else h
            if rng.random() < 0.3:
                kw["max_step"] = float(rng.uniform(0.1, 1))
            if ctx.py:
                # As much in common with the others as possible, not all.
                if rng.random() < 0.6:
                    kw = {k: v for k, v in (("rtol", 1e-4), ("atol", 1e-5)) if rng.random() < 0.5}
                for k, lo, hi in (("max_step", 0.02, 0.5), ("safety_factor", 0.5, 0.95), ("max_factor", 1.5, 8.0), ("min_factor", 0.1, 0.7)):
                    if rng.random() < 0.25:
                        kw[k] = float(rng.uniform(lo, hi))
        elif name in ref.MULTISTEP and (ctx.jit or rng.random() < 0.4):
            kw["first_stepper_cls"] = None if ctx.jit or rng.random() < 0.4 else str(rng.choice(["Euler", "RungeKutta4", "RungeKutta23"]))
        if ctx.py and out and rng.random() < 0.4:
            t0, h = out[-1][2], (out[-1][3] if out[-1][3] is not None or name in ref.ADAPTIVE else h)
        out.append((name, prob, t0, h, kw, script(rng, int(rng.integers(4, 10)))))
    return out


def compare(ctx, label, spec, alone, got):
    name, prob, t0, h, kw, ops = spec
    ctx.check(len(alone) == len(got), "missing", lambda: f"{label} {name}: {len(got)} of {len(alone)} operations finished")
    for k, (a, b) in enumerate(zip(alone, got)):
        ok = len(a) == len(b) and all(np.shape(x) == np.shape(y) and drive.close(x, y, 1e-9 * (1 + np.abs(np.asarray(x, dtype=float)))) for x, y in zip(a, b))
        ctx.check(ok, "interference", lambda: f"{label} {name} {prob} t0={t0!r} h={h!r} {kw}: operation {k} {ops[k]} gave "
                  f"{b}; alone it gives {a}")
        ctx.seen("operations_compared")


def alone_results(ctx, spec, events):
    name, prob, t0, h, kw, ops = spec
    sol = build(ctx, name, prob, t0, h, kw)
    out = []
    for op in ops:
        out.append(ctx.must(op[0], perform, sol, *op, events))
        if not np.max(np.abs(out[-1][-3])) <= 1e4:
            break
    del ops[len(out):]
    return out


def in_pristine(ctx, names):
    """The first spec of a pool that is given by its case, alone."""

    def answer(q):
        group, idx, i = q
        rng = ctx.rng(group, idx)
        ctx.trace = []
        spec = pool(ctx, rng, int(rng.integers(2, 6)), names)[i]
        try:
            return alone_results(ctx, spec, events_for(ctx))
        except BaseException:  # noqa: BLE001
            return None

    return answer


def events_for(ctx):
    return [evmodel.compiled(ctx, evmodel.ev_a), evmodel.compiled(ctx, evmodel.ev_c)]


def interleaved(names, pristine=None):
    def fn(ctx, rng):
        specs = pool(ctx, rng, int(rng.integers(2, 6)), names)
        ev = events_for(ctx)
        alone = [alone_results(ctx, s, ev) for s in specs]
        if pristine is not None:
            for i, spec in enumerate(specs):
                first = pristine.ask([*ctx.case_id, i])
                ctx.check(first is not None, "alone", lambda: f"{spec[:5]} cannot be run alone in a fresh process")
                compare(ctx, "after other solvers:", spec, first, alone[i])
                ctx.seen("compared_with_fresh_process")
        # Construction is interleaved with use as well.
        sols = [None] * len(specs)
        got = [[] for _ in specs]
        todo = [(i, k) for i, s in enumerate(specs) for k in range(-1, len(s[5]))]
        pos = [-1] * len(specs)
        trace = []
        while any(pos[i] < len(specs[i][5]) for i in range(len(specs))):
            i = int(rng.choice([i for i in range(len(specs)) if pos[i] < len(specs[i][5])]))
            trace.append(i)
            name, prob, t0, h, kw, ops = specs[i]
            if pos[i] < 0:
                sols[i] = build(ctx, name, prob, t0, h, kw)
            else:
                got[i].append(ctx.must(ops[pos[i]][0], perform, sols[i], *ops[pos[i]], ev))
            pos[i] += 1
        for s, a, g in zip(specs, alone, got):
            compare(ctx, f"interleaved {trace}:", s, a, g)
        ctx.seen("interleavings")
        ctx.distinct([s[0] for s in specs], trace)
        ctx.sample(solvers=[s[0] for s in specs], interleaving=trace)

    return fn


class Noted:
    """Counts how often consecutive evaluations come from different threads."""

    def __init__(self, f, log):
        self.f, self.log = f, log

    def __call__(self, t, y):
        self.log.append(threading.get_ident())
        return self.f(t, y)


def threaded(names):
    def fn(ctx, rng):
        specs = pool(ctx, rng, 4, names)
        ev = events_for(ctx)
        alone = [alone_results(ctx, s, ev) for s in specs]
        got = [[] for _ in specs]
        errors = []
        log = []
        sols = []
        for name, prob, t0, h, kw, ops in specs:
            rhs = Noted(prob.f, log) if ctx.py else prob.rhs
            sols.append(drive.make(ctx, name, prob, t0, h, rhs=rhs, **kw))
        gate = threading.Barrier(len(specs))

        def work(i):
            try:
                gate.wait(30)
                for op in specs[i][5]:
                    got[i].append(perform(sols[i], *op, ev))
            except Exception as e:  # noqa: BLE001
                errors.append(f"{specs[i][0]} {type(e).__name__}: {e}")

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ths = [threading.Thread(target=work, args=(i,)) for i in range(len(specs))]
            for th in ths:
                th.start()
            for th in ths:
                th.join(60)
        finally:
            sys.setswitchinterval(old)
        ctx.counts["calls"] += sum(len(g) for g in got)
        ctx.check(not errors, "thread-exception", lambda: f"{[s[0] for s in specs]}: {errors}")
        for s, a, g in zip(specs, alone, got):
            compare(ctx, "threads:", s, a, g)
        switches = sum(1 for a, b in zip(log, log[1:]) if a != b)
        ctx.seen("thread_switches_seen", switches)
        ctx.seen("threaded_pools")
        ctx.distinct("threads", [s[0] for s in specs], switches)

    return fn


def sized(t, y, p):
    """Tells apart parameters that differ in shape, order or type only."""
    u = p.ravel()
    k = p.ndim + 0.5 * p.shape[0]
    s = 0.0
    for i in range(u.size):
        s += (i + 1) * u[i]
    out = np.empty_like(y)
    for i in range(y.size):
        out[i] = -0.1 * k * y[i] + np.sin(0.01 * s) * np.cos(t)
    return out


def shared_equation(names):
    """Solvers of one equation that differ in their parameters only, the
    parameters having as much in common as possible."""

    def fn(ctx, rng):
        name = str(rng.choice(names))
        base = rng.uniform(0.1, 2.0, size=6)
        if rng.random() < 0.5:
            base = np.round(base)
        ps = [base, base.reshape(2, 3), base.reshape(3, 2), base[::-1].copy(), base.copy(), base.reshape(1, 6), -base,
              base.view(np.int64), np.round(base).astype(int), base.astype(np.float32), base[:3], np.append(base, 0.0)]
        pick = [int(i) for i in rng.permutation(len(ps))[: int(rng.integers(2, 5))]] if ctx.py else [1, 2, 5]
        kw = {"first_step": 0.05} if name in ref.ADAPTIVE else {"h": 0.05}
        y0 = rng.normal(size=2)
        if name in ref.MULTISTEP:
            kw["first_stepper_cls"] = None
        f = evmodel.compiled(ctx, sized)
        from ..problems import cls_of

        def fresh(p):
            # The parameters written into the equation: nothing to share.
            q = np.array(p)
            return ctx.must(f"new {name}", cls_of(name), lambda t, y: f(t, y, q), 0.0, y0, **kw)

        want = []
        for i in pick:
            s = fresh(ps[i])
            want.append(ctx.must("step", s.step, n=3))
        sols = [ctx.must(f"new {name}", cls_of(name), f, 0.0, y0, params=ps[i], **kw) for i in pick]
        got = [ctx.must("step", s.step, n=3) for s in sols]
        for i, w, g in zip(pick, want, got):
            ctx.check(drive.close(w[0], g[0], 1e-12) and drive.close(w[1], g[1], 1e-9 * (1 + np.abs(w[1]))), "shared-equation",
                      lambda: f"{name}: with params {ps[i]!r} beside solvers of the same equation with {[ps[j] for j in pick]}: {g}, alone {w}")
            ctx.seen("shared_equations_compared")
        ctx.distinct("shared", name, pick)

    return fn


def run(ctx):
    if ctx.jit:
        names = ["RungeKutta45", "AdamsBashforth3", "RungeKutta4"] if not ctx.thorough else REPR
        if ctx.shard == 1:
            ctx.cases("jit-shared", ctx.n(1, 8), shared_equation(["RungeKutta4"]))
        if ctx.shard == 0:
            ctx.cases("jit-threads", ctx.n(12, 150), threaded(names))
        else:
            ctx.cases("jit-inter", ctx.n(12, 150), interleaved(names if ctx.shard == 1 else ["DOP853", "RungeKutta23"]), start=ctx.shard * 100000)
        return
    # Before anything else runs in this process.
    pristine = Pristine(in_pristine(ctx, ref.ALL))
    ctx.cases("py-inter", ctx.n(1600, 80000) // ctx.nshards, interleaved(ref.ALL, pristine), start=ctx.shard * 100000)
    ctx.cases("py-threads", ctx.n(400, 12000) // ctx.nshards, threaded(ref.ALL), start=ctx.shard * 100000)
    ctx.cases("py-shared", ctx.n(240, 8000) // ctx.nshards, shared_equation(ref.ALL), start=ctx.shard * 100000)
