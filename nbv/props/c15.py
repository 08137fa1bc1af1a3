"""C15: the registry tells the truth: names, aliases, groups and filters select
exactly the classes they describe, and what a class says about itself
(implicit, fixed step) is what it does."""

import itertools
import warnings

import numpy as np

from .. import drive, ref
from ..problems import compiled, random_h, random_t0

ALIASES = {"Euler": "ForwardEuler"}
RK = set(ref.GROUPS["Runge-Kutta"])


def recase(rng, s):
    u = rng.random()
    if u < 0.2:
        return s
    if u < 0.35:
        return s.lower()
    if u < 0.5:
        return s.upper()
    return "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


def describe(name):
    return {"implicit": name in ref.IMPLICIT, "fixed_step": name not in ref.ADAPTIVE,
            "runge_kutta": name in RK, "multistep": name in ref.MULTISTEP}


def lookups(ctx, rng):
    import nbkode

    for _ in range(40):
        name = str(rng.choice(ref.ALL + list(ALIASES)))
        want = ALIASES.get(name, name)
        key = recase(rng, name)
        cls = ctx.must("get_solver", nbkode.get_solver, key)
        ctx.check(isinstance(cls, type) and cls.__name__ == want, "lookup", lambda: f"get_solver({key!r}) is {cls!r}, expected {want}")
        ctx.check(ctx.must("get_solver", nbkode.get_solver, want) is cls, "lookup-identity", lambda: f"{key!r}")
        if key.lower() not in ("euler",):  # the submodule nbkode.euler has that name
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                got = ctx.must("getattr", getattr, nbkode, key)
            ctx.check(got is cls, "attribute", lambda: f"nbkode.{key} is {got!r}, expected {cls!r}")
            ctx.check(bool(w) == (key != want), "alias-warning",
                      lambda: f"nbkode.{key}: {len(w)} warnings (the class is called {want})")
        ctx.seen("lookups")
        bad = str(rng.choice([key + "x", "x" + key, key[:-1] + "_", " " + key, key + " ", "", "Solver", "Multistep", "ERK", "FSAL"]))
        if bad.lower() not in [x.lower() for x in ref.ALL + list(ALIASES)]:
            out = ctx.call("get_solver", nbkode.get_solver, bad)
            ctx.check(out.raised(ValueError), "unknown-name", lambda: f"get_solver({bad!r}): {out!r}, expected ValueError")
            ctx.check(all(n in str(out.exc) for n in ref.ALL), "unknown-name-message", lambda: f"get_solver({bad!r}): {out.exc}")
            if bad.isidentifier() and not hasattr(type(nbkode), bad):
                out = ctx.call("getattr", getattr, nbkode, bad)
                ctx.check(out.raised(AttributeError), "unknown-attribute", lambda: f"nbkode.{bad}: {out!r}, expected AttributeError")
            ctx.seen("unknown_names")
        ctx.distinct("lookup", key)


def filters(ctx, rng):
    import nbkode

    for _ in range(40):
        k = int(rng.integers(0, 4))
        groups = [str(g) for g in rng.permutation(list(ref.GROUPS))[:k]]
        kw = {}
        for f in ("implicit", "fixed_step", "runge_kutta", "multistep"):
            u = rng.random()
            if u < 0.3:
                kw[f] = bool(u < 0.15)
            elif u < 0.4:
                kw[f] = None
        pool = ref.ALL if not groups else list(itertools.chain(*[ref.GROUPS[g] for g in groups]))
        want = sorted(n for n in pool if all(v is None or describe(n)[f] is v for f, v in kw.items()))
        asked = [recase(rng, g) for g in groups]
        got = ctx.must("get_solvers", nbkode.get_solvers, *asked, **kw)
        names = sorted(c.__name__ for c in got)
        ctx.check(isinstance(got, tuple) and names == want, "filter",
                  lambda: f"get_solvers{tuple(asked)} {kw}: {names}, expected {want}")
        ctx.check(all(nbkode.get_solver(c.__name__) is c for c in got), "filter-classes", lambda: f"{got}")
        ctx.seen("filters_checked")
        ctx.seen("nonempty_filters", bool(want))
        ctx.distinct("filter", sorted(asked), sorted(kw.items(), key=str))
        bad = str(rng.choice(["Adams", "Runge", "adam-bashforth", "BDF1", "Multistep", ""]))
        out = ctx.call("get_solvers", nbkode.get_solvers, *(asked + [bad]), **kw)
        ctx.check(out.raised(KeyError), "unknown-group", lambda: f"get_solvers(..., {bad!r}): {out!r}, expected KeyError")
    got = ctx.must("get_groups", nbkode.get_groups)
    ctx.check(tuple(got) == tuple(sorted(ref.GROUPS)), "groups", lambda: f"get_groups(): {got}")


def listing(ctx, rng):
    import nbkode

    plain = ctx.must("list_solvers", nbkode.list_solvers, include_alias=False)
    ctx.check(sorted(plain) == sorted(ref.ALL), "list", lambda: f"list_solvers(include_alias=False): {plain}")
    full = ctx.must("list_solvers", nbkode.list_solvers)
    ctx.check(sorted(full) == sorted(ref.ALL + [f"{a} (alias of {n})" for a, n in ALIASES.items()]), "list", lambda: f"{full}")
    custom = ctx.must("list_solvers", nbkode.list_solvers, "<{cls.__name__}|{name}>", "{name}->{cls.__name__}")
    ctx.check(sorted(custom) == sorted([f"<{n}|{n}>" for n in ref.ALL] + [f"{a}->{n}" for a, n in ALIASES.items()]), "list-format",
              lambda: f"{custom}")
    d = ctx.must("dir", dir, nbkode)
    ctx.check(set(ref.ALL) <= set(d) and list(d) == sorted(d), "dir", lambda: f"dir(nbkode): {d}")
    for name in d:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            ctx.must("getattr", getattr, nbkode, name)
        ctx.check(not w, "dir-warns", lambda: f"nbkode.{name}: {[str(x.message) for x in w]}")
    for n in ref.ALL:
        got = ctx.must("repr", repr, nbkode.get_solver(n))
        ctx.check(n in got, "repr", lambda: f"repr of {n}: {got}")
    ctx.seen("listings")


def behaviour(ctx, rng):
    """What the class attributes claim against what the solver does."""
    import nbkode

    for name in ref.ALL:
        cls = nbkode.get_solver(name)
        d = describe(name)
        ctx.check(cls.IMPLICIT is d["implicit"] and cls.FIXED_STEP is d["fixed_step"], "claims",
                  lambda: f"{name}: IMPLICIT={cls.IMPLICIT!r} FIXED_STEP={cls.FIXED_STEP!r}, expected {d}")
        # Amplification of a very stiff linear problem: bounded exactly for the implicit ones.
        lam = -(10.0 ** rng.uniform(5, 7))
        t0 = random_t0(rng)
        h = 0.1
        kw = {"first_stepper_cls": None} if name in ref.MULTISTEP else {}
        if name not in ref.ADAPTIVE:
            sol = ctx.must(f"new {name}", cls, lambda t, y: lam * y, t0, [1.0, 0.5], h=h, **kw)
            ctx.must("step", sol.step)
            grown = float(np.max(np.abs(sol.y)))
            ctx.check((grown < 10) is bool(cls.IMPLICIT), "implicit-claim",
                      lambda: f"{name}.IMPLICIT={cls.IMPLICIT!r}, but one step of y'={lam:.3g} y multiplies y by {grown:.3g}")
            ctx.seen("implicit" if cls.IMPLICIT else "explicit")
        # Step lengths: constant exactly for the fixed step ones.
        w = float(rng.uniform(2, 6))

        def f(t, y):
            return np.array([np.cos(w * t), np.exp(-(t - t0 - 1) ** 2)])

        kw = {"first_step": 1e-3} if name in ref.ADAPTIVE else {"h": float(random_h(rng, hi=0.1))}
        sol = ctx.must(f"new {name}", cls, f, t0, [0.0, 0.0], **kw)
        ts = np.array([ctx.must("step", sol.step)[0][0] for _ in range(12)])
        dt = np.diff(ts)
        const = bool(np.all(np.abs(dt - dt[0]) <= 1e-12 * (1 + abs(t0))))
        ctx.check(const is bool(cls.FIXED_STEP), "fixed-claim", lambda: f"{name}.FIXED_STEP={cls.FIXED_STEP!r}, steps {dt}")
        ctx.seen("behaviour_checked")
        ctx.distinct("behaviour", name, round(lam), round(w, 3))


def base_of(cls, name):
    """The family a solver class belongs to, wherever it is defined."""
    return next((c for c in cls.__mro__ if c.__name__ == name), None)


def extension(ctx, rng):
    """A class derived by the user joins the registry and works; a name that is
    taken, in any casing, is refused and keeps its meaning."""
    import nbkode
    ERK = base_of(nbkode.RungeKutta4, "ERK")
    if ERK is None:
        return
    uid = f"Custom{int(rng.integers(0, 10**9))}x{ctx.case_id[1]}"
    alias = uid + "Al"
    if rng.random() < 0.3:
        al = float(rng.uniform(0.3, 1.0))
        A = np.array([[0.0, 0.0], [al, 0.0]])
        B = np.array([1 - 1 / (2 * al), 1 / (2 * al)])  # the second order family
        C = np.array([0.0, al])
    else:  # any explicit tableau: the formula is defined, if not accurate
        ns = int(rng.integers(1, 8))
        A = np.tril(rng.normal(size=(ns, ns)), -1) * (rng.random((ns, ns)) < 0.8)
        C = A.sum(axis=1)
        B = rng.normal(size=ns)
        B += (1 - B.sum()) / ns
    group = str(rng.choice(list(ref.GROUPS) + ["Own" + uid]))
    n0 = len(nbkode.get_solvers())
    cls = type(ERK)(uid, (ERK,), {"A": A, "B": B, "C": C, "ALIASES": (alias,), "GROUP": group})
    ctx.check(nbkode.get_solver(recase(rng, uid)) is cls and nbkode.get_solver(recase(rng, alias)) is cls, "registered", lambda: uid)
    ctx.check(len(nbkode.get_solvers()) == n0 + 1 and cls in nbkode.get_solvers(recase(rng, group), implicit=False, fixed_step=True, runge_kutta=True),
              "registered-group", lambda: f"{uid} in {group}")
    ctx.check(group in nbkode.get_groups(), "registered-group", lambda: group)
    out = ctx.call("get_solver", nbkode.get_solver, uid + "zz")
    ctx.check(out.raised(ValueError) and uid in str(out.exc) and alias in str(out.exc), "unknown-name-message",
              lambda: f"get_solver({uid + 'zz'!r}) does not name the known {uid}, {alias}: {out!r}")
    rk = ref.RK(C, [list(r) for r in A], list(B), 2)
    t0, h = random_t0(rng), random_h(rng)
    y = rng.normal(size=3)

    def f(t, u):
        return np.sin(u + t) - 0.3 * u[::-1]

    sol = ctx.must("new custom", cls, f, t0, y, h=h)
    for _ in range(4):
        t, y, fy, _h = drive.state(sol)
        want, _ = rk.step(f, t, y, fy, h)
        ctx.must("step", sol.step)
        ctx.check(drive.close(sol.y, want, 1e-11 * (1 + np.max(np.abs(y)) + np.max(np.abs(want)))), "custom-step", lambda: f"{uid}: {sol.y}, expected {want}")
        ctx.seen("custom_steps")
    # What cannot be an explicit method, or has no room for its past, is refused.
    bad = A.copy()
    i = int(rng.integers(0, len(B)))
    bad[i, int(rng.integers(i, len(B)))] = 0.5
    for change in ({"A": bad}, {"LEN_HISTORY": 1}, {"LEN_HISTORY": 2.0}):
        body = {"A": A, "B": B, "C": C, **change}
        out = ctx.call("bad class", lambda: type(ERK)(uid + "Bad", (ERK,), body))
        ctx.check(not out.ok, "bad-class", lambda: f"a class with {change} was accepted")
        ctx.check(not ctx.call("get_solver", nbkode.get_solver, uid + "Bad").ok and len(nbkode.get_solvers()) == n0 + 1,
                  "bad-class-registered", lambda: f"{change}")
    taken = recase(rng, str(rng.choice(ref.ALL + ["Euler", uid, alias])))
    before = nbkode.get_solver(taken)

    def again():
        return type(ERK)(taken, (ERK,), {"A": A, "B": B, "C": C})

    out = ctx.call("duplicate", again)
    ctx.check(not out.ok, "duplicate-name", lambda: f"a second class called {taken!r} was accepted")
    ctx.check(nbkode.get_solver(taken) is before and len(nbkode.get_solvers()) == n0 + 1, "duplicate-effect", lambda: taken)
    ctx.seen("duplicates_refused")
    ctx.distinct("extension", uid, taken)
    ctx.sample(solver=uid, group=group, duplicate=taken)


def extension_multistep(ctx, rng):
    """Multistep classes defined by their coefficients."""
    import nbkode
    uid = f"CustomMulti{int(rng.integers(0, 10**9))}x{ctx.case_id[1]}"
    k = int(rng.integers(1, 8))
    implicit = bool(rng.random() < 0.5)
    A = rng.uniform(-1, 1, size=k) * (rng.random(k) < 0.8)
    A[-1] -= 1 + A.sum()  # consistent: constants stay
    B = rng.uniform(-1, 1, size=k) * (rng.random(k) < 0.8)
    body = {"A": A, "B": B, "GROUP": "Own" + uid}
    Bn = 0.0
    if implicit:
        Bn = body["Bn"] = float(rng.uniform(0.2, 1.0))
    base = base_of(nbkode.AdamsMoulton3, "ImplicitMultistep") if implicit else base_of(nbkode.AdamsBashforth3, "ExplicitMultistep")
    if base is None:
        return
    cls = type(base)(uid, (base,), body)
    ctx.check(nbkode.get_solver(recase(rng, uid)) is cls and
              nbkode.get_solvers(recase(rng, "Own" + uid), implicit=implicit, fixed_step=True, multistep=True, runge_kutta=False) == (cls,)
              and nbkode.get_solvers("Own" + uid, implicit=not implicit) == (), "registered", lambda: f"{uid} {body}")
    t0, h = random_t0(rng), random_h(rng, hi=0.1)
    y0 = rng.normal(size=int(rng.integers(1, 4)))

    def f(t, u):
        return np.sin(u + t) - 0.3 * u[::-1]

    sol = ctx.must("new custom", cls, f, t0, y0, h=h, first_stepper_cls=None)
    ys, fs = [np.array(y0)] * k, [f(t0, y0)] * k
    t = t0
    for i in range(k + 4):
        if not np.max(np.abs(ys)) < 1e4:
            break
        ctx.must("step", sol.step)
        known = h * (B @ np.array(fs)) - A @ np.array(ys)
        scale = h * (np.abs(B) @ np.abs(fs)) + np.abs(A) @ np.abs(ys)
        t1, y1 = float(sol.t), np.array(sol.y)
        res = y1 - h * Bn * f(t1, y1) - known
        tol = 1e-12 * (1 + np.max(scale)) + (1e-7 * (1 + np.linalg.norm(scale)) if implicit else 0.0)
        ctx.check(abs(t1 - (t + h)) <= 1e-13 * (1 + abs(t)) and float(np.linalg.norm(res)) <= tol, "custom-step",
                  lambda: f"{uid} A={A} B={B} Bn={Bn} step {i}: t={t1!r} y={y1}, off by {res}")
        t = t1
        ys, fs = ys[1:] + [y1], fs[1:] + [f(t1, y1)]
        ctx.seen("custom_steps")
    ctx.distinct("extension", uid)


def run(ctx):
    start = ctx.shard * 100000
    n = ctx.nshards
    ctx.cases("lookups", ctx.n(40, 2000) // n, lookups, start=start)
    ctx.cases("filters", ctx.n(40, 2000) // n, filters, start=start)
    ctx.cases("listing", 1, listing, start=start)
    if ctx.py:
        ctx.cases("behaviour", ctx.n(20, 800) // n, behaviour, start=start)
        ctx.cases("extension", ctx.n(20, 200) // n, extension, start=start)
        ctx.cases("extension-multistep", ctx.n(20, 200) // n, extension_multistep, start=start)
