"""Worker side of the framework: case loop, trace recorder, verdicts.

A *worker* is one process that imports nbkode from /repo in one configuration
(``py``: NBKODE_NONUMBA=1, interpreted; ``jit``: compiled by numba) and drives
it with generated workloads while monitors observe every call made through
``Ctx.call``.  Verdicts are three-valued: violations are collected here,
"held" means a case finished with its monitors silent, and a worker that did
not reach its monitors is reported as inconclusive by the parent (run.py).
"""

import collections
import hashlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NBV_REPO", "/repo")


class Budget(BaseException):
    """The code under test used more right hand side evaluations than any
    correct execution of the case can need (logical-step watchdog)."""


class CaseAbort(Exception):
    """Stop this case: its verdict (a violation) was already recorded."""


class Outcome:
    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def __repr__(self):
        if self.ok:
            return f"ok:{short(self.value)}"
        return f"raised:{type(self.exc).__name__}:{str(self.exc)[:100]}"

    def raised(self, *types):
        return (not self.ok) and isinstance(self.exc, types)


def short(v, n=160):
    try:
        if isinstance(v, np.ndarray):
            r = f"array{v.shape}{np.array2string(v.ravel()[:4], precision=17, separator=',')}"
        else:
            r = repr(v)
    except Exception:
        r = f"<{type(v).__name__}>"
    r = " ".join(r.split())
    return r if len(r) <= n else r[:n] + "..."


class Ctx:
    def __init__(self, prop, mode, shard, nshards, seed, tier, only=None, heartbeat=None, cap=None):
        self.prop, self.mode, self.shard, self.nshards = prop, mode, shard, nshards
        self.seed, self.tier, self.only = seed, tier, only
        self.jit = mode.startswith("jit")
        self.py = not self.jit
        self.thorough = tier == "thorough"
        self.counts = collections.Counter()
        self.distinct_keys = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.log = {}
        self.trace = None
        self.case_id = None
        self.t_start = time.monotonic()
        self.cap = cap
        self.capped = False
        self._hb = heartbeat
        self.max_violations = 6

    # ---- scale -------------------------------------------------------
    def n(self, quick, thorough=None):
        """Number of cases for this tier."""
        if self.tier == "thorough":
            return quick * 12 if thorough is None else thorough
        return quick

    def mine(self, items):
        """The part of `items` that belongs to this shard."""
        return [x for i, x in enumerate(items) if i % self.nshards == self.shard]

    # ---- case loop ---------------------------------------------------
    def rng(self, group, idx):
        return np.random.default_rng(
            [self.seed, zlib.crc32(self.prop.encode()), zlib.crc32(group.encode()), idx]
        )

    def cases(self, group, n, fn, start=0):
        """Run fn(ctx, rng) for cases start .. start + n - 1 of a group."""
        for idx in range(start, start + n):
            if self.only is not None and self.only != (group, idx):
                continue
            if self.cap and time.monotonic() - self.t_start > self.cap:
                self.capped = True
                return
            if len(self.violations) >= self.max_violations:
                return
            self.one(group, idx, fn)

    def one(self, group, idx, fn):
        self.case_id = (group, idx)
        self.trace = []
        if self._hb:
            with open(self._hb, "w") as fh:
                fh.write(json.dumps({"group": group, "idx": idx, "t": time.time()}))
        nv = len(self.violations)
        try:
            fn(self, self.rng(group, idx))
        except CaseAbort:
            pass
        except Budget as e:
            self.fail("no-progress", f"evaluation budget exceeded: {e}", abort=False)
        except Exception as e:  # noqa: BLE001
            # The code under test returned something the oracle cannot use
            # (wrong shape, wrong type): reported with the traceback.
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-5:])
            self.fail("unusable-result", f"{type(e).__name__}: {e} [{where}]", abort=False)
        self.counts["cases"] += 1
        if len(self.violations) == nv:
            self.counts["cases_held"] += 1

    # ---- observation -------------------------------------------------
    def call(self, label, fn, *args, **kwargs):
        """Call the code under test and record call and return."""
        self.counts["calls"] += 1
        ev = [label, short(args[1:] if label.startswith("new ") else args), short(kwargs), None]
        self.trace.append(ev)
        if len(self.trace) > 400:
            del self.trace[:100]
        try:
            out = Outcome(True, fn(*args, **kwargs))
        except Budget:
            ev[3] = "budget exceeded"
            raise
        except Exception as e:  # noqa: BLE001
            out = Outcome(False, exc=e)
        ev[3] = repr(out)
        return out

    def must(self, label, fn, *args, **kwargs):
        """A call that has to succeed: an exception is a violation."""
        out = self.call(label, fn, *args, **kwargs)
        if not out.ok:
            tb = traceback.extract_tb(out.exc.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
            self.fail("unexpected-exception", f"{label}: {type(out.exc).__name__}: {out.exc} [{where}]")
        return out.value

    def seen(self, name, n=1):
        self.counts[name] += int(n)

    def distinct(self, *key):
        self.distinct_keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({"mode": self.mode, "case": list(self.case_id), **{k: jsonable(v) for k, v in kw.items()}})

    # ---- verdicts ----------------------------------------------------
    def fail(self, kind, detail, abort=True, **data):
        self.violations.append(
            {
                "kind": kind,
                "detail": str(detail)[:2000],
                "data": {k: jsonable(v) for k, v in data.items()},
                "mode": self.mode,
                "shard": self.shard,
                "nshards": self.nshards,
                "seed": self.seed,
                "tier": self.tier,
                "case": list(self.case_id) if self.case_id else None,
                "trace": (self.trace or [])[-60:],
            }
        )
        if abort:
            raise CaseAbort()

    def check(self, cond, kind, detail, **data):
        self.counts["checks"] += 1
        if not cond:
            self.fail(kind, detail() if callable(detail) else detail, **data)

    def known_finding(self, key, detail):
        """A violation that known_findings.txt lists, identified by mechanism."""
        self.counts["known:" + key] += 1
        self.known.setdefault(key, str(detail)[:500])

    def result(self):
        return {
            "mode": self.mode,
            "shard": self.shard,
            "counts": dict(self.counts),
            "distinct": sorted(self.distinct_keys),
            "samples": self.samples,
            "violations": self.violations,
            "known": self.known,
            "log": self.log,
            "capped": self.capped,
            "wall": time.monotonic() - self.t_start,
        }


def jsonable(v):
    if isinstance(v, np.ndarray):
        return [jsonable(x) for x in v.ravel()[:200].tolist()]
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return short(v)


def poison(seed):
    """Memory sanitizer for interpreted mode: numpy.empty and empty_like hand
    out arrays full of a value that depends on the seed.  (In compiled mode
    MALLOC_PERTURB_ fills what malloc returns.)"""
    value = {85: np.nan, 170: 7.0e11}.get(seed, -3.0e-3 * seed)
    make, make_like = np.empty, np.empty_like

    def fill(a):
        if a.dtype.kind in "fc":
            a.fill(value)
        elif a.dtype.kind in "iu":
            a.fill(99)
        return a

    def empty(*args, **kwargs):
        return fill(make(*args, **kwargs))

    def empty_like(*args, **kwargs):
        return fill(make_like(*args, **kwargs))

    np.empty, np.empty_like = empty, empty_like


def import_nbkode():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if os.environ.get("NBV_PERTURB"):
        poison(int(os.environ["NBV_PERTURB"]))
    import nbkode

    here = os.path.realpath(nbkode.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"nbkode was imported from {here}, not from {REPO}")
    return nbkode


def worker_main(argv):
    import argparse
    import importlib

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--mode", required=True)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("--out", required=True)
    ap.add_argument("--heartbeat")
    ap.add_argument("--cap", type=float)
    a = ap.parse_args(argv)
    warnings.simplefilter("ignore")
    only = None
    if a.only:
        g, i = a.only.rsplit(":", 1)
        only = (g, int(i))
    nbkode = import_nbkode()
    no_numba = bool(nbkode.nbcompat.nb_to_import.NO_NUMBA)
    want = a.mode.startswith("py")
    if no_numba is not want:
        raise SystemExit(f"mode {a.mode}, but NO_NUMBA is {no_numba}")
    mod = importlib.import_module("nbv.props." + a.prop.lower())
    ctx = Ctx(a.prop, a.mode, a.shard, a.nshards, a.seed, a.tier, only, a.heartbeat, a.cap)
    with np.errstate(all="ignore"):
        mod.run(ctx)
    with open(a.out, "w") as fh:
        json.dump(ctx.result(), fh)
    return 0


if __name__ == "__main__":
    sys.exit(worker_main(sys.argv[1:]))
