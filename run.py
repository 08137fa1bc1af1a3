#!/usr/bin/env python3
"""Parent of every check: starts the workers, watches them, decides.

    python run.py C05                 (tier and seed from VERIF_TIER/VERIF_SEED)
    python run.py C05 --tier thorough --seed 7
    python run.py C05 --replay replays/C05-....json

Exit 0: every monitor that observed the workload stayed silent.
Exit 1: a monitor fired; prints VIOLATION property=<id> replay=<path>.
Exit 2: inconclusive (the monitors saw too little, or the harness broke).
"""

import argparse
import collections
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
PY = os.environ.get("NBV_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("NBV_REPO", "/repo")
if os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(PY))) and not os.environ.get("NBV_PARENT"):
    os.environ["NBV_PARENT"] = "1"  # the interpreter that has nbkode's dependencies
    os.execv(PY, [PY] + sys.argv)

# A single case takes milliseconds (py) or seconds (jit, including
# compilation).  The watchdog is some two orders of magnitude above that.
WATCHDOG = {"py": 100.0, "jit": 200.0}


def mode_env(mode):
    env = {
        k: v
        for k, v in os.environ.items()
        if not k.startswith(("NUMBA_", "NBKODE_", "PYTHON", "MALLOC_"))
    }
    env.update(
        PYTHONPATH=VERIF + os.pathsep + REPO,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        NUMBA_NUM_THREADS="1",
        NBV_REPO=REPO,
    )
    if mode.startswith("py"):
        env["NBKODE_NONUMBA"] = "1"
    else:
        env["NUMBA_OPT"] = "0"
    for word in mode.split("+")[1:]:
        if word == "o3":
            env["NUMBA_OPT"] = "3"
        elif word == "bounds":
            env["NUMBA_BOUNDSCHECK"] = "1"
        elif word.startswith("perturb"):
            env["MALLOC_PERTURB_"] = word[len("perturb"):]
            env["NBV_PERTURB"] = word[len("perturb"):]
        elif word == "heap":
            # glibc's checking allocator aborts on a corrupted chunk.
            for lib in ("/lib/x86_64-linux-gnu/libc_malloc_debug.so.0", "/usr/lib64/libc_malloc_debug.so.0"):
                if os.path.exists(lib):
                    env["LD_PRELOAD"], env["MALLOC_CHECK_"] = lib, "3"
    return env


class Worker:
    def __init__(self, prop, mode, shard, nshards, seed, tier, tmp, cap, only=None, tag=""):
        self.args = (prop, mode, shard, nshards, seed, tier)
        self.mode, self.shard = mode, shard
        base = os.path.join(tmp, f"{mode}-{shard}{tag}".replace("+", "_"))
        self.out, self.hb, self.err = base + ".json", base + ".hb", base + ".err"
        cmd = [PY, "-m", "nbv.harness", prop, "--mode", mode, "--shard", str(shard),
               "--nshards", str(nshards), "--seed", str(seed), "--tier", tier,
               "--out", self.out, "--heartbeat", self.hb, "--cap", str(cap)]
        if only:
            cmd += ["--only", f"{only[0]}:{only[1]}"]
        self.only = only
        self.errfh = open(self.err, "w")
        self.proc = subprocess.Popen(cmd, cwd=tmp, env=mode_env(mode), stdout=self.errfh,
                                     stderr=self.errfh, start_new_session=True)
        self.t0 = time.time()
        self.last = None, self.t0
        self.state = "running"
        self.watchdog = WATCHDOG["py" if mode.startswith("py") else "jit"]

    def case(self):
        try:
            with open(self.hb) as fh:
                d = json.load(fh)
            self.last = (d["group"], d["idx"]), d["t"]
        except Exception:
            pass  # not there yet, or just being written
        return self.last

    def poll(self):
        if self.state != "running":
            return
        rc = self.proc.poll()
        if rc is not None:
            if rc == 0 and os.path.exists(self.out):
                self.state = "done"
            else:
                self.state = "crashed"
                self.rc = rc
            return
        _, t = self.case()
        if time.time() - t > self.watchdog:
            self.kill()
            self.state = "hung"

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def result(self):
        with open(self.out) as fh:
            return json.load(fh)

    def errtext(self):
        try:
            with open(self.err) as fh:
                return fh.read()[-1500:]
        except Exception:
            return ""


def wait_all(workers):
    while any(w.state == "running" for w in workers):
        time.sleep(0.05)
        for w in workers:
            w.poll()


def load_known(prop):
    """key -> text for `known:` lines of this property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if not line.startswith("known:"):
                continue
            words = line[len("known:"):].split()
            kv = dict(w.split("=", 1) for w in words[:2])
            if kv.get("property") == prop:
                out[kv["key"]] = " ".join(words[2:])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--modes")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop.upper()
    os.environ.setdefault("NBV_REPO", REPO)
    meta = importlib.import_module(f"nbv.meta").META[prop]
    tmp = tempfile.mkdtemp(prefix=f"nbv-{prop}-")
    try:
        return decide(a, prop, meta, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(a, prop, meta, tmp):
    t0 = time.time()
    tier, seed = a.tier, a.seed
    only = None
    modes = dict(meta.get("modes_" + tier, meta["modes"]))
    cap = meta.get("cap", {}).get(tier, 240 if tier == "quick" else 5400)
    if a.replay:
        with open(a.replay) as fh:
            r = json.load(fh)
        if r.get("case") is None:
            a.replay = None
            seed, tier = r["seed"], r["tier"]
        else:
            seed, tier = r["seed"], r["tier"]
            only = tuple(r["case"])
            modes = {r["mode"]: r["nshards"]}
    if a.only:
        g, i = a.only.rsplit(":", 1)
        only = (g, int(i))
    if a.modes:
        modes = {m: modes.get(m, 1) for m in a.modes.split(",")}

    workers = []
    for mode, ns in modes.items():
        for s in range(ns):
            if a.replay and only and s != r["shard"]:
                continue
            workers.append(Worker(prop, mode, s, ns, seed, tier, tmp, cap, only))
    wait_all(workers)

    violations, problems = [], []
    # Hung and crashed workers: run the case alone, in a fresh process.  A
    # verdict needs the same end a second time; anything else is a retry.
    already = any(w.result()["violations"] for w in workers if w.state == "done")
    suspects = []
    for w in list(workers):
        if w.state not in ("hung", "crashed"):
            continue
        case, _ = w.case()
        if w.state == "crashed" and not (w.rc < 0):
            problems.append(f"worker {w.mode}/{w.shard} exit {w.rc}: {w.errtext()}")
        elif case is None:
            problems.append(f"worker {w.mode}/{w.shard} {w.state} before its first case: {w.errtext()}")
        elif not already:  # else there is a verdict, and time is limited
            p, mode, shard, ns, sd, tr = w.args
            suspects.append((w, case, Worker(p, mode, shard, ns, sd, tr, tmp, cap, case, tag="-again")))
    wait_all([again for _, _, again in suspects])
    retries = []
    for w, case, again in suspects:
        p, mode, shard, ns, sd, tr = w.args
        if again.state == w.state:
            violations.append({
                "kind": "no-progress" if w.state == "hung" else "crash",
                "detail": (f"the call does not return ({w.watchdog:.0f} s, twice)" if w.state == "hung"
                           else f"the process died with signal {-w.rc}, twice: {again.errtext()}"),
                "mode": mode, "shard": shard, "nshards": ns, "seed": sd, "tier": tr,
                "case": list(case), "trace": [],
            })
        else:
            if again.state == "done":
                violations += again.result()["violations"]
            retries.append(Worker(p, mode, shard, ns, sd, tr, tmp, cap, only, tag="-retry"))
    wait_all(retries)
    for retry in retries:
        if retry.state == "done":
            workers.append(retry)
        else:
            problems.append(f"worker {retry.mode}/{retry.shard} {retry.state} at {retry.case()[0]}")

    results = [w.result() for w in workers if w.state == "done"]
    counts = collections.Counter()
    per_mode = collections.defaultdict(collections.Counter)
    distinct, samples, known = set(), [], {}
    for r_ in results:
        counts.update(r_["counts"])
        per_mode[r_["mode"]].update(r_["counts"])
        distinct.update(r_["distinct"])
        samples += r_["samples"]
        violations += r_["violations"]
        known.update(r_["known"])
    if only is None and meta.get("finish"):
        mod = importlib.import_module("nbv.finish")
        fv, fc = getattr(mod, meta["finish"])(results)
        for v in fv:
            v.setdefault("seed", seed)
            v.setdefault("tier", tier)
        violations += fv
        counts.update(fc)

    # A mechanism that a monitor attributes to a listed finding.
    listed = load_known(prop)
    for key, detail in known.items():
        if key in listed:
            print(f"KNOWN-FINDING: property={prop} key={key} {listed[key]} [{detail}]")
        else:
            violations.append({"kind": "unlisted:" + key, "detail": detail, "mode": "", "shard": 0,
                               "nshards": 1, "seed": seed, "tier": tier, "case": None, "trace": []})

    short_of = {}
    capped = any(r_["capped"] for r_ in results)
    if only is None and not violations:
        for name, least in meta.get("require", {}).items():
            if tier == "thorough" or not capped:
                if counts[name] < least:
                    short_of[name] = (counts[name], least)
        for mode in modes:
            if not per_mode[mode]["cases"]:
                short_of["cases in mode " + mode] = (0, 1)
        if capped and counts["checks"] < 50:
            short_of["checks"] = (counts["checks"], 50)

    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": meta.get("level", "exploration"),
        "coverage": {
            "evaluations": counts["cases"],
            "distinct_nontrivial": len(distinct),
            "rule": meta["rule"],
            "samples": samples[:8] or [{"none": "no sample recorded"}],
            "observed": {k: v for k, v in sorted(counts.items()) if k not in ("cases",)},
            "per_mode": {m: {"cases": c["cases"], "checks": c["checks"]} for m, c in sorted(per_mode.items())},
            "workers": len(workers),
            "time_capped": capped,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", prop + ".json")
        with open(path + ".tmp", "w") as fh:
            json.dump(evidence, fh, indent=1)
        os.replace(path + ".tmp", path)

    if a.v:
        for m, c in per_mode.items():
            print(m, {k: v for k, v in sorted(c.items())})
        for r_ in results:
            print(f"  worker {r_['mode']}/{r_['shard']}: {r_['wall']:.1f}s")

    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for i, v in enumerate(violations):
            if i >= 8:
                break
            rp = os.path.join("replays", f"{prop}-{tier}-{seed}-{i}.json")
            with open(os.path.join(VERIF, rp), "w") as fh:
                json.dump(v, fh, indent=1)
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"  {v['kind']} [{v.get('mode')}] case={v.get('case')}: {v['detail'][:600]}")
        return 1
    if problems or short_of:
        for p in problems:
            print("INCONCLUSIVE", prop, p)
        for k, (got, least) in short_of.items():
            print(f"INCONCLUSIVE {prop} observed only {got} of {k} (at least {least} expected)")
        return 2
    print(f"HELD property={prop} on {counts['cases']} cases, {counts['checks']} checks, "
          f"{len(distinct)} distinct, {time.time() - t0:.1f}s, seed {seed}, {tier}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
