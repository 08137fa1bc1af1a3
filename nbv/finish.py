"""Offline checkers over the logs of several workers (run by the parent)."""

import collections


def _num(x):
    return float(x)


def _diff(a, b, tol):
    """None when the flattened arrays agree within tol (relative to 1 + |b|)."""
    if a[0] != b[0]:
        return f"shapes {a[0]} / {b[0]}"
    for x, y in zip(a[1], b[1]):
        x, y = float(x), float(y)
        if x == y or (x != x and y != y):
            continue
        if not abs(x - y) <= tol * (1 + abs(y)):
            return f"{x!r} / {y!r}"
    return None


def _mismatch(r1, r2, tol):
    if len(r1) != len(r2):
        return "different numbers of operations"
    for k, (a, b) in enumerate(zip(r1, r2)):
        if a[0] != b[0]:
            return f"operation {k}: {a[0]} / {b[0]}"
        for x, y in zip(a[1:], b[1:]):
            if x and x[0] == "raised" or y and y[0] == "raised":
                if x != y:
                    return f"operation {k} {a[0]}: {str(x)[:120]} / {str(y)[:120]}"
                continue
            if len(x) != len(y):
                return f"operation {k} {a[0]}: {len(x)} / {len(y)} values"
            for p, q in zip(x, y):
                d = _diff(p, q, tol)
                if d:
                    return f"operation {k} {a[0]}: {d}"
    return None


def modes_agree(results):
    """C13: the log of every case is the same in every mode."""
    from . import ref

    cases = collections.defaultdict(dict)
    for r in results:
        for key, entry in r["log"].items():
            cases[key][r["mode"]] = entry
    out, counts = [], collections.Counter()
    for key, by in sorted(cases.items()):
        base = next((m for m in by if m.startswith("py")), None)
        for m, entry in by.items():
            if base is None or m == base:
                continue
            name = entry["solver"]
            tol = 1e-6 if name in ref.ADAPTIVE or name in ref.IMPLICIT else 1e-10
            if name == "functions":
                tol = 1e-7
            if entry.get("far"):
                tol = max(tol, 1e-7)  # of times some hundred thousands from zero
            counts["logs_compared"] += 1
            counts["operations_compared"] += len(entry["log"])
            counts["checks"] += len(entry["log"])
            counts["raised_compared"] += sum(1 for row in entry["log"] if len(row) > 1 and row[1] and row[1][0] == "raised")
            d = _mismatch(entry["log"], by[base]["log"], tol)
            if d:
                g, i = key.rsplit(":", 1)
                out.append({"kind": "modes-differ", "mode": m, "shard": entry["shard"][0], "nshards": entry["shard"][1],
                            "case": None,
                            "detail": f"{name} {entry['prob']} {entry['kw']} case {key}: {m} / {base}: {d}", "trace": []})
    return out[:8], counts


def memory_independent(results):
    """C21: bitwise the same log whatever the memory contained; within
    rounding when bounds checks are compiled in."""
    from . import ref

    cases = collections.defaultdict(dict)
    for r in results:
        for key, entry in r["log"].items():
            cases[key][r["mode"]] = entry
    out, counts = [], collections.Counter()
    for key, by in sorted(cases.items()):
        base = "py" if "py" in by else "jit"
        if base not in by:
            continue
        for m, entry in sorted(by.items()):
            if m == base:
                continue
            tol = 0.0
            if "bounds" in m:
                tol = 1e-6 if entry["solver"] in ref.ADAPTIVE or entry["solver"] in ref.IMPLICIT else 1e-10
            counts["logs_compared"] += 1
            counts["logs_compared_" + m] += 1
            counts["checks"] += len(entry["log"])
            d = _mismatch(entry["log"], by[base]["log"], tol)
            if d:
                out.append({"kind": "depends-on-memory" if tol == 0 else "bounds-differ", "mode": m,
                            "shard": entry["shard"][0], "nshards": entry["shard"][1], "case": None, "trace": [],
                            "detail": f"{entry['solver']} {entry['prob']} {entry['kw']} case {key}: {m} / {base}: {d}"})
    return out[:8], counts
