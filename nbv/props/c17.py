"""C17: CaseInsensitiveDict is a mapping that ignores the case of its keys.

Random operation sequences; after every operation the whole observable state
is compared with a model (an insertion ordered list of [key, value])."""

import collections.abc

from ..harness import short

BASE = ["Euler", "RungeKutta4", "BDF2", "a", "Ab", "aB c", "x1", "", "straße", "ÉTÉ", "Adams-Bashforth"]


def recase(rng, s):
    u = rng.random()
    if u < 0.25:
        return s
    if u < 0.5 or "ß" in s:
        return s.lower()
    if u < 0.75:
        return s.upper()
    return "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


class Model:
    def __init__(self):
        self.rows = []  # [key as last set, value], in order of first insertion

    def find(self, k):
        for i, (key, _) in enumerate(self.rows):
            if key.lower() == k.lower():
                return i
        return None

    def set(self, k, v):
        i = self.find(k)
        if i is None:
            self.rows.append([k, v])
        else:
            self.rows[i] = [k, v]

    def copy(self):
        m = Model()
        m.rows = [list(r) for r in self.rows]
        return m


def compare(ctx, d, m, what):
    rows = [tuple(r) for r in m.rows]
    ctx.check(list(d.items()) == rows, "items", lambda: f"{what()}: items {list(d.items())}, expected {rows}")
    ctx.check(list(d) == [r[0] for r in rows] and list(d.keys()) == [r[0] for r in rows], "keys", lambda: f"{what()}: {list(d)}")
    ctx.check(list(d.values()) == [r[1] for r in rows], "values", lambda: f"{what()}: {list(d.values())}")
    ctx.check(len(d) == len(rows) and bool(d) == bool(rows), "len", lambda: f"{what()}: {len(d)}")
    ctx.check(list(d.lower_items()) == [(r[0].lower(), r[1]) for r in rows], "lower_items", lambda: f"{what()}: {list(d.lower_items())}")
    ctx.check(repr(d) == repr(dict(rows)), "repr", lambda: f"{what()}: {d!r}")


def case(ctx, rng):
    from nbkode.util import CaseInsensitiveDict as D

    hist = []
    what = lambda: f"after {hist[-12:]}"

    def key():
        return recase(rng, str(rng.choice(BASE)))

    def pairs(n):
        # distinct ignoring case, as the class requires
        out = {}
        for _ in range(n):
            k = key()
            if k.lower() not in [x.lower() for x in out]:
                out[k] = int(rng.integers(0, 100))
        return out

    init = pairs(int(rng.integers(0, 5)))
    m = Model()
    for k, v in init.items():
        m.set(k, v)
    style = int(rng.integers(0, 4))
    if style == 0:
        d = ctx.must("new dict", D, init)
    elif style == 1:
        d = ctx.must("new dict", D, list(init.items()))
    elif style == 2:
        d = ctx.must("new dict", D, D(init))
    else:
        kw = {k: v for k, v in init.items() if k.isidentifier()}
        d = ctx.must("new dict", lambda: D(**kw))
        m = Model()
        for k, v in kw.items():
            m.set(k, v)
    others = []  # copies that have to stay as they were
    ctx.check(isinstance(d, collections.abc.MutableMapping), "type", lambda: f"{type(d)}")
    compare(ctx, d, m, what)
    for _ in range(40):
        op = str(rng.choice(["set", "get", "getd", "in", "del", "pop", "popd", "popitem", "setdefault", "update", "updatekw",
                             "copy", "eq", "ne", "clear", "iter-mutate", "get-missing"]))
        k, v = key(), int(rng.integers(0, 100))
        i = m.find(k)
        hist.append((op, k, v))
        if op == "set":
            ctx.must(op, d.__setitem__, k, v)
            m.set(k, v)
        elif op in ("get", "get-missing"):
            out = ctx.call(op, d.__getitem__, k)
            if i is None:
                ctx.check(out.raised(KeyError), "missing-key", lambda: f"{what()}: {out!r}")
            else:
                ctx.check(out.ok and out.value == m.rows[i][1], "get", lambda: f"{what()}: {out!r}, expected {m.rows[i]}")
        elif op == "getd":
            got = ctx.must(op, d.get, k, "default")
            ctx.check(got == ("default" if i is None else m.rows[i][1]), "get-default", lambda: f"{what()}: {got!r}")
        elif op == "in":
            ctx.check((k in d) is (i is not None), "contains", lambda: f"{what()}: {k!r}")
        elif op in ("del", "pop"):
            out = ctx.call(op, d.__delitem__ if op == "del" else d.pop, k)
            if i is None:
                ctx.check(out.raised(KeyError), "missing-key", lambda: f"{what()}: {out!r}")
            else:
                ctx.check(out.ok and (op == "del" or out.value == m.rows[i][1]), op, lambda: f"{what()}: {out!r}")
                del m.rows[i]
        elif op == "popd":
            got = ctx.must(op, d.pop, k, None)
            ctx.check(got == (None if i is None else m.rows[i][1]), "pop-default", lambda: f"{what()}: {got!r}")
            if i is not None:
                del m.rows[i]
        elif op == "popitem":
            out = ctx.call(op, d.popitem)
            if m.rows:
                ctx.check(out.ok and list(out.value) in m.rows, "popitem", lambda: f"{what()}: {out!r}")
                m.rows.remove(list(out.value))
            else:
                ctx.check(out.raised(KeyError), "missing-key", lambda: f"{what()}: {out!r}")
        elif op == "setdefault":
            got = ctx.must(op, d.setdefault, k, v)
            ctx.check(got == (v if i is None else m.rows[i][1]), "setdefault", lambda: f"{what()}: {got!r}")
            if i is None:
                m.set(k, v)
        elif op == "update":
            new = pairs(3)
            ctx.must(op, d.update, D(new) if rng.random() < 0.5 else new)
            for a, b in new.items():
                m.set(a, b)
        elif op == "updatekw":
            new = {a: b for a, b in pairs(3).items() if a.isidentifier()}
            ctx.must(op, lambda: d.update(**new))
            for a, b in new.items():
                m.set(a, b)
        elif op == "copy":
            c = ctx.must(op, d.copy)
            ctx.check(type(c) is D and c is not d, "copy-type", lambda: f"{what()}: {short(c)}")
            compare(ctx, c, m, what)
            if rng.random() < 0.5:  # go on with the copy
                others.append((d, m.copy()))
                d = c
            else:
                others.append((c, m.copy()))
        elif op in ("eq", "ne"):
            twin = {recase(rng, a): b for a, b in reversed(m.rows)}
            if op == "ne" and twin:
                a = sorted(twin)[0]
                if rng.random() < 0.5:
                    twin[a] = -1
                else:
                    del twin[a]
            want = not (op == "ne" and m.rows)
            ctx.check((d == twin) is want and (d != twin) is (not want) and (d == D(twin)) is want, "equality",
                      lambda: f"{what()}: {d!r} == {twin!r} is {d == twin}")
            ctx.check((d == [1]) is False and (d == 3) is False and d is not None, "equality-other", what)
        elif op == "clear" and rng.random() < 0.3:
            ctx.must(op, d.clear)
            m.rows = []
        elif op == "iter-mutate" and m.rows:
            n = 0
            for _k in d:
                n += 1
            ctx.check(n == len(m.rows), "iterate", what)
        compare(ctx, d, m, what)
        ctx.seen("operations_compared")
        ctx.seen("op_" + op)
    for o, om in others:
        compare(ctx, o, om, lambda: "copy " + what())
        ctx.seen("copies_kept")
    bad = rng.choice([1, 2.5]) if rng.random() < 0.5 else None
    out = ctx.call("set", d.__setitem__, bad, 1)
    ctx.check(not out.ok, "key-type", lambda: f"{bad!r} was accepted as a key")
    compare(ctx, d, m, what)
    ctx.distinct(tuple(hist))
    ctx.sample(operations=[h[0] for h in hist], final=repr(d))


def run(ctx):
    ctx.cases("mapping", ctx.n(2000, 60000) // ctx.nshards, case, start=ctx.shard * 100000)
