"""P03 every chunk partition covers each state and each point exactly once"""
import numpy as np
from mc import worlds as W
from mc.catalog import w

ID = "P03"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "partition arithmetic: all combinations of n_states<=40, n_targets in 0..40 and around the built-in 1000 point threshold, "
    "requested chunk sizes None/1..41, workers 1..9",
    "real runs: all (chunk size, points chunk size, workers) within the bounds on an ambient-only world with state- and point-dependent flow",
]


def cases(tier):
    out = []
    big = tier == "thorough"
    nmax = 40 if not big else 90
    for n0 in range(1, nmax + 1, 4):
        out.append(dict(kind="sizes", n=[n0, min(n0 + 3, nmax)], big=big))
    for n in (1, 2, 3, 4, 5, 6) if not big else range(1, 10):
        for m in (1, 2, 3, 5, 7) if not big else range(1, 10):
            out.append(dict(kind="run", n=n, m=m))
    return out


def sizes(case, ctx):
    from foxes.core import Engine
    hi = 90 if case["big"] else 40
    ms = sorted(set(list(range(0, hi + 1, 1 if hi == 40 else 3)) + [999, 1000, 1001, 1023, 2500]))
    for p in (1, 2, 3, 4, 5, 7, 8, 9):
        e = Engine.new("numpy", n_procs=p, verbosity=0)
        for n in range(case["n"][0], case["n"][1] + 1):
            for cs in [None] + sorted({1, 2, 3, 4, 5, 7, 8, 11, 13, n - 1, n, n + 1, 41} - {0}):
                for cp in [None, 1, 2, 3, 5, 7, 16, 41, 700]:
                    e.chunk_size_states, e.chunk_size_points = cs, cp
                    for m in ms:
                        S, T = e.calc_chunk_sizes(n, m)
                        S, T = [int(x) for x in S], [int(x) for x in T]
                        ctx.trans += 1
                        ctx.state((tuple(S), tuple(T)))
                        a = (p, n, cs, cp, m)
                        if sum(S) != n or min(S) < 1:
                            ctx.fail("states", f"(workers, states, chunk, pchunk, points)={a}: state chunks {S}")
                        if sum(T) != m or (m > 0 and min(T) < 1):
                            ctx.fail("targets", f"(workers, states, chunk, pchunk, points)={a}: point chunks {T}")
                        # a requested size is honoured up to the distribution of the remainder
                        if cs is not None and max(S) > cs + 1:
                            ctx.fail("states-size", f"{a}: state chunks {S} exceed the requested size {cs}")
                        if cp is not None and m > 1 and max(T) > cp + 1:
                            ctx.fail("targets-size", f"{a}: point chunks {T} exceed the requested size {cp}")
    ctx.evals += 1


def real(case, ctx):
    n, m = case["n"], case["m"]
    st = dict(kind="multiheight", n=n)
    s = w(xy=[[0.0, 0.0], [700.0, 100.0]], states=st, models=["TA"], wakes=["Jensen_linear_k007"])
    # every point differs in x, y and height
    pts = np.array([[300.0 + 150.0 * i, -60.0 + 31.0 * i, 45.0 + 12.0 * i] for i in range(m)])
    fr, pr = W.run_both(s, pts)
    rf, rp = W.obs(fr), W.obs(pr)
    ctx.evals += 1
    cs = [None] + list(range(1, n + 2))
    cp = [None] + list(range(1, m + 2))
    for eng in ("numpy", "threads"):
        for a in cs:
            for b in cp:
                for p in (1, 2, 3):
                    if eng == "threads" and (p != 2 or (ctx.tier == "quick" and (a or 0) > 3)):
                        continue
                    kw = dict(n_procs=p)
                    if a:
                        kw["chunk_size_states"] = a
                    if b:
                        kw["chunk_size_points"] = b
                    fr, pr = W.run_both(s, pts, eng=(eng, kw))
                    ctx.evals += 1
                    ctx.trans += n * m
                    ctx.state((n, m, eng, a, b, p))
                    d = W.diff(rf, W.obs(fr), skip=("order_ssel",), bcast=True) or W.diff(rp, W.obs(pr), bcast=True)
                    if d:
                        ctx.fail(f"run|{eng}|{d[0]}", f"n={n} m={m} {eng} {kw}: {d[1]}")


def run(case, ctx):
    (sizes if case["kind"] == "sizes" else real)(case, ctx)
