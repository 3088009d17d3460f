"""P02 point results do not depend on engine or state/point chunking"""
import itertools
import numpy as np
from mc import worlds as W
from mc.catalog import worlds, w
from mc.props.p01 import ST7, nstates

ID = "P02"
LEVEL = "model_checking"
RULE = "distinct point results over (world, engine, state chunk, point chunk)"
ASSUMPTIONS = ["single-chunk engine is the reference; 7 points (one world 1003 points), 4-7 states",
               "comparison tolerance 1e-9 relative"]
PTS = [[-300.0, 10.0, 90.0], [200.0, 0.0, 90.0], [700.0, 60.0, 60.0], [1200.0, -20.0, 120.0], [460.0, 500.0, 90.0],
       [930.0, -700.0, 100.0], [5.0, -1500.0, 80.0]]


def all_worlds():
    d = worlds()
    d["x:table7"] = w(states=ST7)
    d["x:many"] = w(states=dict(ST7, **{k: v[:3] for k, v in ST7.items() if isinstance(v, list)}))
    return d


def pts(name):
    if name == "x:many":
        return [[-500.0 + 3.0 * i, -400.0 + (i * 37) % 800, 60.0 + i % 70] for i in range(1003)]
    return PTS


def configs(name, spec, tier):
    n, m = nstates(spec), len(pts(name))
    out = []
    if name == "x:many":
        for cs in (None, 1, 2):
            for cp in (None, 100, 501, 1000):
                for p in (1, 2, 3):
                    out.append(("numpy", dict(chunk_size_states=cs, chunk_size_points=cp, n_procs=p)))
                    if p == 2:
                        out.append(("process", dict(chunk_size_states=cs, chunk_size_points=cp, n_procs=p)))
                        out.append(("default", dict(chunk_size_states=cs, chunk_size_points=cp, n_procs=p)))
        return out
    full = name.startswith("x:") or tier == "thorough"
    for cs in (range(1, n + 1) if full else (1, 3, n)):
        for cp in (range(1, m + 1) if full else (1, 3, 4, m - 1)):
            out.append(("numpy", dict(chunk_size_states=cs, chunk_size_points=cp, n_procs=1)))
    out.append(("numpy", dict(n_procs=2)))
    out.append(("threads", dict(chunk_size_states=2, chunk_size_points=3, n_procs=1)))
    out.append(("process", dict(chunk_size_states=3, chunk_size_points=2, n_procs=2)))
    if full:
        for cs, cp in itertools.product((1, 2, n - 1), (1, 3, m - 1, None)):
            for e in ("process", "multiprocess", "threads"):
                out.append((e, dict(chunk_size_states=cs, chunk_size_points=cp, n_procs=1 if e == "threads" else 2)))
            out.append(("dask", dict(chunk_size_states=cs, chunk_size_points=cp, progress_bar=False)))
            out.append(("xarray", dict(chunk_size_states=cs, chunk_size_points=cp, progress_bar=False)))
    else:
        out.append(("multiprocess", dict(chunk_size_states=2, chunk_size_points=4, n_procs=2)))
        if not name.startswith("dyn:"):
            out.append(("dask", dict(chunk_size_states=2, chunk_size_points=3, progress_bar=False)))
            out.append(("xarray", dict(chunk_size_states=2, chunk_size_points=3, progress_bar=False)))
    return out


def cases(tier):
    return [dict(world=k) for k in all_worlds()]


def run(case, ctx):
    name = case["world"]
    spec = all_worlds()[name]
    P = np.array(pts(name))
    fr, pr = W.run_both(spec, P)
    ref = W.obs(pr)
    ctx.evals += 1
    ctx.state(W.digest(ref))
    ctx.sample({k: v[1].ravel()[:4].tolist() for k, v in ref.items() if k in ("WS", "TI")})
    for eng in configs(name, spec, ctx.tier):
        _, p = W.run_both(spec, P, eng=eng)
        o = W.obs(p)
        ctx.evals += 1
        ctx.trans += nstates(spec) * len(P)
        ctx.counters[eng[0]] += 1
        ctx.state((name, repr(eng)))
        d = W.diff(ref, o, bcast=True)
        if d:
            ctx.fail(f"{name}|{eng[0]}|{d[0]}", f"{name} with {eng}: {d[1]}", engine=eng)
