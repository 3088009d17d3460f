"""P01 farm results do not depend on engine, chunking or process count"""
from mc import worlds as W
from mc.catalog import worlds, w, TS4

ID = "P01"
LEVEL = "model_checking"
RULE = "distinct farm results over (world, engine, chunk size, workers)"
ASSUMPTIONS = [
    "real engines run the real algorithms on small worlds (3 turbines, 4-7 states); the single-chunk engine is the reference",
    "mpi, ray and cluster engines are not installed/available in the sandbox and are not run",
    "comparison tolerance 1e-9 relative",
]
SKIP = ("order_ssel",)   # documented per-chunk bookkeeping index

ST7 = dict(kind="table", ws=[8.0, 9.5, 10.5, 6.0, 12.0, 7.7, 14.0], wd=[270.0, 93.0, 10.0, 181.0, 265.0, 90.5, 271.0],
           ti=[0.06, 0.1, 0.08, 0.12, 0.05, 0.09, 0.07], rho=[1.2, 1.225, 1.25, 1.18, 1.21, 1.22, 1.23],
           w=[0.1, 0.2, 0.3, 0.05, 0.15, 0.12, 0.08])
ST30 = dict(kind="timeseries", freq="10min", ws=[5.0 + (i * 7 % 11) for i in range(30)], wd=[(i * 47) % 360.0 for i in range(30)],
            ti=[0.05 + 0.002 * i for i in range(30)], rho=[1.15 + 0.004 * i for i in range(30)])


def extra():
    return {
        "x:table7": w(states=ST7, rotor_model="grid4"),
        "x:table7it": w(states=ST7, algo="Iterative"),
        "x:ts30": w(states=ST30, models=[["TA", "kTI_02"], ["TB", "kTI_02"], ["TA", "kTI_02"]]),
        "x:relax7": w(states=ST7, algo="Iterative", wakes=["Jensen_quadratic_k007"], urelax={"last": {"CT": 0.5, "REWS": 0.3}}, algo_kw={"max_it": 3}),
        "x:one_turbine": w(xy=[[0.0, 0.0]], states=ST7),
        "x:two_states": w(states=dict(ST7, **{k: v[:2] for k, v in ST7.items() if isinstance(v, list)})),
    }


def all_worlds():
    d = worlds()
    d.update(extra())
    return d


def nstates(spec):
    s = spec["states"]
    if s["kind"] in ("table", "timeseries", "single") and "ws" in s:
        return len(s["ws"])
    return 4


def configs(name, spec, tier):
    n = nstates(spec)
    out = []
    for c in range(1, n + 2):
        out.append(("numpy", dict(chunk_size_states=c, n_procs=1)))
    for p in (1, 2, 3, n, n + 3):
        out.append(("numpy", dict(n_procs=p)))
    for c in sorted({1, 2, n - 1} - {0}):
        out.append(("threads", dict(chunk_size_states=c, n_procs=1)))
    if name.startswith("dyn:") or name.startswith("it:") or name.startswith("ind:"):
        pr = [("process", dict(chunk_size_states=1, n_procs=2)), ("multiprocess", dict(chunk_size_states=3, n_procs=2))]
    else:
        pr = [("process", dict(chunk_size_states=3, n_procs=2)), ("multiprocess", dict(chunk_size_states=2, n_procs=2))]
    out += pr
    out += [("default", dict(n_procs=2)), ("default", dict(chunk_size_states=2, n_procs=2))]
    out += [("dask", dict(chunk_size_states=2, progress_bar=False)), ("xarray", dict(chunk_size_states=2, progress_bar=False))]
    if tier == "thorough" or name.startswith("x:"):
        for c in range(1, n + 1):
            for p in (1, 2, 3):
                if n > 10 and c not in (1, 4, 7, 13, 29):
                    continue
                out.append(("process", dict(chunk_size_states=c, n_procs=p)))
                out.append(("multiprocess", dict(chunk_size_states=c, n_procs=p)))
                out.append(("default", dict(chunk_size_states=c, n_procs=p)))
            if not (n > 10 and c not in (1, 4, 7, 13, 29)):
                out.append(("dask", dict(chunk_size_states=c, progress_bar=False)))
                out.append(("xarray", dict(chunk_size_states=c, progress_bar=False)))
        for p in (1, 2, 5):
            out += [(e, dict(n_procs=p)) for e in ("process", "multiprocess", "threads", "default")]
    seen, res = set(), []
    for c in out:
        if repr(c) not in seen:
            seen.add(repr(c))
            res.append(c)
    return res


def cases(tier):
    return [dict(world=k) for k in all_worlds()]


def run(case, ctx):
    spec = all_worlds()[case["world"]]
    ref = W.obs(W.run_farm(spec))
    ctx.evals += 1
    ctx.state(W.digest({k: v for k, v in ref.items() if k not in SKIP}))
    ctx.sample({k: v[1].ravel()[:4].tolist() for k, v in ref.items() if k in ("REWS", "P")})
    for eng in configs(case["world"], spec, ctx.tier):
        if case.get("eng") and case["eng"] != list(eng):
            continue
        o = W.obs(W.run_farm(spec, eng=eng))
        ctx.evals += 1
        ctx.trans += nstates(spec)
        ctx.counters[eng[0]] += 1
        ctx.state((case["world"], repr(eng)))
        d = W.diff(ref, o, skip=SKIP, bcast=True)
        if d:
            ctx.fail(f"{case['world']}|{eng[0]}|{d[0]}", f"{case['world']} with {eng}: {d[1]}", engine=eng)
