"""P09 the order in which turbines are added to the farm does not matter"""
import itertools
import numpy as np
from mc import worlds as W
from mc.catalog import worlds, w

ID = "P09"
LEVEL = "model_checking"
ASSUMPTIONS = ["all 6 orders of 3 turbines (24 orders of 4 in the thorough tier), 4 states with 4 wind directions",
               "no two turbines share the same downwind position (ties have no order)"]
SKIP = ("order", "order_inv", "order_ssel", "turbine", "tname")
XY4 = [[0.0, 0.0], [460.0, 35.0], [930.0, -45.0], [480.0, 310.0]]


def all_worlds(tier):
    d = {k: v for k, v in worlds().items() if k not in ("it:farmo",)}
    d["x:mixed4"] = w(xy=XY4, models=[["TA", "kTI_02"], ["TB", "kTI_02"], ["TA", "kTI_04"], ["TB", "kTI_04"]])
    d["x:msel_it"] = dict(d["turb:msel"], algo="Iterative")
    d["x:setvars_it"] = dict(d["turb:setvars"], algo="Iterative")
    d["x:pmask_it"] = dict(d["turb:pmask"], algo="Iterative")
    d["x:HD_it"] = dict(d["turb:HD"], algo="Iterative")
    return d


def cases(tier):
    return [dict(world=k) for k in all_worlds(tier)]


def run(case, ctx):
    name = case["world"]
    spec = all_worlds(ctx.tier)[name]
    n = len(spec["xy"])
    pts = np.array([[-200.0, 20.0, 90.0], [700.0, 30.0, 80.0], [1300.0, -60.0, 100.0]])
    fr, pr = W.run_both(spec, pts)
    ref, refp = W.obs(fr), W.obs(pr)
    ctx.evals += 1
    ctx.sample(ref["REWS"][1].tolist())
    perms = list(itertools.permutations(range(n)))
    if n == 4 and ctx.tier == "quick":
        perms = [p for p in perms if p[0] != 0 or p == (0, 2, 3, 1)]
    for p in perms:
        s = W.permute_spec(spec, p)
        fr, pr = W.run_both(s, pts)
        o, op = W.obs(fr), W.obs(pr)
        ctx.evals += 1
        ctx.trans += o["REWS"][1].size
        ctx.state((name, p))
        e = W.permute_obs(ref, p)
        d = W.diff(e, o, skip=SKIP, rtol=1e-7, atol=1e-7)
        if d:
            ctx.fail(f"{name}|{d[0]}", f"{name}, order {p}: {d[1]}", order=list(p))
        if list(o["tname"][1]) != [f"T{i}" for i in p]:
            ctx.fail(f"{name}|tname", f"{name}, order {p}: names {list(o['tname'][1])}")
        d = W.diff(refp, op, rtol=1e-7, atol=1e-7)
        if d:
            ctx.fail(f"{name}|points:{d[0]}", f"{name}, order {p}, points: {d[1]}", order=list(p))
        # the reported downwind order is a permutation, its inverse is the inverse,
        # and it maps back to the same physical turbines
        od = o["order"][1].astype(int)
        oi = o["order_inv"][1].astype(int)
        ro = ref["order"][1].astype(int)
        for i in range(od.shape[0]):
            if sorted(od[i]) != list(range(n)):
                ctx.fail(f"{name}|order", f"{name}, order {p}: reported order {od[i]} is not a permutation")
            elif not np.array_equal(od[i][oi[i]], np.arange(n)):
                ctx.fail(f"{name}|order_inv", f"{name}, order {p}: order {od[i]} and inverse order {oi[i]} do not match")
            elif not name.startswith("dyn:") and [p[k] for k in od[i]] != list(ro[i]):
                ctx.fail(f"{name}|order", f"{name}, order {p}: reported order {od[i]} is {[p[k] for k in od[i]]} in original numbers, expected {ro[i]}")
