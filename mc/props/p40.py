"""P40 states are independent of each other"""
import itertools
import numpy as np
from mc import worlds as W
from mc.catalog import worlds, w, ST4, TS4

ID = "P40"
LEVEL = "model_checking"
ASSUMPTIONS = ["3 turbines, 4 states for every kind of steady model (wake frames without memory): all 4! state orders and all subsets",
               "iterative runs stop when all states have converged: rtol 1e-5, otherwise 1e-9"]
PTS = np.array([[-200.0, 20.0, 90.0], [700.0, 30.0, 80.0], [1300.0, -60.0, 100.0]])
SKIP = ("WEIGHT", "weight", "order_ssel", "state", "Time", "time")


def all_worlds():
    d = {k: v for k, v in worlds().items() if not k.startswith("dyn:") and v["states"].get("kind") not in ("opf", "wrg", "tab", "single", "scan")}
    d["x:msel_it"] = dict(d["turb:msel"], algo="Iterative")
    d["x:dup"] = w(states=dict(ST4, wd=[270.0, 270.0, 90.0, 90.0], ws=[8.0, 9.5, 8.0, 9.5]))
    return d


def cases(tier):
    return [dict(world=k) for k in all_worlds()]


def run(case, ctx):
    spec = all_worlds()[case["world"]]
    if W.pick_states(spec, [0]) is None:
        ctx.counters["not_sliceable"] += 1
        return
    n = 4
    pts = np.array([PTS + [10.0 * i, 3.0 * i, 0.0] for i in range(n)])
    fr, pr = W.run_both(spec, pts)
    ref, refp = W.obs(fr), W.obs(pr)
    subs = [p for k in range(1, n + 1) for p in itertools.permutations(range(n), k)]
    subs += [(0, 0), (1, 2, 1), (3, 3, 3, 3, 0)]
    if ctx.tier == "quick":
        subs = [p for p in subs if len(p) in (1, 5) or len(p) == 4 and p[0] != 0 or p in ((0, 1), (1, 3), (3, 1), (0, 0), (1, 2, 1), (0, 2, 3))]
    # moving turbines have one position per state, a single state is not movable
    it = spec.get("algo") == "Iterative"
    for p in subs:
        s = W.pick_states(spec, p)
        if s["states"].get("kind") == "field" and len(p) == 1 or s.get("moving") and len(p) == 1:
            continue
        a, b = [W.obs(x) for x in W.run_both(s, pts[list(p)])]
        ctx.evals += 1
        ctx.trans += len(p) * 3
        for q, x, y in (("farm", ref, a), ("points", refp, b)):
            e = {v: (d, np.take(z, list(p), axis=d.index("state")) if "state" in d else z) for v, (d, z) in x.items()}
            df = W.diff(e, y, rtol=1e-5 if it else 1e-9, atol=1e-6 if it else 1e-9, skip=SKIP, bcast=True)
            if df is not None:
                ctx.fail(f"{case['world']}|{q}|{df[0]}", f"{case['world']} {q}: results of states {p} of the table differ from those of a calculation with only these states: {df[1]}")
                break
        ctx.state((case["world"], p))
        ctx.nt((case["world"], p))
