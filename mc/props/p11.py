"""P11 moving or rotating everything changes nothing else"""
import numpy as np
from mc import worlds as W
from mc.catalog import worlds
from mc.geo import Geo

ID = "P11"
LEVEL = "model_checking"
ASSUMPTIONS = ["farms of 2-3 turbines for every kind of model; states given per state (fields only moved, wind sector data left out)",
               "rotations and shifts from a fixed list, shifts up to UTM size; rtol 1e-6 (coordinates of UTM size carry rounding errors)"]
PTS = np.array([[-200.0, 20.0, 90.0], [700.0, 30.0, 80.0], [1300.0, -60.0, 100.0], [600.0, 0.0, 70.0], [450.0, 700.0, 90.0]])
MIRROR = False


def geos(tier):
    if tier == "quick":
        return [(37.3, 0, 0), (90.0, 250.0, -1000.0), (0.0, 432100.0, 5987650.0), (201.7, -5000.0, 3000.0), (355.0, 0, 0), (48.0, 10.0, -20.0)]
    return [(t, a, b) for t in [0.0, 13.1, 45.0, 89.3, 90.0, 133.7, 180.0, 222.2, 270.0, 301.9, 355.0] for a, b in ((0, 0), (250.0, -1000.0), (432100.0, 5987650.0))]


def all_worlds():
    d = worlds()
    # large fields for moved worlds
    return d


def cases(tier):
    return [dict(world=n) for n in all_worlds()]


def run(case, ctx):
    spec = all_worlds()[case["world"]]
    if spec["states"].get("kind") in ("wrg", "tab"):
        ctx.counters["not_transformable"] += 1
        return
    ref = [W.obs(x) for x in W.run_both(spec, PTS)]
    for t, a, b in geos(ctx.tier):
        g = Geo(t, MIRROR, (a, b))
        s = g.spec(spec)
        if s is None:
            g = Geo(0.0, MIRROR, (a, b))
            s = g.spec(spec)
            if s is None:
                ctx.counters["not_transformable"] += 1
                continue
        got = [W.obs(x) for x in W.run_both(s, g.pts(PTS))]
        ctx.evals += 1
        ctx.trans += 3 * len(ref[0]["REWS"][1])
        for q, x, y in zip(("farm", "points"), ref, got):
            d = W.diff(g.obs(x, True), g.obs(y), rtol=1e-6, atol=1e-5, skip=("order_ssel", "order", "order_inv"))
            if d is not None:
                ctx.fail(f"{case['world']}|{q}|{d[0]}", f"{case['world']} {q}: rotated by {g.theta}, {'mirrored, ' if MIRROR else ''}moved by {g.shift}: {d[1]}")
                break
        ctx.state((case["world"], t, a, b, W.digest(got[1])))
        ctx.nt((case["world"], t, a, b))
