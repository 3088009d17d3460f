"""P17 the mirror image of a world has the mirror image of its results"""
from mc.props import p11
from mc.worlds import *
from mc.catalog import w, worlds, XY3
from mc.geo import Geo
from mc import worlds as W

ID = "P17"
LEVEL = "model_checking"
ASSUMPTIONS = ["farms of 2-4 turbines for every kind of model, mirrored at y=0 and rotated by angles from a fixed list (fields only mirrored)", "rtol 1e-6"]
YA = dict(tmodels={"yaw": dict(cls="SetFarmVars", vars={"YAWM": [[20.0, -15.0, 30.0]] * 4}, pre_rotor=True)})


def all_worlds():
    d = dict(worlds())
    for pre in (True, False):
        for pw in ("rotor_points", "grid9", "grid4", "centre"):
            for wk in ("Bastankhah2016_linear_k004", "Jensen_linear_k007", "Rathmann"):
                for fr in ("yawed_k004", "rotor_wd"):
                    for rot in ("centre", "grid9"):
                        d[f"yaw:{pre}:{pw}:{wk}:{fr}:{rot}"] = w(wake_frame=fr, wakes=[wk], partial_wakes=pw, rotor_model=rot, models=["yaw", "yawm2yaw", "TA"],
                                                        tmodels={"yaw": dict(cls="SetFarmVars", vars={"YAWM": [[20.0, -15.0, 30.0]] * 4}, pre_rotor=pre)})
    return d


def cases(tier):
    return [dict(world=n) for n in all_worlds()]


def run(case, ctx):
    spec = all_worlds()[case["world"]]
    if spec["states"].get("kind") in ("wrg", "tab"):
        ctx.counters["not_transformable"] += 1
        return
    ref = [W.obs(x) for x in W.run_both(spec, p11.PTS)]
    for t in ((0.0, 77.7) if ctx.tier == "quick" else (0.0, 24.9, 77.7, 90.0, 155.0, 180.0, 233.3, 301.0)):
        g = Geo(t, True)
        s = g.spec(spec)
        if s is None:
            ctx.counters["not_transformable"] += 1
            continue
        got = [W.obs(x) for x in W.run_both(s, g.pts(p11.PTS))]
        ctx.evals += 1
        ctx.trans += 3 * len(ref[0]["REWS"][1])
        for q, x, y in zip(("farm", "points"), ref, got):
            d = W.diff(g.obs(x, True), g.obs(y), rtol=1e-6, atol=1e-5, skip=("order_ssel", "order", "order_inv"))
            if d is not None:
                ctx.fail(f"{case['world']}|{q}|{d[0]}", f"{case['world']} {q}: mirrored at y=0 and rotated by {g.theta}: {d[1]}")
                break
        ctx.state((case["world"], t, W.digest(got[1])))
        ctx.nt((case["world"], t))
