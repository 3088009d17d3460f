"""P16 a point sees exactly the flow that a passive turbine at its place would see"""
import copy, itertools
import numpy as np
import pandas as pd
from foxes.models.turbine_types import PCtFile
from mc import worlds as W
from mc.catalog import worlds, w, ST4, TSD

ID = "P16"
LEVEL = "model_checking"
ASSUMPTIONS = ["3 turbines and one to three passive ones (thrust coefficient zero) on a lattice of positions, every kind of model of the catalogue, rotor and partial wakes of the passive turbine evaluated at its centre",
               "every subset and order of a list of points; rtol 1e-9 (iterative runs 1e-5)"]
LAT = [-310.0, -90.0, 140.0, 330.0, 610.0, 880.0, 1210.0, 1900.0]
LON = [-420.0, -85.0, 22.0, 61.0, 260.0]
HTS = [90.0, 60.0, 137.0]
SEVERAL = ("ti:Crespo", "ti:IEC2005", "ti:IEClin", "x:ix", "x:stack", "x:mir", "frame:yawed_ix", "frame:streamlines_ix", "wake:TurbOParkIX")
CUT = ("order", "order_inv", "order_ssel", "turbine", "tname")


class Passive(PCtFile):
    """a turbine without thrust has no cut-in to smooth"""

    def modify_cutin(self, *args, **kwargs):
        pass


def all_worlds():
    d = {k: v for k, v in worlds().items() if not k.startswith(("rotor:", "pwake:")) and k not in ("turb:null", "turb:moving", "turb:sector", "it:farmo", "it:relax")}
    for k, kw in dict(ix=dict(wakes=["TurbOParkIX_linear_k004_dx50", "CrespoHernandez_max_k004"], xy=[[0.0, 0.0], [460.0, 35.0]]),
                      stack=dict(wakes=["Jensen_linear_k007", "Bastankhah2014_linear_k004", "IECTI2019_max", "CrespoHernandez_quadratic_k004"]),
                      mir=dict(wakes=["Bastankhah2016_linear_k004", "CrespoHernandez_max_k004"], ground_models="blh_mirror_h200"),
                      it2=dict(wakes=["RHB", "Bastankhah2014_quadratic_ka02", "IECTI2005_max"], algo="Iterative")).items():
        d["x:" + k] = w(**kw)
    # yaw angles known before the rotor model (the other order is a finding of P19)
    for k, s in d.items():
        for t in (s.get("tmodels") or {}).values():
            if "YAWM" in t.get("vars", {}):
                t["vars"] = {"YAW": [[a + b for b in q] for a, q in zip(s["states"]["wd"], t["vars"].pop("YAWM"))]}
                s["models"] = [q for q in s["models"] if q not in ("yawm2yaw", "TA")] + ["yaw2yawm", "TA"]
    # several wake models that depend on each other: self-consistent in iterative runs,
    # the downwind algorithm runs through the farm once per wake model
    for k in SEVERAL:
        d["order:" + k] = d[k]
        d[k] = dict(copy.deepcopy(d[k]), algo="Iterative")
    return d


def cases(tier):
    return [dict(world=k) for k in all_worlds()]


def passive(spec, pts):
    """the world with a passive turbine at each of these points"""
    s = copy.deepcopy(spec)
    n = len(s["xy"])
    s["xy"] = [list(p) for p in s["xy"]] + [[float(p[0]), float(p[1])] for p in pts]
    m = s.get("models", ["TA"])
    sel = [q for q in m if q in (s.get("tmodels") or {}) and "YAW" in s["tmodels"][q].get("vars", {})] if isinstance(m[0], str) else []
    m = [list(m)] * n if isinstance(m[0], str) else [list(q) for q in m]
    own = [q for q in m[0] if q.startswith("kTI")]
    s["models"] = m + [own + sel + (["yaw2yawm"] if sel else []) + ["TZ"]] * len(pts)
    s["H"] = list(s.get("H") or [None] * n) + [float(p[2]) for p in pts]
    if s.get("D"):
        s["D"] = list(s["D"]) + [None] * len(pts)
    if s.get("msel"):
        s["msel"] = list(s["msel"]) + [None] * len(pts)
    for t in (s.get("tmodels") or {}).values():
        if "vars" in t:
            t["vars"] = {v: [list(r) + [wd if v == "YAW" else None] * len(pts) for wd, r in zip(s["states"]["wd"], a)] for v, a in t["vars"].items()}
    mb = W.mbook(s)
    mb.turbine_types["TZ"] = Passive(pd.DataFrame({"ws": [0.0, 3.0, 6.0, 9.0, 12.0, 30.0], "P": [0.0] * 6, "ct": [0.0] * 6}), D=20.0, H=90.0, P_nominal=1.0)
    s["mbook"] = mb
    return s


def run(case, ctx):
    name = case["world"]
    spec = all_worlds()[name]
    spec.update(rotor_model="centre", partial_wakes="centre")
    it = spec.get("algo") == "Iterative"
    rt = 1e-5 if it else 1e-9
    lat = LAT if ctx.tier != "quick" else LAT[:1] + LAT[2:5] + LAT[6:7]
    pts = np.array([[x, y, HTS[(i + j) % 3] if spec["states"].get("kind") not in ("opf",) or spec["states"].get("mh") else 90.0] for i, x in enumerate(lat) for j, y in enumerate(LON)])
    if name in ("dyn:timelines", "dyn:opf_timelines"):
        pts[:, 2] = 90.0
    if name in ("dyn:timelines_mh",):
        pts[:, 2] = [80.0, 90.0][0]
    fr, pr = W.run_both(spec, pts)
    f0, p0 = W.obs(fr), W.obs(pr)
    n = len(spec["xy"])
    ctx.evals += 1
    # passive turbines, one at a time and three at a time (also wakes of wakes must not appear)
    sets = [[k] for k in range(len(pts))] if ctx.tier != "quick" else [[k] for k in range(0, len(pts), 4)]
    sets += [[k, (k + 7) % len(pts), (k + 3) % len(pts)] for k in range(0, len(pts), 1 if ctx.tier != "quick" else 2)]
    for ks in sets:
        s = passive(spec, pts[ks])
        a = W.run_farm(s)
        ctx.evals += 1
        for v, pv in (("REWS", "WS"), ("TI", "TI"), ("RHO", "RHO"), ("WD", "WD"), ("AMB_REWS", "AMB_WS"), ("AMB_TI", "AMB_TI"), ("AMB_WD", "AMB_WD"), ("AMB_RHO", "AMB_RHO")):
            if v not in a or pv not in pr:
                if v in ("REWS", "AMB_REWS", "WD"):
                    ctx.fail(f"{name}|missing", f"{name}: no {v if v not in a else pv}")
                continue
            x, y = a[v].to_numpy()[:, n:], pr[pv].to_numpy()[:, ks]
            ctx.trans += x.size
            if v == "REWS" and "WD" in pr and "YAW" in a:
                # the component along the rotor axis
                y = y * np.cos(np.deg2rad(pr["WD"].to_numpy()[:, ks] - a["YAW"].to_numpy()[:, n:]))
                y = np.maximum(y, 0.0)
            d = abs((x - y + 180) % 360 - 180) if v.endswith("WD") else abs(x - y)
            if v == "WD":
                # overlapping wakes without a limit can reverse the speed, then the direction of the vector is reversed
                d = np.where(pr["WS"].to_numpy()[:, ks] < 0, 0.0, d)
            if not np.all(d <= rt * np.maximum(1.0, abs(y)) + 1e-9):
                k = np.unravel_index(np.argmax(np.nan_to_num(d, nan=1e9)), d.shape)
                ctx.fail(name if name.startswith("order:") else f"{name}|passive|{v}", f"{name}: passive turbine at {pts[ks[k[1]]].tolist()}, state {k[0]}: {v} = {x[k]}, the point results have {pv} = {y[k]}")
                return
        b = W.obs(a)
        b = {v: (d, np.take(q, range(n), axis=d.index("turbine")) if "turbine" in d else q) for v, (d, q) in b.items()}
        d = W.diff(f0, b, rtol=rt, atol=1e-6 if it else 1e-9, skip=CUT)
        if d:
            ctx.fail(f"{name}|others", f"{name}: passive turbines at {pts[ks].tolist()} change the other turbines: {d[1]}")
            return
        ctx.state((name, tuple(ks)))
        ctx.nt((name, tuple(ks)))
    # any list of points, in any order and with repetitions
    few = list(range(0, len(pts), 6))[:4]
    lists = [list(p) for k in (1, 2, 3, 4) for p in itertools.permutations(few, k)]
    lists += [[few[0]] * 3, few + few, list(range(len(pts)))[::-1]]
    if ctx.tier == "quick":
        lists = lists[::3] + lists[-3:]
    with W.engine("single"):
        algo = W.build(spec)
        fr = algo.calc_farm()
        for ks in lists:
            q = algo.calc_points(fr, pts[ks])
            ctx.evals += 1
            ctx.trans += len(ks)
            b = {v: (d, np.take(z, ks, axis=d.index("point")) if "point" in d else z) for v, (d, z) in p0.items()}
            d = W.diff(b, W.obs(q), rtol=rt, atol=1e-9, skip=("point",), bcast=True)
            if d:
                ctx.fail(f"{name}|list", f"{name}: results at the points {ks} differ from those of the complete list: {d[1]}")
                return
            ctx.state((name, "list", tuple(ks)))
