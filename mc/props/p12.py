"""P12 ambient results are wake free, and influence runs downstream only"""
import itertools
import numpy as np
from mc import worlds as W
from mc.catalog import worlds, w, ST4, TSD

ID = "P12"
LEVEL = "model_checking"
ASSUMPTIONS = ["4-turbine farms for every kind of model, every subset obtained by removing one turbine; every turbine alone",
               "influence runs downstream: wake frames without memory, wake models without upstream influence; downstream means more than 150 m further along the state's wind direction",
               "rtol 1e-9 (iterative 1e-5)"]
XY4 = [[0.0, 0.0], [460.0, 35.0], [930.0, -45.0], [480.0, 410.0]]
PTS = np.array([[-300.0, 20.0, 90.0], [700.0, 30.0, 80.0], [1500.0, -60.0, 100.0], [600.0, 900.0, 70.0], [450.0, -700.0, 90.0]])
SKIP = ("order", "order_inv", "order_ssel", "turbine", "tname")


def all_worlds():
    d = {k: v for k, v in worlds().items() if k != "it:farmo"}
    for k in ("wakes4", "ti4", "mirror4", "stream4", "grid4", "it4", "kamb4"):
        d["x:" + k] = w(xy=XY4, models=[["TA", "kTI_02"], ["TB", "kTI_02"], ["TA", "kTI_02"], ["TB", "kTI_04"]])
    d["x:ti4"].update(wakes=["Bastankhah2014_linear_ka02", "CrespoHernandez_quadratic_ka02"])
    d["x:mirror4"].update(ground_models="ground_mirror")
    d["x:stream4"].update(wake_frame="streamlines_100")
    d["x:grid4"].update(partial_wakes="grid9", rotor_model="level5")
    d["x:it4"].update(algo="Iterative", wakes=["Jensen_quadratic_k007", "IECTI2019_max"])
    d["x:kamb4"].update(wakes=["TurbOPark_linear_ambka02", "CrespoHernandez_max_ambka04"])
    # inflow that differs between the turbines, partial wakes with other points than the rotor
    for k, r, q in (("a", "level3", "grid9"), ("b", "centre", "grid4"), ("c", "grid4", "grid9")):
        for j, st in enumerate(("field", "multiheight")):
            d[f"x:seg{k}{j}"] = w(xy=[XY4[i] for i in range(3)], models=[["TA", "kTI_02"], ["TB", "kTI_02"], ["TA", "kTI_02"]], H=[100.0, 110.0, 100.0], states=dict(kind=st, n=4, **(dict(grid=dict(hs=(20.0, 180.0))) if st == "field" else {})), rotor_model=r, partial_wakes=q,
                                  wakes=[["Bastankhah2014_quadratic_loc_lim_k004", "CrespoHernandez_quadratic_ka02"], ["Jensen_product_k007", "IECTI2019_quadratic"], ["Bastankhah2014_linear_k004", "CrespoHernandez_max_ka04"]][(j + len(r)) % 3])
    return d


def cases(tier):
    return [dict(world=k) for k in all_worlds()]


def upstream(spec):
    return any(n.split("_")[0] in ("RHB", "VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020") for n in spec["wakes"])


def run(case, ctx):
    name = case["world"]
    spec = all_worlds()[name]
    n = len(spec["xy"])
    rt = 1e-5 if spec.get("algo") == "Iterative" else 1e-9
    with W.engine("single"):
        a = W.build(spec)
        fr = a.calc_farm()
        pr = a.calc_points(fr, PTS)
        b = W.build(spec)
        frA = b.calc_farm(ambient=True)
        prA = b.calc_points(frA, PTS, ambient=True)
    ref, refp, amb, ambp = [W.obs(x) for x in (fr, pr, frA, prA)]
    ctx.evals += 2

    def cmp(tag, x, y, what):
        d = W.diff(x, y, rtol=rt, atol=1e-7, bcast=True, skip=SKIP)
        if d is not None:
            ctx.fail(f"{name}|{tag}|{d[0]}", f"{name}: {what}: {d[1]}")
            return False
        return True
    av = sorted(v for v in ref if v.startswith("AMB_"))
    if not av:
        ctx.fail(f"{name}|amb", f"{name}: no ambient variables in {sorted(ref)}")
    # ambient run: no wakes, same ambient values
    late = spec.get("algo") == "Iterative" or any(d.get("vars") for d in (spec.get("tmodels") or {}).values())
    cmp("ambient", {v: ref[v] for v in av}, {v: amb.get(v, (("missing",), np.zeros(1))) for v in av}, "ambient values of the full run and the ambient run")
    for v in av:
        if v[4:] in amb and v in amb:
            cmp("ambient2", {v: amb[v]}, {v: amb[v[4:]]}, f"ambient run, {v} and {v[4:]}")
    pv = [v for v in refp if v.startswith("AMB_")]
    cmp("ambientp", {v: ambp[v] for v in pv if v in ambp}, {v: refp[v] for v in pv}, f"point calculation, ambient values of the ambient run and the waked run")
    for v in pv:
        if v[4:] in ambp:
            cmp("ambientp2", {v: ambp[v]}, {v: ambp[v[4:]]}, f"ambient point calculation, {v} against {v[4:]}")
    # each turbine alone
    for i in range(n):
        s = W.permute_spec(spec, [i])
        if s["models"][0][0] == "TN":
            continue
        f1, p1 = [W.obs(x) for x in W.run_both(s, PTS)]
        ctx.evals += 1
        ctx.trans += ref["REWS"][1].shape[0]
        e = W.permute_obs(ref, [i])
        cmp("alone", {v: e[v] for v in av}, {v: f1[v] for v in av if v in f1}, f"ambient values of turbine {i} with and without the other turbines")
        if not upstream(spec) and not name.startswith("dyn:"):
            cmp("alone2", {v: f1[v] for v in av if v[4:] in f1}, {v: f1[v[4:]] for v in av if v[4:] in f1}, f"turbine {i} alone, ambient and waked values") if False else None
            for v in ("REWS", "P", "CT", "TI"):
                if v in f1 and "AMB_" + v in f1 and not late:
                    cmp("alone2", {v: f1[v]}, {v: f1["AMB_" + v]}, f"turbine {i} alone, {v} against AMB_{v}")
        cmp("alonep", {v: refp["AMB_" + v] for v in ("WS", "WD", "TI", "RHO")}, {v: p1["AMB_" + v] for v in ("WS", "WD", "TI", "RHO")}, f"ambient values at points with all turbines and with turbine {i} only")
        ctx.nt((name, "alone", i))
    if upstream(spec) or name.startswith("dyn:"):
        return
    # removing a turbine leaves everything that is not downstream of it unchanged
    wd = ref["AMB_WD"][1] if "AMB_WD" in ref else ref["WD"][1]
    X, Y = ref["X"][1], ref["Y"][1]
    nst = X.shape[0]
    for j in range(n):
        p = [i for i in range(n) if i != j]
        s = W.permute_spec(spec, p)
        f1, p1 = [W.obs(x) for x in W.run_both(s, PTS)]
        ctx.evals += 1
        e = W.permute_obs(ref, p)
        for i in range(nst):
            a = np.deg2rad(wd[i, j])
            nx = np.array([-np.sin(a), -np.cos(a)])
            dt = (X[i, p] - X[i, j]) * nx[0] + (Y[i, p] - Y[i, j]) * nx[1]
            dp = (PTS[:, 0] - X[i, j]) * nx[0] + (PTS[:, 1] - Y[i, j]) * nx[1]
            st, sp = np.where(dt < -150.0)[0], np.where(dp < -150.0)[0]
            ctx.trans += len(p)
            for tag, x, y, sel, dim in (("up", e, f1, st, "turbine"), ("upp", refp, p1, sp, "point")):
                q = {}
                for k, z in ((0, x), (1, y)):
                    q[k] = {}
                    for v, (d, val) in z.items():
                        if v in SKIP or v == dim or v in ("x", "y", "z") or val.dtype.kind not in "fiub":
                            continue
                        if len(d) == 2 and d[0] == "state":
                            q[k][v] = (("a",), val[i][sel])
                if len(sel) and not cmp(tag, q[0], q[1], f"state {i}: results upstream of turbine {j} change when it is removed"):
                    return
            if np.any(np.abs(e["REWS"][1][i] - f1["REWS"][1][i]) > 1e-6):
                ctx.nt((name, j, i))
        ctx.state((name, j, W.digest(f1)))
