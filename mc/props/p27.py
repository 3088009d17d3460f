"""P27 statistics, yields and roses are the stated reductions of the results"""
import itertools
import numpy as np
import pandas as pd
import xarray as xr
import foxes.variables as FV
import foxes.constants as FC
from foxes.output import FarmResultsEval, RosePlotOutput, StatesRosePlotOutput, WindRoseBinPlot, StateTurbineTable
from mc import worlds as W
from mc.catalog import w, worlds

ID = "P27"
LEVEL = "model_checking"
ASSUMPTIONS = ["synthetic results: up to 3 states and turbines, all value patterns of a small alphabet, weights by state or by state and turbine; real results of several worlds",
               "reference: plain Python loops; rtol 1e-12; missing values are rejected; roses on a grid of all sector centres and edges and all wind speed bin edges"]
AL = [0.0, 1.5, -2.0, 7.0]
OPS = ["weights", "mean_no_weights", "sum", "min", "max", "std"]
TOPS = ["mean_no_weights", "sum", "min", "max"]


def cases(tier):
    out = []
    for ns, nt in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)) + (((3, 2), (2, 3)) if tier != "quick" else ()):
        for wk in range(4):
            for wd in ("s", "st"):
                out.append(dict(kind="reduce", ns=ns, nt=nt, wk=wk, wd=wd))
    for ns, nt in ((3, 2), (2, 3)):
        for wd in ("s", "st"):
            out.append(dict(kind="reduce", ns=ns, nt=nt, wk=1, wd=wd, al=3))
            out.append(dict(kind="nan", ns=ns, nt=nt, wd=wd))
    for idx in ("int", "time", "time1h", "timeirr"):
        for wd in ("s", "st"):
            out.append(dict(kind="yield", idx=idx, wd=wd))
    for ns in (1, 2, 3, 4, 6, 8, 12, 16, 36):
        for src in ("farm", "point"):
            for wd in ("s", "st"):
                out.append(dict(kind="rose", sectors=ns, src=src, wd=wd))
    out += [dict(kind="eff", wd=q) for q in ("s", "st")]
    out += [dict(kind="real", world=k) for k in ("sup:Jensen_linear_k007", "wake:Bastankhah2014_linear_k004", "frame:yawed") if k in worlds()]
    out += [dict(kind="real", world=k) for k in ("ts", "ts1", "mixed", "single", "scan", "amb")]
    out += [dict(kind="table")]
    return out


def weights(k, ns, nt, wd):
    base = [[1.0 / ns] * ns, [0.1, 0.2, 0.7][:ns], [0.0, 1.0, 0.0][:ns] if ns > 1 else [1.0], [0.25, 0.5, 0.125][:ns]][k]
    if wd == "s":
        return np.array(base)
    o = np.array([[x * (1 + 0.3 * t * (-1) ** s) for t in range(nt)] for s, x in enumerate(base)])
    return o


def ds(v, wt, idx=None, **more):
    dims = (FC.STATE, FC.TURBINE)
    d = {k: (dims, np.array(x, dtype=float)) for k, x in dict(v=v, **more).items()}
    d[FV.WEIGHT] = (dims[:wt.ndim], wt.copy())
    ns, nt = np.array(v).shape
    return xr.Dataset(d, coords={FC.STATE: np.arange(10, 10 + ns) if idx is None else idx, FC.TURBINE: np.arange(nt)})


def red(vals, op, ws=None):
    vals = list(vals)
    if op == "weights":
        return sum(a * b for a, b in zip(vals, ws))
    m = sum(vals) / len(vals)
    return dict(mean_no_weights=m, sum=sum(vals), min=min(vals), max=max(vals), std=(sum((x - m) ** 2 for x in vals) / len(vals)) ** 0.5)[op]


def eq(a, b, tol=1e-12):
    return np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=tol, atol=1e-12, equal_nan=True)


def check_reduce(ctx, key, D, v, wt, name="v"):
    ns, nt = v.shape
    W2 = wt[:, None] * np.ones((1, nt)) if wt.ndim == 1 else wt
    e = FarmResultsEval(D)
    col = lambda a, op: [red(a[:, t], op, W2[:, t]) for t in range(nt)]
    row = lambda a, op: [red(a[s], op) for s in range(ns)]

    def tell(what, x, y):
        ctx.trans += 1
        if not eq(x, y):
            ctx.fail(f"{what.split('(')[0]}|{key}", f"{what} = {np.asarray(x).tolist()}, expected {np.asarray(y).tolist()} for values {v.tolist()}, weights {wt.tolist()}")

    for op in OPS:
        r = e.reduce_states({name: op})
        tell(f"reduce_states({op})", r[name].to_numpy(), col(v, op))
        if list(r.index) != list(range(nt)) or r.index.name != FC.TURBINE:
            ctx.fail("reduce_states:index", f"index {r.index}")
    for op in TOPS:
        r = e.reduce_turbines({name: op})
        tell(f"reduce_turbines({op})", r[name].to_numpy(), row(v, op))
        if not np.array_equal(r.index.to_numpy(), D[FC.STATE].to_numpy()) or r.index.name != FC.STATE:
            ctx.fail("reduce_turbines:index", f"index {r.index}")
    for so, to in itertools.product(OPS, TOPS):
        tell(f"reduce_all({so},{to})", e.reduce_all({name: so}, {name: to})[name], red(col(v, so), to))
    tell("calc_states_mean(w)", e.calc_states_mean(name)[name], col(v, "weights"))
    tell("calc_states_mean(n)", e.calc_states_mean([name], use_weights=False)[name], col(v, "mean_no_weights"))
    tell("calc_states_sum()", e.calc_states_sum([name])[name], col(v, "sum"))
    tell("calc_states_std()", e.calc_states_std([name])[name], col(v, "std"))
    tell("calc_turbine_mean()", e.calc_turbine_mean([name])[name], row(v, "mean_no_weights"))
    tell("calc_turbine_sum()", e.calc_turbine_sum([name])[name], row(v, "sum"))
    tell("calc_farm_mean()", e.calc_farm_mean([name])[name], red(col(v, "weights"), "mean_no_weights"))
    tell("calc_farm_sum()", e.calc_farm_sum([name])[name], red(col(v, "sum"), "sum"))


def run(case, ctx):
    globals()["k_" + case["kind"]](case, ctx)


def k_reduce(case, ctx):
    ns, nt = case["ns"], case["nt"]
    wt = weights(case["wk"], ns, nt, case["wd"])
    for vals in itertools.product(AL[:case.get("al", 4)], repeat=ns * nt):
        v = np.array(vals).reshape(ns, nt)
        ctx.evals += 1
        D = ds(v, wt)
        D0 = D.copy(deep=True)
        check_reduce(ctx, "syn", D, v, wt)
        if not D.identical(D0):
            ctx.fail("reduce:modified", f"reductions changed the results {v.tolist()}")
        ctx.state((ns, nt, case["wk"], case["wd"], vals))
        ctx.nt((str(case), vals))


def k_nan(case, ctx):
    ns, nt = case["ns"], case["nt"]
    v0 = np.arange(ns * nt, dtype=float).reshape(ns, nt)
    for i in np.ndindex(ns, nt):
        v = v0.copy()
        v[i] = np.nan
        e = FarmResultsEval(ds(v, weights(1, ns, nt, case["wd"])))
        ctx.evals += 1
        ctx.state((str(case), i))
        ctx.nt((str(case), i))
        for f in (lambda: e.reduce_states({"v": "weights"}), lambda: e.reduce_turbines({"v": "sum"}), lambda: e.calc_farm_mean(["v"]), lambda: e.calc_states_mean("v")):
            ctx.trans += 1
            try:
                r = f()
            except AssertionError:
                continue
            ctx.fail("nan:accepted", f"missing value at {i} was not reported, result {r}")


def hours_of(idx):
    return {"time": 0.5, "time1h": 3.0, "timeirr": None, "int": None}[idx]


def k_yield(case, ctx):
    v = np.array([[1000.0, 2000.0], [500.0, 0.0], [3000.0, 4000.0]])
    va = v + 100.0
    wt = weights(1, 3, 2, case["wd"])
    W2 = wt[:, None] * np.ones((1, 2)) if wt.ndim == 1 else wt
    idx = {"int": None, "time": pd.date_range("2020-01-01", periods=3, freq="10min"), "time1h": pd.date_range("2020-02-28 23:00", periods=3, freq="1h"),
           "timeirr": pd.DatetimeIndex(["2020-01-01 00:00", "2020-01-01 01:00", "2020-01-01 04:00"])}[case["idx"]]
    D = ds(v, wt, idx, **{FV.P: v, FV.AMB_P: va})
    e = FarmResultsEval(D)
    time = idx is not None
    combos = []
    for amb in (False, True):
        for pu in (1.0, 1e3, 1e6, np.array([[1e3], [1e6]])):
            for ann in (False, True):
                if not time:
                    for h in ([None, 10, 1234.5] if ann else [10, 8760, 0.5]):
                        combos.append((amb, pu, ann, dict(hours=h), 8760 if h is None else h))
                else:
                    for dt in (None, np.timedelta64(600, "s"), np.timedelta64(3600 * 10 ** 9, "ns")):
                        if dt is None:
                            hh = {"time": 0.5, "time1h": 3.0, "timeirr": 7.0}[case["idx"]]
                        else:
                            hh = {"time": 1 / 3, "time1h": 2.0, "timeirr": 4.0}[case["idx"]] + dt / np.timedelta64(1, "h")
                        combos.append((amb, pu, ann, dict(delta_t=dt), hh))
    for amb, pu, ann, kw, hours in combos:
        ctx.evals += 1
        ctx.nt((str(case), amb, str(pu), ann, str(kw)))
        ctx.state((str(case), amb, str(pu), ann, str(kw)))
        a = va if amb else v
        mean = np.array([red(a[:, t], "weights", W2[:, t]) for t in range(2)])
        exp = mean * np.asarray(pu).reshape(-1) * (8760 if ann else hours) / 1e9
        y = e.calc_turbine_yield(P_unit_W=pu, annual=ann, ambient=amb, **kw)
        col = FV.AMB_YLD if amb else FV.YLD
        ctx.trans += 2
        if list(y.columns) != [col] or not eq(y[col], exp, 1e-9):
            ctx.fail(f"yield|{case['idx']}", f"annual={ann}, ambient={amb}, {kw}, unit {pu}: {y.to_dict()}, expected {exp} GWh")
        for un in (None, 0.0, 0.1):
            f = e.calc_farm_yield(P_unit_W=pu, annual=ann, ambient=amb, power_uncert=un, **kw)
            x = np.sum(exp) * (np.array([1.0]) if un is None else np.array([1.0, 1 - 0.675 * un, 1 - 1.282 * un]))
            f2 = e.calc_farm_yield(turbine_yield=y, power_uncert=un)
            if not eq(np.atleast_1d(f), x, 1e-9) or not eq(np.atleast_1d(f2), x, 1e-9):
                ctx.fail(f"farm_yield|{case['idx']}", f"annual={ann}, ambient={amb}, uncertainty {un}: {f}, {f2}, expected {x}")
    for bad in (dict(P_unit_W=1e3, hours=5) if time else dict(P_unit_W=1e3), dict(hours=1), dict()):
        ctx.trans += 1
        try:
            r = e.calc_turbine_yield(**bad)
            ctx.fail("yield:accepted", f"{case}: incomplete or contradicting arguments {bad} gave {r}")
        except (KeyError, ValueError):
            pass


def k_eff(case, ctx):
    wt = weights(1, 2, 2, case["wd"])
    W2 = wt[:, None] * np.ones((1, 2)) if wt.ndim == 1 else wt
    for vals, k in itertools.product(itertools.product([0.0, 300.0, 500.0], repeat=4), range(4)):
        if True:
            # the last one: powers far below 1 kW
            v = (np.array(vals) * (1e-5 if k == 3 else 1)).reshape(2, 2)
            va = np.array([[500.0, 500.0], [500.0, 500.0]]) if k == 0 else (v * 1.25 if k in (1, 3) else np.array([[300.0, 0.0], [500.0, 300.0]]))
            D = ds(v, wt, **{FV.P: v, FV.AMB_P: va})
            e = FarmResultsEval(D)
            ctx.evals += 1
            ctx.trans += 5
            ctx.state((str(case), vals, k))
            ctx.nt((str(case), vals, k))
            mp = sum(v[s, t] * W2[s, t] for s in range(2) for t in range(2))
            ma = sum(va[s, t] * W2[s, t] for s in range(2) for t in range(2))
            if not eq(e.calc_mean_farm_power(), mp) or not eq(e.calc_mean_farm_power(ambient=True), ma):
                ctx.fail("mean_farm_power", f"{e.calc_mean_farm_power()}, {e.calc_mean_farm_power(ambient=True)}, expected {mp}, {ma}")
            if ma > 0 and not eq(e.calc_farm_efficiency(), min(mp / ma, 1.0)):
                ctx.fail("farm_efficiency", f"{e.calc_farm_efficiency()}, expected {mp}/{ma}")
            e.add_efficiency(verbosity=0)
            ex = np.array([[0.0 if v[i, j] == 0 else min(v[i, j] / max(va[i, j], 1e-12), 1.0) for j in range(2)] for i in range(2)])
            if not eq(e.results[FV.EFF].to_numpy(), ex):
                ctx.fail("efficiency", f"P={v.tolist()}, AMB_P={va.tolist()}: {e.results[FV.EFF].to_numpy().tolist()}, expected {ex.tolist()}")
            for amb in (False, True):
                e.add_capacity(P_nom=[1000.0, 500.0], ambient=amb, verbosity=0)
                c = FV.AMB_CAP if amb else FV.CAP
                if not eq(e.results[c].to_numpy(), (va if amb else v) / np.array([[1000.0, 500.0]])):
                    ctx.fail("capacity", f"ambient={amb}: {e.results[c].to_numpy().tolist()}")
            if not eq(e.results[FV.P].to_numpy(), v) or not eq(e.results[FV.AMB_P].to_numpy(), va):
                ctx.fail("eff:modified", "powers were changed")


def rose_data(sectors, wd, src):
    """states at all sector centres and edges, and speeds at and between bin edges; two turbines or points"""
    d = 360.0 / sectors
    dirs = sorted({(k * d / 4) % 360 for k in range(4 * sectors)} | {0.0, 359.999, (360 - d / 2) % 360})
    speeds = [0.0, 1.5, 3.0, 5.5, 8.0, 12.0, 13.0]
    st = [(a, b) for a in dirs for b in speeds]
    n = len(st)
    A = np.array(st)
    # second column: reversed order
    wds = np.stack([A[:, 0], A[::-1, 0]], axis=1)
    wss = np.stack([A[:, 1], A[::-1, 1]], axis=1)
    wt = np.linspace(1, 2, n)
    wt /= wt.sum()
    if wd == "st":
        wt = np.stack([wt, wt[::-1] ** 2], axis=1)
    dim = FC.TURBINE if src == "farm" else FC.POINT
    val = np.cos(np.arange(2 * n)).reshape(n, 2)
    D = xr.Dataset({FV.AMB_WD: ((FC.STATE, dim), wds), FV.AMB_REWS: ((FC.STATE, dim), wss), "WX": ((FC.STATE, dim), np.mod(wds + 33.0, 360)), "VV": ((FC.STATE, dim), val),
                    FV.WEIGHT: ((FC.STATE, dim)[:wt.ndim], wt)}, coords={FC.STATE: np.arange(n)})
    return D, wds, wss, wt if wt.ndim == 2 else np.stack([wt, wt], axis=1), val


def in_sector(a, k, d):
    x = (a - k * d) % 360.0
    return x < d / 2 or x >= 360.0 - d / 2


def hist(wds, wss, t, sectors, bins, f):
    d = 360.0 / sectors
    H = np.zeros((sectors, len(bins) - 1))
    for i in range(len(wds)):
        k = [k for k in range(sectors) if in_sector(wds[i, t], k, d)] if sectors > 1 else [0]
        j = [j for j in range(len(bins) - 1) if bins[j] <= wss[i, t] < bins[j + 1] or (j == len(bins) - 2 and wss[i, t] == bins[-1])]
        for a in k:
            for b in j:
                H[a, b] += f(i)
    return H


def k_rose(case, ctx):
    S = case["sectors"]
    D, wds, wss, wt, val = rose_data(S, case["wd"], case["src"])
    D0 = D.copy(deep=True)
    o = RosePlotOutput(farm_results=D) if case["src"] == "farm" else RosePlotOutput(point_results=D)
    for bins, inf, t in itertools.product(([0, 3, 8, 12], [0, 1.5, 3, 5.5, 8, 12, 13], [3, 8], [5.0, 6.0]), (False, True), (0, 1)):
        ctx.evals += 1
        ctx.trans += len(wds)
        ctx.nt((str(case), str(bins), inf, t))
        ctx.state((str(case), str(bins), inf, t))
        r = o.get_data(S, FV.AMB_REWS, bins, add_inf=inf, **({"turbine": t} if case["src"] == "farm" else {"point": t}))
        b = list(bins) + ([np.inf] if inf else [])
        e = hist(wds, wss, t, S, b, lambda i: 100 * wt[i, t])
        if r["frequency"].shape != e.shape or not eq(r["frequency"], e):
            ctx.fail(f"rose|{case['src']}", f"{S} sectors, bins {b}, index {t}: frequencies {np.asarray(r['frequency']).round(4).tolist()}, expected {e.round(4).tolist()}")
        if not eq(r[FV.AMB_WD], np.arange(S) * 360.0 / S):
            ctx.fail("rose:centres", f"{S} sectors: centres {r[FV.AMB_WD].to_numpy()}")
    if case["src"] == "farm":
        o = WindRoseBinPlot(D)
        for con, t, bins in itertools.product(("weights", "mean_no_weights", "sum_no_weights"), (0, 1), ([0, 3, 8, 12], [3, 8], [6, 7.5, 10])):
            ctx.evals += 1
            ctx.trans += len(wds)
            ctx.nt((str(case), con, t, str(bins)))
            r = o.get_data("VV", bins, S, turbine=t, contraction=con)
            f = (lambda i: wt[i, t]) if con == "weights" else (lambda i: 1.0)
            num = hist(wds, wss, t, S, bins, lambda i: f(i) * val[i, t])
            den = hist(wds, wss, t, S, bins, f)
            with np.errstate(all="ignore"):
                e = num if con == "sum_no_weights" else np.where(den > 0, num / np.where(den > 0, den, 1), np.nan)
            if not eq(r["VV"], e, 1e-9):
                ctx.fail(f"binrose|{con}", f"{S} sectors, bins {bins}, turbine {t}: {np.asarray(r['VV']).round(4).tolist()}, expected {e.round(4).tolist()}")
            if not eq(r[FV.AMB_WD], np.arange(S) * 360.0 / S):
                ctx.fail("binrose:centres", f"{S} sectors: centres {r[FV.AMB_WD].to_numpy()}")
    if not D.identical(D0):
        ctx.fail("rose:modified", "results were changed")


def k_real(case, ctx):
    k = case["world"]
    spec = {"ts": lambda: w(states=dict(kind="timeseries", freq="30min", ws=[8.0, 9.5, 10.5, 6.0], wd=[270.0, 93.0, 10.0, 181.0], ti=[0.06, 0.1, 0.08, 0.12], rho=[1.2, 1.225, 1.25, 1.18])),
            "ts1": lambda: w(states=dict(kind="timeseries", freq="1h", ws=[8.0, 9.5], wd=[270.0, 93.0], ti=[0.06, 0.1], rho=[1.2, 1.225])),
            "mixed": lambda: w(models=[["TA", "kTI_02"], ["TB", "kTI_02"], ["TA", "kTI_02"]]),
            "single": lambda: w(states=dict(kind="single", ws=[9.0], wd=[270.0], ti=[0.08], rho=[1.225])),
            "scan": lambda: w(states=dict(kind="scan", ws=[8.0, 9.0], wd=[270.0, 90.0, 10.0], ti=[0.08], rho=[1.225])),
            "amb": lambda: w()}.get(k, lambda: worlds()[k])()
    algo = W.build(spec)
    with W.engine("single"):
        fr = algo.calc_farm()
    ns, nt = fr.sizes[FC.STATE], fr.sizes[FC.TURBINE]
    wt = fr[FV.WEIGHT].to_numpy()
    e = FarmResultsEval(fr)
    for v in (FV.P, FV.AMB_P, FV.REWS, FV.CT):
        ctx.evals += 1
        check_reduce(ctx, "real", fr, fr[v].to_numpy(), wt, v)
    W2 = wt[:, None] * np.ones((1, nt)) if wt.ndim == 1 else wt
    time = np.issubdtype(fr[FC.STATE].dtype, np.datetime64)
    for amb in (False, True):
        p = fr[FV.AMB_P if amb else FV.P].to_numpy()
        mean = [red(p[:, t], "weights", W2[:, t]) for t in range(nt)]
        y = e.calc_turbine_yield(algo=algo, annual=True, ambient=amb).to_numpy()[:, 0]
        if not eq(y, np.array(mean) * 1e3 * 8760 / 1e9, 1e-9):
            ctx.fail("yield|real", f"{k}: annual {y}")
        if time:
            h = {"ts": 2.0, "ts1": 2.0}[k]
            y = e.calc_turbine_yield(algo=algo, ambient=amb).to_numpy()[:, 0]
            if not eq(y, np.array(mean) * 1e3 * h / 1e9, 1e-9):
                ctx.fail("yield|real", f"{k}: period {y}, expected {np.array(mean) * 1e3 * h / 1e9}")
        e.add_capacity(algo=algo, ambient=amb, verbosity=0)
        pn = [algo.mbook.turbine_types[[m for m in t.models if m in algo.mbook.turbine_types][0]].P_nominal for t in algo.farm.turbines]
        if not eq(e.results[FV.AMB_CAP if amb else FV.CAP], p / np.array(pn)[None, :]):
            ctx.fail("capacity|real", f"{k}: ambient={amb}")
    # rose of the states, rose of the farm
    S, bins = 12, [0, 7, 9.2, 30]
    d0 = RosePlotOutput(farm_results=fr).get_data(S, FV.AMB_REWS, bins, turbine=0)
    a = np.stack([fr[FV.AMB_WD].to_numpy()[:, 0]] * 1, axis=1)
    b = np.stack([fr[FV.AMB_REWS].to_numpy()[:, 0]] * 1, axis=1)
    ex = hist(a, b, 0, S, bins, lambda i: 100 * W2[i, 0])
    if not eq(d0["frequency"], ex):
        ctx.fail("rose|real", f"{k}: {d0['frequency'].to_numpy().tolist()}, expected {ex.tolist()}")
    st = W.build(spec).states
    with W.engine("single"):
        d1 = StatesRosePlotOutput(st, point=[0.0, 0.0, 90.0], mbook=W.mbook()).get_data(S, FV.AMB_WS, bins)
    if not eq(d1["frequency"], ex):
        ctx.fail("rose|states", f"{k}: {d1['frequency'].to_numpy().tolist()}, expected {ex.tolist()}")
    ctx.trans += 20
    ctx.state((str(case), W.digest(W.obs(fr))))
    ctx.nt(str(case))


def k_table(case, ctx):
    v = np.arange(6.0).reshape(3, 2)
    for idx in (None, pd.date_range("2020-01-01", periods=3, freq="1h")):
        D = ds(v, np.full(3, 1 / 3), idx, B=v * 2)
        for nm in ({}, {"v": "vv"}, {FC.STATE: "time", FC.TURBINE: "wt"}, {"B": "v"}):
            for vs in (["v"], ["B"], ["B", "v"]):
                if len({nm.get(x, x) for x in vs}) != len(vs):
                    continue
                s, t = nm.get(FC.STATE, FC.STATE), nm.get(FC.TURBINE, FC.TURBINE)
                for sel in ({}, dict(isel={s: [2, 0]}), dict(isel={t: 1}), dict(sel={s: [D[FC.STATE].to_numpy()[1]]})):
                    ctx.evals += 1
                    r = StateTurbineTable(D).get_dataset(vs, name_map=nm, **sel)
                    ctx.nt((str(nm), str(vs), str(sel)))
                    ctx.state((str(nm), str(vs), str(sel), idx is None))
                    for x in vs:
                        e = D[x].to_numpy()
                        if "isel" in sel:
                            e = e[[2, 0]] if s in sel["isel"] else e[:, 1]
                        elif sel:
                            e = e[[1]]
                        ctx.trans += 1
                        if not eq(r[nm.get(x, x)], e):
                            ctx.fail("table", f"{nm}, {sel}: {x} = {r[nm.get(x, x)].to_numpy()}, expected {e}")
                    if len(r.data_vars) != len(vs):
                        ctx.fail("table:vars", f"{list(r.data_vars)}")
