"""P28 exported files contain the results"""
import itertools, os, json, shutil, tempfile
import numpy as np
import pandas as pd
import xarray as xr
import foxes.variables as FV
import foxes.constants as FC
from foxes.core import Turbine, WindFarm
from foxes.output import ResultsWriter, StateTurbineTable, FarmLayoutOutput, PointCalculator, Output, SliceData, SlicesData
from foxes.utils import PandasFileHelper, write_nc
from foxes.input.farm_layout import add_from_csv, add_from_json
from mc import worlds as W
from mc.catalog import w

ID = "P28"
LEVEL = "model_checking"
ASSUMPTIONS = ["farm results with integer and time stamp states, 3 turbines; all writer options; all pairs of successive writes with the same writer; files are read back with pandas, xarray, json",
               "values agree up to the default digits of the variable; the written object is unchanged; HDF5 tables are not covered (no pytables here)"]
DIG = dict(WD=3, YAW=3, WS=4, REWS=4, REWS2=4, REWS3=4, TI=6, RHO=5, P=3, CT=6, T=3, YLD=3, CAP=5, EFF=5)
IDX = {"int": lambda n: np.arange(5, 5 + n), "time": lambda n: pd.date_range("2020-01-01", periods=n, freq="10min").to_numpy()}
VARS = {"all": None, "list": ["P", "REWS", "ZZ"], "one": ["AMB_TI"], "dict": {"P": "Power", "CT": "ct"}, "dictidx": {"state": "time", "turbine": "wt", "P": "Power"}, "onedict": {"WD": "dir"}, "onedictidx": {"state": "s", "REWS": "u"}}


def results(idx, ns=3, nt=3):
    rng = np.random.RandomState(3)
    sh = (ns, nt)
    d = {"P": rng.uniform(0, 5000, sh), "CT": rng.uniform(0, 1, sh), "REWS": rng.uniform(0, 20, sh), "AMB_TI": rng.uniform(0, 0.2, sh), "WD": rng.uniform(0, 360, sh), "ZZ": rng.uniform(-1, 1, sh) * 1e-9, "order": np.arange(ns * nt).reshape(sh)}
    return xr.Dataset({k: ((FC.STATE, FC.TURBINE), v) for k, v in d.items()} | {FC.TNAME: ((FC.TURBINE,), ["W10", "W2", "A"][:nt])},
                      coords={FC.STATE: IDX[idx](ns), FC.TURBINE: np.arange(nt)})


def digits(v):
    v = v[4:] if v.startswith("AMB_") else v
    return DIG.get(v)


def close(x, y, v):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.shape != y.shape:
        return False
    d = digits(v)
    tol = 1e-12 * np.abs(y) if d is None else 0.5000001 * 10.0 ** (-d) + 1e-12 * np.abs(y)
    return bool(np.all((np.abs(x - y) <= tol) | (np.isnan(x) & np.isnan(y))))


def cases(tier):
    out = []
    opts = [dict(fmt=f, vars=v, names=n, table=t) for f in ("csv", "csv.gz", "nc") for v in VARS for n in (False, True) for t in (False, True) if not (t and (f == "nc" or v not in ("one", "onedict", "onedictidx")))]
    opts = [o for o in opts if not (o["fmt"] == "csv.gz" and o["vars"] not in ("list", "one"))]
    for idx in IDX:
        for o in opts:
            out.append(dict(kind="writer", idx=idx, first=o, second=[q for q in opts if tier != "quick" or q["fmt"] != "csv.gz"]))
    out += [dict(kind="helper", fmt=f) for f in ("csv", "csv.gz", "csv.bz2", "csv.zip", "nc")]
    out += [dict(kind="nc", rd=r, cl=c) for r in ("default", "none", "given") for c in (None, 0, 1, 9)]
    out += [dict(kind="table", idx=i) for i in IDX]
    out += [dict(kind="points", idx=i, mean=m, sp=sp) for i in IDX for m in (False, True) for sp in (False, True)]
    out += [dict(kind="slices", idx=i, ori=o, what=q) for i in IDX for o in ("xy", "xz", "yz") for q in ("mean", "states")]
    out += [dict(kind="layout", n=n, H=h, D=d) for n in (1, 2, 3) for h in (False, True) for d in (False, True)]
    return out


class tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=os.environ["MC_TMP"])
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def write(rw, o, name):
    vs = VARS[o["vars"]]
    vs = None if vs is None else (dict(vs) if isinstance(vs, dict) else list(vs))
    v0 = None if vs is None else (dict(vs) if isinstance(vs, dict) else list(vs))
    if o["fmt"] == "nc":
        rw.write_nc(name, variables=vs, turbine_names=o["names"], verbosity=0)
    else:
        rw.write_csv(name, variables=vs, turbine_names=o["names"], state_turbine_table=o["table"], verbosity=0)
    return vs == v0


def verify(path, o, D, ctx, key, what):
    """what was read back"""
    vs = VARS[o["vars"]]
    num = [v for v in D.data_vars if v != FC.TNAME]
    vmap = {v: v for v in num} if vs is None else ({k: x for k, x in vs.items() if k in num} if isinstance(vs, dict) else {v: v for v in vs})
    s = vs.get(FC.STATE, FC.STATE) if isinstance(vs, dict) else FC.STATE
    t = vs.get(FC.TURBINE, FC.TURBINE) if isinstance(vs, dict) else FC.TURBINE
    st = D[FC.STATE].to_numpy()
    tn = D[FC.TNAME].to_numpy()
    ns, nt = len(st), len(tn)
    bad = lambda msg: ctx.fail(key, f"{what}: {msg}")
    time = np.issubdtype(st.dtype, np.datetime64)
    if o["fmt"] == "nc":
        with xr.open_dataset(path, engine="h5netcdf") as f:
            f = f.load()
        if not np.array_equal(f[s].to_numpy(), st):
            return bad(f"states {f[s].to_numpy()}, expected {st}")
        if o["names"] and list(f[t].to_numpy()) != list(tn):
            return bad(f"turbine names {f[t].to_numpy()}, expected {tn}")
        for v, c in vmap.items():
            ctx.trans += ns * nt
            if c not in f or f[c].dims != (s, t) or not close(f[c].to_numpy(), D[v].to_numpy(), v):
                return bad(f"variable {c} = {f[c].to_numpy().tolist() if c in f else None}, expected {D[v].to_numpy().tolist()}")
        return
    f = pd.read_csv(path)
    if o["table"]:
        v, = vmap
        if len(f) != ns or f.columns[0] != s:
            return bad(f"{len(f)} rows, first column {f.columns[0]}")
        xs = pd.to_datetime(f[s]).to_numpy() if time else f[s].to_numpy()
        if not np.array_equal(xs, st):
            return bad(f"states {xs}")
        for i in range(nt):
            c = f"{vmap[v]}_{tn[i]}" if o["names"] else f"{vmap[v]}_T{i:04d}"
            ctx.trans += ns
            if c not in f.columns or not close(f[c], D[v].to_numpy()[:, i], v):
                return bad(f"column {c}: {f.get(c)}, expected {D[v].to_numpy()[:, i]}")
        return
    if len(f) != ns * nt:
        return bad(f"{len(f)} rows for {ns} states and {nt} turbines")
    xs = pd.to_datetime(f[s]).to_numpy() if time else f[s].to_numpy()
    lab = f[FC.TNAME if o["names"] else t].to_numpy()
    for r in range(len(f)):
        i = int(np.where(st == xs[r])[0][0])
        j = list(tn).index(lab[r]) if o["names"] else int(lab[r])
        if r != i * nt + j:
            return bad(f"row {r} is state {xs[r]}, turbine {lab[r]}")
        for v, c in vmap.items():
            ctx.trans += 1
            if c not in f.columns or not close([f[c].iloc[r]], [D[v].to_numpy()[i, j]], v):
                return bad(f"row {r}, column {c}: {f[c].iloc[r] if c in f.columns else None}, expected {D[v].to_numpy()[i, j]}")


def run(case, ctx):
    globals()["k_" + case["kind"]](case, ctx)


def k_writer(case, ctx):
    D = results(case["idx"])
    D0 = D.copy(deep=True)
    a = case["first"]
    key = lambda o: f"writer|{o['fmt'][:3]}|{o['vars']}|{o['names']}|{o['table']}"
    with tmp() as d:
        for k, b in enumerate(case["second"]):
            ctx.evals += 1
            ctx.state((case["idx"], str(a), str(b)))
            ctx.nt((case["idx"], str(a), str(b)))
            rw = ResultsWriter(farm_results=D, out_dir=d)
            n1, n2 = f"a{k}.{a['fmt']}", f"b{k}.{b['fmt']}"
            for o, n in ((a, n1), (b, n2)):
                try:
                    if not write(rw, o, n):
                        ctx.fail("writer:variables", f"the given dict of variables is changed by writing {o}")
                except Exception as e:
                    ctx.fail(key(o) + "|exception", f"{case['idx']}: writing {o}" + (f" after {a}" if o is b else "") + f": {type(e).__name__}: {e}")
                    break
            else:
                if k == 0:
                    verify(os.path.join(d, n1), a, D0, ctx, key(a), f"{case['idx']}: {a}")
                verify(os.path.join(d, n2), b, D0, ctx, key(b), f"{case['idx']}: {b} after {a}")
            if not D.identical(D0):
                ctx.fail("writer:modified", f"results were changed by {a}, {b}")
                D = D0.copy(deep=True)


def k_helper(case, ctx):
    fmt = case["fmt"]
    rng = np.random.RandomState(1)
    cols = ["WD", "YAW", "P", "AMB_REWS2", "TI", "other"]
    data = pd.DataFrame(rng.uniform(0, 100, (4, 6)), columns=cols)
    data.iloc[1, 2] = np.nan
    data.index.name = "index"
    with tmp() as d:
        # all pairs of writes with different parameters: no parameter carries over
        kws = [dict(), dict(format_dict={"P": "{:.1f}"})] + ([] if fmt == "nc" else [dict(sep=";"), dict(index=False)])
        for k, (a, b, name) in enumerate(itertools.product(kws, kws, ("x", "a.b", "v1.2_x"))):
            ctx.evals += 1
            ctx.state((fmt, str(a), str(b), name))
            ctx.nt((fmt, str(a), str(b), name))
            for kw in (a, b):
                p = os.path.join(d, f"{name}{k}.{fmt}")
                d0 = data.copy()
                PandasFileHelper.write_file(data, p, **kw)
                if not data.equals(d0):
                    ctx.fail("helper:modified", f"{fmt}, {kw}")
                rd = {"sep": kw["sep"]} if "sep" in kw else {}
                f = PandasFileHelper.read_file(p, **rd)
                for c in cols:
                    ctx.trans += 1
                    v = c
                    y = data[c].to_numpy()
                    if c not in f.columns:
                        ctx.fail(f"helper|{fmt}|columns", f"{name}, {a} then {b}, {kw}: columns {list(f.columns)}")
                        break
                    x = f[c].to_numpy(dtype=float)
                    ok = close(x, y, c) if "format_dict" not in kw or c != "P" else bool(np.all((np.abs(x - y) <= 0.05001) | (np.isnan(x) & np.isnan(y))))
                    if not ok:
                        ctx.fail(f"helper|{fmt}|values", f"{name}, {kw}: {c} = {x}, written {y}")
                if "index" in kw and "index" in f.columns:
                    ctx.fail(f"helper|{fmt}|index", f"index written in spite of index=False, {list(f.columns)}")
                if fmt != "nc" and "index" not in kw and "index" not in f.columns:
                    ctx.fail(f"helper|{fmt}|noindex", f"{a} then {b}, {kw}: index missing, {list(f.columns)}")


def k_nc(case, ctx):
    rd = {"default": {}, "none": None, "given": {"P": 1, "ZZ": 10, "x": 2}}[case["rd"]]
    ds = results("int").drop_vars(FC.TNAME)
    ds["Q"] = (("x",), np.array([0.123456, 2.0]))
    ds = ds.assign_coords(x=np.array([0.12345, 1.98765]))
    ds0 = ds.copy(deep=True)
    with tmp() as d:
        p = os.path.join(d, "t.nc")
        ctx.evals += 1
        write_nc(ds, p, round=rd, complevel=case["cl"], verbosity=0)
        if not ds.identical(ds0):
            ctx.fail("nc:modified", f"{case}: the written dataset was changed")
        with xr.open_dataset(p, engine="h5netcdf") as f:
            f = f.load()
        for v in list(ds0.data_vars) + ["x"]:
            ctx.trans += 1
            dg = None if rd is None else rd.get(v, digits(v))
            x, y = f[v].to_numpy(), ds0[v].to_numpy()
            tol = 1e-15 if dg is None else 0.500001 * 10.0 ** -dg
            if x.shape != y.shape or np.max(np.abs(x - y)) > tol:
                ctx.fail(f"nc|{case['rd']}", f"{case}: {v} = {x.tolist()}, expected {y.tolist()} with {dg} digits")
            if dg is not None and np.max(np.abs(x - np.round(y, dg))) > 1e-12:
                ctx.fail(f"nc:digits|{case['rd']}", f"{case}: {v} = {x.tolist()} is not rounded to {dg} digits")
        ctx.state(str(case))
        ctx.nt(str(case))


def k_table(case, ctx):
    D = results(case["idx"])
    D0 = D.copy(deep=True)
    with tmp() as d:
        for nm, vs in itertools.product(({}, {"P": "power", FC.STATE: "time"}), (["P"], ["REWS", "P", "ZZ"])):
            ctx.evals += 1
            ctx.nt((str(case), str(nm), str(vs)))
            ctx.state((str(case), str(nm), str(vs)))
            r = StateTurbineTable(D, out_dir=d).get_dataset(vs, name_map=nm, to_file="t.nc", verbosity=0)
            with xr.open_dataset(os.path.join(d, "t.nc"), engine="h5netcdf") as f:
                f = f.load()
            for v in vs:
                ctx.trans += 1
                n = nm.get(v, v)
                if not close(f[n], D0[v], v):
                    ctx.fail("table", f"{n}: {f[n].to_numpy()}, expected {D0[v].to_numpy()}")
                if not np.array_equal(r[n].to_numpy(), D0[v].to_numpy()):
                    ctx.fail("table:returned", f"{n}: returned data changed by writing the file, {r[n].to_numpy().tolist()}, results {D0[v].to_numpy().tolist()}")
            if not np.array_equal(f[nm.get(FC.STATE, FC.STATE)], D0[FC.STATE]):
                ctx.fail("table:states", f"{f}")
            if not D.identical(D0):
                ctx.fail("table:modified", "")


def k_points(case, ctx):
    st = dict(kind="timeseries", freq="10min", ws=[8.0, 9.5], wd=[270.0, 273.0], ti=[0.06, 0.1], rho=[1.2, 1.225]) if case["idx"] == "time" else dict(kind="table", ws=[8.0, 9.5], wd=[270.0, 273.0], ti=[0.06, 0.1], rho=[1.2, 1.225], w=[0.25, 0.75])
    algo = W.build(w(states=st))
    pts = np.array([[700.0, 10.0, 90.0], [1500.0, 0.0, 80.0], [200.0, 30.0, 100.0]])
    if case["sp"]:
        pts = np.stack([pts, pts + [100.0, -10.0, 5.0]])
    with tmp() as d, W.engine("single"):
        fr = algo.calc_farm()
        p0 = algo.calc_points(fr, pts if case["sp"] else np.stack([pts, pts]))
        wt = fr[FV.WEIGHT].to_numpy()
        wt = wt[:, 0] if wt.ndim == 2 else wt
        for vs in (None, ["WS"], ["TI", "AMB_WS"]):
            ctx.evals += 1
            ctx.nt((str(case), str(vs)))
            ctx.state((str(case), str(vs)))
            q = pts.copy()
            r = PointCalculator(algo, fr, out_dir=d).calculate(q, states_mean=case["mean"], to_file="p.nc", write_vars=vs, write_pars=dict(verbosity=0))
            if not np.array_equal(q, pts):
                ctx.fail("points:modified", "the points were changed")
            with xr.open_dataset(os.path.join(d, "p.nc"), engine="h5netcdf") as f:
                f = f.load()
            for v in p0.data_vars:
                e = p0[v].to_numpy()
                if case["mean"]:
                    if e.ndim == 1:
                        continue
                    e = np.einsum("s,sp->p", wt, e)
                ctx.trans += e.size
                if not np.allclose(r[v].to_numpy(), e, rtol=1e-12):
                    ctx.fail("points:returned", f"{v}: {r[v].to_numpy().tolist()}, expected {e.tolist()}")
                if vs is None or v in vs:
                    if not close(f[v], e, v):
                        ctx.fail("points:file", f"{v}: {f[v].to_numpy().tolist()}, expected {e.tolist()}")
                elif v in f:
                    ctx.fail("points:vars", f"{v} was not asked for")
            pe = pts if not (case["mean"] and case["sp"]) else np.einsum("s,spd->pd", wt, pts)
            for i, c in enumerate("xyz"):
                if f[c].shape != pe[..., i].shape or not np.allclose(f[c], pe[..., i], rtol=1e-12):
                    ctx.fail("points:coords", f"{c}: {f[c].to_numpy().tolist()}, expected {pe[..., i].tolist()}")
            if not case["mean"] and not np.array_equal(f[FC.STATE], fr[FC.STATE]):
                ctx.fail("points:states", f"{f[FC.STATE].to_numpy()}")


def k_slices(case, ctx):
    """one plane and several planes, in every format"""
    st = dict(kind="timeseries", freq="10min", ws=[8.0, 9.5], wd=[270.0, 273.0], ti=[0.06, 0.1], rho=[1.2, 1.225]) if case["idx"] == "time" else dict(kind="table", ws=[8.0, 9.5], wd=[270.0, 273.0], ti=[0.06, 0.1], rho=[1.2, 1.225], w=[0.25, 0.75])
    algo = W.build(w(states=st))
    ori, mean = case["ori"], case["what"] == "mean"
    c = list(set("xyz") - set(ori))[0]
    lim = dict(x=(-200.0, 1100.0), y=(-150.0, 150.0), z=(10.0, 200.0))
    kw = {f"{a}{m}": v for a in ori for m, v in zip(("min", "max"), lim[a])}
    kw.update(n_img_points=(4, 3), variables=["WS", "TI"], verbosity=0)
    cs = dict(x=[-100.0, 300.0, 750.0], y=[0.0, 40.0], z=[90.0, 60.0, 130.0])[c]
    with tmp() as d, W.engine("single"):
        fr = algo.calc_farm()
        for lm in ({}, {"WS": "wind_speed", ori[0]: "A"}, {FC.STATE: "time", ori[1]: "B", c: "C"}):
            C = lm.get(c, c)
            one = getattr(SliceData(algo, fr, out_dir=d), f"get_{case['what']}_data_{ori}")
            ref = [one(data_format="xarray", label_map=lm, **{c: q}, **kw) for q in cs]
            ctx.evals += 4 + len(ref)
            ctx.nt((str(case), str(lm)))
            ctx.state((str(case), str(lm)))
            r = one(data_format="xarray", label_map=lm, to_file="x.nc", **{c: cs[1]}, **kw)
            with xr.open_dataset(os.path.join(d, "x.nc"), engine="h5netcdf") as f:
                f = f.load()
            for v in ("WS", "TI"):
                n = lm.get(v, v)
                ctx.trans += 2 * ref[1][n].size
                if not close(f[n], ref[1][n], n) or f[n].dims != ref[1][n].dims or not np.array_equal(r[n], ref[1][n]):
                    ctx.fail("slice:nc", f"{case}, {lm}: {f[n]}, expected {ref[1][n]}")
            for k in ref[1].coords:
                if k not in f.coords or not np.array_equal(f[k], ref[1][k]):
                    ctx.fail("slice:coords", f"{case}, {lm}: {f.coords}, expected {ref[1].coords}")
            r = one(data_format="pandas", label_map=lm, to_file="x.csv", **{c: cs[1]}, **kw)
            f = pd.read_csv(os.path.join(d, "x.csv"))
            for v in ("WS", "TI"):
                n = lm.get(v, v)
                ctx.trans += len(r)
                if n not in f or not close(f[n], r[n], v) or not np.allclose(np.sort(r[n]), np.sort(ref[1][n].to_numpy().ravel()), rtol=1e-12):
                    ctx.fail("slice:csv", f"{case}, {lm}: {f}, expected {r}")
            r = one(data_format="numpy", to_file="x.bin", **{c: cs[1]}, **kw)
            f = np.fromfile(os.path.join(d, "x.bin"))
            ctx.trans += f.size
            if not np.array_equal(f, r.ravel()):
                ctx.fail("slice:numpy", f"{case}: {f}, expected {r}")
            r = getattr(SlicesData(algo, fr, out_dir=d), f"get_{case['what']}_data_{ori}")(cs, label_map=lm, to_file="s.nc", **kw)
            with xr.open_dataset(os.path.join(d, "s.nc"), engine="h5netcdf") as f:
                f = f.load()
            for v in ("WS", "TI"):
                n = lm.get(v, v)
                for q, e in zip(cs, ref):
                    ctx.trans += e[n].size
                    if C not in f.dims or f.sizes[C] != len(cs):
                        ctx.fail(f"slices:nc|{c}", f"{case}, {lm}: planes {cs}, the file has {dict(f.sizes)}")
                        break
                    if not close(f[n].sel({C: q}).transpose(*e[n].dims), e[n], n) or not np.array_equal(r[n].sel({C: q}).transpose(*e[n].dims), e[n]):
                        ctx.fail(f"slices:nc|{c}", f"{case}, {lm}, {c}={q}: {f[n].sel({C: q})}, expected {e[n]}")


def k_layout(case, ctx):
    n = case["n"]
    farm = WindFarm(name="farm1")
    xy = np.array([[0.0, 1.5], [460.25, 35.0625], [1.0e6 + 0.12345, -45.0]])[:n]
    for i in range(n):
        farm.add_turbine(Turbine(xy=xy[i], turbine_models=["TA"], name=f"W {i}", H=90.0 + i if case["H"] else None, D=100.0 + i if case["D"] else None), verbosity=0)
    with tmp() as d:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            os.mkdir("out")
            o = FarmLayoutOutput(farm, out_dir=os.path.join(d, "out"))
            ctx.evals += 3
            o.write_csv()
            o.write_json()
            o.write_xyh()
            ctx.trans += 3 * n
            ctx.state(str(case))
            ctx.nt(str(case))
            for f in ("farm1.csv", "farm1.json", "farm1.xyh"):
                if not os.path.isfile(os.path.join("out", f)):
                    ctx.fail(f"layout:missing|{f[6:]}", f"{f} not written to the output folder, but {os.listdir('.')}")
                    return
            f1 = WindFarm()
            add_from_csv(f1, os.path.join(d, "out", "farm1.csv"), col_name="name", col_id="index", col_H="h" if case["H"] else None, col_D="D" if case["D"] else None, turbine_models=["TA"], verbosity=0)
            f2 = WindFarm()
            add_from_json(f2, os.path.join(d, "out", "farm1.json"), turbine_models=["TA"], verbosity=0)
            for nm, g in (("csv", f1), ("json", f2)):
                for i, (a, b) in enumerate(zip(farm.turbines, g.turbines)):
                    same = np.allclose(a.xy, b.xy, rtol=0, atol=5.1e-5) and a.name == b.name and a.index == b.index and (nm == "json" or (a.H == b.H and a.D == b.D))
                    if not same or g.n_turbines != n:
                        ctx.fail(f"layout|{nm}", f"{case}: turbine {i}: {b.xy}, {b.name}, {b.index}, H={b.H}, D={b.D}, written {a.xy}, {a.name}, {a.index}, H={a.H}, D={a.D}")
            if f2.name != "farm1":
                ctx.fail("layout:name", f2.name)
            x = np.atleast_2d(np.loadtxt(os.path.join("out", "farm1.xyh")))
            e = np.concatenate([xy, [[90.0 + i if case["H"] else np.nan] for i in range(n)]], axis=1)
            if x.shape != e.shape or not np.allclose(x, e, equal_nan=True):
                ctx.fail("layout|xyh", f"{x}, expected {e}")
        finally:
            os.chdir(cwd)
