"""Builders: small closed worlds over the real foxes code.

A world is a JSON-able spec; build(spec) always creates everything afresh
(model book, farm, states, algorithm), so that executions share nothing.
"""
import os, sys, copy, contextlib
import numpy as np
import pandas as pd

import foxes
import foxes.variables as FV
import foxes.constants as FC
from foxes.core import Engine, Turbine, WindFarm, get_engine, has_engine, reset_engine
from foxes.models import ModelBook
from foxes.models.turbine_types import PCtFile, NullType
import foxes.models.turbine_models as tm
from foxes.algorithms import Downwind, Iterative, Sequential
from foxes.input import states as fst

R_TOL = 1e-9

# ---- turbine types -------------------------------------------------------

WS_GRID = np.array([0.0, 3.0, 4.0, 6.0, 8.0, 10.0, 12.0, 14.0, 25.0])


def curve(kind="A"):
    if kind == "A":
        P = np.array([0, 0, 100.0, 500.0, 1300.0, 2500.0, 4100.0, 5000.0, 5000.0])
        ct = np.array([0, 0, 0.82, 0.80, 0.78, 0.74, 0.6, 0.4, 0.1])
    else:
        P = np.array([0, 0, 60.0, 350.0, 900.0, 1700.0, 2600.0, 3000.0, 3000.0])
        ct = np.array([0, 0, 0.72, 0.70, 0.66, 0.60, 0.5, 0.3, 0.08])
    return pd.DataFrame({"ws": WS_GRID, "P": P, "ct": ct})


def ttype(kind="A", **kw):
    d = dict(D=100.0, H=90.0) if kind == "A" else dict(D=70.0, H=70.0)
    d.update(kw)
    return PCtFile(curve(kind), **d)


class Null(NullType):
    """passive turbine: no power, no thrust"""


def mbook(spec=None):
    mb = ModelBook()
    mb.turbine_types["TA"] = ttype("A", P_nominal=5000.0)
    mb.turbine_types["TB"] = ttype("B", P_nominal=3000.0)
    mb.turbine_types["TArho"] = ttype("A", P_nominal=5000.0, rho=1.225)
    mb.turbine_types["TN"] = NullType(D=100.0, H=90.0)
    for name, d in ((spec or {}).get("tmodels") or {}).items():
        mb.turbine_models[name] = make_tmodel(d)
    return mb


def make_tmodel(d):
    d = copy.deepcopy(d)
    cls = d.pop("cls")
    v = d.pop("vars", None)
    for k, x in list(d.items()):
        if isinstance(x, dict) and "__df__" in x:
            d[k] = pd.DataFrame(x["__df__"])
        if isinstance(x, dict) and "__table__" in x:
            t = x["__table__"]
            d[k] = pd.DataFrame(t["data"], index=t["rows"], columns=t["cols"])
    m = getattr(tm, cls)(**d)
    if v is not None:
        for name, data in v.items():
            m.add_var(name, np.array([[np.nan if q is None else q for q in row] for row in data], dtype=float)
                      if isinstance(data, list) else data)
    return m


# ---- farm / states --------------------------------------------------------

def farm(spec):
    f = WindFarm(name="f")
    n = len(spec["xy"])
    models = spec.get("models", ["TA"])
    if models and isinstance(models[0], str):
        models = [models] * n
    sels = spec.get("msel") or [None] * n
    for i, p in enumerate(spec["xy"]):
        kw = {}
        if spec.get("H"):
            kw["H"] = spec["H"][i]
        if spec.get("D"):
            kw["D"] = spec["D"][i]
        if sels[i] is not None:
            kw["models_state_sel"] = [None if s is None else np.array(s, dtype=bool) for s in sels[i]]
        xy = np.array(p, dtype=float)
        if spec.get("moving"):
            ns = len(spec["states"]["ws"])
            xy = xy[None, :] + np.array(spec.get("pick", range(ns)))[:, None] * np.array(spec["moving"][i])[None, :]
        f.add_turbine(Turbine(xy=xy, turbine_models=list(models[i]),
                              name=(spec.get("names") or [f"T{j}" for j in range(n)])[i], **kw), verbosity=0)
    return f


def wdmap(s, wd):
    """wind direction of the rotated or mirrored world, s["wdmap"] = (sign, offset)"""
    if s.get("wdmap") is None:
        return wd
    a, b = s["wdmap"]
    return [float((a * q + b) % 360.0) for q in wd]


def sframe(s):
    n = len(s["ws"])
    d = {"ws": s["ws"], "wd": wdmap(s, s["wd"]), "ti": s.get("ti", [0.08] * n), "rho": s.get("rho", [1.225] * n)}
    if "w" in s:
        d["weight"] = s["w"]
    if s.get("kind", "table") == "timeseries":
        idx = pd.date_range("2020-01-01", periods=n, freq=s.get("freq", "10min"))
    else:
        idx = pd.RangeIndex(n)
    df = pd.DataFrame(d, index=idx)
    df.index.name = "Time" if s.get("kind") == "timeseries" else "state"
    return df


def states(s):
    kind = s.get("kind", "table")
    prof = s.get("profiles")
    if kind in ("table", "timeseries"):
        df = sframe(s)
        kw = dict(output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO],
                  var2col={FV.WS: "ws", FV.WD: "wd", FV.TI: "ti", FV.RHO: "rho"})
        if "w" in s:
            kw["var2col"][FV.WEIGHT] = "weight"
        if prof:
            kw["profiles"] = copy.deepcopy(prof)
            kw["output_vars"] = list(kw["output_vars"])
        if s.get("fixed"):
            kw["fixed_vars"] = dict(s["fixed"])
        if kind == "timeseries":
            kw.pop("var2col").pop(FV.WEIGHT, None)
            return fst.Timeseries(df, var2col={FV.WS: "ws", FV.WD: "wd", FV.TI: "ti", FV.RHO: "rho"},
                                  **{k: v for k, v in kw.items()})
        return fst.StatesTable(df, **kw)
    if kind == "scan":
        return fst.ScanStates({FV.WS: s["ws"], FV.WD: wdmap(s, s["wd"]), FV.TI: s.get("ti", [0.08]), FV.RHO: s.get("rho", [1.225])})
    if kind == "single":
        kw = dict(ws=s["ws"][0], wd=wdmap(s, s["wd"])[0], ti=s.get("ti", [0.08])[0], rho=s.get("rho", [1.225])[0])
        if prof:
            kw["profiles"] = copy.deepcopy(prof)
        return fst.SingleStateStates(**kw)
    raise KeyError(kind)


def make_frame(d):
    import foxes.models.wake_frames as wf
    d = dict(d)
    if isinstance(d.get("base_frame"), dict):
        d["base_frame"] = make_frame(d["base_frame"])
    return getattr(wf, d.pop("cls"))(**d)


ALGOS = dict(Downwind=Downwind, Iterative=Iterative, Sequential=Sequential)


def build(spec, **over):
    spec = dict(spec, **over)
    mb = spec["mbook"] if "mbook" in spec else mbook(spec)
    st = spec["states"]
    st = states(st) if isinstance(st, dict) else st
    kw = {}
    for k in ("rotor_model", "wake_frame", "partial_wakes", "ground_models", "farm_controller"):
        if spec.get(k) is not None:
            kw[k] = copy.deepcopy(spec[k])
            if isinstance(kw[k], dict) and "cls" in kw[k]:
                mb.wake_frames["wf"] = make_frame(kw[k])
                kw[k] = "wf"
    kw.update(spec.get("algo_kw") or {})
    cls = ALGOS[spec.get("algo", "Downwind")]
    a = cls(spec.get("farm_obj") or farm(spec), st, wake_models=list(spec.get("wakes", ["Jensen_linear_k007"])), mbook=mb, verbosity=0, **kw)
    for ep, v in (spec.get("urelax") or {}).items():
        a.set_urelax(ep, **v)
    return a


@contextlib.contextmanager
def engine(name="single", **kw):
    e = Engine.new(name, verbosity=0, **kw)
    if name in ("dask", "xarray"):
        import dask
        with dask.config.set(scheduler="threads"), e:
            yield e
        return
    with e:
        yield e


def has():
    return has_engine()


def run_farm(spec, eng=("single", {}), calc=None, **over):
    with engine(eng[0], **eng[1]):
        algo = build(spec, **over)
        r = algo.calc_farm(**(calc or {}))
    return r


def run_both(spec, points, eng=("single", {}), calc=None, pcalc=None, **over):
    with engine(eng[0], **eng[1]):
        algo = build(spec, **over)
        r = algo.calc_farm(**(calc or {}))
        p = algo.calc_points(r, np.array(points, dtype=float), **(pcalc or {}))
    return r, p


# ---- observations ---------------------------------------------------------

def obs(ds, skip=()):
    """Dataset -> dict of plain arrays (data variables and coordinates)"""
    out = {}
    for v in list(ds.data_vars) + list(ds.coords):
        if v in skip:
            continue
        out[str(v)] = (tuple(ds[v].dims), ds[v].to_numpy())
    return out


def _expand(d, x, dims, sizes):
    for k, q in enumerate(dims):
        if q not in d:
            x = np.expand_dims(x, k)
            d = d[:k] + (q,) + d[k:]
    return d, np.broadcast_to(x, [sizes[q] for q in dims]) if d == dims else x


def diff(a, b, rtol=R_TOL, atol=1e-9, only=None, skip=(), bcast=False):
    """first difference between two observations, or None

    bcast: a variable that is uniform along a dimension may be reported without it
    """
    ka, kb = set(a), set(b)
    if only is not None:
        ka &= set(only)
        kb &= set(only)
    ka -= set(skip)
    kb -= set(skip)
    if ka != kb:
        return "variables", f"variables differ: only first {sorted(ka - kb)}, only second {sorted(kb - ka)}"
    for v in sorted(ka):
        (da, xa), (db, xb) = a[v], b[v]
        if bcast and da != db:
            if set(da) < set(db):
                da, xa = _expand(da, xa, db, dict(zip(db, xb.shape)))
            elif set(db) < set(da):
                db, xb = _expand(db, xb, da, dict(zip(da, xa.shape)))
        if da != db:
            return v, f"{v}: dims {da} vs {db}"
        if xa.shape != xb.shape:
            return v, f"{v}: shape {xa.shape} vs {xb.shape}"
        if xa.dtype.kind in "fc":
            if xb.dtype.kind not in "fciu":
                return v, f"{v}: dtype {xa.dtype} vs {xb.dtype}"
            ok = np.isclose(xa, xb, rtol=rtol, atol=atol, equal_nan=True)
        else:
            ok = xa == xb
        if not np.all(ok):
            i = tuple(int(q) for q in np.argwhere(~np.atleast_1d(ok))[0])
            return v, f"{v}{list(i)}: {np.atleast_1d(xa)[i]!r} vs {np.atleast_1d(xb)[i]!r}"
    return None


def digest(a):
    import hashlib
    h = hashlib.blake2b(digest_size=8)
    for v in sorted(a):
        d, x = a[v]
        h.update(v.encode())
        h.update(str(d).encode())
        h.update(np.round(x, 7).tobytes() if x.dtype.kind == "f" else str(x.tolist()).encode())
    return h.hexdigest()


# ---- more kinds of states (files only inside the run's scratch directory) --

def tmpdir():
    d = os.environ.get("MC_TMP")
    if not d or not os.path.isdir(d):
        import tempfile
        d = os.environ["MC_TMP"] = tempfile.mkdtemp(prefix="mc.")
    p = os.path.join(d, f"w{os.getpid()}")
    os.makedirs(p, exist_ok=True)
    return p


def field_dataset(n=4, dims="shyx", nx=3, ny=3, nh=2, hs=(50.0, 150.0), x0=-2000.0, y0=-2000.0, dx=2500.0, dy=2500.0,
                  time=True, weight=False, order="yx", i0=0, shift=(0.0, 0.0), mirror=False):
    """small deterministic field data"""
    import xarray as xr
    x = x0 + dx * np.arange(nx)
    y = y0 + dy * np.arange(ny)
    if mirror:
        y = -y[::-1]
    h = np.asarray(hs, dtype=float)
    t = pd.date_range("2020-01-01", periods=n + i0, freq="1h")[i0:]
    s = np.arange(n) + i0
    S, Hh, Y, X = np.meshgrid(s, h, y, x, indexing="ij")
    # the same field, moved or mirrored at y = 0
    if mirror:
        Y = -Y
    xo, yo = x, y
    ws = 8.0 + 0.5 * S + 0.004 * Hh + 1e-4 * X - 2e-4 * Y
    wd = np.mod(265.0 + 7.0 * S + 1e-3 * X + 2e-3 * Y + 0.02 * Hh, 360.0)
    if mirror:
        wd = np.mod(180.0 - wd, 360.0)
    ti = 0.06 + 0.01 * S + 1e-6 * X
    rho = 1.225 - 0.01 * S
    x, y = xo + shift[0], yo + shift[1]
    out = {}
    dd = ("Time", "height", "UTMY", "UTMX")
    if dims == "shyx":
        for v, d in (("WS", ws), ("WD", wd), ("TI", ti), ("RHO", rho)):
            out[v] = (dd, d)
    elif dims == "syx":
        for v, d in (("WS", ws), ("WD", wd), ("TI", ti), ("RHO", rho)):
            out[v] = (("Time", "UTMY", "UTMX"), d[:, 0])
    elif dims == "mix":
        out["WS"] = (dd, ws)
        out["WD"] = (dd, wd)
        out["TI"] = (("Time", "height"), ti[:, :, 0, 0])
        out["RHO"] = (("Time",), rho[:, 0, 0, 0])
    elif dims == "shxy":
        for v, d in (("WS", ws), ("WD", wd), ("TI", ti), ("RHO", rho)):
            out[v] = (("Time", "height", "UTMX", "UTMY"), np.swapaxes(d, 2, 3))
    elif dims == "sh":
        for v, d in (("WS", ws), ("WD", wd), ("TI", ti), ("RHO", rho)):
            out[v] = (("Time", "height"), d[:, :, 0, 0])
    elif dims == "s":
        for v, d in (("WS", ws), ("WD", wd), ("TI", ti), ("RHO", rho)):
            out[v] = (("Time",), d[:, 0, 0, 0])
    if weight:
        w = 1.0 + np.arange(n)
        out["weight"] = (("Time",), w / w.sum())
    coords = {"Time": t if time else s}
    used = {q for v in out.values() for q in v[0]}
    if "height" in used:
        coords["height"] = h
    if "UTMY" in used:
        coords["UTMY"] = y
    if "UTMX" in used:
        coords["UTMX"] = x
    return xr.Dataset(coords=coords, data_vars=out)


def field_states(s):
    import xarray as xr
    n = s.get("n", 4)
    mode = s.get("load_mode", "preload")
    files = s.get("files", [n])
    d = os.path.join(tmpdir(), f"field_{abs(hash(str(sorted(s.items(), key=str)))) % 10**8}")
    os.makedirs(d, exist_ok=True)
    i0 = 0
    for k, m in enumerate(files):
        ds = field_dataset(m, dims=s.get("dims", "shyx"), time=True, weight=s.get("weight", False), i0=i0,
                           **s.get("grid", {}))
        if s.get("pick") is not None:
            q = [b - i0 for b in s["pick"]]
            t = ds["Time"].to_numpy()
            ds = ds.isel(Time=q)
            ds["Time"] = t[0] + (t[-1] - t[0]) * np.arange(len(q))
        f = os.path.join(d, f"d_{k:02d}.nc")
        if not os.path.exists(f):
            ds.to_netcdf(f + ".tmp", engine="netcdf4")
            os.replace(f + ".tmp", f)
        i0 += m
    used = s.get("dims", "shyx")
    kw = dict(x_coord=None, y_coord=None) if used in ("sh", "s") else {}
    if used in ("syx", "s"):
        kw["h_coord"] = None
    return fst.FieldDataNC(os.path.join(d, "d_*.nc"), output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO],
                           load_mode=mode, time_format=None, weight_ncvar="weight" if s.get("weight") else None,
                           bounds_extra_space=s.get("extra", 6000.0), **{**kw, **s.get("kw", {})})


def mh_frame(n=4, heights=(40, 100, 160), weight=False, time=True, sm=None):
    d = {}
    for j, h in enumerate(heights):
        d[f"WS-{h}"] = 7.0 + 0.7 * np.arange(n) + 0.01 * h
        d[f"WD-{h}"] = wdmap(sm or {}, np.mod(268.0 + 9.0 * np.arange(n) + (sm or {}).get("veer", 0.05) * h, 360))
        d[f"TI-{h}"] = 0.09 + 0.005 * np.arange(n) - 0.0002 * h
    d["RHO"] = 1.2 + 0.01 * np.arange(n)
    if weight:
        w = 1.0 + np.arange(n)
        d["weight"] = w / w.sum()
    idx = pd.date_range("2020-01-01", periods=n, freq="10min") if time else pd.RangeIndex(n)
    df = pd.DataFrame(d, index=idx)
    df.index.name = "Time"
    if (sm or {}).get("pick") is not None:
        q = sm["pick"]
        df = pd.DataFrame(df.to_numpy()[q], columns=df.columns, index=pd.date_range("2020-01-01", periods=len(q), freq="10min") if time else pd.RangeIndex(len(q)))
        df.index.name = "Time"
    return df


def mh_states(s):
    hs = s.get("heights", [40, 100, 160])
    df = mh_frame(s.get("n", 4), hs, s.get("weight", False), s.get("time", True), s)
    cls = fst.MultiHeightTimeseries if s.get("time", True) else fst.MultiHeightStates
    return cls(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], heights=hs, **s.get("kw", {}))


def mhnc_states(s):
    import xarray as xr
    n = s.get("n", 4)
    hs = np.array(s.get("heights", [40, 100, 160]), dtype=float)
    df = mh_frame(n, [int(h) for h in hs], s.get("weight", False), True, s)
    dv = {v: (("Time", "height"), np.stack([df[f"{v}-{int(h)}"].to_numpy() for h in hs], axis=1)) for v in ("WS", "WD", "TI")}
    dv["RHO"] = (("Time",), df["RHO"].to_numpy())
    if s.get("weight"):
        dv["weight"] = (("Time",), df["weight"].to_numpy())
    ds = xr.Dataset(coords={"Time": df.index.to_numpy(), "height": hs}, data_vars=dv)
    return fst.MultiHeightNCTimeseries(ds, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], time_coord="Time", h_coord="height",
                                       **s.get("kw", {}))


def opf_states(s):
    base = sframe(dict(s, kind="timeseries")) if not s.get("mh") else None
    return fst.OnePointFlowTimeseries(s.get("ref_xy", [0.0, 0.0]), data_source=base, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO],
                                      var2col={FV.WS: "ws", FV.WD: "wd", FV.TI: "ti", FV.RHO: "rho"}) \
        if not s.get("mh") else fst.OnePointFlowMultiHeightTimeseries(
            s.get("ref_xy", [0.0, 0.0]), data_source=mh_frame(s.get("n", 4), sm=s), output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], heights=[40, 100, 160])


def wrg_states(s):
    """a tiny two-sector-pair WRG file"""
    nx, ny, ns, res = 3, 3, s.get("ns", 4), 3000
    f = os.path.join(tmpdir(), f"t{ns}.wrg")
    if not os.path.exists(f):
        rows = [f"{nx} {ny} -3000 -3000 {res}"]
        for j in range(ny):
            for i in range(nx):
                x, y = -3000 + i * res, -3000 + j * res
                sec = []
                for q in range(ns):
                    fr = (1.0 + q) / sum(1.0 + np.arange(ns))
                    A = 8.0 + 0.5 * q + 0.2 * i + 0.1 * j
                    k = 2.0 + 0.1 * q
                    sec.append(f"{int(round(fr * 1000)):d} {int(round(A * 10)):d} {int(round(k * 100)):d}")
                rows.append(f"GridPoint {x} {y} 0 100 8.5 2.0 500 {ns} " + " ".join(sec))
        open(f, "w").write("\n".join(rows) + "\n")
    return fst.WRGStates(f, ws_bins=np.array(s.get("bins", [4.0, 8.0, 12.0])), fixed_vars={FV.TI: 0.08, FV.RHO: 1.225},
                         bounds_extra_space=None)


def tab_states(s):
    import xarray as xr
    n_ws, n_wd = s.get("nws", 3), s.get("nwd", 4)
    ws = 4.0 * (1 + np.arange(n_ws))
    wd = 360.0 / n_wd * np.arange(n_wd)
    f = (1.0 + np.arange(n_wd))
    f = f / f.sum() * 100
    wf = np.array([[1.0 + i + 2 * j for j in range(n_wd)] for i in range(n_ws)])
    if s.get("zero"):
        wf[0, 0] = 0.0
    wf = wf / wf.sum(axis=0)[None] * 1000.0
    ds = xr.Dataset(coords={"ws": ws, "wd": wd}, data_vars={"wd_freq": (("wd",), f), "ws_freq": (("ws", "wd"), wf)},
                    attrs=dict(factor_ws=s.get("a", 1.0), shift_wd=0.0))
    return fst.TabStates(ds, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], fixed_vars={FV.TI: 0.07, FV.RHO: 1.225})


_states_basic = states


def states(s):
    kind = s.get("kind", "table")
    return dict(field=field_states, multiheight=mh_states, multiheightnc=mhnc_states, opf=opf_states, wrg=wrg_states,
                tab=tab_states).get(kind, _states_basic)(s)


# ---- turbine permutations -------------------------------------------------

def permute_spec(spec, p):
    """the same farm with turbine k of the new farm = turbine p[k] of the old one"""
    s = copy.deepcopy(spec)
    n = len(s["xy"])
    s["names"] = [(spec.get("names") or [f"T{j}" for j in range(n)])[i] for i in p]
    for k in ("xy", "H", "D", "msel", "moving"):
        if s.get(k):
            s[k] = [spec[k][i] for i in p]
    m = spec.get("models", ["TA"])
    if m and isinstance(m[0], str):
        m = [m] * n
    s["models"] = [m[i] for i in p]
    for name, d in (s.get("tmodels") or {}).items():
        q = (d.get("data_source") or {}).get("__df__", {})
        if "tname" in q:
            keep = [i for i, t in enumerate(q["tname"]) if t in s["names"]]
            for col in q:
                q[col] = [q[col][i] for i in keep]
        v = d.get("vars")
        if v:
            for var, rows in v.items():
                if isinstance(rows, list) and len(rows[0]) == n:
                    v[var] = [[row[i] for i in p] for row in rows]
    return s


def permute_obs(o, p):
    """reorder the turbine axis of an observation, new[k] = old[p[k]]"""
    out = {}
    for v, (d, x) in o.items():
        if "turbine" in d:
            x = np.take(x, list(p), axis=d.index("turbine"))
        out[v] = (d, x)
    return out


# ---- subsets and orders of states ------------------------------------------

def pick_states(spec, idx):
    """the same world with the given states only, in the given order; None if not supported"""
    s = copy.deepcopy(spec)
    st = s["states"]
    n = len(st["ws"]) if "ws" in st else st.get("n", 4)
    k = st.get("kind", "table")
    if k in ("table", "timeseries"):
        for v in ("ws", "wd", "ti", "rho", "w"):
            if v in st:
                st[v] = [st[v][i] for i in idx]
    elif k in ("multiheight", "multiheightnc"):
        st["pick"] = list(idx)
        st["n"] = n
    elif k == "field" and len(st.get("files", [1])) == 1:
        st["pick"] = list(idx)
    else:
        return None
    if s.get("moving"):
        s["pick"] = list(idx)
    for d in (s.get("tmodels") or {}).values():
        v = d.get("vars")
        if v:
            for var, rows in v.items():
                if isinstance(rows, list) and len(rows) == n:
                    v[var] = [rows[i] for i in idx]
    if s.get("msel"):
        s["msel"] = [None if m is None else [None if q is None else [q[i] for i in idx] for q in m] for m in s["msel"]]
    return s
