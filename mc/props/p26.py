"""P26 height, space and time dependent states interpolate the given data"""
import itertools, math, os, shutil, tempfile
import numpy as np
import pandas as pd
import xarray as xr
import foxes.variables as FV
import foxes.constants as FC
from foxes.config import config
from foxes.input import states as fst
from mc import worlds as W
from mc.catalog import w

ID = "P26"
LEVEL = "model_checking"
ASSUMPTIONS = ["2 turbines with different hub heights, 13 points (nodes, cell centres, edges, between the heights), at most 4 states and grids up to 4 x 3 x 3; wind directions of the data also cross north",
               "reference: own multi-linear interpolation of the wind vector and of the other variables, written from the statement; rtol 1e-7; points outside of the data have to raise an error unless bounds_error is off"]
OV = [FV.WS, FV.WD, FV.TI, FV.RHO]
XY = [[-900.0, 150.0], [1250.0, -700.0]]
HH = [90.0, 130.0]
CONST = dict(WS=9.5, WD=268.0, TI=0.077, RHO=1.19)
X = np.array([-3000.0, -1000.0, 500.0, 3000.0])
Y = np.array([-2500.0, 250.0, 2500.0])
Z = np.array([30.0, 100.0, 180.0])
N = 4
PTS = [[-3000.0, -2500.0, 30.0], [3000.0, 2500.0, 180.0], [-1000.0, 250.0, 100.0], [500.0, 2500.0, 100.0], [-2000.0, -1125.0, 65.0], [-250.0, 900.0, 140.0], [1700.0, -1000.0, 110.0], [2999.0, -2499.0, 179.0],
       [-1000.0, 700.0, 100.0], [100.0, 250.0, 40.0], [0.0, 0.0, 100.0], [500.0, 250.0, 170.0], [-2900.0, 2400.0, 31.0]]
MODES = ("preload", "lazy", "fly")
DIMS = ("shyx", "shxy", "syx", "sxy", "sh", "s", "mix")
FIX = ((), ("TI",), ("RHO", "TI"), ("WS",), ("WD",), ("WD", "RHO"), ("WS", "WD"))
MHC = ("MultiHeightStates", "MultiHeightTimeseries", "MultiHeightNCStates", "MultiHeightNCTimeseries")
ROLES = ("profile", "solo", "fixed", "attr")


def cases(tier):
    out = [dict(k="field", dims=d, mode=m, fixed=list(f)) for d in DIMS for m in MODES for f in FIX]
    out += [dict(k="source", dims=d, how=h) for d in DIMS for h in ("dataset", "names", "isel", "sel", "format", "weight", "tisel", "tsel", "tlast", "down", "downset")]
    out += [dict(k="reuse", mode=m, extra=e) for m in MODES for e in (300.0, 2500.0, "2D")]
    for c in MHC:
        for ws, wd, ti in itertools.product(ROLES, repeat=3):
            if "NC" not in c and "attr" in (ws, wd, ti) or "profile" not in (ws, wd, ti) and "NC" in c:
                continue
            out.append(dict(k="mh", cls=c, roles=[ws, wd, ti]))
    out += [dict(k="profile", p=p) for p in ("sheared", "neutral", "log", "stable", "unstable", "uniform", "data", "neutral_ustar", "log_ustar", "stable_ustar", "unstable_ustar")]
    out += [dict(k="wrg", ns=n, extra=e) for n in (1, 2, 4, 8, 12) for e in (None, 0.0, 700.0, 1e5)]
    out += [dict(k="opf", wd=a, mh=m, ref=r) for a in (270.0, 225.0, 10.0, 180.0, 121.0) for m in (0, 1) for r in ([0.0, 0.0], [300.0, -200.0])]
    return out


# ---- reference -------------------------------------------------------------

def cell(ax, q):
    """neighbouring nodes and their coefficients"""
    if len(ax) == 1:
        return [(0, 1.0)]
    i = 0
    while i < len(ax) - 2 and q > ax[i + 1]:
        i += 1
    t = (q - ax[i]) / (ax[i + 1] - ax[i])
    return [(i, 1.0 - t), (i + 1, t)]


def near(ax, q):
    return [(min(range(len(ax)), key=lambda i: abs(ax[i] - q)), 1.0)]


def vec(wd, ws):
    a = math.radians(wd)
    return -ws * math.sin(a), -ws * math.cos(a)


def back(u, v):
    return math.hypot(u, v), math.degrees(math.atan2(-u, -v)) % 360.0


def blend(terms):
    """terms: list of (coefficient, values dict) -> interpolated dict"""
    u = v = 0.0
    o = {}
    for c, d in terms:
        a, b = vec(d[FV.WD], d[FV.WS])
        u += c * a
        v += c * b
        for q, x in d.items():
            o[q] = o.get(q, 0.0) + c * x
    o[FV.WS], o[FV.WD] = back(u, v)
    return o


def angle(a, b):
    return np.abs((np.asarray(a) - np.asarray(b) + 180.0) % 360.0 - 180.0)


def same(v, a, b):
    if v in (FV.WD, FV.AMB_WD):
        return np.all(angle(a, b) < 1e-6) and np.all((np.asarray(a) >= 0) & (np.asarray(a) < 360.0 + 1e-9))
    return np.allclose(a, b, rtol=1e-7, atol=1e-12)


ENG = (("single", {}), ("numpy", dict(chunk_size_states=3, chunk_size_points=4)))


def verify(ctx, key, name, mk, ref, n, pts=PTS, weights=None, engs=ENG, xy=XY, hh=HH, algo_kw=None, index=None):
    """mk() -> states; ref(s, x, y, z) -> dict"""
    spec = w(xy=xy, models=["TA"], H=hh, states=None, wakes=["Bastankhah2014_linear_k004"], rotor_model="centre", **(algo_kw or {}))
    want = [[ref(s, *p) for p in pts] for s in range(n)]
    hubs = [[ref(s, p[0], p[1], h) for p, h in zip(xy, hh)] for s in range(n)]
    for eng in engs:
        ctx.evals += 1
        try:
            st = mk()
            ptsn = np.broadcast_to(np.array(pts)[None], (n, len(pts), 3)).copy()
            with W.engine(eng[0], **eng[1]):
                algo = W.build(dict(spec, states=st))
                r = algo.calc_farm()
                p = algo.calc_points(r, ptsn)
                q = algo.calc_points(r, ptsn, ambient=True) if eng[0] == engs[-1][0] else p
        except Exception as e:
            ctx.fail("crash|" + key, f"{name}, engine {eng[0]}: {type(e).__name__}: {e}")
            return
        for v in want[0][0]:
            e = np.array([[d[v] for d in row] for row in want])
            av = v if v.startswith("AMB_") else "AMB_" + v
            for what, ds in (("point", p), ("ambient point", q)):
                if av not in ds:
                    ctx.fail("missing|" + key, f"{name}: no {av} in {what} results")
                    return
                x = ds[av].to_numpy()
                ctx.trans += x.size
                if x.shape != e.shape or not same(v, x, e):
                    k = np.unravel_index(np.nanargmax(np.where(np.isnan(x), 1e9, angle(x, e) if v == FV.WD else abs(x - e))), e.shape) if x.shape == e.shape else None
                    ctx.fail(f"values|{key}", f"{name}, engine {eng[0]}: {what} {av} at {pts[k[1]] if k else x.shape}, state {k and k[0]}: {x[k] if k else None}, interpolation of the data gives {e[k] if k else e.shape}")
                    return
            fv = {FV.WS: FV.AMB_REWS}.get(v, av)
            if fv in r:
                e = np.array([[d[v] for d in row] for row in hubs])
                x = r[fv].to_numpy()
                ctx.trans += x.size
                if x.shape != e.shape or not same(v, x, e):
                    ctx.fail(f"hub|{key}", f"{name}, engine {eng[0]}: turbine {fv} = {x.tolist()}, interpolation of the data gives {e.tolist()}")
                    return
        wt = np.full(n, 1.0 / n) if weights is None else np.asarray(weights)
        x = r[FV.WEIGHT].to_numpy()
        if not np.allclose(x if x.ndim == wt.ndim else x[(slice(None),) + (0,) * (x.ndim - 1)], wt, rtol=1e-9):
            ctx.fail("weights|" + key, f"{name}: weights {x.tolist()}, given {wt.tolist()}")
        if index is not None and list(r[FC.STATE].to_numpy()) != list(index):
            ctx.fail("index|" + key, f"{name}: states {r[FC.STATE].to_numpy()}, given {list(index)}")
        ctx.state((name, eng[0]))
    ctx.nt(name)


# ---- field data ------------------------------------------------------------

def nodes(dims, x=X, y=Y, z=Z, n=N):
    """irregular node values, directions on both sides of north"""
    S, Q, B, A = np.meshgrid(np.arange(n), np.arange(len(z)), np.arange(len(y)), np.arange(len(x)), indexing="ij")
    k = 1.0 * (7 * S + 5 * Q + 3 * B + 11 * A + S * A * B % 5 + Q * A % 3)
    d = dict(WS=6.0 + (k % 13) * 0.45, WD=(340.0 + (k * 7.0) % 53) % 360.0, TI=0.05 + 0.004 * (k % 17), RHO=1.1 + 0.01 * (k % 19))
    have = dict(shyx="shyx", shxy="shyx", syx="syx", sxy="syx", sh="sh", s="s")
    out = {}
    for i, (v, a) in enumerate(d.items()):
        dd = have[dims] if dims != "mix" else ("shyx", "shyx", "sh", "s")[i]
        for ax, c in enumerate("shyx"):
            if c not in dd:
                a = np.take(a, [0], axis=ax)
        out[v] = (dd, a)
    return out


NAMES = dict(s="Time", h="height", y="UTMY", x="UTMX")


def dataset(dims, val, times, x=X, y=Y, z=Z, nm=NAMES, vn=None, weights=None):
    dv, used = {}, set("s")
    for v, (dd, a) in val.items():
        a = a.reshape([len(times)] + [{"h": len(z), "y": len(y), "x": len(x)}[c] for c in dd[1:]])
        if dims in ("shxy", "sxy") and "yx" in dd:
            a, dd = np.swapaxes(a, -1, -2), dd.replace("yx", "xy")
        dv[(vn or {}).get(v, v)] = (tuple(nm[c] for c in dd), a)
        used |= set(dd)
    if weights is not None:
        dv["wgt"] = ((nm["s"],), np.asarray(weights))
    return xr.Dataset(coords={nm[c]: q for c, q in (("s", times), ("h", z), ("y", y), ("x", x)) if c in used}, data_vars=dv)


def field_ref(val, const, method="linear", x=X, y=Y, z=Z):
    f = cell if method == "linear" else near
    used = set("".join(dd for dd, a in val.values()))
    val = {v: q for v, q in val.items() if v not in const}

    def ref(s, px, py, pz):
        cs = [f(ax, q) if c in used else [(0, 1.0)] for c, ax, q in (("h", z, pz), ("y", y, py), ("x", x, px))]
        terms = []
        for (i, a), (j, b), (k, c) in itertools.product(*cs):
            d = {v: q[s, min(i, q.shape[1] - 1), min(j, q.shape[2] - 1), min(k, q.shape[3] - 1)] for v, (dd, q) in val.items()}
            terms.append((a * b * c, dict(d, **const)))
        o = blend(terms)
        o.update(const)
        return o
    return ref


def write(ds, split, tmp, time="Time"):
    i0 = 0
    for k, m in enumerate(split):
        ds.isel({time: slice(i0, i0 + m)}).to_netcdf(os.path.join(tmp, f"d_{k:02d}.nc"), engine="netcdf4")
        i0 += m
    return os.path.join(tmp, "d_*.nc" if len(split) > 1 else "d_00.nc")


def coordkw(val, nm=NAMES):
    used = set("".join(dd for dd, a in val.values()))
    return dict(states_coord=nm["s"], h_coord=nm["h"] if "h" in used else None, x_coord=nm["x"] if "x" in used else None, y_coord=nm["y"] if "y" in used else None)


TIMES = pd.date_range("2020-01-01", periods=N, freq="1h").to_numpy()
EXTRA = dict(bounds_extra_space=2600.0)


def run(case, ctx):
    tmp = tempfile.mkdtemp(dir=W.tmpdir())
    try:
        globals()["k_" + case["k"]](case, ctx, tmp)
    finally:
        shutil.rmtree(tmp)


def k_field(case, ctx, tmp):
    dims, mode, fx = case["dims"], case["mode"], case["fixed"]
    val = nodes(dims)
    const = {v: CONST[v] for v in fx}
    for n, (split, method, keep) in enumerate(itertools.product(((4,), (1, 3), (2, 1, 1)), ("linear", "nearest"), (True, False))):
        if not keep and not fx:
            continue
        turn = DIMS.index(dims) + MODES.index(mode) + FIX.index(tuple(fx))
        if ctx.tier == "quick" and (n + turn) % 6 and (n, turn % 4) != (0, 0):
            continue
        d = os.path.join(tmp, str(n))
        os.makedirs(d)
        src = write(dataset(dims, {v: q for v, q in val.items() if keep or v not in fx}, TIMES), split, d)
        name = f"field data {case}, files with {split} states, {method}, fixed variables {'also' if keep else 'not'} in the files"
        pts = PTS if method == "linear" else [p for p in PTS if all(min(abs(abs(q - a) - abs(q - b)) for a, b in zip(ax[:-1], ax[1:])) > 1.0 for q, ax in zip(p, (X, Y, Z)))]
        kw = {} if method == "linear" else dict(method=method)
        verify(ctx, f"field|{dims}|{mode}|{'+'.join(fx)}", name, lambda: fst.FieldDataNC(src, output_vars=OV, fixed_vars=dict(const), load_mode=mode, time_format=None, **coordkw({v: q for v, q in val.items() if v not in fx}), **EXTRA, **kw),
               field_ref({v: q for v, q in val.items() if v not in fx} or val, const, method), N, pts, index=TIMES,
               engs=ENG if ctx.tier != "quick" or mode == "preload" else ENG[turn % 2:][:1])
    if not fx and dims not in ("sh", "s"):
        src = write(dataset(dims, val, TIMES), (1, 3), tmp)
        for bad in ([-3001.0, 0.0, 100.0], [0.0, 2501.0, 100.0], [0.0, 0.0, 181.0]) if "h" in dims else ([-3001.0, 0.0, 100.0],):
            outside(ctx, f"field data {case} at {bad}", lambda: fst.FieldDataNC(src, output_vars=OV, load_mode=mode, time_format=None, **coordkw(val), **EXTRA), bad, N)


def outside(ctx, name, mk, p, n):
    ctx.evals += 1
    spec = w(xy=XY, models=["TA"], H=HH, states=None, wakes=["Bastankhah2014_linear_k004"])
    with W.engine("single"):
        algo = W.build(dict(spec, states=mk()))
        r = algo.calc_farm()
        try:
            import contextlib, io
            with contextlib.redirect_stdout(io.StringIO()):
                q = algo.calc_points(r, np.broadcast_to(np.array(p), (n, 1, 3)).copy())
        except ValueError:
            ctx.state(name)
            return
    ctx.fail("outside", f"{name}: no error for a point outside of the data, got {q[FV.AMB_WS].to_numpy().tolist()}")


def k_source(case, ctx, tmp):
    dims, how = case["dims"], case["how"]
    val = nodes(dims)
    for mode in MODES:
        times, kw, wt, rows = TIMES, dict(time_format=None), None, list(range(N))
        nm, vn = NAMES, None
        idx = TIMES
        if how == "names":
            nm, vn = dict(s="t", h="lev", y="north", x="east"), dict(WS="speed", WD="from", TI="turb", RHO="dens")
            kw["var2ncvar"] = dict(vn)
        if how == "format":
            times = np.array([pd.Timestamp(t).strftime("%Y-%m-%d_%H:%M:%S") for t in TIMES])
            kw = {}
        if how == "weight":
            wt = np.array([0.4, 0.1, 0.3, 0.2])
            kw["weight_ncvar"] = "wgt"
        if how == "isel":
            kw["isel"] = dict(height=[1]) if "h" in dims or dims == "mix" else dict(UTMX=slice(1, 4)) if "x" in dims else {}
            if not kw["isel"]:
                return
        if how == "sel":
            kw["sel"] = dict(height=slice(90.0, 200.0)) if "h" in dims or dims == "mix" else {}
            if not kw["sel"]:
                return
        x, z = X, Z
        split = (1, 3)
        if how in ("tisel", "tsel", "tlast"):
            # selected states: positions in every file, a range of labels over all files
            split = (2, 2)
            rows = {"tisel": [1, 3], "tsel": [1, 2], "tlast": [0, 2]}[how]
            kw["sel" if how == "tsel" else "isel"] = dict(Time=slice(TIMES[1], TIMES[2])) if how == "tsel" else dict(Time=[1]) if how == "tisel" else dict(Time=slice(0, 1))
            nm = dict(NAMES, s="Time")
            idx = TIMES[rows]
        if how == "isel":
            v2 = {}
            for v, (dd, a) in val.items():
                a = a[:, 1:2] if "height" in kw["isel"] and a.shape[1] > 1 else a
                a = a[..., 1:] if "UTMX" in kw["isel"] and a.shape[3] > 1 else a
                v2[v] = (dd, a)
            z, x = (Z[1:2], X) if "height" in kw["isel"] else (Z, X[1:])
        elif how == "sel":
            v2 = {v: (dd, a[:, 1:] if a.shape[1] > 1 else a) for v, (dd, a) in val.items()}
            z = Z[1:]
        elif len(rows) < N:
            v2 = {v: (dd, a[rows]) for v, (dd, a) in val.items()}
        else:
            v2 = val
        pts = [p for p in PTS if x[0] <= p[0] and (how != "sel" or p[2] >= 100.0) and (how != "isel" or "height" not in kw["isel"] or p[2] == 100.0)]
        hh = HH if how not in ("sel", "isel") else [100.0, 130.0 if how == "sel" else 100.0]
        ds = dataset(dims, val, times, nm=nm, vn=vn, weights=wt)
        if how in ("down", "downset"):
            # coordinates in descending order
            ds = ds.isel({c: slice(None, None, -1) for c in ("height", "UTMY", "UTMX") if c in ds.dims})
        ds0 = ds.copy(deep=True)
        if how in ("dataset", "downset"):
            src = ds
        else:
            d = os.path.join(tmp, mode)
            os.makedirs(d)
            src = write(ds, split, d, nm["s"])
        user = {k: dict(q) for k, q in kw.items() if isinstance(q, dict)}
        args = dict(kw, **{k: q for k, q in user.items()})
        if how in ("dataset", "downset") and mode == "fly":
            continue
        name = f"field data {case}, {mode}"
        verify(ctx, f"source|{how}|{mode}|{dims}", name, lambda: fst.FieldDataNC(src, output_vars=OV, load_mode=mode, **coordkw(val, nm), **EXTRA, **args), field_ref(v2, {}, x=x, z=z), len(rows), pts, weights=wt, hh=hh, index=idx)
        for k, q in user.items():
            if q != kw[k]:
                ctx.fail("mutated", f"{name}: the user's dictionary {k} was changed to {q}")
        if not ds.identical(ds0):
            ctx.fail("mutated", f"{name}: the given data was changed")


def k_reuse(case, ctx, tmp):
    """the same states object for farms at different places"""
    mode, extra = case["mode"], case["extra"]
    x, y = np.arange(-3000.0, 3001.0, 200.0), np.arange(-2500.0, 2501.0, 250.0)
    val = nodes("shyx", x, y)
    src = write(dataset("shyx", val, TIMES, x=x, y=y), (2, 2), tmp)
    ref = field_ref(val, {}, x=x, y=y)
    places = ([[-900.0, 150.0], [-300.0, 180.0]], [[1700.0, -1300.0], [1450.0, -400.0]], [[-900.0, 150.0], [1450.0, -1400.0]])
    e = extra if extra != "2D" else 200.0
    if extra == "2D":
        extra = "2.5D"
        e = 250.0
    for order in itertools.permutations(range(3), 2) if ctx.tier != "quick" else ((0, 1), (2, 0)):
        st = fst.FieldDataNC(src, output_vars=OV, load_mode=mode, time_format=None, bounds_extra_space=extra)
        for k in order + order[:1]:
            xy = places[k]
            lo, hi = np.min(xy, axis=0), np.max(xy, axis=0)
            f = 0.3 if e > 300 else 0.0
            pts = [[lo[0], lo[1], 100.0], [hi[0], hi[1], 90.0], [0.5 * (lo[0] + hi[0]), 0.5 * (lo[1] + hi[1]), 110.0], [lo[0], hi[1], 33.0], [min(hi[0] + f * e, 3000.0), max(lo[1] - f * e, -2500.0), 120.0]]
            verify(ctx, f"reuse|{mode}", f"field data {case} reused, farms in order {order}, farm at {xy}", lambda: st, ref, N, pts, xy=xy, engs=ENG[:1], index=TIMES)


# ---- multi height ----------------------------------------------------------

def k_mh(case, ctx, tmp):
    cls = getattr(fst, case["cls"])
    nc, ts = "NC" in case["cls"], "Timeseries" in case["cls"]
    roles = dict(zip(("WS", "WD", "TI"), case["roles"]), RHO="fixed")
    heights = [20, 62.5, 150]
    k = np.arange(N)[:, None] * 5.0 + np.arange(3)[None] * 3.0 + (np.arange(N)[:, None] * np.arange(3)[None]) % 2
    full = dict(WS=6.0 + 0.4 * k, WD=(340.0 + 11.0 * k) % 360.0, TI=0.05 + 0.003 * k)
    for n, (use, berr, ren, src, wt, order, flip) in enumerate(itertools.product(((0, 1, 2), (0, 2), (1, 2)), (None, False), (0, 1), ("obj", "file"), (0, 1), (0, 1), (0, 1))):
        if ctx.tier == "quick" and (n * 7) % 13 != len(str(case)) % 13:
            continue
        hs = [heights[i] for i in use]
        const = {v: CONST[v] for v, r in roles.items() if r == "fixed"}
        ren_ = {v: f"my_{v}" for v in roles} if ren else {}
        idx = TIMES if (ts or nc) else np.arange(N) * 3
        w8 = np.array([0.4, 0.1, 0.3, 0.2]) if wt else None
        kw = dict(bounds_error=berr) if berr is not None else {}
        out = OV if not order else OV[::-1]
        name = f"{case}, heights {hs}, bounds_error {berr}, renamed {ren}, from {src}, weights {wt}, output order {out}{', heights descending' if flip else ''}"
        if not nc:
            d = {}
            for v, r in roles.items():
                c = f"c{v}" if ren else v
                if r == "profile":
                    for j, h in enumerate(heights):
                        d[f"{c}-{h}"] = full[v][:, j]
                elif r == "solo":
                    d[c] = full[v][:, 1]
            v2c = {v: f"c{v}" for v in roles if ren and roles[v] != "fixed"}
            if wt:
                d["prob"] = w8
                v2c[FV.WEIGHT] = "prob"
            df = pd.DataFrame(d, index=pd.Index(idx, name="Time"))
            s = df
            if src == "file":
                s = os.path.join(tmp, f"m{n}.csv")
                df.to_csv(s)
                if not ts:
                    kw["pd_read_pars"] = dict(index_col=0)
            mk = lambda: cls(s, output_vars=out, heights=list(hs)[::-1 if flip else 1], fixed_vars=dict(const), var2col=dict(v2c), **kw)
        else:
            dv, at = {}, {}
            v2c = dict(ren_)
            for v, r in roles.items():
                c = ren_.get(v, v)
                if r == "profile":
                    dv[c] = (("time", "hgt"), full[v])
                elif r == "solo":
                    dv[c] = (("time",), full[v][:, 1])
                elif r == "attr":
                    at[c] = float(full[v][2, 1])
            if wt:
                dv["prob"] = (("time",), w8)
                v2c[FV.WEIGHT] = "prob"
            ds = xr.Dataset(coords={"time": idx, "hgt": np.array(heights, dtype=float)}, data_vars=dv, attrs=at)
            if flip:
                ds = ds.isel(hgt=slice(None, None, -1))
            s = ds
            if src == "file":
                s = os.path.join(tmp, f"m{n}.nc")
                ds.to_netcdf(s, engine="netcdf4")
            hk = {} if len(hs) == 3 else dict(heights=list(hs)[::-1 if flip and order else 1])
            mk = lambda: cls(s, output_vars=out, fixed_vars=dict(const), var2col=dict(v2c), h_coord="hgt", **({"time_coord": "time"} if ts else {"state_coord": "time"}), **hk, **kw)

        def ref(s, x, y, z):
            z = min(max(z, hs[0]), hs[-1])
            terms = []
            for i, c in cell(hs, z):
                q = {v: full[v][s, use[i]] if r == "profile" else full[v][s, 1] if r == "solo" else full[v][2, 1] if r == "attr" else CONST[v] for v, r in roles.items()}
                terms.append((c, q))
            o = blend(terms)
            if roles["WD"] != "profile":
                # directions do not depend on height: speeds are plain numbers
                o[FV.WS] = sum(c * q[FV.WS] for c, q in terms)
                o[FV.WD] = terms[0][1][FV.WD]
            elif roles["WS"] != "profile":
                o[FV.WS] = terms[0][1][FV.WS]
            return o
        lo = [p for p in PTS if berr is False or hs[0] <= p[2] <= hs[-1]]
        hh = HH
        # a data set with a wind direction profile and no height dependent speed: given numbers win
        verify(ctx, f"mh|{case['cls']}|{'-'.join(case['roles'])}", name, mk, ref, N, lo, weights=w8, hh=hh, engs=ENG if n % 2 else ENG[:1], index=idx)


# ---- profiles --------------------------------------------------------------

def k_profile(case, ctx, tmp):
    p = case["p"]
    n = N
    mols = {"log": [0.0, 250.0, -180.0, np.nan], "stable": [120.0, 700.0, 60.0, 2000.0], "unstable": [-60.0, -400.0, -1500.0, -90.0]}
    ust = p.endswith("_ustar")
    b = p.replace("_ustar", "")
    typ = dict(sheared="ShearedProfile", neutral="ABLLogNeutralWsProfile", log="ABLLogWsProfile", stable="ABLLogStableWsProfile", unstable="ABLLogUnstableWsProfile", uniform="UniformProfile", data="DataProfile")[b]
    K = float(FC.KAPPA)
    for href, z0, how, perm in itertools.product((100.0, 72.0), (0.05, 0.7), ("dict", "object", "str"), range(3)):
        if ctx.tier == "quick" and (href + perm + len(how)) % 3 == 1:
            continue
        d = dict(WS=[6.5, 8.0, 9.25, 10.5], WD=[262.0, 270.0, 281.5, 355.0], TI=[0.05, 0.08, 0.11, 0.06], RHO=[1.15, 1.2, 1.225, 1.25])
        d = {v: list(np.roll(q, perm)) for v, q in d.items()}
        fixed, cols, args = {}, {}, {}
        mol = mols.get(b)
        if b in ("sheared",):
            cols["shear"] = [0.1, 0.2, 0.0, -0.05]
        elif b in ("neutral", "log", "stable", "unstable"):
            cols["z_0"] = [z0, 2 * z0, 0.5 * z0, z0]
            if mol:
                cols["lmo"] = mol
            if ust:
                cols["ust"] = [0.3, 0.5, 0.4, 0.25]
                args["ustar_input"] = True
        elif b == "uniform":
            args["variable"] = FV.WS
        elif b == "data":
            hz, hv = np.array([20.0, 90.0, 200.0]), np.array([5.0, 9.0, 9.5])
            args.update(data_source=pd.DataFrame({"z": hz[::-1], FV.WS: hv[::-1]}), variable=FV.WS, col_z="z")
        if b not in ("uniform", "data") and not ust:
            if perm == 1:
                cols["href"] = [href] * n
            else:
                fixed[FV.H] = href
        v2c = {k: q for k, q in ((FV.SHEAR, "shear"), (FV.Z0, "z_0"), (FV.MOL, "lmo"), (FV.USTAR, "ust"), (FV.H, "href")) if q in cols}
        t = dict(d, **cols)
        drop = ust or b == "data"
        if drop:
            t.pop("WS")
        df = pd.DataFrame(t)
        if how == "str" and args:
            continue
        if how == "object":
            from foxes.core import VerticalProfile
            prof = VerticalProfile.new(typ, **args)
        else:
            prof = typ if how == "str" else dict(type=typ, **args)
        name = f"{case}, reference height {href}, roughness {z0}, given as {how}, {perm}"

        def ref(s, x, y, z):
            o = {v: d[v][s] for v in d}
            u = d["WS"][s]
            m = mol[s] if mol else 0.0
            if b == "sheared":
                o[FV.WS] = u * (z / href) ** cols["shear"][s]
            elif b == "data":
                o[FV.WS] = sum(c * hv[i] for i, c in cell(hz, z))
            elif b in ("neutral", "log", "stable", "unstable"):
                zz = cols["z_0"][s]

                def prf(h):
                    a = math.log(max(h, zz) / zz)
                    if m and m > 0:
                        return a + 5.0 * min(h, m) / m
                    if m and m < 0:
                        q = (1.0 - 16.0 * h / m) ** 0.25
                        return a - (2.0 * math.log((1 + q) / 2) + math.log((1 + q * q) / 2) - 2.0 * math.atan(q) + math.pi / 2)
                    return a
                o[FV.WS] = cols["ust"][s] / K * prf(z) if ust else u * prf(z) / prf(href)
            return o
        key = f"profile|{p}|{how}"
        verify(ctx, key, name, lambda: fst.StatesTable(df, output_vars=OV, var2col=v2c, fixed_vars=dict(fixed), profiles={FV.WS: prof}), ref, n, engs=ENG if perm == 0 else ENG[:1])


# ---- wrg -------------------------------------------------------------------

def k_wrg(case, ctx, tmp):
    ns, extra = case["ns"], case["extra"]
    nx, ny, x0, y0, res = 5, 4, -2400, -2100, 1300
    xs, ys = x0 + res * np.arange(nx), y0 + res * np.arange(ny)
    q = lambda *a: sum((7, 3, 5)[i] * b for i, b in enumerate(a)) % 11
    A = np.array([[[8.0 + 0.1 * q(i, j, s) for s in range(ns)] for j in range(ny)] for i in range(nx)])
    k = np.array([[[2.0 + 0.05 * q(s, i, j) for s in range(ns)] for j in range(ny)] for i in range(nx)])
    f = np.array([[[1.0 + q(j, s, i) for s in range(ns)] for j in range(ny)] for i in range(nx)])
    f = np.floor(1000 * f / f.sum(axis=2, keepdims=True))
    rows = [f"{nx} {ny} {x0} {y0} {res}"]
    for j in range(ny):
        for i in range(nx):
            rows.append(f"GridPoint {xs[i]} {ys[j]} 0 100 8.5 2.0 500 {ns} " + " ".join(f"{int(f[i, j, s])} {int(round(A[i, j, s] * 10))} {int(round(k[i, j, s] * 100))}" for s in range(ns)))
    fn = os.path.join(tmp, "x.wrg")
    open(fn, "w").write("\n".join(rows) + "\n")
    wds = [s * 360.0 / ns for s in range(ns)]
    for bins in ([0.0, 6.0, 9.0, 15.0], [3.0, 3.5, 4.0], list(np.arange(0.0, 31.0, 0.5))):
        mid = [0.5 * (a + b) for a, b in zip(bins[:-1], bins[1:])]
        dw = [b - a for a, b in zip(bins[:-1], bins[1:])]
        st = [(mid[a], wds[s], dw[a], s) for a in range(len(mid)) for s in range(ns)]
        if len(st) > 60 and ctx.tier == "quick":
            continue
        xy = [[-900.0, 150.0], [1250.0, -700.0], [-1100.0, -800.0]]

        def wgt(s, x, y):
            u, wd, d, sec = st[s]
            a_ = k_ = f_ = 0.0
            for (i, a), (j, b) in itertools.product(cell(xs, x), cell(ys, y)):
                a_ += a * b * A[i, j, sec]
                k_ += a * b * k[i, j, sec]
                f_ += a * b * f[i, j, sec]
            return f_ / 1000.0 * d * k_ / a_ * (u / a_) ** (k_ - 1) * math.exp(-(u / a_) ** k_)

        want = np.array([[wgt(s, *p) for p in xy] for s in range(len(st))])
        name = f"{case}, speed bins {bins[:4]}"
        kw = dict(bounds_extra_space=extra)
        ref = lambda s, x, y, z: {FV.WS: st[s][0], FV.WD: st[s][1], FV.TI: 0.08, FV.RHO: 1.225}
        ins = [[p[0], p[1], h] for p, h in zip(xy, (90.0, 50.0, 130.0))]
        mk = lambda: fst.WRGStates(fn, ws_bins=np.array(bins), fixed_vars={FV.TI: 0.08, FV.RHO: 1.225}, **kw)
        verify(ctx, f"wrg|{extra}", name, mk, ref, len(st), ins, weights=want, xy=xy, hh=[90.0, 90.0, 130.0])
        # the weights sum up to the given sector frequencies
        if len(bins) > 20:
            tot = want.sum(axis=0)
            if not np.all((tot > 0.9) & (tot < 1.01)):
                ctx.fail("wrg:reference", f"{name}: {tot}")


# ---- one point flow --------------------------------------------------------

def k_opf(case, ctx, tmp):
    """constant wind: what the reference point saw travels with the wind"""
    wd, mh, ref = case["wd"], case["mh"], case["ref"]
    n = 6
    ws, dt = 8.0, 60.0
    idx = pd.date_range("2021-05-01", periods=n, freq="1min")
    ti = np.array([0.05, 0.11, 0.07, 0.15, 0.06, 0.09])
    rho = np.array([1.1, 1.25, 1.15, 1.2, 1.3, 1.22])
    hs = [40, 160]
    d = {}
    if mh:
        for h in hs:
            d.update({f"WS-{h}": ws, f"WD-{h}": wd, f"TI-{h}": ti + 0.0002 * h, "RHO": rho})
    else:
        d = dict(WS=ws, WD=wd, TI=ti, RHO=rho)
    df = pd.DataFrame(d, index=idx)
    df.index.name = "Time"
    a = math.radians(wd)
    nx, ny = -math.sin(a), -math.cos(a)
    pts = []
    for lag, side in itertools.product((0.0, 1.0, 2.0, 0.5, 1.75, 7.0, -0.25, -1.0, -2.5, -9.0), (0.0, -300.0)):
        L = lag * ws * dt
        pts.append([ref[0] + L * nx - side * ny, ref[1] + L * ny + side * nx, 100.0 if mh else 90.0])

    def at(t, arr):
        t = min(max(t, 0.0), n - 1.0)
        i = min(int(t), n - 2)
        return arr[i] + (t - i) * (arr[i + 1] - arr[i])

    def rf(s, x, y, z):
        lag = ((x - ref[0]) * nx + (y - ref[1]) * ny) / (ws * dt)
        return {FV.WS: ws, FV.WD: wd, FV.TI: at(s - lag, ti + (0.0002 * z if mh else 0.0)), FV.RHO: at(s - lag, rho)}
    xy = [[-420.0, 150.0], [250.0, -100.0]]
    for ov in (OV, [FV.TI, FV.RHO, FV.WS, FV.WD], [FV.RHO, FV.WD, FV.TI, FV.WS]):
        kw = dict(output_vars=list(ov))
        if mh:
            mk = lambda: fst.OnePointFlowMultiHeightTimeseries(list(ref), data_source=df, heights=list(hs), **kw)
        else:
            mk = lambda: fst.OnePointFlowTimeseries(list(ref) + [90.0], data_source=df, **kw)
        verify(ctx, f"opf|{wd}|{mh}", f"{case}, output {ov}", mk, rf, n, pts, xy=xy, hh=[90.0, 130.0] if mh else [90.0, 90.0], index=idx.to_numpy())
