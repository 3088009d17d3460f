"""P33 figures draw the numbers they stand for"""
import itertools, math
import numpy as np
import pandas as pd
import xarray as xr
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.animation import ArtistAnimation
import foxes.variables as FV
import foxes.constants as FC
from foxes.core import Turbine, WindFarm, get_engine
from foxes.output import RosePlotOutput, WindRoseBinPlot, FarmLayoutOutput, StateTurbineMap, TurbineTypeCurves, RotorPointPlot, FarmResultsEval, FlowPlots2D, Animator, SeqFlowAnimationPlugin
from foxes.utils import geom2d as G
from mc import worlds as W
from mc.catalog import w

ID = "P33"
LEVEL = "model_checking"
ASSUMPTIONS = ["artists are read back from the matplotlib axes (bars, cells, points, arrows, lines, labels), nothing is rendered; contour plots are checked by their extremes",
               "reference: own counting per sector and bin, own curve interpolation, point calculations at single points; small farms of 1 to 3 turbines, 1 to 16 sectors, 1 to 5 bins"]
CUR = {"TA": W.curve("A"), "TB": W.curve("B")}
PNOM = {"TA": 5000.0, "TB": 3000.0}
TAB = dict(kind="table", ws=[8.0, 9.5, 10.5, 6.0, 7.2], wd=[270.0, 93.0, 10.0, 181.0, 265.0], ti=[0.06, 0.1, 0.08, 0.12, 0.07], rho=[1.2, 1.225, 1.25, 1.18, 1.2], w=[0.1, 0.2, 0.3, 0.25, 0.15])
FARM = dict(xy=[[0.0, 0.0], [460.0, 35.0], [930.0, -145.0]], H=[90.0, 110.0, 75.0], D=[80.0, 120.0, 100.0], states=TAB)


def cases(tier):
    out = []
    full = tier != "quick"
    for n in range(1, 17) if full else (1, 2, 3, 4, 5, 8, 12, 16):
        out += [dict(k="rose", n=n, what=x, inf=i) for x in ("farm", "farmw", "points") for i in (False, True)]
        out += [dict(k="bins", n=n, con=c, ax=a) for c in ("weights", "mean_no_weights", "sum_no_weights") for a in (False, True)]
    for res, norm in itertools.product((None, 0, 2), (None, "D", "own")):
        out += [dict(k="layout", res=res, norm=norm, col=c, ann=a) for c in (None, "mean_P", "sum_P", "min_REWS", "max_AMB_TI") for a in (0, 1, 2)]
    out += [dict(k="map", v=v, ns=ns, idx=i) for v in ("P", "REWS") for ns in (2, 3, 5) for i in ("int", "off", "time")]
    out += [dict(k="curves", t=t, vs=vs, pm=p, axs=a, step=s) for t in CUR for vs in (("P",), ("CT",), ("P", "CT"), ("CT", "P", "REWS")) for p in (None, 0.8, 0.35) for a in ("none", "list", "array", "tuple") for s in (0.25, 1.0)]
    out += [dict(k="rotor", m=m) for m in ("centre", "grid4", "grid9", "grid16_raw", "grid25", "level1", "level3_raw", "level5", "level10")]
    for ori in ("xy", "xz", "yz"):
        for sel in (None, "isel", "sel"):
            for xd in (270.0,) if ori == "xy" else (270.0, 180.0, 33.0):
                out += [dict(k="flow", ori=ori, sel=sel, xd=xd, var=v, yaw=y, lev=l, q=q) for v in ("WS", "TI", "WD") for y in (False, True) for l, q in ((None, None), (None, 1), (None, 2), (7, None))]
        out += [dict(k="mean", ori=ori, xd=xd, var=v, lim=l, q=q) for xd in ((270.0,) if ori == "xy" else (270.0, 33.0)) for v in ("WS", "TI") for l in (False, True) for q in (None, 2)]
        out += [dict(k="seq", ori=ori, title=t, rot=r, lim=l) for t in (None, "fixed", "call") for r in (False, True) for l in (False, True)]
        out += [dict(k="anim", ori=ori, ts=ts) for ts in ([0], [2, 0], [0, 1, 2])]
    return out


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b))))


def run(case, ctx):
    try:
        globals()["k_" + case["k"]](case, ctx)
    finally:
        plt.close("all")


# ---- roses -----------------------------------------------------------

def wind(n, ns=24):
    """wind directions on, next to and between the sector borders"""
    d = 360.0 / n
    wd = []
    for i in range(n):
        wd += [i * d, i * d + 0.49 * d, i * d - 0.49 * d, i * d + 0.2 * d]
    wd = np.mod(np.array(wd), 360.0)
    ns = len(wd)
    ws = np.array([3.0, 5.0, 8.0, 12.5, 19.0, 7.99, 27.0])[np.arange(ns) * 3 % 7]
    wt = (1.0 + np.arange(ns) % 5)
    return wd, ws, wt / wt.sum()


def rose_results(n, what):
    wd, ws, wt = wind(n)
    ns = len(wd)
    # the second column is the first one in reverse order, so that a wrong one is noticed
    two = lambda a: np.stack([a, a[::-1]], axis=1)
    dim = FC.POINT if what == "points" else FC.TURBINE
    P = two(np.arange(ns) * 3.0 + 1)
    wts = two(wt) if what == "farmw" else wt
    if what == "farmw":
        wts = wts.copy()
        wts[:, 1] = wt
    D = xr.Dataset({"AMB_WD": ((FC.STATE, dim), two(wd)), "AMB_REWS": ((FC.STATE, dim), two(ws)), "P": ((FC.STATE, dim), P), FV.WEIGHT: ((FC.STATE, dim) if what == "farmw" else (FC.STATE,), wts)}, coords={FC.STATE: np.arange(ns)})
    return D


def sector(wd, n):
    d = 360.0 / n
    return np.floor(np.mod(wd + d / 2, 360.0) / d).astype(int) % n


def k_rose(case, ctx):
    n, what = case["n"], case["what"]
    D = rose_results(n, what)
    o = RosePlotOutput(point_results=D) if what == "points" else RosePlotOutput(D)
    for edges in ([0, 8, 30], [0, 5, 8, 13, 40], [0, 50]):
        for col in (0, 1):
            for own in (False, True):
                ctx.evals += 1
                ctx.nt((n, len(edges), col))
                kw = {"point" if what == "points" else "turbine": col}
                if own:
                    f, ax = plt.subplots(subplot_kw={"projection": "polar"})
                    kw.update(ax=ax, title="A B")
                ax, dat = o.get_figure(n, "AMB_REWS", list(edges), add_inf=case["inf"], ret_data=True, **kw)
                wd, ws = D["AMB_WD"].to_numpy()[:, col], D["AMB_REWS"].to_numpy()[:, col]
                wt = D[FV.WEIGHT].to_numpy()
                wt = wt[:, col] if wt.ndim == 2 else wt
                eb = list(edges) + ([np.inf] if case["inf"] else [])
                # what the reader sees: label -> colour -> bars
                leg = ax.get_legend()
                lab = [t.get_text() for t in leg.get_texts()]
                cols = [tuple(h.get_color()) for h in leg.legend_handles]
                key = f"rose:{n}:{what}"
                if len(set(cols)) != len(eb) - 1:
                    ctx.fail(key, f"{len(set(cols))} colours for {len(eb) - 1} bins")
                    continue
                tot = np.zeros(n)
                ticks = ax.get_xticks()
                tl = [t.get_text() for t in ax.get_xticklabels()]
                for x, t in zip(ticks, tl):
                    if t != "" and abs(math.remainder(math.degrees(x) - (90.0 - float(t.rstrip("°"))), 360.0)) > 1.0:
                        ctx.fail(key, f"label {t} at the angle {math.degrees(x)}")
                for j in range(len(eb) - 1):
                    name = f"[{eb[j]:.1f}, {eb[j + 1]:.1f})"
                    if name not in lab:
                        ctx.fail(key, f"no label {name} in {lab}")
                        break
                    c = cols[lab.index(name)]
                    bars = [p for p in ax.patches if np.allclose(p.get_facecolor()[:3], c[:3], atol=1e-9)]
                    for i in range(n):
                        ctx.trans += 1
                        last = j == len(eb) - 2
                        m = (sector(wd, n) == i) & (ws >= eb[j]) & ((ws < eb[j + 1]) | (last & (ws == eb[j + 1])))
                        exp = 100.0 * wt[m].sum()
                        cent = math.radians(90.0 - i * 360.0 / n)
                        hit = [p for p in bars if abs(math.remainder(p.get_x() + p.get_width() / 2 - cent, 2 * math.pi)) < 1e-6]
                        if len(hit) != 1 or abs(hit[0].get_height() - exp) > 1e-9 or abs(hit[0].get_y() - tot[i]) > 1e-9:
                            ctx.fail(key, f"sector {i * 360.0 / n}, {name}: bars {[(p.get_height(), p.get_y()) for p in hit]}, expected the height {exp} above {tot[i]}", edges=eb, col=col)
                            break
                        if not 0 < hit[0].get_width() <= 2 * math.pi / n + 1e-9:
                            ctx.fail(key, f"bar width {hit[0].get_width()}")
                        tot[i] += exp
                    else:
                        continue
                    break
                if own and ax.get_title() != "A B":
                    ctx.fail(key, f"title {ax.get_title()}")
                ctx.state((n, what, len(edges), case["inf"], col, own))


def k_bins(case, ctx):
    n, con = case["n"], case["con"]
    for what in ("farm", "farmw"):
        D = rose_results(n, what)
        for edges in ([0, 8, 30], [0, 5, 8, 13, 40]):
            for col in (0, 1):
                ctx.evals += 1
                ctx.nt((n, con, what))
                kw = {}
                if case["ax"]:
                    kw["ax"] = plt.subplots(subplot_kw={"projection": "polar"})[1]
                ax, dat = WindRoseBinPlot(D).get_figure("P", list(edges), wd_sectors=n, turbine=col, contraction=con, ret_data=True, **kw)
                wd, ws, P = (D[v].to_numpy()[:, col] for v in ("AMB_WD", "AMB_REWS", "P"))
                wt = D[FV.WEIGHT].to_numpy()
                wt = wt[:, col] if wt.ndim == 2 else wt
                qm = [c for c in ax.collections if hasattr(c, "get_coordinates")][0]
                xy = np.asarray(qm.get_coordinates())
                z = np.ma.filled(np.ma.asarray(qm.get_array(), dtype=float), np.nan).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
                key = f"bins:{con}"
                for i in range(n):
                    for j in range(len(edges) - 1):
                        ctx.trans += 1
                        m = (sector(wd, n) == i) & (ws >= edges[j]) & (ws < edges[j + 1])
                        if con == "weights":
                            exp = (wt * P)[m].sum() / wt[m].sum() if m.any() else np.nan
                        elif con == "mean_no_weights":
                            exp = P[m].mean() if m.any() else np.nan
                        else:
                            exp = P[m].sum()
                        # the cell of this sector and bin
                        lo, hi = math.radians(90 - (i - 0.5) * 360.0 / n), math.radians(90 - (i + 0.5) * 360.0 / n)
                        got = [z[a, b] for a in range(z.shape[0]) for b in range(z.shape[1]) if abs(xy[a, b, 1] - edges[j]) < 1e-9 and abs(xy[a, b + 1, 1] - edges[j + 1]) < 1e-9
                               and abs(math.remainder(xy[a, b, 0] - lo, 2 * math.pi)) < 1e-6 and abs(math.remainder(xy[a + 1, b, 0] - hi, 2 * math.pi)) < 1e-6]
                        if len(got) != 1 or not same(got[0], exp):
                            ctx.fail(key, f"sector {i * 360.0 / n} of {n}, wind speeds {edges[j:j + 2]}: drawn {got}, expected {exp}", what=what, col=col)
                            return
                ctx.state((n, con, what, len(edges), col, case["ax"]))


# ---- farms -----------------------------------------------------------

_R = {}


def farm_results(spec=None, key="std"):
    if key not in _R:
        with W.engine():
            a = W.build(W_spec(**(spec or {})))
            _R[key] = (a, a.calc_farm())
    return _R[key]


def W_spec(**kw):
    s = w(**{k: v for k, v in dict(FARM, **kw).items()})
    return s


def k_layout(case, ctx):
    res, norm, col, ann = case["res"], case["norm"], case["col"], case["ann"]
    uni = norm == "D"
    a, r = farm_results(dict(D=[100.0] * 3) if uni else None, "uni" if uni else "std")
    farm = WindFarm(name="Park 7")
    for i, p in enumerate(FARM["xy"]):
        farm.add_turbine(Turbine(xy=np.array(p), D=100.0 if uni else FARM["D"][i], H=FARM["H"][i], turbine_models=["TA"], name=f"N{i * i}"), verbosity=0)
    X, Y = (np.array([p[k] for p in FARM["xy"]]) for k in (0, 1))
    fr = r
    if res is not None:
        # results with positions of their own
        fr = r.copy(deep=True)
        sh = np.arange(r.sizes[FC.STATE])[:, None] * np.array([10.0, 20.0, 35.0])
        fr[FV.X] = r[FV.X] + sh
        fr[FV.Y] = r[FV.Y] - 2 * sh
        X, Y = fr[FV.X].to_numpy()[res], fr[FV.Y].to_numpy()[res]
    if uni and res is not None:
        D = None
    elif norm == "own":
        D = 50.0
    else:
        D = None
    sc = 1.0 if norm is None else (50.0 if norm == "own" else 100.0)
    for own, dx, wts in itertools.product((False, True), (0, 13.5), (False, True)):
        ctx.evals += 1
        ctx.nt((res, norm, col))
        f2 = fr
        if wts:
            if col is None:
                continue
            f2 = fr.copy()
            q = np.array([[3.0, 1.0, 2.0]]) * np.arange(1, 6)[:, None]
            f2[FV.WEIGHT] = ((FC.STATE, FC.TURBINE), q / q.sum(axis=0))
        o = FarmLayoutOutput(farm, f2, from_results=res is not None, results_state=res, D=D)
        kw = dict(fig=None)
        if own:
            f, axx = plt.subplots(1, 2)
            kw = dict(fig=f, ax=axx[1], title="T1")
        try:
            ax, im = o.get_figure(color_by=col, annotate=ann, normalize_D=norm is not None, ret_im=True, anno_delx=dx, anno_dely=-dx, **kw)
        except Exception as e:
            ctx.fail(f"layout:{res is not None}:{norm}", f"{case} raised {type(e).__name__}: {e}")
            return
        key = f"layout:{'res' if res is not None else 'farm'}:{norm}:{col}"
        if own and ax is not axx[1]:
            ctx.fail(key, "drawn into other axes")
        off = np.asarray(im.get_offsets(), dtype=float)
        ctx.trans += 3
        if not same(off, np.stack([X, Y], axis=1) / sc):
            ctx.fail(key, f"points at {off.tolist()}, expected {X / sc}, {Y / sc}")
        if col is not None:
            kind, v = col.split("_", 1)
            d = f2[v].to_numpy()
            wt = f2[FV.WEIGHT].to_numpy()
            wt = wt if wt.ndim == 2 else wt[:, None]
            exp = dict(mean=lambda: (d * wt).sum(axis=0), sum=lambda: d.sum(axis=0), min=lambda: d.min(axis=0), max=lambda: d.max(axis=0))[kind]()
            if not same(np.asarray(im.get_array()), exp):
                ctx.fail(key, f"colours of {np.asarray(im.get_array())}, expected {exp}")
        tx = {t.get_text(): t.xy for t in ax.texts}
        exp = {} if ann == 0 else {(str(i) if ann == 1 else f"N{i * i}"): (X[i] / sc + dx, Y[i] / sc - dx) for i in range(3)}
        if set(tx) != set(exp) or any(not same(np.array(tx[k], dtype=float), np.array(exp[k])) for k in tx):
            ctx.fail(key, f"names {tx}, expected {exp}")
        u = "D" if norm else "m"
        if ax.get_xlabel() != f"x [{u}]" or ax.get_ylabel() != f"y [{u}]":
            ctx.fail(key, f"axis labels {ax.get_xlabel()}, {ax.get_ylabel()}")
        if own and ax.get_title() != "T1" or not own and not ax.get_title().startswith("Park 7"):
            ctx.fail(key, f"title {ax.get_title()}")
        ctx.state((res, norm, col, ann, own, dx, wts))
    plt.close("all")


def k_map(case, ctx):
    ns = case["ns"]
    a, r = farm_results()
    r = r.isel({FC.STATE: slice(0, ns)})
    idx = {"int": np.arange(ns), "off": np.arange(40, 40 + ns), "time": pd.date_range("2021-03-01", periods=ns, freq="30min").to_numpy()}[case["idx"]]
    r = r.assign_coords({FC.STATE: idx})
    for own, rot in itertools.product((False, True), (None, 45)):
        ctx.evals += 1
        ctx.nt((ns, case["idx"]))
        kw = dict(ax=plt.subplots()[1], title="M") if own else {}
        ax = StateTurbineMap(r).plot_map(case["v"], rotate_xlabels=rot, **kw)
        qm = [c for c in ax.collections if hasattr(c, "get_coordinates")][0]
        xy = np.asarray(qm.get_coordinates())
        z = np.asarray(qm.get_array(), dtype=float).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
        d = r[case["v"]].to_numpy()
        if case["idx"] == "time":
            num = matplotlib.dates.date2num(idx)
            step = num[1] - num[0]
        else:
            num, step = idx.astype(float), 1.0
        for s in range(ns):
            for t in range(3):
                ctx.trans += 1
                got = [z[p, q] for p in range(z.shape[0]) for q in range(z.shape[1]) if abs(xy[p, q, 0] - num[s]) < 1e-6 and abs(xy[p + 1, q, 0] - num[s] - step) < 1e-6 and abs(xy[p, q, 1] - t) < 1e-9 and abs(xy[p, q + 1, 1] - t - 1) < 1e-9]
                if len(got) != 1 or not same(got[0], d[s, t]):
                    ctx.fail(f"map:{case['idx']}", f"{case['v']} of state {s}, turbine {t}: {got}, expected {d[s, t]}")
                    return
        yl = [t.get_text() for t in ax.get_yticklabels()]
        if yl != ["0", "1", "2"] or not same(ax.get_yticks(), [0.5, 1.5, 2.5]):
            ctx.fail(f"map:{case['idx']}", f"turbine labels {yl} at {ax.get_yticks()}")
        if ax.get_title() != ("M" if own else case["v"]):
            ctx.fail(f"map:{case['idx']}", f"title {ax.get_title()}")
        ctx.state((case["v"], ns, case["idx"], own, rot))


def k_curves(case, ctx):
    t, vs, pm = case["t"], case["vs"], case["pm"]
    mb = W.mbook()
    n0 = set(mb.turbine_models.keys())
    n = len(vs)
    if case["axs"] == "none":
        axs = None
    else:
        given = [plt.subplots()[1] for v in vs]
        axs = {"list": list(given), "array": np.array(given, dtype=object), "tuple": tuple(given)}[case["axs"]]
        if n == 1 and case["axs"] == "list":
            axs = given[0]
    pmax = None if pm is None else pm * PNOM[t]
    with W.engine():
        try:
            out = TurbineTypeCurves(mb).plot_curves(t, vs[0] if n == 1 else list(vs), P_max=pmax, axs=axs, ws_min=2.0, ws_max=20.0, ws_step=case["step"], titles=None if n > 1 else "TT")
        except Exception as e:
            ctx.fail(f"curves:{case['axs']}:{n}", f"{case} raised {type(e).__name__}: {e}")
            return
    ctx.evals += 1
    ctx.nt((t, n, case["axs"]))
    key = f"curves:{case['axs']}"
    if len(out) != n or any(not hasattr(x, "lines") for x in out) or (axs is not None and any(x is not y for x, y in zip(out, given))):
        ctx.fail(key, f"returned axes {out}")
        return
    if set(mb.turbine_models.keys()) != n0:
        ctx.fail(key, f"models left in the book: {set(mb.turbine_models.keys()) - n0}")
    c = CUR[t]
    for v, ax in zip(vs, out):
        lines = ax.get_lines()
        if len(lines) != (1 if pm is None else 2):
            ctx.fail(key, f"{len(lines)} lines for {v}")
            continue
        ws, y = lines[0].get_xdata(), lines[0].get_ydata()
        if abs(ws[0] - 2.0) > 1e-9 or abs(max(ws) - 20.0) > case["step"] + 1e-9 or not same(np.diff(ws), np.full(len(ws) - 1, case["step"])):
            ctx.fail(key, f"wind speeds {ws}")
        P = np.interp(ws, c["ws"], c["P"])
        ref = {"P": P, "CT": np.interp(ws, c["ws"], c["ct"]), "REWS": ws}[v]
        ctx.trans += len(ws)
        if not same(y, ref):
            ctx.fail(key, f"{v} of {t}: {y}, expected {ref}")
        if pm is not None:
            y1 = np.asarray(lines[1].get_ydata())
            lab = [x.get_text() for x in ax.get_legend().get_texts()]
            cut = P > pmax
            if lab != ["default", "PMask"] or not same(lines[1].get_xdata(), ws):
                ctx.fail(key, f"second line {lab}")
            if v == "P" and not same(y1, np.minimum(P, pmax)):
                ctx.fail(key, f"limited power {y1}, expected {np.minimum(P, pmax)}")
            if v == "CT" and (not same(y1[~cut], ref[~cut]) or not (y1[cut] < ref[cut]).all() or not (y1[cut] > 0).all()):
                ctx.fail(key, f"limited thrust {y1} of {ref}")
        if n == 1 and ax.get_title() != "TT" or n > 1 and t not in ax.get_title():
            ctx.fail(key, f"title {ax.get_title()}")
        if ax.get_ylabel() != {"P": "Power [kW]", "CT": "ct [-]"}.get(v, v) or ax.get_xlabel() != "Wind speed [m/s]":
            ctx.fail(key, f"labels {ax.get_xlabel()}, {ax.get_ylabel()}")
    ctx.state(tuple(sorted(case.items())))


def k_rotor(case, ctx):
    mb = W.mbook()
    m = mb.rotor_models[case["m"]]
    for own in (False, True):
        ctx.evals += 1
        ctx.nt(case["m"])
        kw = {}
        if own:
            f, axx = plt.subplots(1, 2)
            kw = dict(fig=f, ax=axx[1], title="RR")
        with W.engine():
            im = RotorPointPlot(m).get_point_figure(**kw)
        ax = im.axes
        p, wt = m.design_points(), m.rotor_point_weights()
        off, val = np.asarray(im.get_offsets(), dtype=float), np.asarray(im.get_array(), dtype=float)
        ctx.trans += len(p)
        key = f"rotor:{case['m']}"
        if not same(off, p[:, 1:]) or not same(val, 100 * wt) or abs(val.sum() - 100) > 1e-6:
            ctx.fail(key, f"points {off.tolist()} with {val}, expected {p.tolist()} with {100 * wt}")
        if own and (ax is not axx[1] or ax.get_title() != "RR"):
            ctx.fail(key, f"title {ax.get_title()}")
        c = [q for q in ax.patches if isinstance(q, plt.Circle)]
        if len(c) != 1 or abs(c[0].radius - 1) > 1e-12 or tuple(c[0].center) != (0, 0):
            ctx.fail(key, "no rotor circle")
        ctx.state((case["m"], own))


# ---- flow ------------------------------------------------------------

GRID = dict(xy=dict(xmin=-150.0, xmax=1250.0, ymin=-310.0, ymax=290.0, z=95.0), xz=dict(xmin=-150.0, xmax=1250.0, zmin=20.0, zmax=200.0, y=12.0), yz=dict(ymin=-310.0, ymax=290.0, zmin=20.0, zmax=200.0, x=650.0))
NI = (6, 5)
YM = [[10.0, -15.0, 0.0]] * 5


def flow_world(yaw):
    kw = dict(wakes=["Jensen_linear_k007", "IECTI2019_max"])
    if yaw:
        kw.update(wake_frame="yawed_k004", wakes=["Bastankhah2016_linear_k004", "IECTI2019_max"], models=["TA", "yaw", "yawm2yaw"][1:] + ["TA"], tmodels={"yaw": dict(cls="SetFarmVars", vars={"YAWM": YM}, pre_rotor=True)})
    return kw


def axes_pts(ori, xd):
    """points of the plane and their coordinates in the figure"""
    g = GRID[ori]
    n = [math.cos(math.radians(270.0 - xd)), math.sin(math.radians(270.0 - xd))]
    nx, ny = np.array(n), np.array([-n[1], n[0]])
    if ori == "xy":
        A, B = np.linspace(g["xmin"], g["xmax"], NI[0]), np.linspace(g["ymin"], g["ymax"], NI[1])
        f = lambda a, b: [a, b, g["z"]]
    elif ori == "xz":
        A, B = np.linspace(g["xmin"], g["xmax"], NI[0]), np.linspace(g["zmin"], g["zmax"], NI[1])
        f = lambda a, b: list(a * nx + g["y"] * ny) + [b]
    else:
        A, B = np.linspace(g["ymin"], g["ymax"], NI[0]), np.linspace(g["zmin"], g["zmax"], NI[1])
        f = lambda a, b: list(g["x"] * nx + a * ny) + [b]
    P = np.array([[f(a, b) for b in B] for a in A])
    return A, B, P, nx, ny


_F = {}


def flow_ref(ori, xd, yaw):
    k = (ori, xd, yaw)
    if k not in _F:
        a, r = farm_results(flow_world(yaw), f"flow{yaw}")
        A, B, P, nx, ny = axes_pts(ori, xd)
        with W.engine():
            p = a.calc_points(r, np.broadcast_to(P.reshape(1, -1, 3), (5, P.shape[0] * P.shape[1], 3)).copy())
        _F[k] = {v: p[v].to_numpy().reshape(5, len(A), len(B)) for v in ("WS", "TI", "WD")}
    return _F[k]


def mesh(ax):
    qm = [c for c in ax.collections if hasattr(c, "get_coordinates")]
    return qm[0] if qm else None


def cellval(qm, A, B):
    """values by position of the point"""
    xy = np.asarray(qm.get_coordinates())
    z = np.asarray(qm.get_array(), dtype=float).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
    cx = 0.25 * (xy[1:, 1:, 0] + xy[1:, :-1, 0] + xy[:-1, 1:, 0] + xy[:-1, :-1, 0])
    cy = 0.25 * (xy[1:, 1:, 1] + xy[1:, :-1, 1] + xy[:-1, 1:, 1] + xy[:-1, :-1, 1])
    out = np.full((len(A), len(B)), np.nan)
    for i, a in enumerate(A):
        for j, b in enumerate(B):
            m = (np.abs(cx - a) < 1e-6) & (np.abs(cy - b) < 1e-6)
            if m.sum() == 1:
                out[i, j] = z[m][0]
    return out


def arrows(ax, A, B, wd, ws, n, key, ctx):
    q = [c for c in ax.collections if isinstance(c, matplotlib.quiver.Quiver)]
    if len(q) != 1:
        return ctx.fail(key, f"{len(q)} arrow collections")
    got = {(round(x, 6), round(y, 6)): (u, v) for x, y, u, v in zip(np.ravel(q[0].X), np.ravel(q[0].Y), np.ravel(q[0].U), np.ravel(q[0].V))}
    exp = {}
    for i in range(0, len(A), n):
        for j in range(0, len(B), n):
            t = math.radians(270.0 - wd[i, j])
            exp[round(A[i], 6), round(B[j], 6)] = (ws[i, j] * math.cos(t), ws[i, j] * math.sin(t))
    ctx.trans += len(exp)
    if set(got) != set(exp) or any(not same(got[k], exp[k], 1e-6) for k in exp):
        ctx.fail(key, f"arrows {got}, expected {exp}")


def rotors(ax, ori, r, s, nx, ny, key, ctx):
    """one line of the rotor diameter for each turbine"""
    X, Y, H, D = (r[v].to_numpy()[s] for v in (FV.X, FV.Y, FV.H, FV.D))
    wd = r[FV.AMB_WD].to_numpy()[s] + (r[FV.YAWM].to_numpy()[s] if FV.YAWM in r else 0.0)
    L = [np.stack([l.get_xdata(), l.get_ydata()], axis=1).astype(float) for l in ax.get_lines()]
    if len(L) != len(X):
        return ctx.fail(key, f"{len(L)} rotors for {len(X)} turbines")
    for t in range(len(X)):
        th = math.radians(wd[t])
        if ori == "xy":
            c, h = np.array([X[t], Y[t]]), 0.5 * D[t] * np.array([math.cos(th), -math.sin(th)])
        elif ori == "xz":
            c, h = np.array([X[t] * nx[0] + Y[t] * nx[1], H[t]]), np.array([0.0, D[t] / 2])
        else:
            c, h = np.array([X[t] * ny[0] + Y[t] * ny[1], H[t]]), np.array([0.0, D[t] / 2])
        ctx.trans += 1
        if not any(same(l, [c - h, c + h], 1e-7) or same(l, [c + h, c - h], 1e-7) for l in L):
            return ctx.fail(key, f"state {s}: no rotor of turbine {t} from {c - h} to {c + h}, there are {[l.tolist() for l in L]}")


LAB = dict(xy=("x [m]", "y [m]"), xz=("x [m]", "z [m]"), yz=("y [m]", "z [m]"))


def k_flow(case, ctx):
    ori, xd, var, yaw = case["ori"], case["xd"], case["var"], case["yaw"]
    a, r = farm_results(flow_world(yaw), f"flow{yaw}")
    A, B, P, nx, ny = axes_pts(ori, xd)
    R = flow_ref(ori, xd, yaw)
    st = [0, 1, 2, 3, 4] if case["sel"] is None else [3, 1]
    kw = {} if ori == "xy" else dict(x_direction=xd)
    if case["sel"] is not None:
        kw["states_" + case["sel"]] = st if case["sel"] == "isel" else [int(r[FC.STATE].to_numpy()[i]) for i in st]
    o = FlowPlots2D(a, r)
    key = f"flow:{ori}:{case['sel']}"
    for lim in (False, True):
        lo, hi = (np.quantile(R[var], 0.3), np.quantile(R[var], 0.8)) if lim else (None, None)
        ctx.evals += 1
        ctx.nt((ori, xd, var, case["sel"], lim))
        figs = []
        with W.engine():
            for si, (fig, k, im) in enumerate(getattr(o, "gen_states_fig_" + ori)(var, n_img_points=NI, levels=case["lev"], quiver_n=case["q"], rotor_color="red", ret_state=True, ret_im=True, vmin=lo, vmax=hi, **GRID[ori], **kw)):
                figs.append((fig, k))
        if len(figs) != len(st):
            ctx.fail(key, f"{len(figs)} figures for {len(st)} states")
            continue
        for i, s in enumerate(st):
            fig, k = figs[i]
            ax = fig.axes[0]
            exp = R[var][s] if not lim else np.clip(R[var][s], lo, hi)
            ctx.trans += exp.size
            if k != i or f"State {r[FC.STATE].to_numpy()[s]}," not in ax.get_title():
                ctx.fail(key, f"figure {i}: state index {k}, title {ax.get_title()}, expected state {s}")
            if case["lev"] is None:
                qm = mesh(ax)
                if not same(cellval(qm, A, B), exp, 1e-8):
                    ctx.fail(key, f"state {s}: {var} drawn {cellval(qm, A, B).tolist()}, expected {exp.tolist()}")
                if lim and not same(qm.get_clim(), (lo, hi)):
                    ctx.fail(key, f"colours {qm.get_clim()}, expected {lo, hi}")
            else:
                cs = [c for c in ax.collections if hasattr(c, "levels")]
                if len(cs) != 1 or not same([cs[0].zmin, cs[0].zmax], [exp.min(), exp.max()], 1e-8):
                    ctx.fail(key, f"state {s}: contours from {cs and (cs[0].zmin, cs[0].zmax)}, expected {exp.min(), exp.max()}")
            if case["q"]:
                arrows(ax, A, B, R["WD"][s], R["WS"][s] if not (lim and var == "WS") else exp, case["q"], key, ctx) if not (lim and var in ("WD", "WS")) else None
            rotors(ax, ori, r, s, nx, ny, key, ctx)
            if (ax.get_xlabel(), ax.get_ylabel()) != LAB[ori]:
                ctx.fail(key, f"labels {ax.get_xlabel(), ax.get_ylabel()}")
            xl, yl = ax.get_xlim(), ax.get_ylim()
            if not same(sorted(xl), [A[0], A[-1]]) or not same(yl, [B[0], B[-1]]) or (xl[0] > xl[1]) != (ori == "yz"):
                ctx.fail(key, f"limits {xl}, {yl}")
            if len(fig.axes) != 2 or fig.axes[1].get_ylabel() != var:
                ctx.fail(key, f"colour bar {[x.get_ylabel() for x in fig.axes]}")
            ctx.state((ori, xd, var, yaw, case["sel"], case["lev"], case["q"], lim, s))
        plt.close("all")


def k_mean(case, ctx):
    ori, xd, var = case["ori"], case["xd"], case["var"]
    a, r = farm_results(flow_world(False), "flowFalse")
    A, B, P, nx, ny = axes_pts(ori, xd)
    R = flow_ref(ori, xd, False)
    wt = np.array(TAB["w"])
    M = {v: np.einsum("s,sab->ab", wt, R[v]) for v in R}
    lo, hi = (np.quantile(M[var], 0.3), np.quantile(M[var], 0.8)) if case["lim"] else (None, None)
    kw = {} if ori == "xy" else dict(x_direction=xd)
    key = f"mean:{ori}"
    for own, bar in itertools.product((False, True), (False, True)):
        ctx.evals += 1
        ctx.nt((ori, xd, var, own))
        hk = {}
        if own or not bar:
            f, axx = plt.subplots(1, 2)
            hk = dict(fig=f, ax=axx[1], title="QQ")
        with W.engine():
            fig, dat = getattr(FlowPlots2D(a, r), f"get_mean_fig_{ori}")(var, n_img_points=NI, ret_data=True, quiver_n=case["q"], vmin=lo, vmax=hi, add_bar=bar, **GRID[ori], **kw, **hk)
        ax = axx[1] if hk else fig.axes[0]
        exp = M[var] if lo is None else np.clip(M[var], lo, hi)
        ctx.trans += exp.size
        if not same(dat, exp, 1e-8) or mesh(ax) is None or not same(cellval(mesh(ax), A, B), exp, 1e-8):
            ctx.fail(key, f"mean {var}: {np.asarray(dat).tolist()}, expected {exp.tolist()}")
        if case["q"] and not (case["lim"] and var == "WS"):
            arrows(ax, A, B, M["WD"], M["WS"], case["q"], key, ctx)
        if (ax.get_xlabel(), ax.get_ylabel()) != LAB[ori]:
            ctx.fail(key, f"labels {ax.get_xlabel(), ax.get_ylabel()}")
        if hk and ax.get_title() != "QQ":
            ctx.fail(key, f"title {ax.get_title()}")
        ctx.state((ori, xd, var, case["lim"], case["q"], own, bar))


def k_anim(case, ctx):
    """animations: one frame per state, in the order of the states"""
    ori, ts = case["ori"], case["ts"]
    a, r = farm_results(flow_world(False), "flowFalse")
    A, B, P, nx, ny = axes_pts(ori, 270.0)
    R = flow_ref(ori, 270.0, False)
    for var in ("WS", "TI"):
        ctx.evals += 1
        ctx.nt((ori, tuple(ts)))
        fig, axx = plt.subplots(2, 1)
        an = Animator(fig)
        with W.engine():
            an.add_generator(getattr(FlowPlots2D(a, r), "gen_states_fig_" + ori)(var, n_img_points=NI, fig=fig, ax=axx[0], ret_im=True, animated=True, **GRID[ori]))
            an.add_generator(FarmResultsEval(r).gen_stdata(turbines=ts, variable="P", fig=fig, ax=axx[1], ret_im=True))
            ani = an.animate(verbosity=0)
        fr = ani._framedata
        key = f"anim:{ori}"
        if len(fr) != 5 or an.fig is not fig:
            ctx.fail(key, f"{len(fr)} frames for 5 states")
        for s, f in enumerate(fr):
            ctx.trans += 1
            qm = [x for x in f if hasattr(x, "get_coordinates")]
            tx = [x.get_text() for x in f if hasattr(x, "get_text") and not hasattr(x, "get_xdata")]
            ln = [x for x in f if hasattr(x, "get_xdata")]
            if len(qm) != 1 or not same(cellval(qm[0], A, B), R[var][s], 1e-8):
                ctx.fail(key, f"frame {s} does not show {var} of state {s}")
            if tx != [f"State {r[FC.STATE].to_numpy()[s]}"]:
                ctx.fail(key, f"frame {s} has the titles {tx}")
            if len(ln) != len(ts):
                ctx.fail(key, f"{len(ln)} curves in frame {s}")
            for l, t in zip(ln, ts):
                x, y = l.get_xdata(), l.get_ydata()
                if len(x) not in (s, s + 1) or not same(x, np.arange(len(x))) or not same(y, r["P"].to_numpy()[:len(x), t]):
                    ctx.fail(key, f"frame {s}: turbine {t} from {y}")
            lab = [x.get_text() for x in axx[1].get_legend().get_texts()]
            if lab != [f"Turbine {t}" for t in ts]:
                ctx.fail(key, f"legend {lab}")
            ctx.state((ori, tuple(ts), var, s))
        plt.close("all")


def k_seq(case, ctx):
    """animations of sequential runs"""
    ori, title = case["ori"], case["title"]
    A, B, P, nx, ny = axes_pts(ori, 270.0)
    R = flow_ref(ori, 270.0, False)
    a0, r0 = farm_results(flow_world(False), "flowFalse")
    for xd in (270.0,) if ori == "xy" else (270.0, 33.0):
        A, B, P, nx, ny = axes_pts(ori, xd)
        R = flow_ref(ori, xd, False)
        for var in ("WS", "TI"):
            ctx.evals += 1
            ctx.nt((ori, title, case["rot"]))
            pars = dict(var=var, n_img_points=NI, animated=True, **GRID[ori])
            if ori != "xy":
                pars["x_direction"] = xd
            if title is not None:
                pars["title"] = "fix" if title == "fixed" else (lambda i, s: f"step {i}")
            if case["rot"]:
                pars["rotor_color"] = "red"
            if case["lim"]:
                pars.update(vmin=float(R[var].min()), vmax=float(R[var].max()))
            key = f"seq:{ori}:{title}"
            with W.engine():
                a = W.build(W_spec(**flow_world(False), algo="Sequential"))
                pl = SeqFlowAnimationPlugin(orientation=ori, **pars)
                a.plugins.append(pl)
                for r in a:
                    pass
                fig, ax = plt.subplots()
                n, heads = 0, []
                for s, (f, ims) in enumerate(pl.gen_images(ax)):
                    ctx.trans += 1
                    n += 1
                    qm = [x for x in ims if hasattr(x, "get_coordinates")]
                    tx = [x.get_text() for x in ims if hasattr(x, "get_text")]
                    heads += tx
                    if f is not fig or len(qm) != 1 or not same(cellval(qm[0], A, B), R[var][s], 1e-7):
                        ctx.fail(key, f"image {s} does not show {var} of state {s}")
                    if (ax.get_xlabel(), ax.get_ylabel()) != LAB[ori]:
                        ctx.fail(key, f"labels {ax.get_xlabel(), ax.get_ylabel()}")
                    if case["rot"]:
                        rotors(ax, ori, r0, s, nx, ny, key, ctx)
                        for l in list(ax.get_lines()):
                            l.remove()
                    ctx.state((ori, title, case["rot"], case["lim"], xd, var, s))
            if n != 5:
                ctx.fail(key, f"{n} images for 5 states")
            exp = {"fixed": ["fix"] * 5, None: [f"State {r0[FC.STATE].to_numpy()[s]}" for s in range(5)]}.get(title)
            if title == "call":
                if len(set(heads)) != 5 or any(not h.startswith("step ") for h in heads) or [int(h[5:]) for h in heads] != sorted(int(h[5:]) for h in heads):
                    ctx.fail(key, f"titles {heads}")
            elif heads != exp:
                ctx.fail(key, f"titles {heads}, expected {exp}")
            plt.close("all")
