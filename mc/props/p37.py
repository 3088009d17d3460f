"""P37 slices and flow plots show the calculated point results at the stated positions"""
import itertools, os
import numpy as np
import pandas as pd
import xarray as xr
import foxes.variables as FV
import foxes.constants as FC
from foxes.output import SliceData, SlicesData, FlowPlots2D
from foxes.output import grids
from mc import worlds as W
from mc.catalog import w

ID = "P37"
LEVEL = "model_checking"
ASSUMPTIONS = ["3 turbines of two hub heights, 3 states; all slice orientations, grid definitions, x directions, data formats, selections, normalisations, limits and labels",
               "reference: the points of each slice are computed independently and evaluated with calc_points; rtol 1e-9"]
XY = [[0.0, 0.0], [460.0, 35.0], [930.0, -145.0]]
HS = [90.0, 110.0, 90.0]
ST = dict(kind="table", ws=[8.0, 9.5, 10.5], wd=[270.0, 93.0, 250.0], ti=[0.06, 0.1, 0.08], rho=[1.2, 1.225, 1.25], w=[0.2, 0.3, 0.5])
AX = dict(xy=("x", "y", "z"), xz=("x", "z", "y"), yz=("y", "z", "x"))
GRID = {"res": dict(resolution=210.0), "img": dict(n_img_points=(4, 3)), "bounds": dict(n_img_points=(3, 4), lo=-200.0, hi=1300.0, blo=20.0, bhi=150.0), "space": dict(resolution=300.0, aspace=150.0, bspace=80.0), "pos": dict(n_img_points=(3, 3), c=77.0)}


def cases(tier):
    out = []
    for ori, kind, g, xd, fmt in itertools.product(AX, ("mean", "states"), GRID, (270, 0, 225, 37.5), ("numpy", "pandas", "xarray")):
        if ori == "xy" and xd != 270:
            continue
        if tier == "quick" and fmt != "xarray" and (xd not in (270, 37.5) or g not in ("res", "bounds")):
            continue
        out.append(dict(kind="slice", ori=ori, what=kind, grid=g, xd=xd, fmt=fmt))
    out += [dict(kind="slices", ori=o, what=k, xd=x) for o in AX for k in ("mean", "states") for x in (270, 37.5)]
    out += [dict(kind="fig", ori=o, what=k, xd=x, var=v) for o in AX for k in ("mean", "states") for x in (270, 37.5) for v in ("WS", "TI", "WD", "AMB_WS")]
    out += [dict(kind="d2xr", ori=o, mean=m) for o in AX for m in ("no", "yes", "weights")]
    return out


_C = {}


def world():
    if not _C:
        from foxes.core import Turbine, WindFarm
        f = WindFarm(name="f")
        for i in range(3):
            f.add_turbine(Turbine(xy=np.array(XY[i]), H=HS[i], turbine_models=["TA", "kTI_02"], name=f"T{i}"), verbosity=0)
        algo = W.build(w(farm_obj=f, states=ST, wakes=["Bastankhah2014_linear_k004", "IECTI2019_max"]))
        with W.engine("single"):
            _C["fr"] = algo.calc_farm()
        _C["algo"] = algo
        _C["fr0"] = _C["fr"].copy(deep=True)
    return _C["algo"], _C["fr"]


def frame(ori, xd):
    """basis vectors for coordinates x, y, z of the slice"""
    if ori == "xy":
        return np.eye(3)
    a = np.radians(xd)
    nx = np.array([-np.sin(a), -np.cos(a), 0.0])
    nz = np.array([0.0, 0.0, 1.0])
    return np.stack([nx, [-nx[1], nx[0], 0.0], nz])


def positions(ori, g, xd):
    """axis positions: (a, b, c)"""
    B = frame(ori, xd)
    T = np.concatenate([np.array(XY), np.array(HS)[:, None]], axis=1) @ B.T
    ia, ib, ic = ["xyz".index(k) for k in AX[ori]]
    G = GRID[g]
    sa, sb = G.get("aspace", 500.0), G.get("bspace", 500.0)
    amin, amax = G.get("lo", T[:, ia].min() - sa), G.get("hi", T[:, ia].max() + sa)
    if ib == 2:
        bmin, bmax = G.get("blo", 0.0), G.get("bhi", T[:, ib].max() + sb)
    else:
        bmin, bmax = G.get("blo", T[:, ib].min() - sb), G.get("bhi", T[:, ib].max() + sb)
    c = G.get("c", 0.5 * (T[:, ic].min() + T[:, ic].max()))
    if "resolution" in G:
        na, nb = int((amax - amin) / G["resolution"] + 0.5) + 1, int((bmax - bmin) / G["resolution"] + 0.5) + 1
    else:
        na, nb = G["n_img_points"]
    return np.linspace(amin, amax, na), np.linspace(bmin, bmax, nb), c, B, (ia, ib, ic)


def kwargs(ori, g, xd):
    G = GRID[g]
    a, b, c = AX[ori]
    kw = {k: G[k] for k in ("resolution", "n_img_points") if k in G}
    if "lo" in G:
        kw.update({f"{a}min": G["lo"], f"{a}max": G["hi"], f"{b}min": G["blo"], f"{b}max": G["bhi"]})
    if "aspace" in G:
        kw.update({f"{a}space": G["aspace"], f"{b}space": G["bspace"]})
    if "c" in G:
        kw[c] = G["c"]
    if ori != "xy":
        kw["x_direction"] = xd
    return kw


_P = {}


def reference(ori, g, xd):
    """values of all variables: v -> (states, na, nb), and the axes"""
    k = (ori, g, xd if ori != "xy" else 0)
    if k not in _P:
        algo, fr = world()
        a, b, c, B, (ia, ib, ic) = positions(ori, g, xd)
        pts = np.zeros((len(a), len(b), 3))
        for i in range(len(a)):
            for j in range(len(b)):
                q = np.zeros(3)
                q[ia], q[ib], q[ic] = a[i], b[j], c
                pts[i, j] = q @ B
        n = fr.sizes[FC.STATE]
        with W.engine("single"):
            pr = algo.calc_points(fr, np.broadcast_to(pts.reshape(1, -1, 3), (n, len(a) * len(b), 3)).copy())
        _P[k] = ({v: d.to_numpy().reshape(n, len(a), len(b)) for v, d in pr.data_vars.items() if d.ndim == 2}, a, b, c)
    return _P[k]


def read(data, fmt, ori, what, vs, lm, na, nb, ns, st):
    """name -> (states, na, nb) or (na, nb), axes if known"""
    a, b, c = [lm.get(q, q) for q in AX[ori]]
    out, axes = {}, None
    sh = (ns, na, nb) if what == "states" else (na, nb)
    if fmt == "numpy":
        assert data.shape == sh + (len(vs),), f"shape {data.shape}"
        out = {v: data[..., i] for i, v in enumerate(vs)}
    elif fmt == "pandas":
        nm = ([lm.get(FC.STATE, FC.STATE)] if what == "states" else []) + [a, b]
        assert list(data.index.names) == nm, f"index names {data.index.names}"
        if what == "states":
            assert list(data.index.get_level_values(0)[:: na * nb]) == list(st), "states"
        out = {v: data[lm.get(v, v)].to_numpy().reshape(sh) for v in vs}
    else:
        s = [lm.get(FC.STATE, FC.STATE)] if what == "states" else []
        for v in vs:
            d = data[lm.get(v, v)].transpose(*s, a, b)
            out[v] = d.to_numpy()
        axes = (data[a].to_numpy(), data[b].to_numpy(), data.attrs[c])
        if s:
            assert list(data[s[0]].to_numpy()) == list(st), "states"
    return out, axes


MODS = [dict(), dict(variables=["TI", "WS"]), dict(norm={"WS": 9.0, "TI": 0.1}, variables=["WS", "AMB_WS", "TI"]), dict(vmin={"WS": 7.0}, vmax={"WS": 9.0, "TI": 0.09}, variables=["WS", "TI"]),
        dict(norm={"WS": 2.0}, vmin={"WS": 3.5}, variables=["WS"]), dict(ab=(100.0, 10.0, 50.0), variables=["WS"]), dict(lm={"x": "X1", "y": "Y1", "z": "Z1", "WS": "speed", "state": "time"}, variables=["WS", "TI"])]
SELS = [dict(), dict(states_isel=[2, 0]), dict(states_isel=[1]), dict(states_sel=[1, 2])]


def run(case, ctx):
    globals()["k_" + case["kind"]](case, ctx)
    algo, fr = world()
    if not fr.identical(_C["fr0"]):
        ctx.fail("modified", f"{case}: farm results were changed")


def clip(e, v, M):
    if v in M.get("vmin", {}):
        e = np.maximum(e, M["vmin"][v])
    if v in M.get("vmax", {}):
        e = np.minimum(e, M["vmax"][v])
    return e


def k_slice(case, ctx):
    ori, what, g, xd, fmt = (case[k] for k in ("ori", "what", "grid", "xd", "fmt"))
    algo, fr = world()
    R, a, b, c = reference(ori, g, xd)
    S = fr[FC.STATE].to_numpy()
    wt = np.array(ST["w"])
    fun = getattr(SliceData(algo, fr), f"get_{what}_data_{ori}")
    for M, sel in itertools.product(MODS, SELS):
        if sel and M is not MODS[1] and ctx.tier == "quick":
            continue
        lm, norm = M.get("lm", {}), M.get("norm", {})
        vs = M.get("variables")
        kw = kwargs(ori, g, xd)
        na = M.get("ab", (1.0, 1.0, 1.0))
        if "ab" in M:
            for k, q in zip(AX[ori], na):
                kw[f"normalize_{k}"] = q
        ctx.evals += 1
        args = dict(variables=None if vs is None else list(vs), data_format=fmt, normalize_v=dict(norm), vmin=dict(M.get("vmin", {})), vmax=dict(M.get("vmax", {})), label_map=dict(lm), verbosity=0, **sel)
        with W.engine("single"):
            data, st, gd = fun(ret_states=True, ret_grid=True, **args, **kw)
        idx = sel.get("states_isel", [list(S).index(q) for q in sel["states_sel"]] if "states_sel" in sel else list(range(len(S))))
        name = f"{case}, {M}, {sel}"
        key = f"{fmt}|{ori}|{what}"
        if list(st) != list(S[idx]):
            ctx.fail("states|" + key, f"{name}: states {st}, expected {S[idx]}")
            continue
        if vs is None:
            vs = [v for v in R if fmt == "numpy" or v in data]
            miss = set(R) - set(vs)
            if miss:
                ctx.fail("variables|" + key, f"{name}: missing {miss}")
            if fmt == "numpy":
                continue  # the order of the variables is not defined
        try:
            D, axes = read(data, fmt, ori, what, vs, lm, len(a), len(b), len(idx), S[idx])
        except (AssertionError, KeyError, ValueError) as e:
            ctx.fail("format|" + key, f"{name}: {type(e).__name__}: {e}")
            continue
        for v in vs:
            e = R[v][idx]
            if what == "mean":
                # with a selection of states the weights may or may not be normalized again
                e = np.einsum("s,sab->ab", wt[idx], e)
                if sel and np.allclose(D[v] * wt[idx].sum(), clip(e / norm.get(v, 1.0), v, M), rtol=1e-9):
                    e = e / wt[idx].sum()
            e = e / norm.get(v, 1.0)
            e = clip(e, v, M)
            ctx.trans += e.size
            if D[v].shape != e.shape or not np.allclose(D[v], e, rtol=1e-9):
                ctx.fail(f"values|{key}", f"{name}: {v} = {D[v].tolist()}, calc_points gives {e.tolist()}")
                break
        if axes is not None and not all(np.allclose(x, y / q, rtol=1e-9, atol=1e-9) for x, y, q in zip(axes, (a, b, c), na)):
            ctx.fail("axes|" + key, f"{name}: axes {axes}, expected {a}, {b}, {c}")
        n = len(idx)
        if gd[3].shape != (n, len(a) * len(b), 3):
            ctx.fail("grid|" + key, f"{name}: grid points of shape {gd[3].shape}")
        ctx.state(name)
        ctx.nt(name)


def k_slices(case, ctx):
    ori, what, xd = case["ori"], case["what"], case["xd"]
    algo, fr = world()
    c = AX[ori][2]
    cl = [[50.0, 90.0, 120.0], [77.0]] if c == "z" else [[-100.0, 30.0, 500.0], [77.0]]
    for cs in cl:
        kw = kwargs(ori, "bounds", xd)
        ctx.evals += 1
        with W.engine("single"):
            o = getattr(SlicesData(algo, fr), f"get_{what}_data_{ori}")(cs, variables=["WS", "TI"], **kw)
            for i, q in enumerate(cs):
                r = getattr(SliceData(algo, fr), f"get_{what}_data_{ori}")(variables=["WS", "TI"], **dict(kw, **{c: q}))
                for v in ("WS", "TI"):
                    ctx.trans += r[v].size
                    d = o[v].sel({c: q})
                    if not np.allclose(d.transpose(*r[v].dims).to_numpy(), r[v].to_numpy(), rtol=1e-12):
                        ctx.fail(f"slices|{ori}|{what}", f"{case}: {v} at {c}={q}: {d.to_numpy().tolist()}, the single slice has {r[v].to_numpy().tolist()}")
                for k in AX[ori][:2]:
                    if not np.allclose(o[k], r[k]):
                        ctx.fail(f"slices:axes|{ori}", f"{case}: {o[k]}")
        if not np.allclose(o[c], cs):
            ctx.fail(f"slices:positions|{ori}", f"{case}: {o[c].to_numpy()}, expected {cs}")
        if what == "states" and list(o[FC.STATE].to_numpy()) != list(fr[FC.STATE].to_numpy()):
            ctx.fail("slices:states", f"{o[FC.STATE]}")
        ctx.state((str(case), str(cs)))
        ctx.nt((str(case), str(cs)))


def k_fig(case, ctx):
    import matplotlib.pyplot as plt
    ori, what, xd, v = (case[k] for k in ("ori", "what", "xd", "var"))
    algo, fr = world()
    R, a, b, c = reference(ori, "bounds", xd)
    kw = kwargs(ori, "bounds", xd)
    o = FlowPlots2D(algo, fr)
    ctx.evals += 1
    try:
        with W.engine("single"):
            if what == "mean":
                e = np.einsum("s,sab->ab", np.array(ST["w"]), R[v])
                ax, im, data = getattr(o, f"get_mean_fig_{ori}")(v, ret_im=True, ret_data=True, add_bar=False, **kw)
                ctx.trans += e.size
                if not np.allclose(data, e, rtol=1e-9):
                    ctx.fail(f"figdata|{ori}", f"{case}: returned data {data.tolist()}, expected {v} = {e.tolist()}")
                figs = [(im, e)]
            else:
                figs = []
                for i, r in enumerate(getattr(o, f"gen_states_fig_{ori}")(v, ret_im=True, ret_state=True, add_bar=False, **kw)):
                    if r[1] != fr[FC.STATE].to_numpy()[i] and r[1] != i:
                        ctx.fail("figstate", f"{case}: state {r[1]}")
                    figs.append((r[2], R[v][i]))
                    plt.close("all")
                if len(figs) != 3:
                    ctx.fail("figstates", f"{case}: {len(figs)} figures for 3 states")
        for im, e in figs:
            im = im[0] if isinstance(im, (list, tuple)) else im
            z = np.asarray(im.get_array()).reshape(len(b), len(a)).T
            ctx.trans += e.size
            if not np.allclose(z, e, rtol=1e-9):
                ctx.fail(f"figure|{ori}|{what}", f"{case}: the figure shows {z.tolist()}, expected {v} = {e.tolist()}")
    finally:
        plt.close("all")
    ctx.state(str(case))
    ctx.nt(str(case))


def k_d2xr(case, ctx):
    ori = case["ori"]
    algo, fr = world()
    R, a, b, c = reference(ori, "bounds", 270)
    f = getattr(grids, f"get_grid_{ori}")
    kw = kwargs(ori, "bounds", 270)
    gx, gy, gz, pts = f(fr, **kw)
    ctx.evals += 1
    with W.engine("single"):
        pr = algo.calc_points(fr, pts)
    wt = np.array([0.5, 0.1, 0.4])
    sm = dict(no=False, yes=True, weights=wt)[case["mean"]]
    ds = grids.data2xr(gx, gy, gz, pr, vars=["WS", "TI"], state_mean=sm)
    ia, ib, ic = AX[ori]
    for v in ("WS", "TI"):
        e = R[v]
        e = e if case["mean"] == "no" else (e.mean(axis=0) if case["mean"] == "yes" else np.einsum("s,sab->ab", wt, e))
        d = ds[v].transpose(*([FC.STATE] if case["mean"] == "no" else []), ia, ib).to_numpy()
        ctx.trans += e.size
        if d.shape != e.shape or not np.allclose(d, e, rtol=1e-9):
            ctx.fail(f"data2xr|{ori}", f"{case}: {v} = {d.tolist()}, expected {e.tolist()}")
    if not np.allclose(ds[ia], a) or not np.allclose(ds[ib], b) or not np.isclose(float(ds.attrs[ic]), c):
        ctx.fail(f"data2xr:axes|{ori}", f"{case}: {ds}")
    ctx.state(str(case))
    ctx.nt(str(case))
