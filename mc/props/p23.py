"""P23 power and thrust follow the given curves, whatever the form they are given in"""
import itertools, os
import numpy as np
import pandas as pd
import foxes.variables as FV
import foxes.models.turbine_types as tt
from mc import worlds as W
from mc.catalog import w

ID = "P23"
LEVEL = "model_checking"
ASSUMPTIONS = ["every curve type, from frames and files, sorted and unsorted; wind speed grid with all table nodes, points between them and outside the table; air densities, turbulence intensities, yaw misalignments",
               "reference: linear interpolation, zero outside the wind speed range (cp curves are tabulated in steps of 1e-4 m/s, compared with rtol 1e-3); table types inside their density or turbulence range"]
WS = np.array([3.0, 4.0, 6.0, 8.0, 10.0, 12.0, 14.0, 25.0])
P = np.array([40.0, 100.0, 500.0, 1300.0, 2500.0, 4100.0, 5000.0, 4800.0])
CT = np.array([0.9, 0.82, 0.80, 0.78, 0.74, 0.6, 0.4, 0.1])
WS2 = np.array([2.5, 5.0, 9.0, 13.0, 20.0])
CT2 = np.array([0.85, 0.8, 0.7, 0.45, 0.15])
RHOS = np.array([1.0, 1.1, 1.225, 1.35])
TIS = np.array([0.02, 0.08, 0.2])
D, H = 110.0, 95.0
QWS = np.unique(np.concatenate([WS, WS2, (WS[1:] + WS[:-1]) / 2, [0.5, 2.0, 2.49, 2.99, 3.01, 3.06, 7.3, 12.4, 19.99, 24.99, 25.01, 25.2, 30.0]]))
QRHO = [1.0, 1.07, 1.225, 1.31]
QTI = [0.02, 0.055, 0.08, 0.15]


def two(ws, y, cols, f):
    return pd.DataFrame([[q * f(c) for c in cols] for q in y], index=ws, columns=cols)


FRHO = lambda r: 0.4 + 0.5 * r
FTI = lambda t: 1.1 - 0.8 * t
FTI2 = lambda t: 0.9 + 0.3 * t
FRHO2 = lambda r: 1.2 - 0.15 * r


def cp():
    return P * 1e3 / (0.5 * 1.2 * np.pi * (D / 2) ** 2 * WS ** 3)


def shuffle(df, how):
    if how == "rev":
        return df.iloc[::-1]
    if how == "mix":
        i = list(range(len(df)))
        return df.iloc[i[1::2] + i[0::2]]
    return df


def src(df, kind, order, index, name):
    """a frame or a file"""
    df = shuffle(df, order)
    if kind == "frame":
        return df.copy()
    d = W.tmpdir()
    f = os.path.join(d, name)
    df.to_csv(f, index=index)
    return f


KINDS = ["PCtFile", "PCtFromTwo", "CpCtFile", "CpCtFromTwo", "WsRho2PCtFromTwo", "WsTI2PCtFromTwo", "FromLookupTable", "FromLookupTableTI", "TBLFile"]


def make(kind, src_kind, order, pars, name):
    """turbine type from frame or file"""
    kw = dict(pars)
    names = dict(P=f"{name}-5MW-D110-H95.csv", ct=f"{name}-5MW-D110-H95-ct.csv")
    dims = {} if src_kind == "file" else dict(D=D, H=H)
    # the names of both files agree up to the last part, so that the type name can be deduced
    fP, fct = f"{name}_5MW_D110_H95_pow.csv", f"{name}_5MW_D110_H95_thr.csv"
    if kind == "PCtFile":
        return tt.PCtFile(src(pd.DataFrame(dict(v=WS, p=P, c=CT)), src_kind, order, False, names["P"]), col_ws="v", col_P="p", col_ct="c", **dims, **kw)
    if kind == "PCtFromTwo":
        return tt.PCtFromTwo(src(pd.DataFrame(dict(v=WS, p=P)), src_kind, order, False, fP), src(pd.DataFrame(dict(u=WS2, c=CT2)), src_kind, order, False, fct),
                             col_ws_P_file="v", col_ws_ct_file="u", col_P="p", col_ct="c", **dims, **kw)
    if kind == "CpCtFile":
        kw.pop("rho", None)
        if src_kind == "file":
            kw.pop("P_nominal", None)
        return tt.CpCtFile(src(pd.DataFrame(dict(v=WS, p=cp(), c=CT)), src_kind, order, False, names["P"]), col_ws="v", col_cp="p", col_ct="c", rho=1.2, **dims, **kw)
    if kind == "CpCtFromTwo":
        kw.pop("rho", None)
        return tt.CpCtFromTwo(src(pd.DataFrame(dict(v=WS, p=cp())), src_kind, order, False, fP), src(pd.DataFrame(dict(u=WS2, c=CT2)), src_kind, order, False, fct),
                              col_ws_cp_file="v", col_cp="p", col_ws_ct_file="u", col_ct="c", rho=1.2, **dims, **kw)
    if kind == "WsRho2PCtFromTwo":
        kw.pop("rho", None)
        a, b = two(WS, P, RHOS, FRHO), two(WS2, CT2, RHOS, FRHO2)
        if order != "sorted":
            a, b = a[a.columns[[2, 0, 3, 1]]], b[b.columns[[1, 3, 2, 0]]]
        return tt.WsRho2PCtFromTwo(src(a, src_kind, order, True, fP), src(b, src_kind, order, True, fct), **dims, **kw)
    if kind == "WsTI2PCtFromTwo":
        a, b = two(WS, P, TIS, FTI), two(WS2, CT2, TIS, FTI2)
        if order != "sorted":
            a, b = a[a.columns[[2, 0, 1]]], b[b.columns[[1, 2, 0]]]
        return tt.WsTI2PCtFromTwo(src(a, src_kind, order, True, fP), src(b, src_kind, order, True, fct), **dims, **kw)
    if kind == "FromLookupTable":
        return tt.FromLookupTable(src(pd.DataFrame(dict(v=WS, p=P, c=CT)), src_kind, order, False, names["P"]), input_vars=[FV.REWS],
                                  varmap={FV.REWS: "v", FV.P: "p", FV.CT: "c"}, **dims, **kw)
    if kind == "FromLookupTableTI":
        a = pd.DataFrame([dict(v=u, ti=t, p=p * FTI(t), c=c * FTI2(t)) for (u, p, c), t in itertools.product(zip(WS, P, CT), TIS)])
        return tt.FromLookupTable(src(a, src_kind, order, False, names["P"]), input_vars=[FV.REWS, FV.TI],
                                  varmap={FV.REWS: "v", FV.TI: "ti", FV.P: "p", FV.CT: "c"}, **dims, **kw)
    if kind == "TBLFile":
        kw.pop("P_nominal", None)
        kw.pop("P_unit", None)
        kw.pop("rho", None)
        f = os.path.join(W.tmpdir(), f"{name}.tbl")
        with open(f, "w") as o:
            o.write("header\n%g %g 0.1 5\n" % (H, D))
            for u, p, c in zip(WS, P, CT):
                o.write("%g %g %g\n" % (u, c, p))
        return tt.TBLFile(f, rho=1.2, **kw)
    raise KeyError(kind)


def interp(x, xs, ys):
    """plain linear interpolation, zero outside"""
    out = []
    for q in x:
        if q < xs[0] or q > xs[-1]:
            out.append(0.0)
            continue
        for k in range(len(xs) - 1):
            if xs[k] <= q <= xs[k + 1]:
                t = (q - xs[k]) / (xs[k + 1] - xs[k])
                out.append(ys[k] * (1 - t) + ys[k + 1] * t)
                break
    return np.array(out)


def expected(kind, pars, wsP, wsct, rho, ti, yawm):
    """power and thrust coefficient"""
    c = np.cos(yawm * np.pi / 180)
    pP, pct = pars.get("p_P", 1.88), pars.get("p_ct", 1.0)
    rr = 1.2 if kind in ("CpCtFile", "CpCtFromTwo", "TBLFile") else None if kind == "WsRho2PCtFromTwo" else pars.get("rho")
    vp = wsP * (1 if rr is None else (rr / rho) ** (1 / 3)) * (1 if pP is None else (c ** pP) ** (1 / 3))
    vc = wsct * (1 if pct is None else (c ** pct) ** 0.5)
    if kind == "WsTI2PCtFromTwo" and rr is not None:
        vc = vc * (rr / rho) ** 0.5
    unit = {"kW": 1.0, "MW": 1e3}[pars.get("P_unit", "kW")] if kind.startswith("Cp") else 1.0
    two_ct = kind in ("PCtFromTwo", "CpCtFromTwo", "WsRho2PCtFromTwo", "WsTI2PCtFromTwo")
    ct = interp(vc, WS2, CT2) if two_ct else interp(vc, WS, CT)
    if kind.startswith("Cp"):
        p = interp(vp, WS, cp()) * 0.5 * 1.2 * np.pi * (D / 2) ** 2 * vp ** 3 / 1e3 / unit
    else:
        p = interp(vp, WS, P)
    if kind == "WsRho2PCtFromTwo":
        p, ct = p * FRHO(rho), ct * FRHO2(rho)
    if kind == "WsTI2PCtFromTwo" or kind == "FromLookupTableTI":
        p, ct = p * FTI(ti), ct * FTI2(ti)
    # reference quantities at the jumps of the table are not comparable
    edge = np.zeros(len(vp), dtype=bool)
    for v, q in ((vp, WS), (vc, WS2 if two_ct else WS)):
        for e in (q[0], q[-1]):
            edge |= (np.abs(v - e) < 1e-3) & (v != e) if kind.startswith("Cp") else (np.abs(v - e) < 1e-9) & (v != e)
    return p, ct, edge


PARS = [dict(), dict(rho=1.225), dict(rho=1.1, p_P=3.0, p_ct=2.0), dict(p_P=None, p_ct=None), dict(p_P=None), dict(p_ct=None, rho=1.225),
        dict(var_ws_P=FV.REWS, var_ws_ct=FV.REWS), dict(var_ws_P=FV.REWS2, var_ws_ct=FV.REWS3, rho=1.0), dict(P_nominal=4321.0), dict(P_unit="MW"),
        dict(var_ws_P=FV.REWS, var_ws_ct=FV.REWS, rho=1.1), dict(var_ws_P=FV.REWS, var_ws_ct=FV.REWS, p_P=None), dict(var_ws_P=FV.REWS, var_ws_ct=FV.REWS, p_P=None, p_ct=None, rho=1.3)]
NAMES = {"x": None, "y2": None, "5MW": 5000.0, "4d2MW": 4200.0, "300kW": 300.0, "0d003GW": 3000.0, "900W": 0.9, "D110": ("D", 110.0), "D99d5": ("D", 99.5), "H95": ("H", 95.0), "H80d25": ("H", 80.25)}


def cases(tier):
    out = []
    for k in KINDS:
        for i, p in enumerate(PARS):
            for s in (("frame", "file") if k != "TBLFile" else ("file",)):
                for o in ("sorted", "rev", "mix"):
                    for yaw in (False, True):
                        if tier == "quick" and o == "mix" and i > 1:
                            continue
                        out.append(dict(kind=k, pars=i, src=s, order=o, yaw=yaw))
    for i in range(len(PARS)):
        for yaw in (False, True):
            for perm in range(9):
                out.append(dict(kind="mixed", pars=i, yaw=yaw, perm=perm))
    out += [dict(kind="names", sep=q) for q in "-_"]
    for k in ("PCtFile", "PCtFromTwo", "CpCtFile", "CpCtFromTwo"):
        for a in (False, True):
            for b in (False, True):
                out.append(dict(kind="cutin", cls=k, ct=a, P=b))
    return out


def qstates():
    rows = [(u, r, t) for u in QWS for r in QRHO for t in QTI]
    a = np.array(rows)
    return a[:, 0], a[:, 1], a[:, 2]


def cutin(case, ctx):
    """smoothing of the jump at the cut-in wind speed"""
    k = case["cls"]
    v = np.concatenate([np.linspace(0.0, 3.0, 61), WS, [3.3, 7.7, 24.0, 26.0]])
    mb = W.mbook()
    lead0 = pd.DataFrame(dict(v=[0.0, 1.0], p=[0.0, 0.0], c=[0.0, 0.0]))
    for lead in (False, True):
        for dup in (False, True):
            mb = W.mbook()
            if lead and k == "PCtFile":
                mb.turbine_types["X0"] = tt.PCtFile(pd.concat([lead0, pd.DataFrame(dict(v=WS, p=P, c=CT))], ignore_index=True), col_ws="v", col_P="p", col_ct="c", D=D, H=H)
            else:
                mb.turbine_types["X0"] = make(k, "frame", "sorted", {}, "t0")
            n = len(v)
            nt = 2 if dup else 1
            spec = w(xy=[[0.0, 5000.0 * i] for i in range(nt)], wakes=[], algo="Iterative", models=["X0"], states=dict(kind="table", ws=list(v), wd=[270.0] * n, rho=[1.2] * n), mbook=mb,
                     algo_kw=dict(mod_cutin=dict(modify_ct=case["ct"], modify_P=case["P"])))
            with W.engine("single"):
                a = W.build(spec)
                for rep in range(2):
                    fr = a.calc_farm()
                    ctx.evals += 1
                    for nm, on, ys in (("P", case["P"], P), ("CT", case["ct"], CT)):
                        xs = WS2 if nm == "CT" and k.endswith("Two") else WS
                        ys = CT2 if nm == "CT" and k.endswith("Two") else ys
                        c0 = xs[0]
                        for i in range(nt):
                            x = fr[nm].to_numpy()[:, i]
                            ctx.trans += n
                            p, ct, __ = expected(k, {}, v, v, 1.2, 0.1, 0.0)
                            e = p if nm == "P" else ct
                            if lead and k == "PCtFile" and not on:
                                e = np.where((v > 1.0) & (v < 3.0), ys[0] * (v - 1.0) / 2.0, e)
                            hi = (v >= c0) if on else np.full(n, True)
                            if not np.allclose(x[hi], e[hi], rtol=1e-3 if k.startswith("Cp") else 1e-9, atol=1e-6):
                                j = np.argmax(~np.isclose(x, e, rtol=1e-3, atol=1e-6) & hi)
                                ctx.fail(f"cutin|{k}|{nm}|curve", f"{case}, lead {lead}: {nm}({v[j]}) = {x[j]}, curve {e[j]}")
                            if on:
                                lo = np.argsort(v[v <= c0], kind="stable")
                                y = x[v <= c0][lo]
                                if y[0] != 0 or np.any(np.diff(y) < -1e-12) or np.max(np.diff(y)) > 0.3 * y[-1]:
                                    ctx.fail(f"cutin|{k}|{nm}|jump", f"{case}, lead {lead}: {nm} below cut-in: {y}")
            ctx.state((k, W.digest(W.obs(fr))))
            ctx.nt((k, str(case), lead, dup))


def names(case, ctx):
    """parameters in file names: all sequences of up to four pieces, at most one per parameter"""
    kind = lambda p: p if NAMES[p] is None else "P" if not isinstance(NAMES[p], tuple) else NAMES[p][0]
    curve = pd.DataFrame(dict(v=WS, p=P, c=CT))
    d = W.tmpdir()
    for n in range(5):
        for ps in itertools.permutations(NAMES, n):
            if len({kind(p) for p in ps}) < n:
                continue
            sep = case["sep"]
            f = os.path.join(d, sep.join(("T1",) + ps) + ".csv")
            exp = dict(D=77.0, H=66.0, P_nominal=None, name="T1")
            for p in ps:
                q = NAMES[p]
                if isinstance(q, tuple):
                    exp[q[0]] = q[1]
                else:
                    exp["name"] += "-" + p
                    if q is not None:
                        exp["P_nominal"] = q
            kw = {k: exp[k] for k in "DH" if not any(p[0] == k for p in ps)}
            t = tt.PCtFile(f, col_ws="v", col_P="p", col_ct="c", **kw)
            got = dict(D=t.D, H=t.H, P_nominal=t.P_nominal, name=t.name)
            if got != exp:
                ctx.fail("names|" + "".join(sorted(kind(p)[0] for p in ps)), f"{os.path.basename(f)}, {kw}: {got}, stated {exp}")
            ctx.evals += 1
            ctx.trans += 4
            ctx.state((sep, ps))
    # two files: what both names share
    for a, b, e in (("P", "ct", "T1-5MW"), ("pow-1", "thr-1", "T1-5MW"), ("PP", "Pt", "T1-5MW-P"), ("v2-P", "v2-ct", "T1-5MW-v2")):
        q = lambda z: src(curve, "file", "sorted", False, case["sep"].join(["T1", "5MW", "D110", "H95"] + z.split("-")) + ".csv")
        t = tt.PCtFromTwo(q(a), q(b), col_ws_P_file="v", col_ws_ct_file="v", col_P="p", col_ct="c")
        if (t.name, t.D, t.H, t.P_nominal) != (e, D, H, 5000.0):
            ctx.fail("names|two", f"{a}, {b}: {(t.name, t.D, t.H, t.P_nominal)}, stated {e}, {D}, {H}, 5000")
    ctx.nt(("names", case["sep"]))


def run(case, ctx):
    if case["kind"] == "names":
        return names(case, ctx)
    if case["kind"] == "cutin":
        return cutin(case, ctx)
    pars = PARS[case["pars"]]
    ws, rho, ti = qstates()
    n = len(ws)
    kinds = [case["kind"]] if case["kind"] != "mixed" else KINDS[case["perm"]:] + KINDS[:case["perm"]]
    mb = W.mbook()
    for i, k in enumerate(kinds):
        src_kind = case.get("src") or ("frame", "file")[(i + case["perm"]) % 2]
        mb.turbine_types[f"X{i}"] = make(k, src_kind, case.get("order", "sorted"), pars, f"t{i}")
    yaw = np.array([0.0, 20.0, -35.0, 5.0])[np.arange(n) % 4] if case["yaw"] else np.zeros(n)
    spec = w(xy=[[0.0, 3000.0 * i] for i in range(len(kinds))], wakes=[], states=dict(kind="table", ws=list(ws), wd=[270.0] * n, ti=list(ti), rho=list(rho),
             profiles={"WS": {"type": "ShearedProfile"}}, fixed={"H": H, "shear": 0.2}), rotor_model="grid4" if pars.get("var_ws_P") else "centre",
             models=[(["sy"] if case["yaw"] else []) + [f"X{i}"] for i in range(len(kinds))])
    if case["yaw"]:
        import foxes.models.turbine_models as tm
        m = tm.SetFarmVars()
        m.add_var(FV.YAWM, np.repeat(yaw[:, None], len(kinds), axis=1))
        mb.turbine_models["sy"] = m
    spec["mbook"] = mb
    # rotor results must reach the curves; request them all
    spec["algo_kw"] = dict(farm_controller="basic_ctrl")
    ctx.evals += 1
    from foxes.models.rotor_models import CentreRotor, GridRotor
    cv = [FV.REWS, FV.REWS2, FV.REWS3, FV.TI, FV.RHO]
    mb.rotor_models["rr"] = GridRotor(2, calc_vars=cv) if pars.get("var_ws_P") else CentreRotor(calc_vars=cv)
    spec["rotor_model"] = "rr"
    with W.engine("single"):
        a = W.build(spec)
        fr = a.calc_farm()
    vP, vct = pars.get("var_ws_P", FV.REWS3), pars.get("var_ws_ct", FV.REWS2)
    for i, k in enumerate(kinds):
        t = mb.turbine_types[f"X{i}"]
        key = f"{k}|{'file' if case.get('src') == 'file' else 'any'}"
        if (t.D, t.H) != (D, H):
            ctx.fail(key + "|dims", f"{case}: {k}: D={t.D}, H={t.H}")
        file = (case.get("src") or ("frame", "file")[(i + case.get("perm", 0)) % 2]) == "file"
        if k == "TBLFile":
            pn = 5000.0
        elif k == "CpCtFile" and file:
            pn = 5000.0
        elif pars.get("P_nominal"):
            pn = 4321.0
        elif file:
            pn = 5000.0
        else:
            pn = {"WsRho2PCtFromTwo": None, "WsTI2PCtFromTwo": None, "CpCtFile": -1, "CpCtFromTwo": -1, "FromLookupTableTI": 5000.0 * FTI(TIS[0])}.get(k, 5000.0)
        if pn == -1:
            pn = np.max(cp() * 0.5 * 1.2 * np.pi * (D / 2) ** 2 * WS ** 3) / 1e3 / (1e3 if pars.get("P_unit") == "MW" else 1)
            # cp interpolation between the nodes
            v = np.linspace(WS[0], WS[-1], 20001)
            pn = np.max(np.interp(v, WS, cp()) * 0.5 * 1.2 * np.pi * (D / 2) ** 2 * v ** 3) / 1e3 / (1e3 if pars.get("P_unit") == "MW" else 1)
        if pn is not None and not np.isclose(t.P_nominal, pn, rtol=1e-6 if not k.startswith("Cp") else 1e-3):
            ctx.fail(key + "|P_nominal", f"{case}: {k}: P_nominal {t.P_nominal}, expected {pn}")
        p, ct, edge = expected(k, pars, fr[vP].to_numpy()[:, i], fr[vct].to_numpy()[:, i], rho, ti, yaw)
        x, y = fr["P"].to_numpy()[:, i], fr["CT"].to_numpy()[:, i]
        cpk = k.startswith("Cp")
        for nm, q, e in (("P", x, p), ("CT", y, ct)):
            bad = ~np.isclose(q, e, rtol=1e-3 if cpk else 1e-9, atol=1e-9 if not cpk else 1e-3) & ~edge
            ctx.trans += n
            if np.any(bad):
                j = int(np.argwhere(bad)[0][0])
                ctx.fail(f"{key}|{nm}", f"{case}: {k}: {nm} = {q[j]} at ws={ws[j]}, rho={rho[j]}, ti={ti[j]}, yawm={yaw[j]}; expected {e[j]}")
        ctx.state((k, W.digest({"P": (("s",), x), "CT": (("s",), y)})))
        ctx.nt((k, str(case)))
