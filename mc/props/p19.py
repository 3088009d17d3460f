"""P19 rotor averages and partial wakes are the stated averages over the rotor that is hit"""
import itertools, math
import numpy as np
from mc import refworld as RW
from mc import ref as R
from mc import worlds as W

ID = "P19"
LEVEL = "model_checking"
ASSUMPTIONS = ["two turbines (wake causing and hit), diameters 70 to 140 m, lateral offsets 0 to 3 diameters including the edges of all branches",
               "weights compared with exact areas within the stated numerical quadrature error (2e-3)"]

ROT = ["centre", "grid4", "grid9", "grid16", "grid25", "grid9_raw", "grid16_raw", "level2", "level3", "level5", "level10", "level5_raw"]
WAKES = [("Jensen", "centre"), ("Jensen", "rotor_points"), ("Jensen", "top_hat"), ("Jensen", "grid9"), ("Bastankhah2014", "centre"), ("Bastankhah2014", "rotor_points"),
         ("Bastankhah2014", "axiwake6"), ("Bastankhah2014", "axiwake5"), ("Jensen", "axiwake6"), ("Bastankhah2014", "grid4"), ("Bastankhah2014", "grid16"), ("TurbOPark", "axiwake7"),
         ("TurbOPark", "rotor_points"), ("Bastankhah2016", "grid9"), ("Bastankhah2016", "centre"), ("Crespo", "top_hat"), ("IEC2019", "top_hat"), ("IEC2005", "grid9"), ("Crespo", "axiwake6")]


def cases(tier):
    out = [dict(k="weights", kind=k, n=n, raw=raw) for k in ("grid", "level") for n in range(1, 8 if tier == "quick" else 15) for raw in (0, 1)]
    out += [dict(k="amb", r=r) for r in ROT]
    out += [dict(k="veer", r=r) for r in ROT]
    out += [dict(k="partial", i=i, d=d) for i in range(len(WAKES)) for d in range(3)]
    out += [dict(k="uni", m=m, y=y) for m in UNI for y in (None, [15.0, -10.0, 0.0])]
    return out


UNI = ["Jensen_linear_k007", "Bastankhah2014_quadratic_k004", "Bastankhah2016_linear_ka04", "TurbOPark_quadratic_ka04", "TurbOParkIX_linear_k004_dx50", "CrespoHernandez_quadratic_ambka02", "IECTI2019_max", "IECTI2005_quadratic",
       "RHB", "Rathmann", "SelfSimilar", "SelfSimilar2020", "VortexSheet", "Jensen_product_k007", "Bastankhah2014_max_ka02"]


def run_uni(case, ctx):
    """in uniform flow, partial wakes that choose their own points give the same whatever the rotor model, all combinations"""
    st = dict(kind="table", ws=[9.0, 6.5, 12.0], wd=[270.0, 266.0, 75.0], ti=[0.06, 0.1, 0.14], rho=[1.2, 1.1, 1.225])
    th = ctx.tier == "thorough"
    wks = [case["m"]] if case["m"] in ("RHB", "Rathmann", "SelfSimilar", "SelfSimilar2020", "VortexSheet") or not ("TI2" in case["m"] or "Crespo" in case["m"]) else ["Jensen_linear_k007", case["m"]]
    if "IX" in case["m"]:
        wks = wks + ["CrespoHernandez_quadratic_ambka02"]
    ind = case["m"] in ("RHB", "Rathmann", "SelfSimilar", "SelfSimilar2020", "VortexSheet")
    for also in ((0, 1) if ind else (0,)):
        w = wks + (["Bastankhah2014_linear_k004"] if also else [])
        for pw in ("centre", "grid4", "grid9", "axiwake6", "top_hat"):
            if (pw == "axiwake6" and (ind or case["m"].startswith("Bastankhah2016"))) or (pw == "top_hat" and not case["m"].startswith(("Jensen", "Crespo", "IEC"))):
                continue
            if pw == "axiwake6" and also:
                continue
            ref = None
            for r in ROT if th or pw == "centre" else ["centre", "grid4", "grid9", "grid16", "level3"]:
                spec = dict(xy=[[0.0, 0.0], [430.0, 30.0], [900.0, -45.0]], models=[["TA"], ["TB"], ["TA"]], states=st, wakes=w, partial_wakes=pw, rotor_model=r, algo="Iterative" if ind else "Downwind")
                if case["y"] is not None:
                    spec["tmodels"] = {"yw": dict(cls="SetFarmVars", vars={"YAWM": [case["y"]] * 3})}
                    spec["models"] = [["yw", "yawm2yaw", t[0]] for t in spec["models"]]
                ctx.evals += 1
                ctx.nt((case["m"], pw, r, also))
                key = f"uni:{case['m']}|{pw}|{r}"
                try:
                    o = W.obs(W.run_farm(spec))
                except Exception as e:
                    ctx.fail(key, f"wakes {w}, partial wakes {pw}, rotor model {r}, yaw {case['y']}: {type(e).__name__}: {str(e)[:200]}")
                    continue
                if ref is None:
                    ref = o
                    ctx.state(W.digest(o))
                    continue
                bad = W.diff(o, ref, rtol=1e-7, atol=1e-7)
                if bad:
                    ctx.fail(key + ":" + bad[0], f"wakes {w}, partial wakes {pw}, rotor model {r} vs rotor model centre in uniform flow: {bad[1]}")


def seg(a, b, y0):
    """integral over y in [a, b] of the disc height above y0 (clipped to [y0, ...]), unit disc"""
    def F(y):
        y = max(-1.0, min(1.0, y))
        return 0.5 * (y * math.sqrt(max(0.0, 1 - y * y)) + math.asin(y))
    lo = math.sqrt(max(0.0, 1 - y0 * y0)) if abs(y0) < 1 else 0.0
    if y0 >= 1:
        return 0.0
    if y0 <= -1:
        return 2 * (F(b) - F(a))
    a1, b1 = max(a, -lo), min(b, lo)
    inner = (F(b1) - F(a1)) - y0 * (b1 - a1) if b1 > a1 else 0.0
    if y0 >= 0:
        return inner
    # below the centre line: full columns where the chord ends above y0
    full = 0.0
    for c, d in ((a, min(b, -lo)), (max(a, lo), b)):
        if d > c:
            full += 2 * (F(d) - F(c))
    return inner + full


def area(a, b, c, d):
    """exact area of the intersection of [a,b]x[c,d] with the unit disc"""
    return max(0.0, seg(a, b, c) - seg(a, b, d))


def run_weights(case, ctx):
    n, raw = case["n"], case["raw"]
    cls = RW.GridRotor if case["kind"] == "grid" else RW.LevelRotor
    m = cls(n, reduce=not raw)
    p = RW._pts(m)
    ctx.evals += 1
    tag = f"weights:{case['kind']}{n}{'_raw' if raw else ''}"
    c = [-1.0 + (i + 0.5) * 2.0 / n for i in range(n)]
    h = 1.0 / n
    if case["kind"] == "grid":
        exp = {(round(y, 9), round(z, 9)): (1.0 if raw else area(y - h, y + h, z - h, z + h)) for y in c for z in c}
    else:
        exp = {(0.0, round(z, 9)): (1.0 if raw else area(-1.0, 1.0, z - h, z + h)) for z in c}
    exp = {k: v for k, v in exp.items() if v > 1e-9}
    tot = sum(exp.values())
    got = {(round(a, 9), round(b, 9)): w for a, b, w in p}
    ctx.trans += len(exp)
    if len(got) != len(p):
        ctx.fail(tag, f"{tag}: repeated rotor points {p}")
    if abs(sum(got.values()) - 1.0) > 1e-12:
        ctx.fail(tag, f"{tag}: weights sum to {sum(got.values())}")
    for k in set(exp) | set(got):
        a, b = exp.get(k, 0.0) / tot, got.get(k, 0.0)
        if abs(a - b) > 2e-3 * max(1.0 / len(exp), a) + 2e-4 * (not raw) / n:
            ctx.fail(tag, f"{tag}: weight at {k} is {b}, area fraction {a}")
    ctx.state((tag, tuple(sorted(got.items()))))
    ctx.nt(tag)


def run_veer(case, ctx):
    """the ambient rotor values are the weighted averages of what the states give at the rotor points, directions as vectors"""
    import pandas as pd
    import foxes.input.states as fst
    from mc.worlds import FV
    n = 24 if ctx.tier == "quick" else 72
    for veer, yaw in itertools.product((15.0, -40.0, 100.0), (None, 20.0)):
        wd0 = 360.0 * np.arange(n) / n + 1.3
        d = {}
        for h, q in ((30.0, 0.0), (100.0, 0.5), (160.0, 1.0)):
            d[f"WS-{h:.0f}"] = 6.0 + 0.1 * np.arange(n) % 3 + 3.0 * q
            d[f"WD-{h:.0f}"] = np.mod(wd0 + q * veer, 360.0)
            d[f"TI-{h:.0f}"] = np.full(n, 0.12 - 0.05 * q)
            d[f"RHO-{h:.0f}"] = np.full(n, 1.25 - 0.1 * q)
        df = pd.DataFrame(d)
        st = lambda: fst.MultiHeightStates(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], heights=[30.0, 100.0, 160.0])
        spec = dict(xy=[[10.0, -20.0]], models=["TA"], rotor_model=case["r"], wakes=["Jensen_linear_k007"])
        if yaw is not None:
            spec.update(models=["yw", "TA"], tmodels={"yw": dict(cls="SetFarmVars", vars={"YAW": [[y] for y in np.mod(wd0 + 0.46 * veer + yaw, 360.0)]}, pre_rotor=True)})
        fr = W.run_farm(dict(spec, states=st()))
        cls = RW.GridRotor if case["r"].startswith("grid") else RW.LevelRotor
        if case["r"] == "centre":
            p = [(0.0, 0.0, 1.0)]
        else:
            m = cls(int(math.isqrt(int(case["r"][4:].split("_")[0]))) if case["r"].startswith("grid") else int(case["r"][5:].split("_")[0]), reduce=not case["r"].endswith("_raw"))
            p = RW._pts(m)
        w = np.array([q[2] for q in p])
        D, H = 100.0, 90.0
        # the rotor plane faces the wind direction at hub height, or the given yaw
        with W.engine("single"):
            a = W.build(dict(spec, states=st()))
            f2 = a.calc_farm()
            hub = a.calc_points(f2, np.array([[10.0, -20.0, H]]), ambient=True)
            wdc = hub["AMB_WD"].to_numpy()[:, 0]
            ax = wdc if yaw is None else fr["YAW"].to_numpy()[:, 0]
            r = np.radians(ax)
            # lateral unit vector of a rotor that faces the wind from direction ax (left, seen downstream)
            lx, ly = -np.cos(r), np.sin(r)
            pts = np.zeros((n, len(p), 3))
            for i, (y, z, _) in enumerate(p):
                pts[:, i, 0] = 10.0 + 0.5 * D * y * lx
                pts[:, i, 1] = -20.0 + 0.5 * D * y * ly
                pts[:, i, 2] = H + 0.5 * D * z
            pr = a.calc_points(f2, pts, ambient=True)
        g = {v: pr["AMB_" + v].to_numpy() for v in ("WS", "WD", "TI", "RHO")}
        t = np.radians(g["WD"])
        u, v = -g["WS"] * np.sin(t), -g["WS"] * np.cos(t)
        um, vm = u @ w, v @ w
        ex = {"AMB_WD": np.degrees(np.arctan2(-um, -vm)) % 360.0, "AMB_TI": g["TI"] @ w, "AMB_RHO": g["RHO"] @ w}
        yw = np.radians(ax)
        s = -u * np.sin(yw)[:, None] - v * np.cos(yw)[:, None]
        ex["AMB_REWS"] = s @ w
        ex["AMB_REWS2"] = np.sqrt((np.sign(s) * s**2) @ w)
        ex["AMB_REWS3"] = np.cbrt((s**3) @ w)
        ctx.evals += 1
        ctx.trans += n * len(p)
        for q, e in ex.items():
            if q not in fr:
                continue
            got = fr[q].to_numpy()[:, 0]
            dd = got - e
            if q == "AMB_WD":
                dd = (dd + 180.0) % 360.0 - 180.0
            if not np.all(np.abs(dd) <= 1e-6 * np.maximum(1.0, np.abs(e))):
                i = int(np.nanargmax(np.abs(dd)))
                ctx.fail(f"veer:{case['r']}|{q}", f"rotor {case['r']}, veer {veer} deg, yaw {yaw}: {q} is {got[i]} for the wind direction {wdc[i]} at hub height, the average over the rotor points is {e[i]}")
        ctx.state((case["r"], veer, yaw, W.digest({k: (("x",), x) for k, x in ex.items()})))
        ctx.nt((case["r"], veer, yaw))


def run(case, ctx):
    if case["k"] == "veer":
        return run_veer(case, ctx)
    if case["k"] == "uni":
        return run_uni(case, ctx)
    th = ctx.tier == "thorough"
    if case["k"] == "weights":
        return run_weights(case, ctx)
    if case["k"] == "amb":
        ws = [9.0, 10.5, 7.0, 5.0]
        st = dict(kind="table", ws=ws, wd=[270.0, 33.0, 181.5, 359.0], ti=[0.06, 0.1, 0.14, 0.08], rho=[1.2, 1.1, 1.3, 1.225])
        for (yaw, ab, al), sh, types in itertools.product(((None, 0, "Downwind"), ([25.0, -10.0], 0, "Downwind"), ([25.0, -10.0], 1, "Downwind"), ([-20.0, 15.0], 0, "Iterative"),
                                                           ([-20.0, 15.0], 1, "Iterative")), (None, (100.0, 0.2), (60.0, -0.1)), (["TA", "TB"], ["TArho", "TB"])):
            c = dict(xy=[[0.0, 0.0], [700.0, 30.0]], types=types, states=st, wakes=[dict(m="Jensen", sup="ws_linear", k=0.05, pw="rotor_points")], rotor=case["r"], yaw=yaw, yaw_abs=ab, shear=sh, algo=al,
                     algo_kw=dict(mod_cutin=dict(modify_ct=False)) if al == "Iterative" else None)
            RW.compare(c, ctx, f"rotor:{case['r']}", [(400.0, 10.0, 60.0), (-100.0, 0.0, 150.0)], rtol=1e-7 if al == "Downwind" else 1e-5)
            ctx.nt((case["r"], str(yaw), ab, al, str(sh), types[0]))
        c = dict(xy=[[0.0, 0.0], [700.0, 30.0]], types=["TA", "TA"], states=dict(st, wd=[270.0] * 4), wakes=[dict(m="Jensen", sup="ws_linear", k=0.05, pw="rotor_points")], rotor=case["r"],
                 yaw=[20.0, 0.0], strict=True)
        RW.compare(c, ctx, "yaw:first-turbine", None, vrs=("REWS", "P", "CT"))
        return
    m, pw = WAKES[case["i"]]
    Ds, Dt = [(100.0, 70.0), (70.0, 140.0), (100.0, 100.0)][case["d"]]
    offs = [0.0, 0.2, 0.37, 0.5, 0.63, 1.0, 1.4, 2.0, 3.0]
    if th:
        offs = sorted(set(offs + [0.05 * k for k in range(61)]))
    dists = [2.0, 5.0, 12.0] if not th else [0.6, 1.0, 2.0, 3.0, 5.0, 8.0, 12.0, 20.0, 40.0]
    w = dict(m=m, pw=pw, sup=("ti_" if m in R.TIW else "ws_") + "linear")
    if m != "IEC2019" and m != "IEC2005":
        w["k"] = 0.04
    wk = [w] if not m in R.TIW else [dict(m="Jensen", sup="ws_linear", k=0.03, pw="centre"), w]
    st = dict(kind="table", ws=[9.0, 11.0], wd=[270.0, 0.0], ti=[0.06, 0.14])
    for d, (x, dh), rot in itertools.product(offs, itertools.product(dists, (0.0, 40.0)), ("centre", "grid9")):
        o = d * Dt
        # state 1 (north wind) hits the third turbine
        xy = [[0.0, 0.0], [x * Ds, o], [-o, -x * Ds]]
        H = [90.0, 90.0 + dh, 90.0 - dh / 2]
        c = dict(xy=xy, types=["TA", "TB", "TA"], states=st, wakes=wk, rotor=rot, H=H, D=[Ds, Dt, Dt])
        RW.compare(c, ctx, f"partial:{m}/{pw}", None)
        ctx.nt((case["i"], case["d"], d, x, dh, rot))
