"""P24 turbine models compute what they state, on final results"""
import itertools
import numpy as np
import pandas as pd
import foxes.variables as FV
import foxes.models.turbine_models as tm
from mc import worlds as W
from mc.catalog import w

ID = "P24"
LEVEL = "model_checking"
ASSUMPTIONS = ["3 turbines in wake interaction, 4 states, every turbine model; all combinations of turbine and state selections; Downwind and iterative algorithm",
               "final results satisfy each model's equation turbine by turbine (rtol 1e-7, iterative 1e-4); set positions, diameters and hub heights equal farms built with them"]
XY = [[460.0, 35.0], [930.0, -45.0], [0.0, 0.0]]  # the downwind orders are not their own inverses
ST = dict(kind="table", ws=[8.0, 9.7, 10.9, 13.6], wd=[270.0, 268.0, 91.0, 272.0], ti=[0.06, 0.1, 0.08, 0.12], rho=[1.2, 1.225, 1.25, 1.18])
SELS = [None, [1, 0, 1, 0], [0, 1, 1, 1]]
N, T = 4, 3
NAN = np.nan


def curveP(u, types="AAA", col="P"):
    cs = [W.curve(t) for t in types]
    return np.stack([np.interp(u[:, i], c["ws"], c[col], left=0, right=0) for i, c in enumerate(cs)], axis=1)


def curveCT(u, types="AAA"):
    return curveP(u, types, "ct")


def sels(tier):
    """per turbine: False (without the model), None (all states), or a state mask"""
    opts = [False] + SELS
    full = list(itertools.product(opts, repeat=3))
    if tier != "quick":
        return full
    return [s for s in full if s[0] == s[1] == s[2] or sum(q is False for q in s) == 2 or s in ((None, False, SELS[1]), (SELS[1], SELS[2], None), (SELS[2], None, SELS[1]), (False, SELS[2], SELS[1]))]


def mask(sel):
    m = np.zeros((N, T), dtype=bool)
    for i, s in enumerate(sel):
        if s is not False:
            m[:, i] = True if s is None else np.array(s, dtype=bool)
    return m


class Res:
    def __init__(self, fr):
        self.fr = fr

    def __getattr__(self, v):
        return self.fr[v].to_numpy()


# ---- models: name -> (model book entries, list before, list after, expectation) ----

MAXP = np.array([[1000.0, NAN, 500.0], [NAN, 700.0, 5600.0], [600.0, 600.0, NAN], [4000.0, 3900.0, 100.0]])
MAXP3 = np.array([[1000.0, 3200.0, 500.0], [2900.0, 4700.0, 1500.0], [4700.0, 4600.0, 4500.0], [4800.0, 3050.0, 4900.0]])
MAXP2 = np.array([[1e9, 1e9, 1e9]] * 3 + [[5300.0, 5300.0, 5300.0]])
SV = np.array([[1.0, NAN, 3.0], [NAN, NAN, NAN], [7.0, 8.0, 9.0], [0.0, 11.0, NAN]])
YM = np.array([[20.0, -15.0, 10.0], [0.0, 5.0, -30.0], [8.0, 8.0, 8.0], [-20.0, 25.0, 0.0]])
THR = np.array([[150e3, 140e3, 130e3], [120e3, 110e3, 100e3], [300e3, 290e3, 80e3], [60e3, 50e3, 40e3]])
RHO3 = np.array([[1.2, 1.1, 1.25], [1.0, 1.15, 1.3], [1.225, 1.2, 1.1], [1.22, 1.05, 1.15]])
TROWS, TCOLS = [0.0, 6.0, 20.0], [0.0, 0.1, 2.0]
TDATA = [[1.0, 0.9, 0.7], [0.95, 0.8, 0.6], [0.9, 0.7, 0.5]]


def setv(v, d, **kw):
    m = tm.SetFarmVars(**kw)
    m.add_var(v, d)
    return m


def bilin(x, y):
    out = np.zeros(x.shape)
    for i in np.ndindex(x.shape):
        a = max(k for k in range(2) if TROWS[k] <= x[i])
        b = max(k for k in range(2) if TCOLS[k] <= y[i])
        s, t = (x[i] - TROWS[a]) / (TROWS[a + 1] - TROWS[a]), (y[i] - TCOLS[b]) / (TCOLS[b + 1] - TCOLS[b])
        out[i] = (1 - s) * ((1 - t) * TDATA[a][b] + t * TDATA[a][b + 1]) + s * ((1 - t) * TDATA[a + 1][b] + t * TDATA[a + 1][b + 1])
    return out


def pmask(P, CT, maxp, u, rho, prated, m, plim=100.0):
    """power limited (or boosted) to maxp at constant efficiency"""
    P, CT = P.copy(), CT.copy()
    for i in np.ndindex(P.shape):
        q = maxp[i]
        if not m[i] or np.isnan(q):
            continue
        pr = prated[i[1]] if isinstance(prated, tuple) else prated
        if not (q < pr and P[i] > q or q > pr and P[i] > pr - plim):
            continue
        a = 0.5 * (1 - np.sqrt(1 - CT[i]))
        cpa = 4 * a * (1 - a) ** 2
        goal = cpa * q / P[i]
        lo, hi = 0.0, 1.0 / 3.0
        if goal > 16 / 27:
            return None, None
        for __ in range(200):
            mid = 0.5 * (lo + hi)
            if 4 * mid * (1 - mid) ** 2 < goal:
                lo = mid
            else:
                hi = mid
        CT[i] = 4 * lo * (1 - lo)
        P[i] = q
    return P, CT


def calc(u, p, o1, o2, st_sel):
    o1, o2 = o1.copy(), o2.copy()
    o1[st_sel], o2[st_sel] = (u * 2 + p)[st_sel], (u * p)[st_sel]
    return o1, o2


def models():
    M = {}

    def put(name, ent, before=(), after=(), chk=None, always=(), first=()):
        M[name] = dict(ent=ent, before=list(before), after=list(after), chk=chk, always=list(always), first=list(first))

    for v, d, nm in (("P", SV, "P"), ("XTRA", SV, "custom"), ("XTRA", 5.0, "scalar"), ("CT", SV / 20, "CT"), ("XTRA", SV[:1], "row")):
        for pre in (False, True):
            if pre and v in ("P", "CT"):
                continue
            D = np.broadcast_to(d, (N, T))

            def chk(r, m, v=v, D=D):
                e = {"P": curveP(r.REWS), "CT": curveCT(r.REWS)}.get(v, np.full((N, T), NAN))
                return {v: np.where(m & ~np.isnan(D), D, e)}
            put(f"setv:{nm}:{pre}", {"m": lambda v=v, d=d, pre=pre: setv(v, d, pre_rotor=pre)}, first=["m"] if pre else (), after=() if pre else ["m"], chk=chk)
    put("calc", {"m": lambda: tm.Calculator([FV.REWS, FV.P, "A1", "A2"], ["A1", "A2"], calc)}, after=["m"],
        chk=lambda r, m: dict(A1=np.where(m, r.REWS * 2 + r.P, NAN), A2=np.where(m, r.REWS * r.P, NAN)))
    put("kTI", {"m": lambda: tm.kTI(kTI=0.3, kb=0.01, k_var="kk")}, after=["m"], chk=lambda r, m: dict(kk=np.where(m, 0.3 * r.TI + 0.01, NAN)))
    put("kTIamb", {"m": lambda: tm.kTI(kTI=0.5, ti_var=FV.AMB_TI, k_var="kk")}, after=["m"], chk=lambda r, m: dict(kk=np.where(m, 0.5 * r.AMB_TI, NAN)))
    put("kTIval", {"m": lambda: tm.kTI(kTI=0.5, ti_val=0.2, k_var="kk")}, after=["m"], chk=lambda r, m: dict(kk=np.where(m, 0.1, NAN)))
    put("kTIfdata", {"s": lambda: setv("kTI", np.array([[0.1, 0.2, 0.3]])), "m": lambda: tm.kTI(k_var="kk")}, always=["s"], after=["m"],
        chk=lambda r, m: dict(kk=np.where(m, np.array([[0.1, 0.2, 0.3]]) * r.TI, NAN)))
    put("kTIkb", {"s": lambda: setv("kTI", np.array([[0.1, 0.2, 0.3]])), "s2": lambda: setv("kb", np.array([[0.01, 0.0, 0.03]])), "m": lambda: tm.kTI(k_var="kk")}, always=["s", "s2"], after=["m"],
        chk=lambda r, m: dict(kk=np.where(m, np.array([[0.1, 0.2, 0.3]]) * r.TI + np.array([[0.01, 0.0, 0.03]]), NAN)))
    put("kTIkbown", {"s2": lambda: setv("kb", np.array([[0.01, 0.0, 0.03]])), "m": lambda: tm.kTI(kTI=0.4, kb=0.002, k_var="kk")}, always=["s2"], after=["m"], chk=lambda r, m: dict(kk=np.where(m, 0.4 * r.TI + 0.002, NAN)))
    for nm, D in (("pmask", MAXP), ("pboost", MAXP2)):
        def chk(r, m, D=D):
            p, ct = pmask(curveP(r.REWS), curveCT(r.REWS), D, r.REWS, r.RHO, 5000.0, m)
            return {} if p is None else dict(P=p, CT=ct)
        put(nm, {"s": lambda D=D: setv("MAXP", D), "m": lambda: tm.PowerMask()}, always=["s"], after=["m"], chk=chk)
    for typ in ("ABA", "BAA", "AAB", "BBA"):
        def chk(r, m, typ=typ):
            p, ct = pmask(curveP(r.REWS, typ), curveCT(r.REWS, typ), MAXP3, r.REWS, r.RHO, tuple(5000.0 if q == "A" else 3000.0 for q in typ), m)
            return {} if p is None else dict(P=p, CT=ct)
        put("pmask" + typ, {"s": lambda: setv("MAXP", MAXP3), "m": lambda: tm.PowerMask()}, always=["s"], after=["m"], chk=chk)
        M["pmask" + typ]["types"] = typ
    tab = pd.DataFrame(TDATA, index=TROWS, columns=TCOLS)
    put("tfac", {"m": lambda: tm.TableFactors(tab.copy(), "REWS", "TI", ["P", "CT"])}, after=["m"],
        chk=lambda r, m: dict(P=np.where(m, bilin(r.REWS, r.TI), 1.0) * curveP(r.REWS), CT=np.where(m, bilin(r.REWS, r.TI), 1.0) * curveCT(r.REWS)))
    put("thrust", {"s": lambda: setv("T", THR), "m": lambda: tm.Thrust2Ct()}, always=["s"], after=["m"],
        chk=lambda r, m: dict(CT=np.where(m, 2 * THR / (r.RHO * np.pi * 50.0 ** 2 * r.REWS ** 2), curveCT(r.REWS))))
    put("thrustrho", {"s": lambda: setv("T", THR), "s2": lambda: setv("RHO", RHO3), "m": lambda: tm.Thrust2Ct()}, always=["s", "s2"], after=["m"],
        chk=lambda r, m: dict(RHO=RHO3, CT=np.where(m, 2 * THR / (RHO3 * np.pi * 50.0 ** 2 * r.REWS ** 2), curveCT(r.REWS))))
    put("yawonce", {"m": lambda: setv("YAW", np.mod(np.array(ST["wd"])[:, None] + YM, 360.0), pre_rotor=True, once=True)}, first=["m"],
        chk=lambda r, m: dict(YAW=np.mod(r.WD + np.where(m, YM, 0.0), 360.0)))
    M["yawonce"]["eng"] = ("numpy", dict(chunk_size_states=2))
    lt = pd.DataFrame([dict(u=a, TI=b, c=d) for a, row in zip(TROWS, TDATA) for b, d in zip(TCOLS, row)])
    put("lookup", {"m": lambda: tm.LookupTable(lt.iloc[::-1], input_vars=["REWS", "TI"], output_vars=["CT"], varmap={"REWS": "u", "CT": "c"})}, after=["m"],
        chk=lambda r, m: dict(CT=np.where(m, bilin(r.REWS, r.TI), curveCT(r.REWS))))
    put("yawm2yaw", {"s": lambda: setv("YAWM", YM), "m": lambda: tm.YAWM2YAW()}, first=["s*", "m"],
        chk=lambda r, m: dict(YAW=np.mod(r.WD + np.where(m, YM, 0.0), 360.0)))
    put("yaw2yawm", {"s": lambda: setv("YAW", np.mod(np.array(ST["wd"])[:, None] + YM, 360.0)), "z": lambda: setv("YAWM", 0.0), "m": lambda: tm.YAW2YAWM()}, first=["s*", "z*", "m"],
        chk=lambda r, m: dict(YAWM=np.where(m, YM, 0.0), YAW=np.mod(np.array(ST["wd"])[:, None] + YM, 360.0)))
    put("yawpre", {"m": lambda: setv("YAW", np.mod(np.array(ST["wd"])[:, None] + YM, 360.0), pre_rotor=True)}, first=["m"],
        chk=lambda r, m: dict(YAW=np.mod(r.WD + np.where(m, YM, 0.0), 360.0)))
    put("yawnone", {"m": lambda: setv("XX", 1.0)}, after=["m"], chk=lambda r, m: dict(YAW=r.WD))
    put("hubh", {"m": lambda: tm.RotorCentreCalc({"UH": FV.WS, "TH": FV.TI, "DH": FV.WD})}, after=["m"],
        chk=lambda r, m: dict(UH=np.where(m, r.REWS, NAN), TH=np.where(m, r.TI, NAN), DH=np.where(m, r.WD, NAN)))
    return M


SECT = {  # name -> (rows: turbine, (wd range), (rews range), value)
    "simple": [(0, (260, 280), (0, 99), 400.0), (2, (80, 100), (0, 99), 500.0)],
    "wrap": [(0, (265, 95), (0, 99), 400.0), (1, (350, 20), (0, 99), 1.0), (2, (269, 269), (0, 99), 1.0)],
    "full": [(0, (0, 360), (0, 99), 400.0), (1, (-180, 180), (0, 99), 450.0), (2, (90, 450), (9.0, 99), 300.0)],
    "speed": [(0, (0, 360.0), (9.0, 10.0), 400.0), (1, (200, 300), (0, 99), 333.0)],
    "over": [(0, (260, 280), (0, 99), 400.0), (0, (265, 269), (0, 99), 300.0), (1, (-95, -80), (0, 99), 200.0)],
    "wake": [(1, (0, 359.99), (8.5, 12.0), 400.0), (2, (0, 359.99), (9.0, 11.0), 350.0)],
}


def sector(name, r, m, rv):
    D = np.full((N, T), NAN)
    for t, (a, b), (c, d), val in SECT[name]:
        for s in range(N):
            x = float(np.mod(getattr(r, rv[0])[s, t], 360.0))
            full = b - a >= 360
            aa, bb = a % 360, b % 360
            ok = full or (aa <= x < bb if aa <= bb else (x >= aa or x < bb))
            if ok and c <= getattr(r, rv[1])[s, t] < d and m[s, t]:
                D[s, t] = val
    return D


def cases(tier):
    out = [dict(model=k, algo=a) for k in models() for a in ("Downwind", "Iterative")]
    out += [dict(model="sector", sec=k, algo=a, rv=rv, col=c) for k in SECT for a in ("Downwind", "Iterative") for rv in ("REWS", "AMB_REWS") for c in ("names", "inds")]
    out += [dict(model="geom", var=v, algo=a, moved=q) for v in ("X", "Y", "XY", "D", "H", "DH", "all") for a in ("Downwind", "Iterative") for q in ("full", "part", "two")]
    return out


def lists(M, sel):
    out, mks = [], []
    for s, ty in zip(sel, M.get("types", "AAA")):
        fl = [x.rstrip("*") for x in M["first"] if x.endswith("*") or s is not False]
        seq = fl + ["T" + ty, "kTI_02"] + list(M["always"]) + (list(M["after"]) if s is not False else [])
        out.append(seq)
        mks.append([np.array(s, dtype=bool) if x == "m" and s not in (None, False) else None for x in seq])
    return out, mks


def farm(seqs, mks, xy=XY, **kw):
    from foxes.core import Turbine, WindFarm
    f = WindFarm(name="f")
    for i, q in enumerate(seqs):
        f.add_turbine(Turbine(xy=np.array(xy[i], dtype=float), turbine_models=q, name=f"T{i}", models_state_sel=mks[i],
                              D=kw.get("D", [None] * 3)[i], H=kw.get("H", [None] * 3)[i]), verbosity=0)
    return f


def run(case, ctx):
    if case["model"] == "geom":
        return geom(case, ctx)
    tol = dict(rtol=1e-7, atol=1e-9) if case["algo"] == "Downwind" else dict(rtol=1e-4, atol=1e-5)
    sec = case["model"] == "sector"
    M = dict(ent={}, first=[], always=["s"], after=["m", "PM"]) if sec else models()[case["model"]]
    if sec:
        rv = ("WD", case["rv"])
    for sel in sels(ctx.tier):
        mb = W.mbook()
        if sec:
            rows = SECT[case["sec"]]
            d = pd.DataFrame([{"tname": f"T{t}", "ti": t, "WD_min": a, "WD_max": b, f"{rv[1]}_min": c, f"{rv[1]}_max": e, "MAXP": v} for t, (a, b), (c, e), v in rows])
            mb.turbine_models["s"] = setv("MAXP", np.full((N, T), NAN))
            mb.turbine_models["m"] = tm.SectorManagement(d, range_vars=list(rv), target_vars=["MAXP"], **(dict(col_tnames="tname") if case["col"] == "names" else dict(col_tinds="ti")))
            mb.turbine_models["PM"] = tm.PowerMask()
        for k, f in M["ent"].items():
            mb.turbine_models[k] = f()
        seqs, mks = lists(M, sel)
        if not any("m" in q for q in seqs) and sec:
            seqs = [q[:3] for q in seqs]
        spec = w(farm_obj=farm(seqs, mks), states=ST, algo=case["algo"], mbook=mb, wakes=["Bastankhah2014_linear_k004", "IECTI2019_max"])
        if case["model"] == "hubh":
            spec["partial_wakes"] = "centre"
        ctx.evals += 1
        m = mask(sel)
        en, ekw = M.get("eng", ("single", {}))
        with W.engine(en, **ekw):
            fr = W.build(spec).calc_farm()
        r = Res(fr)
        if sec:
            D = sector(case["sec"], r, m, rv)
            P, CT = pmask(curveP(r.REWS), curveCT(r.REWS), r.MAXP if "MAXP" in fr else D, r.REWS, r.RHO, 5000.0, np.array([[s is not False for s in sel]] * N))
            exp = dict(MAXP=D, P=P, CT=CT) if m.any() else {}
        else:
            exp = M["chk"](r, m)
        for v, e in exp.items():
            ctx.trans += N * T
            if v not in fr:
                if not np.all(np.isnan(e)):
                    ctx.fail(f"{case['model']}|missing", f"{case}, {sel}: no result variable {v}")
                continue
            x = fr[v].to_numpy()
            x = np.broadcast_to(x, (N, T))
            q = np.isclose(x, e, equal_nan=True, **tol)
            if v in ("YAW", "WD"):
                q |= np.isclose(np.mod(x - e + 180, 360), 180.0, rtol=0, atol=1e-5)
            if not np.all(q):
                i = tuple(int(y) for y in np.argwhere(~q)[0])
                key = f"{case['model']}|{case.get('sec', '')}|{v}"
                if sec and v == "MAXP":
                    Da = sector(case["sec"], r, m, ("AMB_WD", "AMB_REWS"))
                    if np.all(q | (np.isnan(e) & np.isclose(x, Da))):
                        key = "sector:sticky"
                ctx.fail(key, f"{case}, selections {sel}: {v}{list(i)} = {x[i]}, expected {e[i]}")
        ctx.state((case["model"], W.digest(W.obs(fr))))
        ctx.nt((str(case), str(sel)))


GX = dict(X=np.array([[0.0, 460.0, 930.0], [50.0, 500.0, 880.0], [-100.0, 430.0, 940.0], [10.0, 600.0, 1200.0]]),
          Y=np.array([[0.0, 35.0, -45.0], [20.0, -35.0, 5.0], [10.0, 0.0, 30.0], [-60.0, 60.0, 0.0]]),
          D=np.array([[100.0, 90.0, 80.0], [110.0, 100.0, 120.0], [70.0, 90.0, 100.0], [100.0, 100.0, 60.0]]),
          H=np.array([[90.0, 90.0, 90.0], [70.0, 95.0, 120.0], [100.0, 80.0, 60.0], [110.0, 110.0, 90.0]]))


def geom(case, ctx):
    """positions, diameters and hub heights set per state equal one farm per state"""
    vs = dict(all="XYDH").get(case["var"], case["var"])
    tol = dict(rtol=1e-9, atol=1e-9) if case["algo"] == "Downwind" else dict(rtol=2e-5, atol=1e-5)
    for given in (False, True):
        base = dict(X=np.array(XY)[:, 0], Y=np.array(XY)[:, 1], D=np.array([95.0, 105.0, 100.0]) if given else np.full(3, 100.0), H=np.array([85.0, 90.0, 95.0]) if given else np.full(3, 90.0))
        data, pre = {}, {}
        for v in vs:
            d = GX[v].copy()
            if case["moved"] != "full":
                d[:, 1] = NAN
                d[2, :] = NAN
            data[v] = d
            if case["moved"] == "two":
                # a first model sets other values, the second one replaces some of them
                pre[v] = GX[v][::-1].copy()
                pre[v][1, 2] = NAN
        for eng in (("single", {}), ("numpy", dict(chunk_size_states=2)), ("numpy", dict(chunk_size_states=1))):
            mb = W.mbook()
            m = tm.SetFarmVars()
            for v in vs:
                m.add_var({"X": FV.X, "Y": FV.Y, "D": FV.D, "H": FV.H}[v], data[v])
            mb.turbine_models["m"] = m
            mb.turbine_models["m0"] = m0 = tm.SetFarmVars()
            for v, d in pre.items():
                m0.add_var({"X": FV.X, "Y": FV.Y, "D": FV.D, "H": FV.H}[v], d)
            kw = dict(D=list(base["D"]), H=list(base["H"])) if given else {}
            f = farm([["TA", "kTI_02"] + ["m0"] * (len(pre) > 0) + ["m"]] * 3, [None] * 3, **kw)
            common = dict(states=ST, algo=case["algo"], wakes=["Bastankhah2014_linear_k004", "IECTI2019_max"], partial_wakes="centre" if ctx.tier == "quick" else None)
            spec = w(farm_obj=f, mbook=mb, **common)
            ctx.evals += 1
            with W.engine(eng[0], **eng[1]):
                fr = W.build(spec).calc_farm()
                pts = np.array([[700.0, 10.0, 90.0], [1500.0, 0.0, 80.0]])
            for s in range(N):
                b = {v: np.where(np.isnan(pre[v][s]), base[v], pre[v][s]) if v in pre else base[v] for v in "XYDH"}
                g = {v: np.where(np.isnan(data[v][s]), b[v], data[v][s]) if v in data else b[v] for v in "XYDH"}
                f1 = farm([["TA", "kTI_02"]] * 3, [None] * 3, xy=np.stack([g["X"], g["Y"]], axis=1), D=list(g["D"]), H=list(g["H"]))
                st = {k: ([x[s]] if isinstance(x, list) else x) for k, x in ST.items()}
                with W.engine("single"):
                    f2 = W.build(w(farm_obj=f1, **dict(common, states=st))).calc_farm()
                for v in ("X", "Y", "D", "H", "REWS", "P", "CT", "TI", "AMB_REWS"):
                    if v not in fr:
                        continue
                    ctx.trans += T
                    x, e = fr[v].to_numpy()[s], f2[v].to_numpy()[0]
                    if not np.allclose(x, e, **tol):
                        ctx.fail(f"geom|{case['var']}|{v}", f"{case}, D and H given: {given}, {eng}: state {s}: {v} = {x}, expected {e} from a farm built with these values")
            ctx.state((str(case), W.digest(W.obs(fr))))
            ctx.nt((str(case), given, str(eng)))
