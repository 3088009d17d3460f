"""P31 model names mean the stated models with the stated parameters"""
import itertools
import numpy as np
import pandas as pd
import foxes.models as fm
import foxes.variables as FV
import foxes.constants as FC
from foxes.models import ModelBook
from mc import worlds as W
from mc.catalog import w as world, XY3, ST4, TS4, TSD

ID = "P31"
LEVEL = "model_checking"
ASSUMPTIONS = ["a three turbine world per kind of model; every template of the book with all forms of its wake parameter, superposition names and encoded numbers",
               "reference: the same world with the model object constructed by the check from the documented class and parameters"]
NUM = {"004": 0.04, "02": 0.2, "0075": 0.075, "1": 1.0, "0.5": None, "0": 0.0, "05": 0.5}
KF = [("_k004", dict(k=0.04)), ("_k0075", dict(k=0.075)), ("_k01", dict(k=0.1)), ("_ka02", dict(ka=0.2)), ("_ka1", dict(ka=1.0)), ("_ka04_kb001", dict(ka=0.4, kb=0.01)), ("_ka0.3_kb002", None), ("_ambka04", dict(ka=0.4, ti_var=FV.AMB_TI)), ("_ambka02_kb002", dict(ka=0.2, kb=0.02, ti_var=FV.AMB_TI)), ("", {})]
KF = [q for q in KF if q[1] is not None]
WS = ["linear", "linear_lim", "linear_amb", "linear_amb_lim", "linear_loc", "linear_loc_lim", "quadratic", "quadratic_lim", "quadratic_amb", "quadratic_amb_lim", "quadratic_loc", "quadratic_loc_lim", "cubic", "cubic_amb", "cubic_loc", "cubic_loc_lim",
      "quartic", "quartic_amb", "quartic_loc", "quartic_loc_lim", "max", "max_amb", "max_loc", "max_loc_lim", "product", "product_lim"]
TI = ["linear", "quadratic", "cubic", "quartic", "max"]
wm, ws, ind = fm.wake_models, fm.wake_superpositions, fm.wake_models.induction


def sup(name):
    """the superposition object a name stands for"""
    lim = dict(lim_low=1e-4) if name.endswith("_lim") else {}
    b = name[:-4] if lim else name
    amb, loc = b.endswith("_amb"), b.endswith("_loc")
    b = b[:-4] if amb or loc else b
    if b == "product":
        return ws.WSProduct(**lim)
    p = {"cubic": dict(pow=3), "quartic": dict(pow=4)}.get(b, {})
    base = {"linear": "WSLinear", "quadratic": "WSQuadratic", "max": "WSMax"}.get(b, "WSPow")
    if loc:
        return getattr(ws, base + "Local")(**p, **lim)
    return getattr(ws, base)(scale_amb=amb, **p, **lim)


def tisup(name):
    p = {"cubic": dict(pow=3), "quartic": dict(pow=4)}.get(name, {})
    return getattr(ws, {"linear": "TILinear", "quadratic": "TIQuadratic", "max": "TIMax"}.get(name, "TIPow"))(superp_to_amb="quadratic", **p)


WIND = {"Jensen": ("JensenWake", dict(induction="Betz")), "Bastankhah2014": ("Bastankhah2014", dict(sbeta_factor=0.2, induction="Madsen")), "Bastankhah2014B": ("Bastankhah2014", dict(sbeta_factor=0.2, induction="Betz")),
        "Bastankhah025": ("Bastankhah2014", dict(sbeta_factor=0.25, induction="Madsen")), "Bastankhah025B": ("Bastankhah2014", dict(sbeta_factor=0.25, induction="Betz")),
        "Bastankhah2016": ("Bastankhah2016", dict(induction="Madsen")), "Bastankhah2016B": ("Bastankhah2016", dict(induction="Betz")),
        "TurbOPark": ("TurbOParkWake", dict(induction="Madsen")), "TurbOParkB": ("TurbOParkWake", dict(induction="Betz"))}
IND0 = ["RHB", "VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020"]


def table():
    """(source, name, constructor, world options)"""
    T = []
    K = dict(models=["TA", "kTI_02"])
    for t, (c, kw) in WIND.items():
        for i, s in enumerate(WS):
            for kn, kk in KF:
                if t != "Jensen" and i not in (0, 6, 15, 20) or t == "Jensen" and i not in (0, 4) and kn not in ("_k0075", "_ambka04"):
                    continue
                T.append(("wake_models", f"{t}_{s}{kn}", lambda c=c, kw=kw, s=s, kk=kk: getattr(wm.wind, c)("X_sup", **kw, **kk), dict(K, sup=s)))
    for s, (kn, kk), dx in itertools.product(("linear", "quadratic_loc"), [q for q in KF if "ka" not in q[1]], ("50", "120.5")):
        T.append(("wake_models", f"TurbOParkIX_{s}{kn}_dx{dx}", lambda kk=kk, dx=dx: wm.wind.TurbOParkWakeIX("X_sup", dx=float(dx), **kk), dict(K, sup=s, heavy=True)))
    for s, (kn, kk) in itertools.product(TI, KF):
        T.append(("wake_models", f"CrespoHernandez_{s}{kn}", lambda kk=kk: wm.ti.CrespoHernandezTIWake("X_sup", use_ambti=False, **kk), dict(K, tisup=s)))
        for y in ("2019", "2005"):
            T.append(("wake_models", f"IECTI{y}k_{s}{kn}", lambda y=y, kk=kk: wm.ti.IECTIWake("X_sup", iec_type=y, opening_angle=None, **kk), dict(K, tisup=s)))
    for s, y in itertools.product(TI, ("2019", "2005")):
        T.append(("wake_models", f"IECTI{y}_{s}", lambda y=y: wm.ti.IECTIWake("X_sup", iec_type=y), dict(K, tisup=s)))
    for c, n in zip(("RankineHalfBody", "VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020"), IND0):
        T.append(("wake_models", n, lambda c=c: getattr(ind, c)(), dict(K, ind=True)))
        if n != "RHB":
            for s in ("linear", "quadratic", "max"):
                T.append(("wake_models", f"{n}_{s}", lambda c=c: getattr(ind, c)(superposition="X_sup"), dict(K, ind=True, sup=s)))
    for s in WS:
        T.append(("wake_superpositions", f"ws_{s}", lambda s=s: sup(s), {}))
    for s in TI:
        T.append(("wake_superpositions", f"ti_{s}", lambda s=s: tisup(s), {}))
    R = fm.rotor_models
    T.append(("rotor_models", "centre", lambda: R.CentreRotor(), {}))
    for n in (2, 3, 4, 7):
        for raw in ("", "_raw"):
            T.append(("rotor_models", f"grid{n * n}{raw}", lambda n=n, raw=raw: R.GridRotor(n, reduce=not raw), {}))
            T.append(("rotor_models", f"level{n}{raw}", lambda n=n, raw=raw: R.LevelRotor(n, reduce=not raw), {}))
    PW = fm.partial_wakes
    for n, c in (("rotor_points", PW.RotorPoints), ("top_hat", PW.PartialTopHat), ("centre", PW.PartialCentre)):
        T.append(("partial_wakes", n, c, {}))
    for n in (1, 4, 6, 11):
        T.append(("partial_wakes", f"axiwake{n}", lambda n=n: PW.PartialAxiwake(n), {}))
        T.append(("partial_wakes", f"grid{n * n}", lambda n=n: PW.PartialGrid(n), {}))
    F = fm.wake_frames
    T.append(("wake_frames", "rotor_wd", lambda: F.RotorWD(), {}))
    T.append(("wake_frames", "rotor_wd_farmo", lambda: F.FarmOrder(), {}))
    for kn, kk in KF:
        T.append(("wake_frames", f"yawed{kn}", lambda kk=kk: F.YawedWakes(**kk), dict(yaw=True)))
    for s in ("50", "200", "12.5"):
        T.append(("wake_frames", f"streamlines_{s}", lambda s=s: F.Streamlines2D(float(s)), {}))
    T.append(("wake_frames", "timelines", lambda: F.Timelines(), dict(ts=True)))
    T.append(("wake_frames", "dyn_wakes", lambda: F.DynamicWakes(), dict(ts=True)))
    T.append(("wake_frames", "seq_dyn_wakes", lambda: F.SeqDynamicWakes(), dict(ts=True, seq=True)))
    for s, m in (("30s", 0.5), ("1min", 1.0), ("2.5min", 2.5), ("90s", 1.5)):
        T.append(("wake_frames", f"timelines_{s}", lambda m=m: F.Timelines(dt_min=m), dict(tab=True)))
        T.append(("wake_frames", f"seq_dyn_wakes_{s}", lambda m=m: F.SeqDynamicWakes(dt_min=m), dict(tab=True, seq=True)))
    for s, m in (("1km", 1.0), ("700m", 0.7), ("0.45km", 0.45), ("5000m", 5.0)):
        T.append(("wake_frames", f"dyn_wakes_{s}", lambda m=m: F.DynamicWakes(max_length_km=m), dict(ts=True)))
    G = fm.ground_models
    T.append(("ground_models", "no_ground", lambda: G.NoGround(), {}))
    T.append(("ground_models", "ground_mirror", lambda: G.GroundMirror(), {}))
    for h in (150, 200.5, 500):
        T.append(("ground_models", f"blh_mirror_h{h}", lambda h=h: G.WakeMirror([0.0, float(h)]), {}))
    A = fm.axial_induction
    T.append(("axial_induction", "Betz", lambda: A.BetzAxialInduction(), {}))
    T.append(("axial_induction", "Madsen", lambda: A.MadsenAxialInduction(), {}))
    M = fm.turbine_models
    T.append(("turbine_models", "kTI", lambda: M.kTI(), dict(pre="ktvars")))
    T.append(("turbine_models", "kTI_amb", lambda: M.kTI(ti_var=FV.AMB_TI), dict(pre="ktvars")))
    for n, v in (("02", 0.2), ("04", 0.4), ("0375", 0.375), ("1", 1.0), ("0", 0.0)):
        T.append(("turbine_models", f"kTI_{n}", lambda v=v: M.kTI(kTI=v), {}))
        T.append(("turbine_models", f"kTI_amb_{n}", lambda v=v: M.kTI(kTI=v, ti_var=FV.AMB_TI), {}))
        for m, u in (("004", 0.04), ("01", 0.1)):
            T.append(("turbine_models", f"kTI_{n}_{m}", lambda v=v, u=u: M.kTI(kTI=v, kb=u), {}))
            T.append(("turbine_models", f"kTI_amb_{n}_{m}", lambda v=v, u=u: M.kTI(kTI=v, kb=u, ti_var=FV.AMB_TI), {}))
    T.append(("turbine_models", "thrust2ct", lambda: M.Thrust2Ct(), dict(pre="thrust")))
    T.append(("turbine_models", "PMask", lambda: M.PowerMask(), dict(pre="maxp")))
    T.append(("turbine_models", "yaw2yawm", lambda: M.YAW2YAWM(), dict(pre="yaw")))
    T.append(("turbine_models", "yawm2yaw", lambda: M.YAWM2YAW(), dict(pre="yawm")))
    T.append(("turbine_models", "hubh_data", lambda: M.RotorCentreCalc({"WD_HH": FV.WD, "WS_HH": FV.WS, "TI_HH": FV.TI, "RHO_HH": FV.RHO}), dict(hub=True)))
    Y = fm.turbine_types
    T.append(("turbine_types", "null_type", lambda: Y.NullType(), dict(D=[80.0, 90.0, 100.0], H=[70.0, 80.0, 90.0])))
    for n, f in (("NREL5MW", "NREL-5MW-D126-H90.csv"), ("DTU10MW", "DTU-10MW-D178d3-H119.csv"), ("IEA15MW", "IEA-15MW-D240-H150.csv"), ("IWT7.5MW", "IWT-7d5MW-D164-H100.csv")):
        T.append(("turbine_types", n, lambda f=f: Y.PCtFile(f, rho=1.225), {}))
    T.append(("point_models", "tke2ti", lambda: fm.point_models.TKE2TI(), dict(pm="TKE")))
    T.append(("point_models", "ustar2ti", lambda: fm.point_models.Ustar2TI(), dict(pm="USTAR")))
    return T


TABLE = table()
BLOCK = 12
BAD = {"wake_models": ["", "Jensen", "Jensen_", "jensen_linear_k004", "Bastankhah_linear", "Bastankhah2014C_linear_k004", "Bastankhah2017_linear_k004", "TurbOParkIX_linear_k004", "TurbOParkIX_linear_k004_dxa", "IECTI2019", "IECTI2018_max", "RHB_linear", "RHBx", "XJensen_linear_k004", "Vortexsheet", "Rathmann2"],
       "rotor_models": ["center", "grid", "grid9a", "grid9_ra", "grid9_rawx", "level3_raw2", "levelx", "level", "gridx", "xgrid9"], "partial_wakes": ["axiwake", "axiwakex", "gridx", "tophat", "Centre"], "wake_frames": ["rotor", "yawed_q004", "yawed_kx", "streamlines", "streamlines_a", "timeline", "timelines_", "xyawed"],
       "ground_models": ["blh_mirror", "blh_mirror_hx", "ground", "mirror"], "wake_superpositions": ["ws_lin", "linear", "ti_foo", "ws_"], "turbine_models": ["kTI_", "kTI_x", "kTI_amb_x", "kTI_02_x", "KTI", "pmask"], "turbine_types": ["NREL", "nrel5mw", "IWT7,5MW"], "axial_induction": ["betz", "Foo"], "point_models": ["tke", "TKE2TI"]}


def cases(tier):
    out = [dict(k="same", i=i, n=BLOCK) for i in range(0, len(TABLE), BLOCK)]
    out += [dict(k="bad", s=s) for s in BAD] + [dict(k="obj"), dict(k="get"), dict(k="defaults")]
    hist = sorted(set((t[0]) for t in TABLE))
    out += [dict(k="hist", s=s, o=o) for s in hist for o in (("all", "rev") if tier == "quick" else ("all", "rev", "odd", "half"))]
    return out


def spec_for(src, name, opt, explicit=None):
    """world in which the model shows; explicit: object to use instead of the name"""
    mb = W.mbook()
    s = world(models=list(opt.get("models", ["TA", "kTI_02"])), wakes=["Bastankhah2014_linear_k004", "CrespoHernandez_max_k004"])
    s.pop("algo", None)
    use = name
    if explicit is not None:
        use = "X_model"
        if "sup" in opt:
            mb.wake_superpositions["X_sup"] = sup(opt["sup"])
        if "tisup" in opt:
            mb.wake_superpositions["X_sup"] = tisup(opt["tisup"])
        if src != "wake_superpositions":
            mb.sources[src][use] = explicit()
    s["mbook"] = mb
    kw = {}
    if src == "wake_models":
        s["wakes"] = [use, "Jensen_quadratic_k005"] if "tisup" in opt or opt.get("ind") else [use, "IECTI2019_max"]
        if opt.get("ind"):
            s["algo"] = "Iterative"
        if "tisup" in opt:
            s["wakes"] = [use, "Bastankhah2014_linear_ka02"]
    elif src == "wake_superpositions":
        if explicit is not None:
            mb.wake_superpositions["ws_X" if name.startswith("ws") else "ti_X"] = explicit()
            n = "X"
        else:
            n = name[3:]
        s["xy"] = [[0.0, 0.0], [130.0, 5.0], [260.0, -5.0]]
        s["wakes"] = [f"Bastankhah2014_{n}_k004"] if name.startswith("ws") else ["Jensen_linear_k004", f"CrespoHernandez_{n}_k004"]
    elif src == "rotor_models":
        s["rotor_model"] = use
        s["states"] = dict(ST4, kind="table", profiles={FV.WS: "ShearedProfile"}, fixed={FV.SHEAR: 0.25, FV.H: 90.0} if False else {FV.SHEAR: 0.25})
        s["states"] = None
        import foxes.input.states as fst
        df = W.sframe(ST4)
        s["states"] = fst.StatesTable(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], var2col={FV.WS: "ws", FV.WD: "wd", FV.TI: "ti", FV.RHO: "rho", FV.WEIGHT: "weight"}, fixed_vars={FV.SHEAR: 0.25, "H": 90.0}, profiles={FV.WS: "ShearedProfile"})
    elif src == "partial_wakes":
        s["partial_wakes"] = use
        if name == "top_hat":
            s["wakes"] = ["Jensen_linear_k004"]
        elif name.startswith("axi") or name == "top_hat":
            s["wakes"] = ["Bastankhah2014_linear_k004"]
        s["rotor_model"] = "grid4"
    elif src == "wake_frames":
        s["wake_frame"] = use
        if opt.get("yaw"):
            mb.turbine_models["set"] = W.make_tmodel(dict(cls="SetFarmVars", vars={"YAWM": [[20.0, -15.0, 5.0]] * 4}, pre_rotor=True))
            s["models"] = ["TA", "kTI_02", "set", "yawm2yaw"]
        if opt.get("ts"):
            s["states"], s["algo"] = dict(TSD), "Iterative"
        if opt.get("tab"):
            t = dict(TSD)
            t["kind"] = "table"
            s["states"], s["algo"] = t, "Iterative"
        if opt.get("seq"):
            s["algo"] = "Sequential"
    elif src == "ground_models":
        s["ground_models"] = use
    elif src == "axial_induction":
        mb.wake_models["W"] = fm.wake_models.wind.Bastankhah2014("ws_linear", k=0.04, induction=use)
        s["wakes"] = ["W"]
    elif src == "turbine_models":
        pre = opt.get("pre")
        v = {"ktvars": {FV.KTI: [[0.2, 0.3, 0.5]] * 4, FV.KB: [[0.0, 0.01, 0.02]] * 4}, "maxp": {FV.MAX_P: [[1000.0, 600.0, 300.0]] * 4}, "yaw": {"YAW": [[255.0, 93.0, 3.0]] * 4}, "yawm": {"YAWM": [[20.0, -15.0, 5.0]] * 4}}.get(pre)
        s["models"] = ["TA", use]
        s["wakes"] = ["Bastankhah2014_linear"] if name.startswith("kTI") else s["wakes"]
        s["wakes"] = s["wakes"] + ["CrespoHernandez_max_k004"] if name.startswith("kTI") else s["wakes"]
        if pre == "ktvars":
            mb.turbine_models["set"] = W.make_tmodel(dict(cls="SetFarmVars", vars=v, pre_rotor=False))
            s["models"] = ["TA", "set", use]
        elif pre == "thrust":
            import foxes.core as fc
            mb.turbine_models["thr"] = fm.turbine_models.SetFarmVars(pre_rotor=False)
            mb.turbine_models["thr"].add_var("T", np.array([[150.0, 200.0, 250.0]] * 4))
            s["models"] = ["TA", "thr", use]
        elif pre == "maxp":
            mb.turbine_models["set"] = W.make_tmodel(dict(cls="SetFarmVars", vars=v, pre_rotor=True))
            s["models"] = ["set", "TA", use]
        elif pre in ("yaw", "yawm"):
            mb.turbine_models["set"] = W.make_tmodel(dict(cls="SetFarmVars", vars=v, pre_rotor=True))
            s["models"] = ["set", use, "TA"]
            s["wake_frame"] = "yawed_k004"
        elif opt.get("hub"):
            s["rotor_model"] = "grid9"
    elif src == "turbine_types":
        s["models"] = [use, "kTI_02"]
        s["xy"] = [[2.0 * a for a in p] for p in XY3]
        if "D" in opt:
            s["D"], s["H"] = opt["D"], opt["H"]
            s["models"] = [[use, "setct"], ["TA"], [use, "setct"]]
            mb.turbine_models["setct"] = W.make_tmodel(dict(cls="SetFarmVars", vars={"CT": [[0.7, 0.7, 0.7]] * 4, "P": [[10.0, 10.0, 10.0]] * 4}, pre_rotor=False))
    elif src == "point_models":
        import foxes.input.states as fst
        df = W.sframe(ST4)
        df["q"] = [0.3, 0.5, 0.7, 0.2] if opt["pm"] == "TKE" else [0.25, 0.4, 0.5, 0.2]
        from foxes.core import ExtendedStates
        base = fst.StatesTable(df, output_vars=[FV.WS, FV.WD, FV.RHO, opt["pm"]], var2col={FV.WS: "ws", FV.WD: "wd", FV.RHO: "rho", opt["pm"]: "q", FV.WEIGHT: "weight"})
        s["states"] = ExtendedStates(base, [mb.point_models[use]])
    return s


def result(src, name, opt, explicit=None):
    s = spec_for(src, name, opt, explicit)
    return run_spec(s)


def run_spec(s):
    skip = ("tmodels", "tmodel_sels")
    if s.get("algo") == "Sequential":
        with W.engine():
            a = W.build(s)
            rs = [W.obs(r, skip=skip) for r in a]
        return {f"{v}:{k}": q for k, r in enumerate(rs) for v, q in r.items()}
    if s["xy"][1][0] == 130.0:
        n = 4
        x, y = np.meshgrid(np.linspace(-200.0, 500.0, 15), np.linspace(-60.0, 60.0, 5))
        pts = np.broadcast_to(np.stack([x.ravel(), y.ravel(), np.full(x.size, 90.0)], axis=-1)[None], (n, x.size, 3))
        r, q = W.run_both(s, pts)
        return dict(W.obs(r, skip=skip), **{f"p:{v}": z for v, z in W.obs(q).items()})
    return W.obs(W.run_farm(s), skip=skip)


def run(case, ctx):
    globals()["k_" + case["k"]](case, ctx)


def k_same(case, ctx):
    for src, name, ctor, opt in TABLE[case["i"]:case["i"] + case["n"]]:
        ctx.evals += 1
        try:
            ref = result(src, name, opt, ctor)
        except Exception as e:
            ctx.counters["not runnable"] = ctx.counters.get("not runnable", 0) + 1
            import os
            if os.environ.get("MC_LOUD"):
                import traceback
                traceback.print_exc()
                print("NOT RUNNABLE", src, name)
            try:
                result(src, name, opt)
            except Exception:
                continue
            ctx.fail(f"{src}|runs", f"{name}: runs by name, but not the explicit object: {type(e).__name__}: {e}")
            continue
        try:
            got = result(src, name, opt)
        except Exception as e:
            ctx.fail(f"{src}|crash", f"{name}: {type(e).__name__}: {str(e)[:300]}")
            continue
        d = W.diff(got, ref, rtol=1e-12, atol=1e-12)
        if d:
            ctx.fail(f"{src}|differs", f"{name}: {d}")
        ctx.trans += 2
        ctx.state(W.digest(got))
        ctx.nt((src, name))


def k_hist(case, ctx):
    """whatever was taken from the book before, a name means the same"""
    src = case["s"]
    T = [t for t in TABLE if t[0] == src]
    order = {"all": T, "rev": T[::-1], "odd": T[1::2], "half": T[len(T) // 2:]}[case["o"]]
    probe = T[:: max(1, len(T) // 6)]
    for _, name, ctor, opt in probe:
        s = spec_for(src, name, opt)
        for t in order:
            s["mbook"].sources[src][t[1]]
        ctx.evals += 1
        try:
            ref = result(src, name, opt, ctor)
        except Exception:
            continue
        try:
            got = run_spec(s)
        except Exception as e:
            ctx.fail(f"hist|crash", f"{name} after {len(order)} other {src}: {type(e).__name__}: {str(e)[:300]}")
            continue
        d = W.diff(got, ref, rtol=1e-12, atol=1e-12)
        if d:
            ctx.fail("hist|differs", f"{name} after {len(order)} other {src}: {d}")
        ctx.trans += len(order)
        ctx.state((src, case["o"], name))
    ctx.nt((src, case["o"]))


def k_bad(case, ctx):
    """names that fit nothing are rejected, and asking for them leaves the book alone"""
    src = case["s"]
    mb = ModelBook()
    before = sorted(mb.sources[src].keys())
    for n in BAD[src]:
        ctx.evals += 1
        for how in ("item", "get_item", "get"):
            try:
                m = mb.sources[src][n] if how == "item" else mb.sources[src].get_item(n, prnt=False) if how == "get_item" else mb.get(src, n)
                ctx.fail(f"bad|{src}", f"'{n}' ({how}) gives {m}")
                break
            except KeyError:
                pass
            except Exception as e:
                ctx.fail(f"bad|error|{src}", f"'{n}' ({how}): {type(e).__name__}: {e}")
                break
        ctx.state((src, n))
    if sorted(mb.sources[src].keys()) != before:
        ctx.fail("bad|changed", f"{src}: {sorted(set(mb.sources[src].keys()) ^ set(before))}")
    ctx.nt(src)


def k_obj(case, ctx):
    """one object per name and book, own objects per book, and known as contained"""
    a, b = ModelBook(), ModelBook()
    for src, name, _, _ in TABLE:
        ctx.evals += 1
        if name not in a.sources[src]:
            ctx.fail("obj|contains", f"{src}: '{name}' is not contained")
            continue
        x = a.sources[src][name]
        if x is not a.sources[src][name] or x is not a[src][name] or x is not a.get(src, name):
            ctx.fail("obj|new", f"{src}: '{name}' gives a new object at each call")
        if x is b.sources[src][name]:
            ctx.fail("obj|shared", f"{src}: '{name}' is shared between model books")
        ctx.state((src, name))
    for src in a.sources:
        if set(a.sources[src].keys()) != set(b.sources[src].keys()):
            ctx.fail("obj|keys", src)
        own = object()
        a.sources[src]["my model"] = own
        if a.sources[src]["my model"] is not own or "my model" in b.sources[src]:
            ctx.fail("obj|own", src)
    ctx.nt("obj")


def k_get(case, ctx):
    """models made on demand from a class name"""
    todo = [("wake_models", "JensenWake", dict(superposition="ws_linear", k=0.0625), ("wake_models", "Jensen_linear_k00625", {})), ("rotor_models", "GridRotor", dict(n=3), ("rotor_models", "grid9", {})),
            ("partial_wakes", "PartialAxiwake", dict(n=7), ("partial_wakes", "axiwake7", {})), ("wake_frames", "Streamlines2D", dict(step=80.0), ("wake_frames", "streamlines_80", {})),
            ("ground_models", "WakeMirror", dict(heights=[0.0, 300.0]), ("ground_models", "blh_mirror_h300", {})), ("turbine_models", "kTI", dict(kTI=0.3), ("turbine_models", "kTI_03", {})),
            ("turbine_types", "PCtFile", dict(data_source="NREL-5MW-D126-H90.csv", rho=1.225), ("turbine_types", "NREL5MW", {}))]
    for src, cls, kw, same in todo:
        ctx.evals += 1
        try:
            ref = result(same[0], same[1], same[2])
            s = spec_for(src, "fresh", {} if src != "partial_wakes" else {})
            if src == "partial_wakes":
                s["wakes"] = ["Bastankhah2014_linear_k004"]
            mb = s["mbook"]
            m = mb.get(src, "fresh", cls, **kw)
            if mb.get(src, "fresh", cls, **{k: v for k, v in kw.items()}) is not m or mb.sources[src]["fresh"] is not m:
                ctx.fail("get|stored", f"{src}: {cls}")
            if src == "turbine_models":
                s["wakes"] = ["Bastankhah2014_linear", "CrespoHernandez_max_k004"]
            got = run_spec(s)
        except Exception as e:
            ctx.fail("get|crash", f"{src}: {cls}: {type(e).__name__}: {e}")
            continue
        d = W.diff(got, ref, rtol=1e-12, atol=1e-12)
        if d:
            ctx.fail("get|differs", f"{src} {cls}({kw}) and '{same[1]}': {d}")
        mb = ModelBook()
        for bad in ("NoSuchClass", "object", "ModelBook"):
            try:
                m = mb.get(src, "fresh", bad)
                ctx.fail("get|class", f"{src}: class '{bad}' gives {m}")
            except (KeyError, TypeError):
                if "fresh" in mb.sources[src].keys():
                    ctx.fail("get|left", f"{src}: a failed request leaves an entry")
        ctx.state((src, cls))
    mb = ModelBook(Pct_file="NREL-5MW-D126-H90.csv")
    s = spec_for("turbine_types", "Pct", {})
    s["mbook"] = mb
    ref = spec_for("turbine_types", "NREL5MW", {})
    ref["mbook"].turbine_types["NREL5MW"] = fm.turbine_types.PCtFile("NREL-5MW-D126-H90.csv")
    d = W.diff(run_spec(s), run_spec(ref), rtol=1e-12)
    if d:
        ctx.fail("get|Pct_file", d)
    ctx.nt("get")


def k_defaults(case, ctx):
    """the partial wakes chosen when none are given"""
    mb = ModelBook()
    for src, name, _, opt in TABLE:
        if src != "wake_models":
            continue
        m = mb.wake_models[name]
        cls = type(m).__name__
        want = "grid9" if opt.get("ind") or cls == "Bastankhah2016" else "top_hat" if cls in ("JensenWake", "CrespoHernandezTIWake", "IECTIWake") else "axiwake6"
        ctx.evals += 1
        if mb.default_partial_wakes(m) != want:
            ctx.fail("defaults", f"{name}: {mb.default_partial_wakes(m)}, expected {want}")
        ctx.state(name)
    ctx.nt("defaults")
