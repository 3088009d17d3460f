"""P39 windIO inputs run exactly what they state"""
import contextlib, copy, io, itertools, os, sys, traceback, types
from pathlib import Path
import numpy as np
import pandas as pd
import xarray as xr
import yaml
import foxes
import foxes.variables as FV
import foxes.constants as FC
import foxes.input.states as FS
import foxes.models as fm
from foxes.algorithms import Downwind, Iterative
from foxes.config import config
from foxes.core import WindFarm, Turbine, has_engine, reset_engine
from foxes.input.yaml import run_dict
from foxes.input.yaml.windio import read_windio, foxes_windio
from foxes.models import ModelBook
from foxes.utils import Dict
from mc import worlds as W

ID = "P39"
LEVEL = "model_checking"
ASSUMPTIONS = ["farms of up to 5 turbines, up to 4 states; every stated value of every windIO entry that foxes knows, all pairs of entries combined, the wake model entries in full",
               "the windIO package itself (yaml includes) is not installed here; its reader is replaced by plain yaml",
               "power curves are taken in the unit of the numbers given; entries that foxes declares as ignored are not judged"]

T = [0, 1, 2, 3]
WS, WD, TI = [8.0, 10.5, 12.0, 6.5], [270.0, 265.0, 92.0, 272.5], [0.05, 0.09, 0.12, 0.07]
HS = [35.0, 90.0, 160.0]
WSH = [[7.0, 8.0, 8.9], [9.5, 10.5, 11.0], [11.0, 12.0, 12.5], [6.0, 6.5, 7.2]]
WDH = [[268.0, 270.0, 273.0], [262.0, 265.0, 269.0], [90.0, 92.0, 95.0], [271.0, 272.5, 274.0]]
TIH = [[0.07, 0.06, 0.05], [0.1, 0.09, 0.08], [0.12, 0.11, 0.1], [0.07, 0.06, 0.05]]
MOL = [100.0, -80.0, 0.0, 400.0]
Z0 = [0.1, 0.05, 0.01, 0.2]


def ser(x, dims=("time",), arr=False):
    return dict(data=np.array(x) if arr else x, dims=list(dims))


def frame(**k):
    d = pd.DataFrame(k, index=k.pop("index", T))
    d.index.name = "Time"
    return d


TS = dict(output_vars=["WS", "WD", "TI", "RHO"], fixed_vars=dict(RHO=1.225))


def ts(prof=None, extra=(), index=T, **k):
    fix = dict(RHO=1.225, TI=0.05)
    fix.update({v: x for v, x in k.items() if np.isscalar(x)})
    cols = {v: x for v, x in k.items() if not np.isscalar(x)}
    fix = {v: x for v, x in fix.items() if v not in cols}
    d = pd.DataFrame(cols, index=index)
    d.index.name = "Time"
    return FS.Timeseries(d, output_vars=["WS", "WD", "TI", "RHO"] + list(extra), fixed_vars=fix, profiles=prof or {})


class Levels(FS.MultiHeightStates):
    pass


def mh(ws, wd, ti):
    d = pd.DataFrame(index=T)
    d.index.name = "Time"
    fix = dict(RHO=1.225)
    for n, x in (("WS", ws), ("WD", wd), ("TI", ti)):
        if np.isscalar(x):
            fix[n] = x
        elif np.ndim(x) == 1:
            d[n] = x
        else:
            for i, h in enumerate(HS):
                d[f"{n}-{int(h)}"] = np.array(x)[:, i]
    return FS.MultiHeightTimeseries(d, output_vars=["WS", "WD", "TI", "RHO"], heights=HS, fixed_vars=fix)


tt = lambda x: np.array(x).T.tolist()
TIMES = np.array(["2020-01-01T00:00", "2020-01-01T00:10", "2020-01-01T00:20", "2020-01-01T00:30"], dtype="datetime64[ns]")
# name: (wind_resource, the states)
RES = {
    "ts": (dict(time=T, wind_speed=ser(WS), wind_direction=ser(WD), turbulence_intensity=ser(TI)), lambda: ts(WS=WS, WD=WD, TI=TI)),
    "stamps": (dict(time=TIMES, wind_direction=ser(WD, arr=True), wind_speed=ser(WS, arr=True), turbulence_intensity=ser(TI, arr=True)), lambda: ts(WS=WS, WD=WD, TI=TI, index=TIMES)),
    "noti": (dict(time=T, wind_speed=ser(WS), wind_direction=ser(WD)), lambda: ts(WS=WS, WD=WD, TI=0.05)),
    "ti": (dict(time=T, wind_speed=ser(WS), wind_direction=ser(WD), turbulence_intensity=0.11), lambda: ts(WS=WS, WD=WD, TI=0.11)),
    "z0only": (dict(time=T, z0=0.1, wind_speed=ser(WS), wind_direction=ser(WD), turbulence_intensity=ser(TI)), lambda: ts(WS=WS, WD=WD, TI=TI)),
    "honly": (dict(time=T, reference_height=70.0, wind_speed=ser(WS), wind_direction=ser(WD), turbulence_intensity=ser(TI)), lambda: ts(WS=WS, WD=WD, TI=TI)),
    "abl": (dict(time=T, wind_speed=ser(WS), wind_direction=ser(WD), turbulence_intensity=ser(TI), z0=0.1, reference_height=70.0), lambda: ts(dict(WS="ABLLogNeutralWsProfile"), WS=WS, WD=WD, TI=TI, z0=0.1, H=70.0)),
    "ablz": (dict(time=T, wind_speed=ser(WS), wind_direction=ser(WD), turbulence_intensity=0.08, z0=ser(Z0), reference_height=120.0), lambda: ts(dict(WS="ABLLogNeutralWsProfile"), WS=WS, WD=WD, TI=0.08, z0=Z0, H=120.0)),
    "ablm": (dict(time=T, wind_speed=ser(WS), wind_direction=ser(WD), turbulence_intensity=ser(TI), LMO=ser(MOL), z0=0.1, reference_height=70.0), lambda: ts(dict(WS="ABLLogWsProfile"), ["MOL"], WS=WS, WD=WD, TI=TI, z0=0.1, H=70.0, MOL=MOL)),
    "ablmc": (dict(time=T, wind_speed=ser(WS), wind_direction=ser(WD), LMO=150.0, z0=ser(Z0), reference_height=70.0), lambda: ts(dict(WS="ABLLogWsProfile"), ["MOL"], WS=WS, WD=WD, TI=0.05, z0=Z0, H=70.0, MOL=150.0)),
    "mh": (dict(time=T, height=HS, wind_speed=ser(WSH, ("time", "height")), wind_direction=ser(WDH, ("time", "height")), turbulence_intensity=ser(TIH, ("time", "height"))), lambda: mh(WSH, WDH, TIH)),
    "mht": (dict(time=T, height=HS, wind_speed=ser(tt(WSH), ("height", "time")), wind_direction=ser(WDH, ("time", "height")), turbulence_intensity=ser(TI)), lambda: mh(WSH, WDH, TI)),
    "mhc": (dict(height=HS, time=T, wind_direction=ser(tt(WDH), ("height", "time")), wind_speed=ser(tt(WSH), ("height", "time")), turbulence_intensity=0.1), lambda: mh(WSH, WDH, 0.1)),
    "mhn": (dict(height=HS, time=T, wind_direction=ser(WD), wind_speed=ser(WSH, ("time", "height"))), lambda: mh(WSH, WD, 0.05)),
    "single": (dict(wind_speed=9.0, wind_direction=266.0, turbulence_intensity=0.09), lambda: FS.SingleStateStates(ws=9.0, wd=266.0, ti=0.09, rho=1.225)),
    "single0": (dict(time=0, wind_speed=9.0, wind_direction=266.0), lambda: FS.SingleStateStates(ws=9.0, wd=266.0, ti=0.05, rho=1.225)),
    "singlep": (dict(wind_speed=9.0, wind_direction=266.0, turbulence_intensity=0.09, z0=0.07, reference_height=60.0), lambda: FS.SingleStateStates(ws=9.0, wd=266.0, ti=0.09, rho=1.225, profiles=dict(WS="ABLLogNeutralWsProfile"), z0=0.07, H=60.0)),
    "ignore": (dict(time=T, k=ser([1.0] * 4), fc=1e-4, epsilon=0.3, ABL_height=ser([500.0] * 4), wind_speed=ser(WS), wind_direction=ser(WD), turbulence_intensity=ser(TI)), lambda: ts(WS=WS, WD=WD, TI=TI)),
    "short": (dict(time=[7], wind_speed=ser([9.5]), wind_direction=ser([271.0]), turbulence_intensity=ser([0.07])), lambda: ts(WS=[9.5], WD=[271.0], TI=[0.07], index=[7])),
}

G = [0.0, 3.0, 5.0, 8.0, 11.0, 14.0, 25.0]
GC = [0.0, 3.0, 6.0, 9.0, 12.0, 25.0]
PW = [0.0, 0.0, 300.0, 1200.0, 3000.0, 5000.0, 5000.0]
CT = [0.0, 0.85, 0.82, 0.78, 0.5, 0.08]
CP = [0.0, 0.2, 0.42, 0.46, 0.38, 0.25, 0.05]
PERF = dict(P=dict(power_curve=dict(power_values=PW, power_wind_speeds=G), Ct_curve=dict(Ct_values=CT, Ct_wind_speeds=GC)),
            Cp=dict(Cp_curve=dict(Cp_values=CP, Cp_wind_speeds=G), Ct_curve=dict(Ct_values=CT, Ct_wind_speeds=GC)),
            P2=dict(power_curve=dict(power_values=[0.6 * x for x in PW], power_wind_speeds=G), Ct_curve=dict(Ct_values=[0.8 * x for x in CT], Ct_wind_speeds=GC)))
SIZE = dict(P=(90.0, 100.0), Cp=(100.0, 120.0), P2=(70.0, 80.0))


def wtt(k):
    return dict(name="type " + k, hub_height=SIZE[k][0], rotor_diameter=SIZE[k][1], performance=PERF[k])


REWS = {1: "REWS", 2: "REWS2", 3: "REWS3"}


def ftt(k, ep, ec):
    h, d = SIZE[k]
    c = pd.DataFrame(dict(ws=GC, ct=PERF[k]["Ct_curve"]["Ct_values"]))
    if k == "Cp":
        return fm.turbine_types.CpCtFromTwo(pd.DataFrame(dict(ws=G, cp=CP)), c, col_ws_cp_file="ws", col_ws_ct_file="ws", col_cp="cp", col_ct="ct", H=h, D=d)
    return fm.turbine_types.PCtFromTwo(pd.DataFrame(dict(ws=G, P=PERF[k]["power_curve"]["power_values"])), c, col_ws_P_file="ws", col_ws_ct_file="ws", col_P="P", col_ct="ct", H=h, D=d, var_ws_ct=REWS[ec], var_ws_P=REWS[ep], rho=1.225)


X, Y = [0.0, 420.0, 900.0], [0.0, 30.0, -20.0]
X2, Y2 = [300.0, 1400.0], [500.0, 15.0]
# farm layouts: (layouts section, types of the turbines in order)
LAY = {
    "list": ([dict(coordinates=dict(x=X, y=Y))], [0] * 3, X, Y),
    "arr": ([dict(coordinates=dict(x=np.array(X), y=np.array(Y)))], [0] * 3, X, Y),
    "two": ([dict(coordinates=dict(x=X, y=Y)), dict(coordinates=dict(x=X2, y=Y2))], [0] * 5, X + X2, Y + Y2),
    "dict": (dict(second=dict(coordinates=dict(x=X2, y=Y2)), first=dict(coordinates=dict(x=X, y=Y))), [0] * 5, X2 + X, Y2 + Y),
    "map": ([dict(coordinates=dict(x=X, y=Y), turbine_types=[0, 1, 0])], [0, 1, 0], X, Y),
    "map2": ([dict(coordinates=dict(x=X, y=Y), turbine_types=[1, 0, 1]), dict(coordinates=dict(x=X2, y=Y2))], [1, 0, 1, 0, 0], X + X2, Y + Y2),
    "one": ([dict(coordinates=dict(x=[50.0], y=[-20.0]))], [0], [50.0], [-20.0]),
}
TYPES = {"P": ["P"], "Cp": ["Cp"], "P,P2": ["P", "P2"], "Cp,P": ["Cp", "P"], "{P}": ["P"], "{P2,Cp}": ["P2", "Cp"]}

KS = {"kb": dict(k_a=0.0, k_b=0.045), "none": dict(k_a=None, k_b=0.03), "ka": dict(k_a=0.5), "kab": dict(k_a=0.38, k_b=0.004), "kamb": dict(k_a=0.4, k_b=0.01, free_stream_ti=True), "kfree": dict(k_a=0.4, free_stream_ti=False)}


def kpars(n):
    k = KS[n]
    if not k["k_a"]:
        return dict(k=k["k_b"])
    return dict(k=None, ka=k["k_a"], kb=k.get("k_b", 0.0), ti_var="AMB_TI" if k.get("free_stream_ti") else "TI")


DEF = {"Jensen": fm.wake_models.wind.JensenWake, "Bastankhah2014": fm.wake_models.wind.Bastankhah2014, "Bastankhah2016": fm.wake_models.wind.Bastankhah2016, "TurbOPark": fm.wake_models.wind.TurbOParkWake}
SUPW = {"Linear": "ws_linear", "Squared": "ws_quadratic", "Product": "ws_product"}
IND = {None: "Betz", "1D": "Betz", "Madsen": "Madsen"}
TW = {"CrespoHernandez": (fm.wake_models.ti.CrespoHernandezTIWake, {}), "IEC-TI-2019": (fm.wake_models.ti.IECTIWake, dict(opening_angle=None, iec_type="2019"))}
BLK = {"RankineHalfBody": fm.wake_models.induction.RankineHalfBody, "Rathmann": fm.wake_models.induction.Rathmann, "SelfSimilarityDeficit": fm.wake_models.induction.SelfSimilar, "SelfSimilarityDeficit2020": fm.wake_models.induction.SelfSimilar2020}
# rotor averaging: background, wakes, grid, n -> rotor model, partial wakes
RA = {"absent": (None, None, None), "cc": (("center", "centre", "grid", 4), "centre", "centre"), "cn": (("centre", "none", "grid", 3), "centre", None), "nn": (("none", "None", "grid", 3), "centre", None),
      "Nauto": ((None, "auto", "grid", 3), "centre", None), "gg": (("grid", "grid", "grid", 3), "grid9", "rotor_points"), "cg": (("center", "grid", "grid", 4), "centre", "grid16"),
      "ca": (("center", "grid", "axiwake5", 2), "centre", "axiwake5"), "gc": (("grid", "center", "grid", 2), "grid4", "centre"), "lv": (("level5", "rotor_points", "grid", 4), "level5", "rotor_points"),
      "gt": (("grid", "axiwake6", "grid", 4), "grid16", "axiwake6")}
EXPO = {"11": (1, 1), "32": (3, 2), "23": (2, 3), "13": (1, 3)}
SUPT = {"Linear": "ti_linear", "Squared": "ti_quadratic"}

DIMS = dict(res=list(RES), tt=list(TYPES), lay=list(LAY), wd=list(DEF), k=list(KS), key=["wind_deficit_model", "wake_model"], ceps=["-", "0.22"], eff=["-", True, False], sup=list(SUPW), ind=list(IND),
            ti=["absent", "None", "none", "CrespoHernandez", "IEC-TI-2019"], tk=["-", "kab", "kb"], ts=list(SUPT), bl=["absent", "None", "none"] + list(BLK), ra=list(RA), ex=list(EXPO),
            df=["absent", "None", "Bastankhah2016"], fm=["absent", "foxes", "pywake"], v=[0, 1, 3])
BASE = dict(res="ts", tt="P,P2", lay="map", wd="Bastankhah2014", k="kb", key="wind_deficit_model", ceps="-", eff="-", sup="Linear", ind="Madsen", ti="CrespoHernandez", tk="-", ts="Squared", bl="absent", ra="cc", ex="11", df="absent", fm="absent", v=0)


def valid(x):
    if x["lay"].startswith("map") and len(TYPES[x["tt"]]) < 2:
        return False
    if x["ceps"] != "-" and x["wd"] in ("Jensen", "Bastankhah2016"):
        return False
    if x["df"] == "Bastankhah2016" and x["wd"] not in ("Bastankhah2016", "Bastankhah2014"):
        return False
    if x["ra"] == "absent" and x["ex"] != "11":
        return False
    return True


def wio(x):
    """the windIO dict of a world"""
    t = [wtt(k) for k in TYPES[x["tt"]]]
    farm = dict(name="farm", layouts=LAY[x["lay"]][0])
    if len(t) > 1 or x["tt"].startswith("{"):
        farm["turbine_types"] = {i: q for i, q in enumerate(t)}
    else:
        farm["turbines"] = t[0]
    wd = dict(name=x["wd"], wake_expansion_coefficient=KS[x["k"]])
    if x["ceps"] != "-":
        wd["ceps"] = float(x["ceps"])
    if x["eff"] != "-":
        wd["use_effective_ws"] = x["eff"]
    ana = {x["key"]: wd, "superposition_model": dict(ws_superposition=x["sup"], ti_superposition=x["ts"])}
    if x["ind"] is not None:
        ana["axial_induction_model"] = x["ind"]
    if x["ti"] != "absent":
        ana["turbulence_model"] = dict(name=x["ti"])
        if x["tk"] != "-":
            ana["turbulence_model"]["wake_expansion_coefficient"] = KS[x["tk"]]
    if x["bl"] != "absent":
        ana["blockage_model"] = dict(name=x["bl"])
    if x["df"] != "absent":
        ana["deflection_model"] = dict(name=x["df"])
    if x["ra"] != "absent":
        b, wk, g, n = RA[x["ra"]][0]
        ep, ec = EXPO[x["ex"]]
        ana["rotor_averaging"] = dict(grid=g, n_x_grid_points=n, n_y_grid_points=n, background_averaging=b, wake_averaging=wk, wind_speed_exponent_for_power=ep, wind_speed_exponent_for_ct=ec)
    att = dict(analysis=ana)
    if x["fm"] != "absent":
        att["flow_model"] = dict(name=x["fm"])
    return copy.deepcopy(dict(name="w", site=dict(name="site", boundaries=dict(polygons=[]), energy_resource=dict(name="er", wind_resource=RES[x["res"]][0])), wind_farm=farm, attributes=att))


def mkalgo(x):
    """the same by the classes"""
    mb = ModelBook()
    ep, ec = EXPO[x["ex"]]
    for k in TYPES[x["tt"]]:
        mb.turbine_types["my" + k] = ftt(k, ep, ec)
    _, tys, xs, ys = LAY[x["lay"]]
    farm = WindFarm()
    for a, b, t in zip(xs, ys, tys):
        farm.add_turbine(Turbine(xy=np.array([a, b]), turbine_models=["my" + TYPES[x["tt"]][t]]), verbosity=0)
    ind = IND[x["ind"]]
    wk = dict(kpars(x["k"]), induction=ind, superposition=SUPW[x["sup"]] + ("_amb" if x["eff"] is False and x["sup"] != "Product" else ""))
    if x["ceps"] != "-":
        wk["sbeta_factor"] = float(x["ceps"])
    mb.wake_models["mywd"] = DEF[x["wd"]](**wk)
    wms = ["mywd"]
    if x["ti"] in TW:
        c, kw = TW[x["ti"]]
        mb.wake_models["myti"] = c(**kpars(x["k"] if x["tk"] == "-" else x["tk"]), induction=ind, superposition=SUPT[x["ts"]], **kw)
        wms.append("myti")
    A = Downwind
    if x["bl"] in BLK:
        mb.wake_models["mybl"] = BLK[x["bl"]](induction=ind)
        wms.append("mybl")
        A = Iterative
    kw = {}
    if x["df"] == "None":
        kw["wake_frame"] = "rotor_wd"
    elif x["df"] != "absent":
        mb.wake_frames["mydf"] = fm.wake_frames.YawedWakes(induction=ind)
        kw["wake_frame"] = "mydf"
    _, r, p = RA[x["ra"]]
    if r is not None:
        kw["rotor_model"] = r
    if p is not None:
        kw["partial_wakes"] = p
    return A(farm, RES[x["res"]][1](), wake_models=wms, mbook=mb, verbosity=0, **kw)


def quiet(fun, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()) as o, contextlib.redirect_stderr(io.StringIO()):
        r = fun(*a, **k)
    return r, o.getvalue()


@contextlib.contextmanager
def setting():
    d = Path(W.tmpdir()) / "p39"
    d.mkdir(exist_ok=True)
    old, cwd = dict(config), os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        for k, v in old.items():
            config[k] = v
        if has_engine():
            reset_engine()
        for f in d.iterdir():
            f.unlink()
        import matplotlib.pyplot as plt
        plt.close("all")


ENG = dict(engine_type="single", verbosity=0)


def eq(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(eq(p, q) for p, q in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.all(a == b))
    return a == b


def world(ctx, x):
    data = dict(world=x)
    key = "wio:" + ",".join(str(v) for v in x.values())
    ctx.trans += 1
    ctx.nt(tuple(x.values()))
    with setting():
        with W.engine("single"):
            a = mkalgo(x)
            fr = a.calc_farm()
        for form in ("dict", "Dict", "again"):
            if form != "again":
                d = wio(x)
                if form == "Dict":
                    d = Dict(d, name="windio")
                b = copy.deepcopy(d)
            (idict, algo, odir), out = quiet(read_windio, d, verbosity=x["v"])
            if x["v"] == 0 and out.strip():
                pass
            if not eq(dict(d), dict(b)):
                ctx.fail("changed", f"{form}: the given data was changed to {d}", **data)
            if odir is not None:
                ctx.fail("odir", f"output folder {odir} without any stated", **data)
            if type(algo) is not type(a) or algo.n_turbines != a.n_turbines:
                ctx.fail(key + ":algo", f"{type(algo).__name__} with {algo.n_turbines} turbines, stated {type(a).__name__} with {a.n_turbines}", **data)
                return
            r, _ = quiet(run_dict, idict, algo=algo, engine_pars=dict(ENG), verbosity=0)
            ctx.evals += 1
            if len(r) != 2 or r[1] != []:
                ctx.fail("outputs", f"{r[1:]} without any stated outputs", **data)
            skip = ["tname"]
            bad = W.diff(W.obs(r[0], skip=skip), W.obs(fr, skip=skip), rtol=1e-9, atol=1e-10)
            if bad:
                ctx.fail(key + f":{bad[0]}", f"{form}: {bad[1]} (windIO vs the same by the classes)", **data)
                return
            if len(fr[FC.STATE]) != len(r[0][FC.STATE]) or (not x["res"].startswith("single") and not np.array_equal(r[0][FC.STATE], fr[FC.STATE])):
                ctx.fail(key + ":states", f"{form}: states {r[0][FC.STATE].to_numpy()}", **data)
        ctx.state(W.digest(W.obs(fr)))


def worlds(tier):
    out, seen = [], set()

    def add(**k):
        x = dict(BASE, **k)
        t = tuple(str(v) for v in x.values())
        if valid(x) and t not in seen:
            seen.add(t)
            out.append(x)
    def prod(**k):
        for c in itertools.product(*k.values()):
            add(**dict(zip(k, c)))
    prod(wd=DIMS["wd"], k=["kb", "kab", "kamb"], eff=DIMS["eff"], sup=DIMS["sup"], ind=DIMS["ind"])
    prod(wd=DIMS["wd"], k=DIMS["k"], ti=DIMS["ti"], tk=DIMS["tk"])
    prod(tt=DIMS["tt"], lay=DIMS["lay"], ra=["cc", "gg"], ex=DIMS["ex"])
    prod(res=DIMS["res"], lay=["list", "map"], tt=["P", "P,P2", "Cp"], ra=["cc", "gg"])
    for a, b in itertools.combinations(DIMS, 2):
        prod(**{a: DIMS[a], b: DIMS[b]})
    if tier == "thorough":
        prod(res=DIMS["res"], tt=["P", "{P2,Cp}"], lay=["two", "map2"], bl=["absent", "Rathmann"], ra=DIMS["ra"], df=DIMS["df"])
        prod(wd=DIMS["wd"], k=DIMS["k"], ceps=DIMS["ceps"], eff=DIMS["eff"], sup=DIMS["sup"], ind=DIMS["ind"], ti=["None", "CrespoHernandez", "IEC-TI-2019"], ts=DIMS["ts"])
    return out


NP = 48


def cases(tier):
    out = [dict(kind="world", part=i) for i in range(NP)]
    out += [dict(kind="out", part=i) for i in range(16)]
    out += [dict(kind="cli", part=i) for i in range(6)]
    out += [dict(kind="refuse")]
    return out


# ---- outputs ---------------------------------------------------------------------------------------

ONAMES = {"power": "P", "rotor_effective_velocity": "REWS", "wind_speed": "WS", "wind_direction": "WD"}
XY = {"a": dict(x_bounds=[-200, 1000], y_bounds=[-100, 100], dx=300, dy=100), "b": dict(x_bounds=[0.0, 500.0], y_bounds=[-60.0, 75.0], dx=210.0, dy=50.0), "c": dict(x_bounds=[100, 130], y_bounds=[0, 900], dx=100, dy=899),
      "d": dict(x_bounds=[-10.5, 989.5], y_bounds=[10, 40], dx=333.4, dy=7.5)}
ZS = {"list": (dict(z_sampling="plane_list", z_list=[90.0, 40.0, 120.0]), [90.0, 40.0, 120.0]), "list1": (dict(z_sampling="plane_list", z_list=[75]), [75.0]), "hub": (dict(z_sampling="hub_heights"), [70.0, 90.0]),
      "grid": (dict(z_sampling="grid", z_bounds=[50, 110], z_number=3), [50.0, 80.0, 110.0]), "num": (dict(z_sampling=95.0), [95.0])}
CASES = {"absent": (None, None), "all": (dict(all_occurences=True), None), "allsub": (dict(all_occurences=True, subset=[1]), None), "sub": (dict(all_occurences=False, subset=[2, 0]), [2, 0]), "sub1": (dict(all_occurences=False, subset=[3]), [3])}
TO = {"-": None, "no": dict(report=False, turbine_nc_filename="t.nc", output_variables=["power"]), "p": dict(turbine_nc_filename="t.nc", output_variables=["power"]),
      "rp": dict(report=True, turbine_nc_filename="t.nc", output_variables=["rotor_effective_velocity", "power"]), "deflt": dict(output_variables=["rotor_effective_velocity"])}
FF = {"-": None, "no": ("b", "num", False), "ws": ("a", "list", None), "both": ("b", "hub", True), "g": ("c", "grid", None), "n": ("d", "num", None), "o": ("a", "list1", True), "bg": ("b", "grid", None)}


def outs(c, t, f, res):
    d = {}
    if CASES[c][0] is not None:
        d["cases_run"] = CASES[c][0]
    if TO[t] is not None:
        d["turbine_outputs"] = TO[t]
    if FF[f] is not None:
        xy, z, rep = FF[f]
        d["flow_field"] = dict(flow_nc_filename="f.nc", output_variables=["wind_speed", "wind_direction"] if f != "ws" else ["wind_speed"], z_planes=dict(ZS[z][0], xy_sampling="grid", **XY[xy]))
        if rep is not None:
            d["flow_field"]["report"] = rep
    return copy.deepcopy(d)


def near(x, y, digits=None):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9 if digits is None else 0.50001 * 10.0**-digits)


def grid1(b, dx):
    """the number of points: at most the given spacing, both ends included, no more than needed"""
    L = b[1] - b[0]
    n = int(np.ceil(L / dx - 1e-9)) + 1
    return np.linspace(b[0], b[1], max(n, 2))


def judge(ctx, key, d, c, t, f, fr, algo, data):
    """the files in folder d"""
    idx = CASES[c][1]
    st = fr[FC.STATE].to_numpy()
    sel = list(range(len(st))) if idx is None else idx
    exp = set()
    if TO[t] is not None and TO[t].get("report", True):
        n = TO[t].get("turbine_nc_filename", "turbine_outputs.nc")
        exp.add(n)
        if not (d / n).is_file():
            ctx.fail(key + ":missing", f"no file {n}, but {sorted(os.listdir(d))}", **data)
            return
        with xr.open_dataset(d / n, engine="h5netcdf") as q:
            q = q.load()
        vs = TO[t]["output_variables"]
        if set(q.data_vars) != set(vs) or q["time"].size != len(sel) or not np.array_equal(q["time"].to_numpy(), st[sel]):
            ctx.fail(key + ":turbines", f"{q}, expected {vs} at states {st[sel]}", **data)
            return
        for v in vs:
            ctx.trans += q[v].size
            e = fr[ONAMES[v]].to_numpy()[sel]
            if q[v].dims != ("time", "turbine") or not near(q[v], e, 4 if ONAMES[v] != "P" else 3):
                ctx.fail(key + f":turbines:{v}", f"{q[v].to_numpy().tolist()}, expected {e.tolist()}", **data)
    if FF[f] is not None and FF[f][2] is not False:
        xy, z, _ = FF[f]
        exp.add("f.nc")
        if not (d / "f.nc").is_file():
            ctx.fail(key + ":missing", f"no file f.nc, but {sorted(os.listdir(d))}", **data)
            return
        with xr.open_dataset(d / "f.nc", engine="h5netcdf") as q:
            q = q.load()
        xs, ys, zs = grid1(XY[xy]["x_bounds"], XY[xy]["dx"]), grid1(XY[xy]["y_bounds"], XY[xy]["dy"]), ZS[z][1]
        for k, e in (("x", xs), ("y", ys), ("z", zs)):
            if k not in q.dims or not near(q[k], e):
                ctx.fail(key + f":{k}", f"{q[k].to_numpy() if k in q.coords else q}, expected {e}", **data)
                return
        if not np.array_equal(q[FC.STATE].to_numpy(), st[sel]):
            ctx.fail(key + ":state", f"{q[FC.STATE].to_numpy()}, expected {st[sel]}", **data)
            return
        P = np.array([[a, b, h] for h in zs for b in ys for a in xs])
        with W.engine("single"):
            pr = algo.calc_points(fr, P)
        vs = ["wind_speed", "wind_direction"] if f != "ws" else ["wind_speed"]
        if set(q.data_vars) != set(vs):
            ctx.fail(key + ":vars", f"{list(q.data_vars)}, expected {vs}", **data)
            return
        for v in vs:
            e = pr[ONAMES[v]].to_numpy()[sel].reshape(len(sel), len(zs), len(ys), len(xs))
            ctx.trans += e.size
            if not near(q[v].transpose(FC.STATE, "z", "y", "x"), e, 4 if v == "wind_speed" else 3):
                ctx.fail(key + f":flow:{v}", f"{q[v].to_numpy().tolist()}, calc_points gives {e.tolist()}", **data)
    if set(os.listdir(d)) != exp:
        ctx.fail(key + ":files", f"{sorted(os.listdir(d))}, expected {sorted(exp)}", **data)


def combos():
    o = list(itertools.product(CASES, TO, FF, ["ts"]))
    o += [(c, "rp", "both", r) for c in CASES for r in ("stamps", "mh", "abl")]
    return o


def output(ctx, c, t, f, res):
    x = dict(BASE, res=res)
    data = dict(outputs=(c, t, f, res))
    key = f"out:{c},{t},{f},{res}"
    ctx.nt(key)
    ctx.state(key)
    with setting() as top:
        a = mkalgo(x)
        with W.engine("single"):
            fr = a.calc_farm()
        d = wio(x)
        d["attributes"]["model_outputs_specification"] = dict(outs(c, t, f, res), output_folder="res")
        (idict, algo, odir), _ = quiet(read_windio, d, verbosity=0)
        if odir != "res":
            ctx.fail("out:folder", f"output folder {odir}", **data)
        o = Path(W.tmpdir()) / "p39res"
        o.mkdir(exist_ok=True)
        try:
            ctx.evals += 1
            r, _ = quiet(run_dict, idict, algo=algo, engine_pars=dict(ENG), output_dir=o, verbosity=0)
            bad = W.diff(W.obs(r[0], skip=["tname"]), W.obs(fr, skip=["tname"]), rtol=1e-9, atol=1e-10)
            if bad:
                ctx.fail("out:results", bad[1], **data)
            judge(ctx, key, o, c, t, f, fr, a, data)
        finally:
            for q in o.iterdir():
                q.unlink()
            o.rmdir()


# ---- command line ------------------------------------------------------------------------------------

@contextlib.contextmanager
def stub():
    m = types.ModuleType("windIO.utils.yml_utils")
    m.load_yaml = lambda p: yaml.safe_load(Path(p).read_text())
    u, t = types.ModuleType("windIO.utils"), types.ModuleType("windIO")
    t.utils, u.yml_utils = u, m
    old = {k: sys.modules.get(k) for k in ("windIO", "windIO.utils", "windIO.utils.yml_utils")}
    sys.modules.update({"windIO": t, "windIO.utils": u, "windIO.utils.yml_utils": m})
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v


def clis():
    e = [["-e", "single"], ["-e", "numpy", "-c", "2"], ["-e", "threads", "-n", "2", "-c", "3", "-C", "4"]]
    o = [[], ["-o"], ["--output_dir"]]
    return [(x, y, v, c, t, f) for x in e for y in o for v in ("0", "1") for c, t, f in (("all", "rp", "ws"), ("sub", "p", "both"), ("absent", "deflt", "-"))]


def cli(ctx, e, o, v, c, t, f):
    args = e + ["-v", v]
    data = dict(cli=args + o, outputs=(c, t, f))
    key = f"cli:{' '.join(e)},{o},{v},{c},{t},{f}"
    ctx.nt(key)
    ctx.state(key)
    with setting() as top:
        a = mkalgo(BASE)
        with W.engine("single"):
            fr = a.calc_farm()
        given, stated = Path(W.tmpdir()) / "p39given", Path(W.tmpdir()) / "p39stated"
        d = wio(BASE)
        d["attributes"]["model_outputs_specification"] = dict(outs(c, t, f, "ts"), output_folder=str(stated))
        (top / "w.yaml").write_text(yaml.safe_dump(d, sort_keys=False))
        for q in (given, stated):
            q.mkdir(exist_ok=True)
        argv = sys.argv
        try:
            sys.argv = ["foxes_windio", str(top / "w.yaml")] + args + (o + [str(given)] if o else [])
            ctx.evals += 1
            with stub():
                _, out = quiet(foxes_windio)
            if v == "1" and not out.strip():
                ctx.fail("cli:silent", "nothing printed", **data)
            there, other = (given, stated) if o else (stated, given)
            if os.listdir(other):
                ctx.fail("cli:folder", f"{os.listdir(other)} written to {other.name}", **data)
            judge(ctx, key, there, c, t, f, fr, a, data)
            if has_engine():
                ctx.fail("cli:engine", "an engine is left", **data)
        finally:
            sys.argv = argv
            for q in (given, stated):
                for z in q.iterdir():
                    z.unlink()
                q.rmdir()


def refuse(ctx):
    """what cannot be understood is refused instead of replaced by something else"""
    def bad(name, change):
        ctx.evals += 1
        ctx.trans += 1
        ctx.nt(name)
        ctx.state(name)
        d = wio(dict(BASE, bl="None", df="None"))
        change(d)
        try:
            quiet(read_windio, d, verbosity=0)
        except Exception:
            return
        ctx.fail("refuse:" + name, f"{name}: accepted")
    ana = lambda d: d["attributes"]["analysis"]
    for k in ("wind_deficit_model", "turbulence_model", "blockage_model", "deflection_model"):
        bad(k, lambda d: ana(d)[k].update(name="NoSuchModel"))
    bad("ws_superposition", lambda d: ana(d)["superposition_model"].update(ws_superposition="Cubic"))
    bad("ti_superposition", lambda d: ana(d)["superposition_model"].update(ti_superposition="Cubic"))
    bad("axial_induction_model", lambda d: ana(d).update(axial_induction_model="NoSuchModel"))
    bad("nx", lambda d: ana(d)["rotor_averaging"].update(n_x_grid_points=3))
    bad("exponent P", lambda d: ana(d)["rotor_averaging"].update(wind_speed_exponent_for_power=4))
    bad("exponent ct", lambda d: ana(d)["rotor_averaging"].update(wind_speed_exponent_for_ct=0))
    bad("rotor", lambda d: ana(d)["rotor_averaging"].update(background_averaging="nosuchrotor"))
    bad("partial", lambda d: ana(d)["rotor_averaging"].update(wake_averaging="nosuchpwake"))
    wr = lambda d: d["site"]["energy_resource"]["wind_resource"]
    bad("resource", lambda d: wr(d).update(nosuchfield=1.0))
    bad("dims", lambda d: wr(d)["wind_speed"].update(dims=["time", "height"]))
    bad("length", lambda d: wr(d)["wind_speed"].update(data=[1.0, 2.0]))
    bad("nowake", lambda d: ana(d).pop("wind_deficit_model"))
    bad("nosup", lambda d: ana(d).pop("superposition_model"))
    bad("noperf", lambda d: [q["performance"].pop("power_curve") for q in d["wind_farm"]["turbine_types"].values()])
    bad("noct", lambda d: [q["performance"].pop("Ct_curve") for q in d["wind_farm"]["turbine_types"].values()])
    bad("type", lambda d: d["wind_farm"]["layouts"][0].update(turbine_types=[0, 2, 1]))
    bad("nolayout", lambda d: d["wind_farm"].pop("layouts"))
    spec = lambda **k: dict(k)
    ff = dict(flow_nc_filename="f.nc", output_variables=["wind_speed"], z_planes=dict(z_sampling="plane_list", z_list=[90.0], xy_sampling="grid", x_bounds=[0, 1], y_bounds=[0, 1], dx=1, dy=1))
    out = lambda d, q: d["attributes"].update(model_outputs_specification=copy.deepcopy(q))
    bad("zsampling", lambda d: out(d, dict(flow_field=dict(ff, z_planes=dict(ff["z_planes"], z_sampling="nosuch")))))
    bad("xysampling", lambda d: out(d, dict(flow_field=dict(ff, z_planes=dict(ff["z_planes"], xy_sampling="nosuch")))))
    bad("outvars", lambda d: out(d, dict(flow_field=dict(ff, output_variables=["nosuch"]))))
    bad("toutvars", lambda d: out(d, dict(turbine_outputs=dict(output_variables=["nosuch"]))))
    bad("subset", lambda d: out(d, dict(cases_run=dict(all_occurences=False), turbine_outputs=dict(output_variables=["power"]))))


def guard(ctx, key, fun, *a):
    try:
        fun(ctx, *a)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ctx.fail(f"{key}:{type(e).__name__}", f"{a}: {type(e).__name__}: {str(e)[:300]} at {tb.filename.split('/')[-1]}:{tb.name}")


def run(case, ctx):
    k = case["kind"]
    if k == "world":
        for x in worlds(ctx.tier)[case["part"]::NP]:
            guard(ctx, "wio:" + ",".join(str(v) for v in x.values()), world, x)
    elif k == "out":
        for q in combos()[case["part"]::16]:
            guard(ctx, f"out:{q}", output, *q)
    elif k == "cli":
        for q in clis()[case["part"]::6]:
            guard(ctx, f"cli:{q}", cli, *q)
    else:
        refuse(ctx)
