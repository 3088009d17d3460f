"""P32 parameter dicts and yaml files run exactly what they state"""
import contextlib, copy, io, itertools, os, sys
from pathlib import Path
import numpy as np
import pandas as pd
import yaml
import foxes
import foxes.variables as FV
import foxes.constants as FC
import foxes.input.farm_layout as FL
import foxes.input.states as FS
import foxes.models as fm
from foxes import algorithms as FA
from foxes import output as FO
from foxes.config import config
from foxes.core import Engine, WindFarm, Turbine, has_engine, get_engine, reset_engine
from foxes.input.yaml.dict import run_dict, read_dict, run_outputs
from foxes.input.yaml import foxes_yaml
from foxes.models import ModelBook
from foxes.utils import Dict
from mc import worlds as W

ID = "P32"
LEVEL = "model_checking"
ASSUMPTIONS = ["farms of up to 4 turbines, up to 6 states; one to three values for every entry of every section, all pairs of sections combined (the calculation sections in full)",
               "output sections: all sequences of up to three entries out of the menu of the check",
               "one process at a time works with the global configuration"]


# ---- files of the worlds ------------------------------------------------------------------------------

@contextlib.contextmanager
def setting():
    """scratch folder as input and output folder; global things as before afterwards"""
    d = Path(W.tmpdir()) / "p32"
    d.mkdir(exist_ok=True)
    if not (d / "st.csv").is_file():
        pd.DataFrame(dict(state=range(5), ws=[8.0, 9.5, 11.0, 7.0, 12.5], wd=[270.0, 268.0, 275.0, 90.0, 225.0], ti=[0.05, 0.08, 0.1, 0.06, 0.07], w=[0.1, 0.3, 0.2, 0.25, 0.15])).to_csv(d / "st.csv", index=False)
        pd.DataFrame(dict(Time=pd.date_range("2021-01-01", periods=4, freq="h"), ws=[8.0, 9.5, 11.0, 7.0], wd=[270.0, 268.0, 275.0, 90.0], ti=[0.05, 0.08, 0.1, 0.06])).to_csv(d / "ts.csv", index=False)
        pd.DataFrame(dict(label=range(3), x=[0.0, 410.0, 905.0], y=[0.0, 25.0, -15.0])).to_csv(d / "lay.csv", index=False)
        pd.DataFrame(dict(wsp=[0.0, 3.0, 12.0, 25.0], pp=[0.0, 100.0, 2600.0, 2600.0], cc=[0.0, 0.85, 0.7, 0.1])).to_csv(d / "tt.csv", index=False)
        pd.DataFrame(dict(x=[0.0, 250.0, 700.0], y=[10.0, 0.0, 5.0], z=[90.0, 80.0, 120.0])).to_csv(d / "pts.csv", index=False)
        (d / "lay.json").write_text('{"f": {"A": {"id": 0, "UTMX": 5.0, "UTMY": 1.0}, "B": {"id": 1, "UTMX": 505.0, "UTMY": 31.0}}}')
    old = dict(config)
    cwd = os.getcwd()
    for c in (FC.WORK_DIR, FC.INPUT_DIR, FC.OUTPUT_DIR):
        config[c] = d
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        for k, v in old.items():
            config[k] = v
        if has_engine():
            reset_engine()
        import matplotlib.pyplot as plt
        plt.close("all")


# ---- the pieces: (section of the dict, the same by the classes) ----------------------------------------

TAB = dict(data_source="st.csv", output_vars=["WS", "WD", "TI", "RHO"], var2col=dict(WS="ws", WD="wd", TI="ti"), fixed_vars=dict(RHO=1.225))
STATES = {
    "csv": (dict(TAB, states_type="StatesTable"), lambda: FS.StatesTable(**copy.deepcopy(TAB))),
    "csvw": (dict(TAB, states_type="StatesTable", var2col=dict(WS="ws", WD="wd", TI="ti", weight="w"), states_sel=[4, 0, 2]),
             lambda: FS.StatesTable(**dict(copy.deepcopy(TAB), var2col=dict(WS="ws", WD="wd", TI="ti", weight="w"), states_sel=[4, 0, 2]))),
    "prof": (dict(TAB, states_type="StatesTable", fixed_vars=dict(RHO=1.2, shear=0.2, H=90.0), output_vars=["WS", "WD", "TI", "RHO"], profiles=dict(WS="ShearedProfile")),
             lambda: FS.StatesTable(**dict(copy.deepcopy(TAB), fixed_vars=dict(RHO=1.2, shear=0.2, H=90.0), profiles=dict(WS="ShearedProfile")))),
    "ts": (dict(TAB, states_type="Timeseries", data_source="ts.csv"), lambda: FS.Timeseries(**dict(copy.deepcopy(TAB), data_source="ts.csv"))),
    "scan": (dict(states_type="ScanStates", scans=dict(WS=[8.0, 11.0], WD=[270.0, 280.0, 90.0], TI=[0.06], RHO=[1.2])),
             lambda: FS.ScanStates(dict(WS=[8.0, 11.0], WD=[270.0, 280.0, 90.0], TI=[0.06], RHO=[1.2]))),
    "single": (dict(states_type="SingleStateStates", ws=9.5, wd=269.0, ti=0.07, rho=1.1), lambda: FS.SingleStateStates(ws=9.5, wd=269.0, ti=0.07, rho=1.1)),
}
TT = dict(data_source="tt.csv", col_ws="wsp", col_P="pp", col_ct="cc", D=100.0, H=95.0, P_nominal=2600.0)
MT = dict(name="myT", ttype_type="PCtFile", **TT)


def _tt(mb):
    mb.turbine_types["myT"] = fm.turbine_types.PCtFile(**TT)


def _models(mb):
    _tt(mb)
    mb.turbine_models["myk"] = fm.turbine_models.kTI(kTI=0.33, kb=0.01)
    mb.wake_models["myw"] = fm.wake_models.wind.Bastankhah2014(superposition="ws_quadratic", sbeta_factor=0.22, k=0.05)
    mb.wake_models["mywk"] = fm.wake_models.wind.Bastankhah2014(superposition="mysup", sbeta_factor=0.25, k=0.04, induction="myind")
    mb.wake_superpositions["mysup"] = fm.wake_superpositions.WSQuadratic(scale_amb=False, lim_low=2.0)
    mb.axial_induction["myind"] = fm.axial_induction.BetzAxialInduction()
    mb.rotor_models["myr"] = fm.rotor_models.GridRotor(3, calc_vars=["REWS", "REWS2", "REWS3", "TI", "RHO", "WD"])
    mb.partial_wakes["mypw"] = fm.partial_wakes.PartialAxiwake(n=4)
    mb.wake_frames["myf"] = fm.wake_frames.FarmOrder()
    mb.ground_models["myg"] = fm.ground_models.WakeMirror(heights=[0.0, 250.0])
    mb.farm_controllers["myc"] = fm.farm_controllers.BasicFarmController()
    mb.point_models["myt"] = fm.point_models.TKE2TI()
    mb.point_models["myu"] = fm.point_models.SetUniformData({"TI": 0.2, "WS": 7.0}, ["WS", "TI"])


MODELS = dict(
    turbine_types=[MT],
    turbine_models=[dict(name="myk", tmodel_type="kTI", kTI=0.33, kb=0.01)],
    wake_models=[dict(name="myw", wmodel_type="Bastankhah2014", superposition="ws_quadratic", sbeta_factor=0.22, k=0.05),
                 dict(name="mywk", wmodel_type="Bastankhah2014", superposition="mysup", sbeta_factor=0.25, k=0.04, induction="myind")],
    wake_superpositions=[dict(name="mysup", superp_type="WSQuadratic", scale_amb=False, lim_low=2.0)],
    axial_induction=[dict(name="myind", induction_type="BetzAxialInduction")],
    rotor_models=[dict(name="myr", rmodel_type="GridRotor", n=3, calc_vars=["REWS", "REWS2", "REWS3", "TI", "RHO", "WD"])],
    partial_wakes=[dict(name="mypw", pwakes_type="PartialAxiwake", n=4)],
    wake_frames=[dict(name="myf", wframe_type="FarmOrder")],
    ground_models=[dict(name="myg", ground_type="WakeMirror", heights=[0.0, 250.0])],
    farm_controllers=[dict(name="myc", controller_type="BasicFarmController")],
    point_models=[dict(name="myt", model_type="TKE2TI"), dict(name="myu", model_type="SetUniformData", data_source=dict(TI=0.2, WS=7.0), output_vars=["WS", "TI"])],
)
MBOOKS = {"none": (None, lambda mb: None), "tt": (dict(turbine_types=[MT]), _tt), "all": (MODELS, _models)}


def _lay(*funs):
    d = dict(layouts=[dict(k, function=f) for f, k in funs])

    def api(farm):
        for f, k in funs:
            getattr(FL, f)(farm, **dict(copy.deepcopy(k), **({} if f == "add_from_json" else {})), verbosity=0)
    return d, api


def layouts(tm):
    row = ("add_row", dict(xy_base=[0.0, 0.0], xy_step=[450.0, 10.0], n_turbines=3, turbine_models=tm))
    grid = ("add_grid", dict(xy_base=[0.0, 700.0], step_vectors=[[500.0, 0.0], [0.0, 400.0]], steps=[2, 1], turbine_models=tm))
    csv = ("add_from_csv", dict(data_source="lay.csv", turbine_models=tm, col_x="x", col_y="y", col_id="label", H=100.0))
    jsn = ("add_from_json", dict(file_path="lay.json", turbine_models=tm))
    anyf = ("add_from_file", dict(file_path="lay.csv", turbine_models=tm, col_x="x", col_y="y", D=80.0))
    return {"row": _lay(row), "csv": _lay(csv), "file": _lay(anyf), "json": _lay(jsn), "two": _lay(row, grid), "rev": _lay(grid, row)}


# turbine models, models the book must offer
TMS = {"nrel": (["NREL5MW"], "none"), "myT": (["myT"], "tt"), "ktT": (["myT", "kTI_02"], "tt"), "mykT": (["myT", "myk"], "all"), "Tmyk": (["myk", "NREL5MW"], "all")}
ALGOS = {
    "dw": dict(algo_type="Downwind", wake_models=["Bastankhah2014_linear_k004"]),
    "it": dict(algo_type="Iterative", wake_models=["Jensen_linear_k007"], max_it=30),
    "now": dict(algo_type="Downwind", wake_models=[]),
    "args": dict(algo_type="Downwind", wake_models=["Jensen_linear_k007", "CrespoHernandez_quadratic_ambka02"], rotor_model="grid9", wake_frame="rotor_wd", partial_wakes="rotor_points", ground_models="ground_mirror"),
    "pwd": dict(algo_type="Iterative", wake_models=["Bastankhah2014_linear_k004", "CrespoHernandez_quadratic_ambka02"], partial_wakes={"Bastankhah2014_linear_k004": "centre", "CrespoHernandez_quadratic_ambka02": "top_hat"}),
    "pwl": dict(algo_type="Downwind", wake_models=["Bastankhah2014_linear_k004"], partial_wakes=["grid9"], farm_controller="basic_ctrl"),
    "own": dict(algo_type="Downwind", wake_models=["myw"], rotor_model="myr", partial_wakes=["mypw"], wake_frame="myf", ground_models="myg", farm_controller="myc"),
    "own2": dict(algo_type="Iterative", wake_models=["mywk"]),
}
OWN = {"own": "all", "own2": "all"}
ENGINES = {"none": None, "single": dict(engine_type="single"), "numpy": dict(engine_type="numpy", chunk_size_states=2), "threads": dict(engine_type="threads", n_procs=2, chunk_size_states=2, chunk_size_points=2),
           "v": dict(engine_type="SingleChunkEngine", verbosity=0)}
CFARM = {"-": None, "{}": {}, "run": dict(run=True), "off": dict(run=False), "out": dict(outputs=["P", "REWS", "X"]), "amb": dict(ambient=True), "nofin": dict(finalize=False),
         "outs": dict(outputs=["AMB_P", "P", "CT"], run=True)}
PTS = [[0.0, 5.0, 90.0], [300.0, 0.0, 80.0], [720.0, 30.0, 110.0], [-100.0, 0.0, 90.0], [1500.0, -20.0, 60.0]]
CPOINTS = {"-": None, "off": dict(run=False), "arr": dict(points=PTS, run=True), "arrd": dict(points=PTS), "csv": dict(points="pts.csv"), "out": dict(points=PTS, outputs=["WS", "AMB_TI"]),
           "isel": dict(points=PTS, states_isel=[0]), "amb": dict(points=PTS, ambient=True), "pm": dict(points=PTS, point_models=["myu"]), "nofin": dict(points=PTS, finalize=False)}
DIMS = dict(s=list(STATES), t=list(TMS), l=list(layouts([])), a=list(ALGOS), e=list(ENGINES), f=list(CFARM), p=list(CPOINTS), b=["min", "all"])
BASE = dict(s="csv", t="myT", l="row", a="dw", e="single", f="-", p="arrd", b="min")


def needs(x):
    """the model book of the world"""
    b = "all" if x["b"] == "all" else TMS[x["t"]][1]
    if x["a"] in OWN or x["p"] == "pm":
        b = "all"
    return b


def valid(x):
    """points need complete farm results"""
    return x["f"] in ("-", "{}", "run", "nofin") or x["p"] in ("-", "off")


def mkdict(x, engine=True):
    """the parameter dict of a world"""
    d = dict(states=STATES[x["s"]][0])
    m = MBOOKS[needs(x)][0]
    if m is not None:
        d["model_book"] = m
    d["wind_farm"] = layouts(TMS[x["t"]][0])[x["l"]][0]
    d["algorithm"] = ALGOS[x["a"]]
    if ENGINES[x["e"]] is not None and engine:
        d["engine"] = ENGINES[x["e"]]
    if CFARM[x["f"]] is not None:
        d["calc_farm"] = CFARM[x["f"]]
    if CPOINTS[x["p"]] is not None:
        d["calc_points"] = CPOINTS[x["p"]]
    return copy.deepcopy(d)


def mkalgo(x, **over):
    mb = ModelBook()
    MBOOKS[needs(x)][1](mb)
    farm = WindFarm()
    layouts(TMS[x["t"]][0])[x["l"]][1](farm)
    k = dict(copy.deepcopy(ALGOS[x["a"]]), **over)
    return getattr(FA, k.pop("algo_type"))(farm=farm, states=STATES[x["s"]][1](), mbook=mb, verbosity=0, **k)


def api(x, ekw=None, eng=True, **over):
    """the same by the classes; returns farm results, point results, algorithm"""
    e = ENGINES[x["e"]]
    e = dict(ekw or e or dict(engine_type="single"))
    e.pop("verbosity", None)
    if e["engine_type"] == "SingleChunkEngine":
        e["engine_type"] = "single"
    with W.engine(e.pop("engine_type"), **e) if eng else contextlib.nullcontext():
        a = mkalgo(x, **over)
        f = copy.deepcopy(CFARM[x["f"]] or {})
        fr = a.calc_farm(**f) if f.pop("run", True) else None
        p = copy.deepcopy(CPOINTS[x["p"]])
        pr = None
        if p is not None and p.pop("run", True):
            pts = p.pop("points")
            pts = pd.read_csv("pts.csv").to_numpy() if pts == "pts.csv" else np.array(pts)
            pr = a.calc_points(fr, pts, **p)
    return fr, pr, a


def worlds():
    out, seen = [], set()

    def add(**k):
        x = dict(BASE, **k)
        if valid(x) and tuple(x.values()) not in seen:
            seen.add(tuple(x.values()))
            out.append(x)
    for f, p, e in itertools.product(DIMS["f"], DIMS["p"], DIMS["e"]):
        add(f=f, p=p, e=e)
    for a, b in itertools.combinations(DIMS, 2):
        for u, v in itertools.product(DIMS[a], DIMS[b]):
            add(**{a: u, b: v})
    for s, a, t in itertools.product(DIMS["s"], DIMS["a"], DIMS["t"]):
        add(s=s, a=a, t=t)
    return out


NP = 40


def cases(tier):
    out = [dict(kind="world", part=i) for i in range(NP)]
    out += [dict(kind="over", part=i) for i in range(8)]
    out += [dict(kind="out", part=i) for i in range(16)]
    out += [dict(kind="fail"), dict(kind="stop"), dict(kind="quiet"), dict(kind="dirs")]
    out += [dict(kind="cli", part=i) for i in range(8)]
    if tier == "thorough":
        out += [dict(kind="full", s=s, a=a) for s in STATES for a in ALGOS]
    return out


def call(fun, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()) as o, contextlib.redirect_stderr(io.StringIO()):
        r = fun(*a, **k)
    return r, o.getvalue()


def cmp(ctx, key, got, exp, what, data):
    ctx.evals += 1
    if exp is None or got is None:
        if (exp is None) != (got is None):
            ctx.fail(key, f"{what}: {'results' if exp is None else 'no results'}, stated {'none' if exp is None else 'a calculation'}", **data)
            return False
        return True
    bad = W.diff(W.obs(got), W.obs(exp), rtol=1e-9, atol=1e-10)
    if bad:
        ctx.fail(key + f":{bad[0]}", f"{what}: {bad[1]} (dict vs the same by the classes)", **data)
        return False
    ctx.state((what, W.digest(W.obs(exp))))
    return True


def judge(ctx, key, tup, fr, pr, d, data):
    """what run_dict returned"""
    n = 3 if "calc_points" in d else 2
    if not isinstance(tup, tuple) or len(tup) != n:
        ctx.fail(key + ":tuple", f"{n} results expected, {type(tup).__name__} of {len(tup)}", **data)
        return
    cmp(ctx, key + ":farm", tup[0], fr, "farm results", data)
    if n == 3:
        cmp(ctx, key + ":points", tup[1], pr, "point results", data)
    if tup[-1] != []:
        ctx.fail(key + ":outputs", f"outputs {tup[-1]!r} without any stated", **data)


def world(ctx, x):
    data = dict(world=x)
    key = "dict:" + ",".join(x.values())
    ctx.trans += 1
    ctx.nt(tuple(x.values()))
    with setting() as d:
        fr, pr, a = api(x)
        eng = ENGINES[x["e"]] is None

        def go(idict, **k):
            with (W.engine("single") if eng else contextlib.nullcontext()):
                r, out = call(run_dict, idict, **k)
            if has_engine():
                ctx.fail("engine:left", f"engine {type(get_engine()).__name__} is still set after the run", **data)
                reset_engine()
            return r
        idict = Dict(mkdict(x), name="w")
        before = copy.deepcopy(idict)
        r1 = go(idict)
        judge(ctx, key, r1, fr, pr, idict, data)
        if repr(idict) != repr(before):
            ctx.fail("changed", f"the given dict was changed to {idict}", **data)
        judge(ctx, key + ":again", go(idict, verbosity=0), fr, pr, idict, data)
        (d / "w.yaml").write_text(yaml.safe_dump(mkdict(x), sort_keys=False))
        y, _ = call(Dict.from_yaml, d / "w.yaml")
        if dict(y) != mkdict(x):
            ctx.fail("yaml:content", f"{y} read instead of {mkdict(x)}", **data)
        judge(ctx, key + ":yaml", go(y), fr, pr, idict, data)
        # read only, run by hand
        if x["f"] == "-" and x["p"] == "arrd":
            with (W.engine("single") if eng else contextlib.nullcontext()):
                (al, en), _ = call(read_dict, idict)
                if (en is None) != eng:
                    ctx.fail("read:engine", f"engine {en}, section {ENGINES[x['e']]}", **data)
                try:
                    if type(al) is not type(a) or al.n_turbines != a.n_turbines:
                        ctx.fail("read:algo", f"{type(al).__name__} for {type(a).__name__}", **data)
                    if en is not None and (get_engine() is not en or any(getattr(en, k) != v for k, v in ENGINES[x["e"]].items() if k not in ("engine_type",))):
                        ctx.fail("read:engine", f"engine {en} verbosity {en.verbosity}, stated {ENGINES[x['e']]}", **data)
                    if [t.models for t in al.farm.turbines] != [t.models for t in a.farm.turbines] or not np.array_equal([t.xy for t in al.farm.turbines], [t.xy for t in a.farm.turbines]):
                        ctx.fail("read:farm", "turbines differ from the stated layouts", **data)
                    r, _ = call(al.calc_farm)
                    cmp(ctx, "read:run", r, fr, "farm results", data)
                finally:
                    if en is not None:
                        en.finalize()


# ---- arguments that replace sections -----------------------------------------------------------------

def override(ctx, x, z, which):
    """x: the dict, z: the world that the arguments (subset which) are taken from"""
    data = dict(world=x, other=z, which=list(which))
    ctx.trans += 1
    with setting():
        y = dict(x)
        kw, over, ekw = {}, {}, None
        if "states" in which:
            kw["states"] = STATES[z["s"]][1]()
            y["s"] = z["s"]
        if "farm" in which:
            kw["farm"] = WindFarm()
            layouts(TMS[z["t"]][0])[z["l"]][1](kw["farm"])
            y["t"], y["l"] = z["t"], z["l"]
        if "mbook" in which:
            kw["mbook"] = ModelBook()
            _models(kw["mbook"])
            y["b"] = "all"
        if "engine_pars" in which:
            kw["engine_pars"] = dict(ENGINES[z["e"]] or dict(engine_type="single"))
            ekw = kw["engine_pars"]
        if "iterative" in which:
            kw["iterative"] = True
            over["algo_type"] = "Iterative"
        if "pars" in which:
            kw.update(rotor_model="grid4", partial_wakes="rotor_points", wake_frame=None, wake_models=None, ground_models=None)
            over.update(rotor_model="grid4", partial_wakes="rotor_points")
        if "nowake" in which:
            kw["wake_models"] = []
            over["wake_models"] = []
        if "algo" in which:
            kw = dict(algo=mkalgo(z))
            y = dict(z, f=x["f"], p=x["p"], e=x["e"])
            over, ekw = {}, None
        need = needs(y)
        if not valid(y):
            return
        if need != "none" and "mbook" not in which and "algo" not in which:
            have = needs(x)
            if have != "all" and need != have:
                return
        fr, pr, a = api(y, ekw=ekw, **over)
        idict = Dict(mkdict(x, engine=True), name="w")
        if "states" in which:
            idict["states"] = dict(states_type="NoSuchStates")
        if "farm" in which:
            idict["wind_farm"] = dict(layouts=[dict(function="no_such_layout")])
        before = repr(idict)
        eng = ENGINES[x["e"]] is None and "engine_pars" not in which
        with (W.engine("single") if eng else contextlib.nullcontext()):
            r, _ = call(run_dict, idict, **kw)
        judge(ctx, "over:" + ",".join(which), r, fr, pr, idict, data)
        if repr(idict) != before:
            ctx.fail("over:changed", f"the given dict was changed to {idict}", **data)
        if has_engine():
            ctx.fail("over:engine", "engine left", **data)
            reset_engine()


def overrides():
    o = ["states", "farm", "mbook", "engine_pars", "iterative", "pars", "nowake"]
    subs = [c for n in range(1, 4) for c in itertools.combinations(o, n)] + [tuple(o), ("algo",)]
    zs = [dict(BASE, s="scan", t="nrel", l="csv", e="numpy", a="it"), dict(BASE, s="single", t="mykT", l="two", e="threads", a="own", b="all"), dict(BASE, s="ts", t="myT", l="rev", e="v", a="args")]
    xs = [BASE, dict(BASE, a="it", e="none", p="-"), dict(BASE, a="pwl", b="all", e="numpy", p="csv"), dict(BASE, f="out", p="-")]
    return [(x, z, w) for x in xs for z in zs for w in subs]


# ---- outputs -------------------------------------------------------------------------------------------

def eva(fr):
    return FO.FarmResultsEval(fr)


# menu: name -> (entry, reference(state) -> list of function results; state: dict labels, fr, pr, algo)
def menu():
    M = {}

    def put(k, entry, ref):
        M[k] = (entry, ref)
    put("power", dict(output_type="FarmResultsEval", functions=[dict(function="calc_mean_farm_power", result_labels="$P"), dict(function="calc_mean_farm_power", ambient=True, result_labels="$PA")]),
        lambda s: [s["L"].__setitem__("$P", eva(s["fr"]).calc_mean_farm_power()) or s["L"]["$P"], s["L"].__setitem__("$PA", eva(s["fr"]).calc_mean_farm_power(ambient=True)) or s["L"]["$PA"]])
    put("red", dict(output_type="FarmResultsEval", functions=[dict(function="reduce_states", args=[dict(P="weights", REWS="max")], result_labels="$R")]),
        lambda s: [s["L"].__setitem__("$R", eva(s["fr"]).reduce_states(dict(P="weights", REWS="max"))) or s["L"]["$R"]])
    put("kwargs", dict(output_type="FarmResultsEval", functions=[dict(function="reduce_all", states_op=dict(P="weights"), turbines_op=dict(P="sum"), result_labels="_"), dict(function="calc_turbine_sum", vars=["P"], plt_close=True)]),
        lambda s: [eva(s["fr"]).reduce_all(dict(P="weights"), dict(P="sum")), None])
    put("relabel", dict(output_type="FarmResultsEval", functions=[dict(function="calc_mean_farm_power", result_labels="$R"), dict(function="reduce_states", vars_op=dict(P="min"), result_labels="$P")]),
        lambda s: [s["L"].__setitem__("$R", eva(s["fr"]).calc_mean_farm_power()) or s["L"]["$R"], s["L"].__setitem__("$P", eva(s["fr"]).reduce_states(dict(P="min"))) or s["L"]["$P"]])
    put("figax", dict(output_type="FarmLayoutOutput", functions=[dict(function="get_figure", annotate=0, title="layout", fig="$fig", ax="$axs[1]"), dict(function="get_layout_data")]),
        lambda s: [s["L"]["$axs"] and "Axes:layout:1", FO.FarmLayoutOutput(s["algo"].farm).get_layout_data()])
    put("table", dict(output_type="StateTurbineTable", functions=[dict(function="get_dataset", variables=["P", "REWS"], name_map=dict(P="power"), to_file=None, result_labels="$T")]),
        lambda s: [s["L"].__setitem__("$T", FO.StateTurbineTable(s["fr"]).get_dataset(["P", "REWS"], name_map=dict(P="power"))) or s["L"]["$T"]])
    put("objT", dict(object="$T", functions=[dict(function="isel", state=0, result_labels="$S"), dict(function="sum", args=["state"])]),
        lambda s: [s["L"].__setitem__("$S", s["L"]["$T"].isel(state=0)) or s["L"]["$S"], s["L"]["$T"].sum("state")])
    put("objS", dict(object="$S", functions=[dict(function="max")]), lambda s: [s["L"]["$S"].max()])
    put("subs", dict(output_type="plt", functions=[dict(function="subplots", args=[1, 2], result_labels=["$fig", "$axs"]), dict(function="subplots", args=[2, 2], result_labels=["", "$ax4"])]),
        lambda s: [("fig", 2), ("fig", 4)] if not s["L"].update({"$fig": 1, "$axs": 1, "$ax4": 1}) else None)
    put("axs", dict(object="$axs[1]", functions=[dict(function="set_title", args=["right"]), dict(function="get_title", result_labels="$title")]),
        lambda s: [s["L"]["$axs"] and "Text:right", s["L"].__setitem__("$title", "right") or "right"])
    put("ax4", dict(object="$ax4[1,0]", functions=[dict(function="get_subplotspec")]), lambda s: [s["L"]["$ax4"] and "spec:2"])
    put("lay", dict(output_type="FarmLayoutOutput", functions=[dict(function="get_layout_data", result_labels="$lay"), dict(function="get_layout_dict")]),
        lambda s: [s["L"].__setitem__("$lay", FO.FarmLayoutOutput(s["algo"].farm).get_layout_data()) or s["L"]["$lay"], FO.FarmLayoutOutput(s["algo"].farm).get_layout_dict()])
    put("pts", dict(output_type="PointCalculator", functions=[dict(function="calculate", points="$lay", result_labels="$pts")]),
        lambda s: [s["L"].__setitem__("$pts", FO.PointCalculator(s["algo"], s["fr"]).calculate(s["L"]["$lay"])) or s["L"]["$pts"]])
    put("file", dict(output_type="ResultsWriter", functions=[dict(function="write_csv", file_name="res.csv", variables=dict(P="P [kW]", X="x"), verbosity=0), dict(function="write_nc", file_name="res.nc", verbosity=0)]),
        lambda s: [FO.ResultsWriter(s["fr"]).write_csv("res_ref.csv", variables=dict(P="P [kW]", X="x"), verbosity=0), FO.ResultsWriter(s["fr"]).write_nc("res_ref.nc", verbosity=0)])
    put("empty", dict(output_type="FarmResultsEval", functions=[]), lambda s: [])
    return M


def norm(v):
    import xarray as xr
    if isinstance(v, tuple) and len(v) == 2 and type(v[0]).__name__ == "Figure":
        return ("fig", int(np.size(v[1])))
    if type(v).__name__ == "Axes":
        return f"Axes:{v.get_title()}:{v.get_subplotspec().num1}"
    if type(v).__name__ == "Text":
        return "Text:" + v.get_text()
    if type(v).__name__ == "SubplotSpec":
        return f"spec:{v.num1}"
    return v


def equal(a, b):
    import xarray as xr
    a, b = norm(a), norm(b)
    if isinstance(a, xr.Dataset) and isinstance(b, xr.Dataset):
        return W.diff(W.obs(a), W.obs(b)) is None
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return type(a) is type(b) and a.equals(b)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.allclose(a, b, rtol=1e-10, equal_nan=True)
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    try:
        return type(a) is type(b) and bool(np.all(a == b))
    except Exception:
        return False


def outputs(ctx, seqs, farm=True):
    M = menu()
    x = dict(BASE, p="-")
    with setting() as d:
        with W.engine("single"):
            algo = mkalgo(x)
            fr = algo.calc_farm()
            for q in seqs:
                import matplotlib.pyplot as plt
                plt.close("all")
                for f in ("res.csv", "res.nc", "res_ref.csv", "res_ref.nc"):
                    (d / f).unlink(missing_ok=True)
                ctx.trans += 1
                ctx.nt(q)
                data = dict(outputs=list(q))
                idict = Dict(outputs=[copy.deepcopy(M[k][0]) for k in q], name="o")
                before = repr(idict)
                s = dict(L={}, fr=fr, algo=algo)
                exp, bad = [], False
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        for k in q:
                            exp.append(M[k][1](s))
                except KeyError:
                    bad = True
                ctx.evals += 1
                try:
                    (got, lab), txt = call(run_outputs, idict, algo, fr, ret_rlabels=True)
                except Exception as e:
                    if not bad:
                        ctx.fail("out:crash", f"{type(e).__name__}: {e}", **data)
                    continue
                if bad:
                    ctx.fail("out:unknown", "a label that was never set was accepted", **data)
                    continue
                ctx.state(("out", q))
                if len(got) != len(q):
                    ctx.fail("out:number", f"{len(got)} entries of results for {len(q)} outputs", **data)
                    continue
                for k, g, e in zip(q, got, exp):
                    if not (isinstance(g, tuple) and len(g) == 2 and len(g[1]) == len(e)):
                        ctx.fail("out:shape", f"{k}: {g}", **data)
                        break
                    t = M[k][0]
                    if g[0].get("output_type") != t.get("output_type") or g[0].get("object") != t.get("object"):
                        ctx.fail("out:order", f"entry {k} described by {g[0]}", **data)
                    for i, (a, b) in enumerate(zip(g[1], e)):
                        if not equal(a, b):
                            ctx.fail(f"out:{k}:{i}", f"{norm(a)} for {b}", **data)
                if set(lab) != set(s["L"]):
                    ctx.fail("out:labels", f"labels {sorted(lab)} for {sorted(s['L'])}", **data)
                else:
                    for k, v in s["L"].items():
                        if k not in ("$fig", "$axs", "$ax4") and not equal(lab[k], v):
                            ctx.fail("out:label", f"{k}: {lab[k]} for {v}", **data)
                if "file" in q:
                    if (d / "res.csv").read_text() != (d / "res_ref.csv").read_text():
                        ctx.fail("out:file", "csv files differ", **data)
                    if not (d / "res.nc").is_file():
                        ctx.fail("out:file", "no nc file", **data)
                if repr(idict) != before:
                    ctx.fail("out:changed", f"the given dict was changed: {idict}", **data)
                g2, _ = call(run_outputs, idict, algo, fr)
                if not isinstance(g2, list) or len(g2) != len(q):
                    ctx.fail("out:again", f"{type(g2).__name__} of {len(g2)} in a second run", **data)
        # whole runs: the same results at the end of the tuple, and none where there are no farm results
        for q in seqs[:6]:
            if "pts" in q or not set(q) <= {"power", "red", "relabel", "kwargs", "table", "empty", "file", "lay"}:
                continue
            for f in ("-", "off"):
                y = dict(x, f=f, e="numpy")
                idict = Dict(dict(mkdict(y), outputs=[copy.deepcopy(M[k][0]) for k in q]), name="o")
                r, _ = call(run_dict, idict)
                ctx.evals += 1
                s = dict(L={}, fr=fr, algo=algo)
                with contextlib.redirect_stdout(io.StringIO()), W.engine("numpy", chunk_size_states=2):
                    exp = [(None if f == "off" and k != "lay" else M[k][1](s)) for k in q]
                if f == "off" and "lay" in q:
                    continue
                got = [g[1] for g in r[-1]]
                if len(got) != len(exp) or any((g is None) != (e is None) or (e is not None and not all(equal(a, b) for a, b in zip(g, e))) for g, e in zip(got, exp)):
                    ctx.fail("out:run", f"{got} for {exp}", outputs=list(q), run=f)


def sequences():
    m = list(menu())
    out = [(a,) for a in m] + list(itertools.product(m, m))
    core = ["power", "red", "relabel", "table", "objT", "objS", "subs", "axs", "lay", "pts", "file"]
    out += list(itertools.product(core, core, core))
    return out


# ---- failures, silence, folders, command line -------------------------------------------------------

def failures(ctx):
    bad = {
        "states:type": dict(states=dict(states_type="NoSuchStates")),
        "states:args": dict(states=dict(states_type="ScanStates", nonsense=1, scans={})),
        "states:none": "states",
        "farm:none": "wind_farm",
        "algo:none": "algorithm",
        "algo:type": dict(algorithm=dict(algo_type="NoSuchAlgo", wake_models=[])),
        "algo:args": dict(algorithm=dict(algo_type="Downwind", wake_models=[], nonsense=3)),
        "algo:wake": dict(algorithm=dict(algo_type="Downwind", wake_models=["no_such_wake"])),
        "algo:rotor": dict(algorithm=dict(algo_type="Downwind", wake_models=[], rotor_model="no_such_rotor")),
        "layout": dict(wind_farm=dict(layouts=[dict(function="no_such_layout")])),
        "layout:model": dict(wind_farm=layouts(["no_such_type"])["row"][0]),
        "engine": dict(engine=dict(engine_type="no_such_engine")),
        "mbook:section": dict(model_book=dict(no_such_section=[dict(name="a")])),
        "mbook:class": dict(model_book=dict(turbine_types=[dict(MT, ttype_type="NoSuch")])),
        "mbook:noname": dict(model_book=dict(turbine_types=[dict(ttype_type="PCtFile", **TT)])),
        "farm:arg": dict(calc_farm=dict(nonsense=1)),
        "points:none": dict(calc_points=dict(outputs=["WS"])),
        "points:file": dict(calc_points=dict(points="no_such_file.csv")),
        "points:model": dict(calc_points=dict(points=PTS, point_models=["no_such_model"])),
        "out:type": dict(outputs=[dict(output_type="NoSuchOutput", functions=[])]),
        "out:function": dict(outputs=[dict(output_type="FarmResultsEval", functions=[dict(function="no_such_function")])]),
        "out:neither": dict(outputs=[dict(functions=[])]),
        "out:object": dict(outputs=[dict(object="$nothing", functions=[])]),
        "out:label": dict(outputs=[dict(output_type="FarmResultsEval", functions=[dict(function="calc_mean_farm_power", result_labels="x")])]),
        "out:label2": dict(outputs=[dict(output_type="FarmResultsEval", functions=[dict(function="calc_mean_farm_power", result_labels="$x[0]")])]),
        "out:arg": dict(outputs=[dict(output_type="FarmResultsEval", functions=[dict(function="calc_mean_farm_power", nonsense="$x")])]),
        "out:fail": dict(outputs=[dict(output_type="FarmResultsEval", functions=[dict(function="reduce_states", args=[dict(NOPE="mean")])])]),
    }
    for (k, c), e in itertools.product(bad.items(), ("single", "numpy", "threads")):
        with setting():
            d = mkdict(dict(BASE, p="-", e=e))
            if isinstance(c, str):
                d.pop(c)
            else:
                d.update(copy.deepcopy(c))
            idict = Dict(d, name="f")
            before = repr(idict)
            ctx.trans += 1
            ctx.evals += 1
            ctx.state(("fail", k, e))
            try:
                call(run_dict, idict)
                if not k.startswith("out:none"):
                    ctx.fail(f"fail:accepted:{k}", "a dict with an entry that does not exist was accepted", bad=k)
            except Exception as ex:
                pass
            if has_engine():
                ctx.fail("fail:engine", f"after the failure {k} the engine {type(get_engine()).__name__} is still set", bad=k, engine=e)
                reset_engine()
            if repr(idict) != before:
                ctx.fail("fail:changed", f"the given dict was changed: {idict}", bad=k)
            # and life goes on
            x = dict(BASE, p="-", e=e)
            r, _ = call(run_dict, Dict(mkdict(x), name="f"))
            cmp(ctx, "fail:next", r[0], api(x)[0], "farm results after a failure", dict(bad=k, engine=e))


def silence(ctx):
    for a, e, p, v in itertools.product(("dw", "it", "own"), ("single", "numpy", "threads"), ("-", "arr", "csv"), (0, 1, None)):
        x = dict(BASE, a=a, e=e, p=p)
        with setting():
            d = mkdict(x)
            if v is None:
                d["algorithm"]["verbosity"] = 0
            elif a == "dw":
                d["algorithm"]["verbosity"] = 2
                d["engine"]["verbosity"] = 2
            r, txt = call(run_dict, Dict(d, name="q"), verbosity=v)
            ctx.trans += 1
            ctx.evals += 1
            ctx.state(("quiet", a, e, p, v))
            if v == 0 and txt.strip():
                ctx.fail("quiet", f"verbosity 0, but: {txt[:200]!r}", world=x)
            if v != 0 and "Creating wind farm" not in txt:
                ctx.fail("talk", f"verbosity {v}: {txt[:200]!r}", world=x)


def stopping(ctx):
    """engines are stopped also if the run is interrupted"""
    class Stop(BaseException):
        pass
    for e in ("single", "numpy", "threads"):
        for where in ("calc_farm", "calc_points", "initialize"):
            for exc in (Stop, KeyboardInterrupt, ValueError):
                x = dict(BASE, e=e)
                with setting():
                    class D(FA.Downwind):
                        pass
                    def boom(self, *a, **k):
                        raise exc("stop")
                    setattr(D, where, boom)
                    d = mkdict(x)
                    d["algorithm"]["algo_type"] = "D"
                    ctx.trans += 1
                    ctx.evals += 1
                    ctx.state(("stop", e, where, exc.__name__))
                    FA.Downwind  # noqa
                    try:
                        call(run_dict, Dict(d, name="s"))
                        ctx.fail("stop:accepted", "no exception", where=where, engine=e)
                    except exc:
                        pass
                    if has_engine():
                        ctx.fail("stop:engine", f"{exc.__name__} in {where}: engine still set", where=where, engine=e)
                        reset_engine()
                    del D
                    import gc
                    gc.collect()


def folders(ctx):
    """work, input and output folders: relative and absolute, given or not"""
    x = dict(BASE, p="csv")
    refs = {}
    with setting() as d:
        for k, t in (("", None), ("w2", 0.5), ("w2/in", 1.0)):
            (d / k).mkdir(parents=True, exist_ok=True)
            if t:
                for f in ("st.csv", "tt.csv", "pts.csv"):
                    q = pd.read_csv(d / f)
                    q["ws" if f == "st.csv" else "pp" if f == "tt.csv" else "x"] += t
                    q.to_csv(d / k / f, index=False)
            for c in (FC.WORK_DIR, FC.INPUT_DIR, FC.OUTPUT_DIR):
                config[c] = d / k
            os.chdir(d / k)
            refs[k] = api(x)[:2]
    opts = [None, "rel", "abs", "path"]
    for wd, inp, out in itertools.product(opts, opts, opts):
        with setting() as d:
            root = d / "w2"
            for c in (FC.WORK_DIR, FC.INPUT_DIR, FC.OUTPUT_DIR):
                config[c] = None

            def mk(o, rel):
                if o is None:
                    return None
                p = (root / rel) if o == "abs" else Path("w2") / rel
                return p if o == "path" else str(p)
            kw = dict(work_dir=mk(wd, "."), input_dir=mk(inp, "in"), output_dir=mk(out, "out"))
            idict = Dict(dict(mkdict(x), outputs=[dict(output_type="ResultsWriter", functions=[dict(function="write_csv", file_name="r.csv", verbosity=0)]), dict(output_type="ResultsWriter", out_dir="sub", functions=[dict(function="write_csv", file_name="q.csv", verbosity=0)])]), name="f")
            for f in list(d.rglob("[rq].csv")):
                f.unlink()
            r, _ = call(run_dict, idict, **kw)
            ctx.trans += 1
            ctx.evals += 1
            ctx.state(("dirs", wd, inp, out))
            fr, pr = refs["w2/in" if inp else "w2" if wd else ""]
            cmp(ctx, "dirs:farm", r[0], fr, "farm results", dict(dirs=[wd, inp, out]))
            cmp(ctx, "dirs:points", r[1], pr, "point results", dict(dirs=[wd, inp, out]))
            exp = (root / "out") if out else (root if wd else d)
            got = [f.parent for f in d.rglob("r.csv")]
            if [f.parent for f in d.rglob("q.csv")] != [exp / "sub"]:
                ctx.fail("dirs:outdir", f"result file in {[str(f) for f in d.rglob('q.csv')]}, stated {exp.relative_to(d)}/sub", dirs=[wd, inp, out])
            if got != [exp]:
                ctx.fail("dirs:out", f"result file in {[str(g.relative_to(d)) for g in got]}, stated {exp.relative_to(d)}", dirs=[wd, inp, out])


CLI = dict(
    r=[None, "grid4"], p=[None, ["rotor_points"], ["centre"]], w=[None, ["Jensen_linear_k007"], ["Bastankhah2014_quadratic_k004", "CrespoHernandez_quadratic_ambka02"]],
    f=[None, "rotor_wd"], e=[None, "numpy", "threads"], n=[None, 2], c=[None, 3], C=[None, 2], it=[False, True], v=[None, 0, 1], o=[None, "o1"],
)


def clis():
    ks = list(CLI)
    out, seen = [], set()

    def add(**k):
        c = {q: CLI[q][0] for q in ks}
        c.update(e="single")
        c.update(k)
        t = repr(c)
        if t not in seen:
            seen.add(t)
            out.append(c)
    for a, b in itertools.combinations(ks, 2):
        for u, v in itertools.product(CLI[a], CLI[b]):
            add(**{a: u, b: v})
    return out


def cli(ctx, combos):
    for i, c in enumerate(combos):
        if c["e"] is None and (c["n"] or c["c"] or c["C"]):
            c = dict(c, n=c["n"] or 2)
        with setting() as d:
            for k in (FC.WORK_DIR, FC.INPUT_DIR, FC.OUTPUT_DIR):
                config[k] = None
            for f in d.rglob("cli*.csv"):
                f.unlink()
            x = dict(BASE, a="dw", e="numpy", p="-")
            dd = mkdict(x)
            dd["outputs"] = [dict(output_type="ResultsWriter", functions=[dict(function="write_csv", file_name="cli.csv", verbosity=0, variables=["P", "REWS", "CT", "TI", "AMB_REWS"], format_dict={k: "{:.8f}" for k in ("P", "REWS", "CT", "TI", "AMB_REWS")})])]
            (d / "cli.yaml").write_text(yaml.safe_dump(dd, sort_keys=False))
            argv = ["foxes_yaml", "cli.yaml" if i % 2 else str(d / "cli.yaml")]
            over = {}
            for k, n in zip("rf", ("rotor_model", "wake_frame")):
                if c[k] is not None:
                    argv += ["-" + k, c[k]]
                    over[n] = c[k]
            for k, n in zip("pw", ("partial_wakes", "wake_models")):
                if c[k] is not None:
                    argv += ["-" + k] + c[k]
                    over[n] = c[k]
            if c["p"] is not None and c["w"] is not None and len(c["p"]) != len(c["w"]):
                continue
            for k in ("e", "n", "c", "C", "o", "v"):
                if c[k] is not None:
                    argv += ["-" + k, str(c[k])]
            if c["it"]:
                argv.append("-it")
                over["algo_type"] = "Iterative"
            seen = []
            orig = Engine.__dict__["new"]

            def spy(cls, *a, **k):
                e = orig.__func__(cls, *a, **k)
                seen.append(e)
                return e
            old = sys.argv
            ctx.trans += 1
            ctx.evals += 1
            try:
                Engine.new = classmethod(spy)
                sys.argv = argv
                _, txt = call(foxes_yaml)
            except (Exception, SystemExit) as e:
                ctx.fail("cli:crash", f"{' '.join(argv[1:])}: {type(e).__name__}: {e}", cli=c)
                continue
            finally:
                Engine.new = orig
                sys.argv = old
                if has_engine():
                    ctx.fail("cli:engine", "engine left", cli=c)
                    reset_engine()
            fs = list(d.rglob("cli.csv"))
            if [f.parent for f in fs] != [d / "o1" if c["o"] else d]:
                ctx.fail("cli:dir", f"result files {fs}", cli=c)
                continue
            got = pd.read_csv(fs[0])
            for k in (FC.WORK_DIR, FC.INPUT_DIR, FC.OUTPUT_DIR):
                config[k] = d
            fr = api(dict(x, e="single"), **over)[0]
            ctx.state(("cli", W.digest(W.obs(fr)), c["o"]))
            for v in ("P", "REWS", "CT", "TI", "AMB_REWS"):
                if v not in got or not np.allclose(got[v].to_numpy(), fr[v].to_numpy().ravel(), rtol=1e-5, atol=1e-5):
                    ctx.fail("cli:" + v, f"{' '.join(argv[1:])}: {v} is {got.get(v).tolist()[:6]}, calculation gives {fr[v].to_numpy().ravel()[:6]}", cli=c)
                    break
            want = ENGINES["numpy"] if not (c["e"] or c["n"] or c["c"] or c["C"]) else dict(engine_type=c["e"] or "default", n_procs=c["n"], chunk_size_states=c["c"], chunk_size_points=c["C"])
            if not seen or (len(seen) > 1 and want["engine_type"] != "default"):
                ctx.fail("cli:engines", f"{len(seen)} engines created", cli=c)
            else:
                e = seen[0]
                cls = dict(single="SingleChunkEngine", numpy="NumpyEngine", threads="ThreadsEngine").get(want["engine_type"])
                if cls and type(e).__name__ != cls:
                    ctx.fail("cli:etype", f"{type(e).__name__} for {want}", cli=c)
                if cls != "SingleChunkEngine":
                    for k in ("n_procs", "chunk_size_states", "chunk_size_points"):
                        if want.get(k) is not None and cls != "NumpyEngine" and cls and getattr(e, k) != want[k]:
                            ctx.fail("cli:epars", f"{k} is {getattr(e, k)}, given {want[k]}", cli=c)
            if c["v"] == 0 and txt.strip():
                ctx.fail("cli:quiet", f"verbosity 0, but {txt[:200]!r}", cli=c)


def run(case, ctx):
    k = case["kind"]
    if k == "world":
        for x in worlds()[case["part"]::NP]:
            world(ctx, x)
    elif k == "full":
        for t, l, p in itertools.product(TMS, layouts([]), ("-", "arrd", "csv", "pm")):
            world(ctx, dict(BASE, s=case["s"], a=case["a"], t=t, l=l, p=p, e="numpy"))
    elif k == "over":
        for o in overrides()[case["part"]::8]:
            override(ctx, *o)
    elif k == "out":
        outputs(ctx, sequences()[case["part"]::16])
    elif k == "fail":
        failures(ctx)
    elif k == "stop":
        stopping(ctx)
    elif k == "quiet":
        silence(ctx)
    elif k == "dirs":
        folders(ctx)
    elif k == "cli":
        cli(ctx, clis()[case["part"]::8])
