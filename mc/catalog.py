"""Catalogue of small worlds: every kind of model the package ships, at least once."""
import copy

XY3 = [[0.0, 0.0], [460.0, 35.0], [930.0, -45.0]]
ST4 = dict(kind="table", ws=[8.0, 9.5, 10.5, 6.0], wd=[270.0, 93.0, 10.0, 181.0], ti=[0.06, 0.1, 0.08, 0.12],
           rho=[1.2, 1.225, 1.25, 1.18], w=[0.1, 0.2, 0.3, 0.4])
TS4 = dict(ST4, kind="timeseries", freq="10min")
TS4.pop("w")
TSD = dict(kind="timeseries", freq="1min", ws=[9.0, 8.0, 10.0, 7.5], wd=[270.0, 275.0, 262.0, 268.0],
           ti=[0.06, 0.1, 0.08, 0.12], rho=[1.2, 1.225, 1.25, 1.18])
BASE = dict(xy=XY3, states=ST4, wakes=["Bastankhah2014_linear_k004"], models=["TA", "kTI_02"])


def w(**kw):
    return copy.deepcopy(dict(BASE, **kw))


def worlds(groups=None):
    """name -> spec"""
    W = {}

    def put(group, name, **kw):
        if groups is None or group in groups:
            W[f"{group}:{name}"] = w(**kw)

    # wind wake models
    for m in ["Jensen_linear_k007", "Jensen_linear_lim_k007", "Jensen_linear_loc_k007", "Jensen_quadratic_k007",
              "Jensen_quadratic_loc_k007", "Jensen_cubic_k007", "Jensen_quartic_loc_k007", "Jensen_max_k007",
              "Jensen_max_loc_k007", "Jensen_product_k007", "Jensen_linear_amb_k007", "Jensen_quadratic_amb_k007",
              "Jensen_max_amb_k007", "Jensen_cubic_amb_k007", "Jensen_cubic_loc_k007", "Jensen_quartic_amb_k007"]:
        put("sup", m, wakes=[m])
    for m in ["Bastankhah2014_linear_ka02", "Bastankhah2014B_quadratic_k004", "Bastankhah025_max_k004",
              "Bastankhah2016_linear_k004", "Bastankhah2016B_linear_loc_ka02", "TurbOPark_linear_k004",
              "TurbOParkB_quadratic_k004"]:
        put("wake", m, wakes=[m])
    put("wake", "Jensen_kTI", wakes=["Jensen_linear"])
    put("wake", "TurbOParkIX", wakes=["TurbOParkIX_linear_k004_dx50", "IECTI2019_max"])
    put("ti", "Crespo", wakes=["Bastankhah2014_linear_ka02", "CrespoHernandez_quadratic_ka02"])
    put("ti", "CrespoMax", wakes=["Jensen_linear_k007", "CrespoHernandez_max_k004"])
    put("ti", "CrespoMix", wakes=["Jensen_linear_k007", "CrespoHernandez_max_k004"], models=[["TA", "kTI_02"], ["TB", "kTI_02"], ["TA", "kTI_02"]],
        D=[80.0, 160.0, 120.0], xy=[[0.0, 0.0], [260.0, 15.0], [620.0, -25.0]], states=dict(ST4, wd=[270.0, 93.0, 268.0, 88.0], ti=[0.06, 0.06, 0.08, 0.12]))
    put("ti", "IEC2019", wakes=["Jensen_linear_k007", "IECTI2019_max"])
    put("ti", "IEC2005", wakes=["Bastankhah2014_linear_ka04", "IECTI2005_quadratic"])
    put("ti", "IEClin", wakes=["Jensen_linear", "IECTI2019k_linear_k004"])
    # induction
    for m in ["RHB", "VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020"]:
        put("ind", m, wakes=[m, "Jensen_linear_k007"], algo="Iterative")
    # rotors / partial wakes / ground / frames
    for r in ["grid9", "grid16_raw", "level5", "level3_raw"]:
        put("rotor", r, rotor_model=r)
    for p, wk in [("rotor_points", "Bastankhah2014_linear_k004"), ("top_hat", "Jensen_linear_k007"),
                  ("axiwake6", "Bastankhah2014_linear_k004"), ("grid9", "Bastankhah2014_linear_k004"),
                  ("centre", "Bastankhah2014_linear_k004")]:
        put("pwake", p, partial_wakes=p, wakes=[wk], rotor_model="grid9")
    put("ground", "mirror", ground_models="ground_mirror")
    put("ground", "blh", ground_models="blh_mirror_h500")
    put("ground", "mirror16", ground_models="ground_mirror", wakes=["Bastankhah2016_linear_k004"])
    put("frame", "yawed", wake_frame="yawed_k004", wakes=["Bastankhah2016_linear_k004"], models=["TA", "yaw", "yawm2yaw"],
        tmodels={"yaw": dict(cls="SetFarmVars", vars={"YAWM": [[20.0, -15.0, 0.0]] * 4}, pre_rotor=True)})
    put("frame", "yawed_kTI", wake_frame="yawed", wakes=["Bastankhah2016_linear"], models=["TA", "kTI_02", "yaw", "yawm2yaw"],
        tmodels={"yaw": dict(cls="SetFarmVars", vars={"YAWM": [[20.0, -15.0, 0.0], [10.0, 5.0, 5.0], [0.0, 0.0, 0.0], [-20.0, 3.0, 3.0]]}, pre_rotor=True)})
    put("frame", "streamlines", wake_frame="streamlines_100")
    put("frame", "streamlines_field", wake_frame="streamlines_100", states=dict(kind="field", n=4, extra=50000.0, grid=dict(x0=-30000.0, y0=-30000.0, dx=30000.0, dy=30000.0)))
    put("frame", "streamlines_ix", wake_frame="streamlines_100", wakes=["TurbOParkIX_linear_k004_dx50", "IECTI2019_max"])
    put("frame", "streamlines_yawed", wake_frame={"cls": "YawedWakes", "base_frame": {"cls": "Streamlines2D", "step": 100.0}}, wakes=["Bastankhah2016_linear"], models=["TA", "kTI_02", "yaw", "yawm2yaw"],
        tmodels={"yaw": dict(cls="SetFarmVars", vars={"YAWM": [[20.0, -15.0, 0.0]] * 4}, pre_rotor=True)})
    put("frame", "yawed_ix", wake_frame="yawed_k004", wakes=["TurbOParkIX_linear_k004_dx50", "IECTI2019_max"], models=["TA", "yaw", "yawm2yaw"],
        tmodels={"yaw": dict(cls="SetFarmVars", vars={"YAWM": [[20.0, -15.0, 0.0]] * 4}, pre_rotor=True)})
    # turbine types, models
    put("turb", "mixed", models=[["TA", "kTI_02"], ["TB", "kTI_02"], ["TA", "kTI_04"]])
    put("turb", "rho", models=["TArho", "kTI_02"])
    put("turb", "null", models=[["TA", "kTI_02"], ["TN", "kTI_02"], ["TA", "kTI_02"]])
    put("turb", "HD", models=["TA"], H=[90.0, 120.0, 70.0], D=[100.0, 80.0, 120.0])
    put("turb", "pmask", models=["TA", "mp", "PMask"],
        tmodels={"mp": dict(cls="SetFarmVars", vars={"MAXP": [[1000.0, None, 500.0], [None, 700.0, None], [600.0, 600.0, 600.0], [None, None, None]]})})
    put("turb", "setvars", models=["TA", "sv"],
        tmodels={"sv": dict(cls="SetFarmVars", vars={"P": [[1.0, None, 3.0], [None, None, None], [7.0, 8.0, 9.0], [None, 11.0, None]]})})
    put("turb", "msel", models=[["TA", "sv"], ["TA", "sv"], ["TA"]], msel=[[None, [1, 0, 1, 0]], [None, [0, 0, 1, 1]], None],
        tmodels={"sv": dict(cls="SetFarmVars", vars={"P": [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 9.0], [10.0, 11.0, 12.0]]})})
    put("turb", "pmask_mixed", states=dict(ST4, ws=[14.0, 15.0, 16.0, 13.0]), models=[["TA", "kTI_02", "mp", "PMask"], ["TB", "kTI_02", "mp", "PMask"], ["TA", "kTI_02", "mp", "PMask"]],
        tmodels={"mp": dict(cls="SetFarmVars", vars={"MAXP": [[1000.0, 600.0, 5200.0], [None, 700.0, None], [600.0, 3500.0, 600.0], [4000.0, 4000.0, 4000.0]]})})
    put("turb", "sector", models=["TA", "kTI_02", "mp0", "sm", "PMask"],
        tmodels={"mp0": dict(cls="SetFarmVars", vars={"MAXP": [[None, None, None]] * 4}),
                 "sm": dict(cls="SectorManagement", range_vars=["WD", "REWS"], target_vars=["MAXP"], col_tnames="tname",
                            data_source={"__df__": {"tname": ["T0", "T2", "T0", "T1"], "WD_min": [260.0, 350.0, 0.0, 80.0], "WD_max": [280.0, 20.0, 30.0, 100.0],
                                                    "REWS_min": [0.0, 0.0, 0.0, 5.0], "REWS_max": [99.0, 99.0, 99.0, 12.0], "MAXP": [400.0, 500.0, 600.0, 700.0]}})})
    put("turb", "tfactors", models=["TA", "kTI_02", "tf"],
        tmodels={"tf": dict(cls="TableFactors", row_var="REWS", col_var="TI", output_vars=["P", "CT"],
                            data_source={"__table__": {"rows": [0.0, 6.0, 20.0], "cols": [0.0, 0.1, 1.0], "data": [[1.0, 0.9, 0.7], [0.95, 0.8, 0.6], [0.9, 0.7, 0.5]]}})})
    put("turb", "lookup", models=[["TA", "kTI_02", "lt"], ["TA", "kTI_02"], ["TA", "kTI_02", "lt"]],
        tmodels={"lt": dict(cls="LookupTable", input_vars=["REWS", "TI"], output_vars=["CT"],
                            data_source={"__df__": {"REWS": [0.0, 0.0, 20.0, 20.0], "TI": [0.0, 2.0, 0.0, 2.0], "CT": [0.9, 0.7, 0.3, 0.1]}})})
    put("turb", "thrust", models=["TA", "kTI_02", "st", "thrust2ct"],
        tmodels={"st": dict(cls="SetFarmVars", vars={"T": [[150000.0, 140000.0, 130000.0], [120000.0, 110000.0, 100000.0], [100000.0, 90000.0, 80000.0], [60000.0, 50000.0, 40000.0]]})})
    put("turb", "hubh", models=["TA", "kTI_02", "hubh_data"], H=[90.0, 120.0, 70.0])
    put("turb", "moving", moving=[[5.0, -3.0], [-40.0, 20.0], [60.0, 10.0]])
    # states
    put("st", "timeseries", states=TS4)
    put("st", "scan", states=dict(kind="scan", ws=[7.0, 10.0], wd=[270.0, 85.0]))
    put("st", "single", states=dict(kind="single", ws=[9.0], wd=[271.0]))
    put("st", "profiles", states=dict(ST4, profiles={"WS": {"type": "ShearedProfile"}}, fixed={"H": 100.0, "shear": 0.15}), rotor_model="grid9")
    put("st", "ablprof", states=dict(ST4, profiles={"WS": {"type": "ABLLogWsProfile"}}, fixed={"H": 100.0, "z0": 0.05, "MOL": -300.0}), rotor_model="level3")
    put("st", "multiheight", states=dict(kind="multiheight", n=4), rotor_model="grid9")
    put("st", "veer", states=dict(kind="multiheight", n=4, veer=0.4), rotor_model="level5")
    put("st", "multiheightnc", states=dict(kind="multiheightnc", n=4, weight=True), H=[60.0, 90.0, 120.0])
    put("st", "field", states=dict(kind="field", n=4))
    put("st", "field_fly", states=dict(kind="field", n=4, files=[1, 3], load_mode="fly"))
    put("st", "field_lazy", states=dict(kind="field", n=4, files=[2, 2], load_mode="lazy", weight=True))
    put("st", "field_mix", states=dict(kind="field", n=4, dims="mix", files=[3, 1]), rotor_model="level3")
    put("st", "wrg", states=dict(kind="wrg"))
    put("st", "tab", states=dict(kind="tab", zero=True))
    put("st", "opf", states=dict(TSD, kind="opf"))
    put("st", "opf_mh", states=dict(kind="opf", mh=True, n=4), H=[60.0, 90.0, 120.0])
    # algorithms
    put("it", "jensen", algo="Iterative", wakes=["Jensen_linear_k007"])
    put("it", "crespo", algo="Iterative", wakes=["Bastankhah2014_linear_ka02", "CrespoHernandez_quadratic_ka02"])
    put("it", "relax", algo="Iterative", wakes=["Jensen_quadratic_k007"], urelax={"pre_wake": {"CT": 0.4}, "last": {"REWS": 0.5, "CT": 0.5}}, algo_kw={"max_it": 4, "conv_crit": None})
    put("it", "farmo", algo="Iterative", wakes=["Jensen_quadratic_k007"], wake_frame="rotor_wd_farmo")
    put("it", "mixed", algo="Iterative", models=[["TA", "kTI_02"], ["TB", "kTI_02"], ["TA", "kTI_02"]])
    # dynamic wakes
    put("dyn", "timelines", algo="Iterative", wake_frame="timelines", states=TSD, xy=[[0.0, 0.0], [400.0, 10.0], [800.0, -20.0]])
    put("dyn", "timelines_mh", algo="Iterative", wake_frame="timelines", states=TSD, H=[80.0, 90.0, 80.0],
        xy=[[0.0, 0.0], [400.0, 10.0], [800.0, -20.0]])
    put("dyn", "dyn_wakes", algo="Iterative", wake_frame="dyn_wakes_5km", states=TSD, xy=[[0.0, 0.0], [400.0, 10.0], [800.0, -20.0]])
    put("dyn", "opf_timelines", algo="Iterative", wake_frame="timelines", states=dict(TSD, kind="opf"),
        xy=[[0.0, 0.0], [400.0, 10.0], [800.0, -20.0]])
    return W
