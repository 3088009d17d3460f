"""P18 overlapping wakes are combined by the stated superposition rule"""
import itertools
import numpy as np
from mc import refworld as RW

ID = "P18"
LEVEL = "model_checking"
ASSUMPTIONS = ["farms of 4 turbines (rows, staggered, two diameters), 4 wind directions, homogeneous background",
               "the reference simulation marches turbine by turbine and combines single wakes at each point"]
WS = ["linear", "linear_lim", "linear_amb", "linear_amb_lim", "linear_loc", "linear_loc_lim", "quadratic", "quadratic_lim", "quadratic_amb",
      "quadratic_amb_lim", "quadratic_loc", "quadratic_loc_lim", "cubic", "cubic_amb", "cubic_loc", "cubic_loc_lim", "quartic", "quartic_amb",
      "quartic_loc", "quartic_loc_lim", "max", "max_amb", "max_loc", "max_loc_lim", "product", "product_lim"]
TI = ["linear", "quadratic", "cubic", "quartic", "max"]
SING = [dict(m="Jensen", k=0.05, pw="centre"), dict(m="Bastankhah2014", k=0.03, pw="rotor_points"), dict(m="Bastankhah2014", k=0.03, pw="grid9"),
        dict(m="Jensen", k=0.05, pw="top_hat"), dict(m="TurbOPark", k=0.04, pw="axiwake6"), dict(m="Bastankhah2016", k=0.03, pw="grid4")]
FARMS = {"row": [[0.0, 0.0], [310.0, 8.0], [600.0, -12.0], [950.0, 20.0]], "stag": [[0.0, 60.0], [-20.0, -55.0], [450.0, 5.0], [900.0, 40.0]]}
IND = ["VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020"]
ISUP = ["linear", "linear_lim", "linear_amb", "linear_loc", "linear_amb_lim", "linear_loc_lim"]


def cases(tier):
    out = []
    for s in WS:
        for i in range(len(SING)):
            out.append(dict(s=s, i=i))
    for s in TI:
        for m in ("Crespo", "IEC2019", "IEC2005"):
            out.append(dict(ti=s, m=m))
    for m in IND:
        for s in ISUP:
            out.append(dict(ind=m, s=s))
    return out


def run(case, ctx):
    th = ctx.tier == "thorough"
    ws, wd, ti = [9.0, 10.5, 7.0, 12.0], [270.0, 90.0, 200.0, 268.0], [0.06, 0.1, 0.14, 0.08]
    if th:
        wd = wd + [10.0 * k for k in range(36)]
        ws = ws + [6.0 + 0.2 * k for k in range(36)]
        ti = ti + [0.04 + 0.004 * k for k in range(36)]
    st = dict(kind="table", ws=ws, wd=wd, ti=ti)
    pts = [(700.0, 30.0, 90.0), (1300.0, -20.0, 60.0), (470.0, 80.0, 140.0), (-300.0, 0.0, 90.0), (100.0, 0.0, 30.0)]
    types = [["TA"] * 4, ["TA", "TB", "TA", "TB"]]
    for (fn, xy), ty in itertools.product(FARMS.items(), types):
        if "ti" in case:
            w = dict(m=case["m"], sup="ti_" + case["ti"], pw="rotor_points")
            if case["m"] == "Crespo":
                w["k"] = 0.04
            wk = [dict(m="Jensen", k=0.05, sup="ws_linear", pw="rotor_points"), w]
        elif "ind" in case:
            wk = [dict(m=case["ind"], sup="ws_" + case["s"], pw="rotor_points")]
        else:
            wk = [dict(SING[case["i"]], sup="ws_" + case["s"])]
        for algo in ("Downwind",):
            if algo == "Iterative" and "ind" in case:
                continue
            c = dict(xy=xy, types=ty, states=st, wakes=wk, rotor="grid9" if wk[-1]["pw"] == "rotor_points" else "centre", algo=algo)
            tag = f"{'+'.join(RW.fname(w) + '/' + w['pw'] for w in wk)} {algo}"
            RW.compare(c, ctx, tag, pts, rtol=1e-7 if algo == "Downwind" else 1e-5)
