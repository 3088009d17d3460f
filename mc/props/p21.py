"""P21 ground mirrors add the wakes of image turbines, and nothing else"""
import itertools
from mc import refworld as RW
from mc import worlds as W

ID = "P21"
LEVEL = "model_checking"
ASSUMPTIONS = ["farms of 3-4 turbines with hub heights 60 to 150 m, 4 wind directions, homogeneous background",
               "mirrors at ground level and additionally at 200 or 500 m"]
GR = ["ground_mirror", "blh_mirror_h200", "blh_mirror_h500", "no_ground"]
XY = {"row": [[0.0, 0.0], [310.0, 8.0], [600.0, -12.0], [950.0, 20.0]], "stag": [[450.0, 5.0], [0.0, 60.0], [900.0, 40.0], [-20.0, -55.0]]}
HS = [[90.0, 70.0, 150.0, 60.0], [60.0] * 4]
WK = [(dict(m="Jensen", k=0.06), ("centre", "rotor_points", "top_hat", "grid9")), (dict(m="Bastankhah2014", k=0.04), ("axiwake6", "rotor_points", "centre", "grid4")),
      (dict(m="TurbOPark", k=0.04), ("axiwake6", "rotor_points")), (dict(m="Bastankhah2016", k=0.04), ("grid9", "centre", "rotor_points")),
      (dict(m="Rathmann"), ("grid9", "rotor_points")), (dict(m="VortexSheet"), ("centre", "grid4")),
      (dict(m="Crespo", k=0.05), ("top_hat", "rotor_points")), (dict(m="IEC2019"), ("top_hat", "grid9"))]
SUP = ["linear", "quadratic", "max_amb", "product", "quadratic_loc", "linear_lim"]


def cases(tier):
    return [dict(i=i, pw=p, g=g) for i, (_, ps) in enumerate(WK) for p in ps for g in GR] + [dict(mix=m, g=g) for m in range(3) for g in GR[:3]]


def run(case, ctx):
    th = ctx.tier == "thorough"
    wd = [270.0, 90.0, 200.0, 265.0] + ([9.0 * k for k in range(40)] if th else [])
    n = len(wd)
    st = dict(kind="table", ws=[7.0 + 0.5 * (k * 7 % 11) for k in range(n)], wd=wd, ti=[0.05 + 0.01 * (k * 3 % 8) for k in range(n)])
    pts = [(700.0, 30.0, 90.0), (1300.0, -20.0, 5.0), (470.0, 80.0, 140.0), (-300.0, 0.0, 90.0), (100.0, 0.0, 30.0), (2600.0, 10.0, 198.0)]
    g = case["g"]
    if "mix" in case:
        B, C = dict(m="Bastankhah2014", sup="ws_linear", k=0.04, pw="rotor_points"), dict(m="Crespo", sup="ti_quadratic", ka=0.3, kb=0.01, pw="rotor_points")
        mixes = [([B, C], "Downwind"), ([dict(B, pw="axiwake6"), dict(m="VortexSheet", sup="ws_linear", pw="grid9")], "Iterative"), ([dict(B, k=None, ka=0.3, kb=0.01), C], "Iterative")]
        wk, algo = mixes[case["mix"]]
        for xy, H in itertools.product(XY.values(), HS):
            c = dict(xy=xy, types=["TA", "TB", "TA", "TA"], states=st, wakes=wk, rotor="grid4", ground=g, H=H, algo=algo, algo_kw=dict(mod_cutin=dict(modify_ct=False)) if algo == "Iterative" else None)
            tag = f"{g}|{'+'.join(RW.fname(w) for w in wk)} {algo}"
            if case["mix"] == 1:
                RW.compare(c, ctx, tag, pts, rtol=2e-5, refresh=RW.residual)
            else:
                RW.compare(c, ctx, tag, pts, rtol=1e-7 if algo == "Downwind" else 2e-5)
        return
    m, _ = WK[case["i"]]
    ind, tiw = m["m"] in RW.R.INDUCTION, m["m"] in RW.R.TIW
    sups = ["linear"] if ind else (["linear", "quadratic", "max"] if tiw else SUP)
    for s, xy, H in itertools.product(sups, XY.values(), HS):
        w = dict(m, sup=("ti_" if tiw else "ws_") + s, pw=case["pw"])
        wk = ([dict(m="Jensen", sup="ws_linear", k=0.04, pw="centre")] if tiw else []) + [w]
        c = dict(xy=xy, types=["TA", "TB", "TA", "TA"], states=st, wakes=wk, rotor="grid4" if case["pw"] == "rotor_points" else "centre", ground=g, H=H)
        RW.compare(c, ctx, f"{g}|{RW.fname(w)}/{case['pw']}", pts)
